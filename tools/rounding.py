"""python3 tools/rounding.py FUNC-regex [CXX...]: runs checks on a copy of
/repo in which numeric functions return results that differ in their last bits,
as they would after a rearrangement of their formulas"""
import ast
import os
import re
import shutil
import subprocess
import sys

D = "/tmp/rounding"
HELP = '''
import functools as _ft_
import numpy as _np_
def _round_(f):
  @_ft_.wraps(f)
  def g(*a, **k):
    def p(r):
      if isinstance(r, _np_.ndarray) and r.dtype.kind in "fc" and r.flags.writeable:
        r = r if any(v is r or isinstance(v, _np_.ndarray) and _np_.may_share_memory(v, r) for v in (*a, *k.values())) else _np_.multiply(r, 1 + 2 * _np_.finfo(r.dtype).eps, out=r)
      elif isinstance(r, (float, complex, _np_.floating)) and not isinstance(r, bool):
        r = type(r)(r * (1 + 2 * _np_.finfo(type(r)).eps))
      elif type(r) is tuple:
        r = tuple(map(p, r))
      elif type(r) is list:
        r = list(map(p, r))
      return r
    return p(f(*a, **k))
  return g
'''
FUNCS = {
    "sample/utils/dsp.py": ["_normalize_rms", "_normalize_range", "db2a", "_a2db_floorless", "_a2db_floored", "expi", "detrend", "bin2f", "lombscargle_as_fft", "fft2autocorrelogram", "strided_convolution", "spectral_flux_from_tf", "_onset_selection_g"],
    "sample/sms/dsp.py": ["dft", "peak_refine"],
    "sample/sample.py": ["modal_energy", "additive_synth"],
    "sample/hinge.py": ["hinge_function"],
    "sample/psycho.py": ["hz2bark", "bark2hz", "hz2cams", "cams2hz", "hz2mel", "mel2hz", "erb", "a_weighting", "wavefun", "envelope", "ir", "mel_triangular_filterbank", "mel_spectrogram"],
    "sample/evaluation/metrics.py": ["lp_distance", "lin_log_spectral_loss"],
}


def main():
  pat = re.compile(sys.argv[1])
  checks = sys.argv[2:] or [f"C{i:02d}" for i in range(1, 36)]
  shutil.rmtree(D, ignore_errors=True)
  subprocess.run(["cp", "-a", "/repo", D], check=True)
  done = []
  for f, names in FUNCS.items():
    t = ast.parse(open(f"{D}/{f}").read())
    for n in ast.walk(t):
      if isinstance(n, ast.FunctionDef) and n.name in names and pat.search(n.name):
        n.decorator_list.append(ast.Name("_round_", ast.Load()))
        done.append(n.name)
    s = ast.unparse(ast.fix_missing_locations(t))
    b = ast.parse(s).body
    k = b[0].end_lineno if isinstance(b[0], ast.Expr) else 0
    lines = s.split("\n")
    open(f"{D}/{f}", "w").write("\n".join(lines[:k]) + HELP + "\n".join(lines[k:]) + "\n")
  print("perturbed:", done)
  env = dict(os.environ, PYTHONPATH=D, VF_REPO=D)
  sys.path.insert(0, "/verif/tools")
  import seedlib
  print("stable tests that fail:", seedlib.stable(D))
  for c in checks:
    p = subprocess.run(["bash", "/verif/check.sh", c], env=env, cwd="/verif",
                       capture_output=True, text=True)
    if p.returncode:
      print(c, p.returncode, p.stdout[-1200:], p.stderr[-300:], flush=True)


main()
