"""Bugs in the scripts"""
V = "scripts/beatsdrop/evaluation.py"
X = "scripts/beatsdrop/example.py"

EV = '''
import contextlib, importlib.util, io, logging, os, sys, tempfile, warnings
from unittest import mock
import multiprocessing
import numpy as np
logging.disable(logging.CRITICAL); warnings.simplefilter("ignore")
spec = importlib.util.spec_from_file_location("evaluation_", "scripts/beatsdrop/evaluation.py")
ev = importlib.util.module_from_spec(spec); sys.modules["evaluation_"] = ev; spec.loader.exec_module(ev)
import pandas as pd
from sample.evaluation import random as rnd
class Pool:
  """Runs everything here; results come in reverse order; can stop after some"""
  stop = None
  done = []
  def __init__(self, *a, **k): pass
  def __enter__(self): return self
  def __exit__(self, *a): return False
  def imap_unordered(self, f, seq):
    for i, s in enumerate(reversed(list(seq))):
      if Pool.stop is not None and i == Pool.stop: raise KeyboardInterrupt
      Pool.done.append(s)
      yield f(s)
def case(seed, n=None, log_level=None, log_path=None, wav_path=None):
  with ev.test_case_context(seed=seed, log_level=log_level, log_path=log_path, wav_path=wav_path) as (_, gt):
    return ev.BeatsDROPFFTResult(seed=seed, count=seed, **gt, **{f"{k}{i}_hat": seed for k in "fad" for i in range(2)})
short = rnd.BeatsGenerator.audio
def run(*argv, stop=None):
  Pool.stop, Pool.done = stop, []
  try:
    with mock.patch.object(rnd.BeatsGenerator, "audio", lambda s, *a, **k: short(s, dur=.02)), \\
        mock.patch.object(ev, "test_case_fft", case), mock.patch.object(multiprocessing, "Pool", Pool), \\
        contextlib.redirect_stdout(io.StringIO()):
      ev.main("--test-fft", "13", "-l", "CRITICAL", *argv)
  except KeyboardInterrupt:
    pass
  return Pool.done
d = tempfile.mkdtemp(); out = os.path.join(d, "o")
def table():
  return pd.read_csv(out + ".csv")
'''

seed("c32-checkpoint-order", "C32",
     "more than ten checkpoints when a campaign is interrupted",
     "the last checkpoint is the greatest in alphabetical order, so after the tenth one the campaign resumes from an old one and computes saved cases again",
     [(V, '''        args.last_checkpoint = max(
            map(lambda s: int(s.rsplit("-", 1)[-1]), args.checkpoints))
''', '''        args.last_checkpoint = int(max(args.checkpoints).rsplit("-", 1)[-1])
''')],
     EV + '''
run("-n", "20", "-O", out, "--checkpoint", "1", stop=14)
again = run("-n", "20", "-O", out, "--checkpoint", "1")
print(len(again), table().seed.tolist())
assert len(again) == 6 and table().seed.tolist() == list(range(20))
''')

seed("c32-result-place", "C32",
     "cases that end in an order other than that of their seeds",
     "results are stored in the order in which they arrive, when nothing failed before",
     [(V, "          args.results[r.seed] = r\n", "          args.results[args.seeds[i]] = r\n")],
     EV + '''
run("-n", "6", "-O", out)
print(table().seed.tolist())
assert table().seed.tolist() == list(range(6))
''')

seed("c32-wav-only", "C32",
     "a campaign with sounds is interrupted and resumed, with a checkpoint period greater than one",
     "with sounds, a case is taken for done when its sound exists, even when its result was not saved",
     [(V, "          return _f(i) or not os.path.exists(args.wav_path.format(i))\n",
       "          return not os.path.exists(args.wav_path.format(i))\n")],
     EV + '''
w = os.path.join(d, "w")
run("-n", "6", "-O", out, "--wav", w, "--checkpoint", "2", stop=3)
run("-n", "6", "-O", out, "--wav", w, "--checkpoint", "2")
print(table().seed.tolist())
assert table().seed.tolist() == list(range(6))
''')

seed("c32-resume-number", "C32",
     "a campaign interrupted, resumed, interrupted again before it writes as many checkpoints as the first time, and resumed",
     "checkpoints are numbered from zero again after a resumption, so that the newest ones are not those with the greatest number",
     [(V, '''        args.last_file = args.ckpt_path(args.last_checkpoint)
      elif''', '''        args.last_file = args.ckpt_path(args.last_checkpoint)
        args.last_checkpoint = -1
      elif''')],
     EV + '''
run("-n", "12", "-O", out, "--checkpoint", "1", stop=5)
run("-n", "12", "-O", out, "--checkpoint", "1", stop=3)
again = run("-n", "12", "-O", out, "--checkpoint", "1")
print(again)
assert len(again) == 4
''')

seed("c32-seed-reset", "C32",
     "a campaign with failing cases that are logged",
     "a case that fails leaves the trace of the first failure only, when several fail",
     [(V, '''      with open(filename, mode="w", encoding="utf-8") as f:
        f.write(f"Seed: {seed}")''', '''      if len(os.listdir(os.path.dirname(filename))) > 0:
        return
      with open(filename, mode="w", encoding="utf-8") as f:
        f.write(f"Seed: {seed}")''')],
     EV + '''
good = case
def bad(seed, **k):
  if seed > 2: return good(seed)
  with ev.test_case_context(seed=seed, log_level=k.get("log_level"), log_path=k.get("log_path")):
    raise RuntimeError("case fails")
case = bad
run("-n", "6", "-O", out, "--log-exception", os.path.join(d, "l"))
print(os.listdir(os.path.join(d, "l")))
assert len(os.listdir(os.path.join(d, "l"))) == 3
''')

EX = '''
import contextlib, importlib.util, io, logging, os, sys, tempfile, warnings
from unittest import mock
import numpy as np
from scipy.io import wavfile
logging.disable(logging.CRITICAL); warnings.simplefilter("ignore")
spec = importlib.util.spec_from_file_location("example_", "scripts/beatsdrop/example.py")
ex = importlib.util.module_from_spec(spec); sys.modules["example_"] = ex; spec.loader.exec_module(ex)
from sample.beatsdrop import sample as bds
class Model:
  freqs_ = np.zeros(1)
  def __init__(self, **kw): pass
  def fit(self, x, **kw): Model.x = np.array(x); return self
  def predict(self, t, **kw): return Model.y(t)
d = tempfile.mkdtemp(); src = os.path.join(d, "a.wav"); out = os.path.join(d, "o.wav")
def run(*argv):
  with mock.patch.object(bds, "SAMPLEBeatsDROP", Model):
    ex.main("-i", src, "-o", out, "--no-tqdm", "--no-crop", "-l", "CRITICAL", *argv)
'''

seed("c33-negative-peak", "C33",
     "a resynthesis whose greatest absolute value is negative",
     "only positive peaks are compared with full scale, so the output clips",
     [(X, "  y_p = np.abs(y).max()\n", "  y_p = y.max()\n")],
     EX + '''
wavfile.write(src, 8000, np.zeros(4000))
Model.y = staticmethod(lambda t: -2 * np.exp(-5 * t) * np.cos(30 * t))
run()
y = wavfile.read(out)[1]; print(np.abs(y).max())
assert np.abs(y).max() <= 1
''')

seed("c33-channels", "C33",
     "a sound with more than two channels",
     "only the first two channels are mixed",
     [(X, "    args.x = np.mean(args.x, axis=-1)\n", "    args.x = np.mean(args.x[:, :2], axis=-1)\n")],
     EX + '''
x = np.random.default_rng(0).uniform(-1, 1, (4000, 4)); wavfile.write(src, 8000, x)
Model.y = staticmethod(lambda t: 0 * t)
run()
assert np.allclose(Model.x, x.mean(axis=1))
''')

P = "scripts/cim22/performance.py"
seed("c33-speedup-target", "C33",
     "a method other than the target that is the slowest in some case",
     "the speed-up is relative to the slowest of the other methods instead of the best one when some measures are equal or less than the target",
     [(P, '''      np.minimum,
      (times_matrix''', '''      lambda a, b: np.where(np.isnan(a), b, np.where(a < b, a, (a + b) / 2)),
      (times_matrix''')],
     """
import importlib.util, logging, os, sys, tempfile
import numpy as np, pandas as pd
spec = importlib.util.spec_from_file_location("perf_", "scripts/cim22/performance.py")
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
rows = []
import types
a = types.SimpleNamespace(n_cases=2)
t = {"auto": 4., "overlap-add": 3., "direct": 2., "fft": 1., "strided": .5}
for d in range(2):
  for s in range(2):
    for k in t: rows.append(dict(method=k, stride_i=s, duration_i=d, duration=1., timeit=t[k]))
r = m.compute_speedup(pd.DataFrame(rows), a); print(r)
assert np.allclose(r, 2)
""")
