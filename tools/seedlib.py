"""Writes /verif/seeded/<id>/ from tools/seeds/*.py and confirms them.

  python3 tools/seedlib.py make [ID...]     patch.diff, demo.sh, demo.py, meta.json
  python3 tools/seedlib.py confirm [ID...]  applies, demo on both, stable tests
  python3 tools/seedlib.py catch [ID...]    runs the property's quick check

Everything happens in a scratch copy of /repo."""
import glob
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDS = {}
DEMO_SH = """#!/bin/bash
# cwd /repo: exit 0 when the property holds in this scenario
d=$(dirname "$(realpath "$0")")
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
export HOME="$t" TMPDIR="$t" XDG_CONFIG_HOME="$t/.config" MPLCONFIGDIR="$t/mpl" PYTHONPATH="$PWD"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg SDL_VIDEODRIVER=dummy SDL_AUDIODRIVER=dummy PYGAME_HIDE_SUPPORT_PROMPT=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
timeout 250 /opt/venv/bin/python "$d/demo.py"
"""


def seed(id, prop, needs, breaks, edits, demo):
  assert id not in SEEDS, id
  SEEDS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)


def load():
  sys.modules["seedlib"] = sys.modules[__name__]
  for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
    exec(compile(open(f).read(), f, "exec"), {"seed": seed})


def run(cmd, cwd=None, env=None, timeout=900):
  p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, timeout=timeout,
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
  return p.returncode, p.stdout


def copy(name):
  d = f"/tmp/seed.{name}"
  shutil.rmtree(d, ignore_errors=True)
  assert run(f"cp -a /repo {d} && git -C {d} checkout -q -- .")[0] == 0
  return d


def make(ids):
  d = copy("make")
  for i in ids:
    s = SEEDS[i]
    run("git checkout -q -- .", d)
    for path, old, new in s["edits"]:
      p = os.path.join(d, path)
      src = open(p).read()
      assert src.count(old) == 1, (i, path, src.count(old), old)
      open(p, "w").write(src.replace(old, new))
    rc, diff = run("git diff", d)
    o = os.path.join(VERIF, "seeded", i)
    os.makedirs(o, exist_ok=True)
    open(os.path.join(o, "patch.diff"), "w").write(diff)
    open(os.path.join(o, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(o, "demo.sh"), 0o755)
    open(os.path.join(o, "demo.py"), "w").write(s["demo"].lstrip("\n"))
    if "import headless" in s["demo"]:
      shutil.copy(os.path.join(VERIF, "vf", "headless.py"), o)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(o, "meta.json"), "w"), indent=1)
  shutil.rmtree(d)


ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           SDL_VIDEODRIVER="dummy", SDL_AUDIODRIVER="dummy", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", GIT_ALLOW_PROTOCOL="file",
           GIT_TERMINAL_PROMPT="0", PYGAME_HIDE_SUPPORT_PROMPT="1")


def stable(d, n=8):
  x = os.path.join(d, "junit.xml")
  run(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -n {n} "
      f"--continue-on-collection-errors --tb=short -o junit_family=xunit2 --junitxml={x} tests",
      d, ENV)
  run(f"/usr/bin/python3 /opt/vp/results.py {d}/out.json junit:{x}", d)
  want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
  return sorted(want - set(json.load(open(f"{d}/out.json"))["passed"]))


def not_original(d, i):
  """Lines removed by the patch that fixes of this work have added"""
  bad = []
  for path, old, new in SEEDS[i]["edits"]:
    src = open(os.path.join(d, path)).read()
    first = src[:src.index(old)].count("\n") + 1
    blame = run(f"git blame -s -L {first},+{max(1, old.count(chr(10)))} {path}", d)[1].splitlines()
    keep = set(new.splitlines())
    bad += [b for b, o in zip(blame, old.splitlines()) if not b.startswith("^") and o not in keep]
  return bad


def confirm1(i):
  d = copy(i)
  own = not_original(d, i)
  o = os.path.join(VERIF, "seeded", i)
  r0, out0 = run(f"bash {o}/demo.sh", d)
  ra, outa = run(f"git apply {o}/patch.diff", d)
  r1, out1 = run(f"bash {o}/demo.sh", d)
  bad = stable(d, 3)
  ok = not own and r0 == 0 and ra == 0 and r1 not in (0, 124) and not bad
  msg = f"{i}: {'ok' if ok else 'BAD'} clean={r0} apply={ra} patched={r1} broken_tests={bad}"
  if own: msg += "\n  not original: " + " | ".join(own)
  if r0: msg += "\n  clean demo: " + out0[-800:]
  if ra: msg += "\n  apply: " + outa[-400:]
  msg += "\n    " + "\n    ".join(out1.strip().splitlines()[-1:])
  shutil.rmtree(d)
  print(msg, flush=True)
  return ok


def catch1(i, seedn=1, props=None):
  d = copy(i + ".c")
  o = os.path.join(VERIF, "seeded", i)
  run(f"git apply {o}/patch.diff", d)
  for p in props or [SEEDS[i]["prop"]]:
    rc, out = run(f"VF_REPO={d} bash {VERIF}/check.sh {p} --seed {seedn}", VERIF, dict(os.environ, VF_EVIDENCE=d))
    lines = [l for l in out.splitlines() if l.startswith(("VIOLATION", "HARNESS", "INCONCL"))]
    hit = any(l.startswith(f"VIOLATION property={p}") for l in lines) and rc == 1
    det = [l for l in out.splitlines() if l.strip()]
    cj = os.path.join(HERE, "caught.json")
    c = json.load(open(cj)) if os.path.exists(cj) else {}
    c[i] = p if hit else "not caught"
    json.dump(dict(sorted(c.items())), open(cj, "w"), indent=0)
    print(f"{i}: {p} {'CAUGHT' if hit else 'MISSED'} rc={rc} " + (" | ".join(det)[:260]), flush=True)
  shutil.rmtree(d)


if __name__ == "__main__":
  load()
  cmd, ids = sys.argv[1], sys.argv[2:]
  sd = 1
  if ids and ids[0].startswith("--seed="):
    sd = int(ids.pop(0)[7:])
  if not ids:
    ids = sorted(SEEDS)
  else:
    ids = [j for j in sorted(SEEDS) if any(re.fullmatch(k, j) for k in ids)]
  if cmd == "make":
    make(ids)
  elif cmd == "confirm":
    with ThreadPoolExecutor(3) as ex:
      r = list(ex.map(confirm1, ids))
    print("all ok" if all(r) else "SOME BAD")
  elif cmd == "catch":
    for i in ids:
      catch1(i, sd)
