"""Classes of argument values that the checks never pass to the code.

  python3 tools/argcov.py OUT.json [CXX...]   (under check.sh's environment)

Runs checks with a profiler that classifies every argument of every function
of the repository (empty, one element, odd, ties, zeros, integers, float32,
not contiguous, read-only, None, zero, negative, ...)."""
import json
import os
import runpy
import sys
import threading

import numpy as np

REPO = os.environ.get("VF_REPO", "/repo")
OUT = sys.argv[1]
SEEN = {}


def classes(v):
  if v is None or v is True or v is False:
    yield str(v)
  elif isinstance(v, (int, np.integer)):
    yield "int"
    yield "0" if v == 0 else "1" if v == 1 else "neg" if v < 0 else "pos"
  elif isinstance(v, (float, np.floating)):
    yield "float" if isinstance(v, float) else str(v.dtype)
    yield ("nan" if v != v else "inf" if abs(v) == np.inf else "0" if v == 0
           else "neg" if v < 0 else "pos")
  elif isinstance(v, str):
    yield "'" + v[:12] + "'"
  elif isinstance(v, np.ndarray):
    yield f"array{v.ndim}d"
    yield str(v.dtype)
    yield "size0" if v.size == 0 else "size1" if v.size == 1 else (
        "odd" if v.size % 2 else "even")
    if not v.flags.c_contiguous:
      yield "strided"
    if v.strides and min(v.strides) < 0:
      yield "reversed"
    if v.strides and min(v.strides) == 0 and v.size > 1:
      yield "broadcast"
    if not v.flags.writeable:
      yield "readonly"
    if v.dtype.kind in "fiu" and 1 < v.size < 100000:
      f = v.ravel()
      if np.isnan(f).any():
        yield "nans"
      if (f == 0).any():
        yield "zeros"
      if (f < 0).any():
        yield "negatives"
      d = np.diff(f)
      if (d == 0).all():
        yield "constant"
      elif (d == 0).any():
        yield "adjacent-ties"
      if (d > 0).all():
        yield "ascending"
      elif (d < 0).all():
        yield "descending"
      else:
        yield "unsorted"
  elif isinstance(v, (list, tuple, dict, set)):
    yield type(v).__name__ + ("0" if not v else "1" if len(v) == 1 else "")
  elif callable(v):
    yield "callable"
  else:
    yield type(v).__name__


COUNT = {}


def prof(frame, event, arg):
  if event != "call":
    return
  c = frame.f_code
  if not c.co_filename.startswith(REPO + "/s"):
    return
  key = c.co_filename[len(REPO) + 1:] + ":" + c.co_qualname
  n = COUNT.get(key, 0)
  COUNT[key] = n + 1
  if n > 3000 and n % 50:
    return
  loc = frame.f_locals
  for k in c.co_varnames[:c.co_argcount + c.co_kwonlyargcount]:
    if k in ("self", "cls") or k not in loc:
      continue
    s = SEEN.setdefault((key, k), {})
    try:
      for z in classes(loc[k]):
        if len(s) < 60:
          s[z] = s.get(z, 0) + 1
    except Exception:  # pylint: disable=W0703
      pass


def dump():
  if SEEN:
    p = f"{OUT}.{os.getpid()}"
    json.dump([[*k, v] for k, v in SEEN.items()], open(p, "w"))


real = os._exit


def leave(n):
  sys.setprofile(None)
  dump()
  real(n)


os._exit = leave
sys.setprofile(prof)
threading.setprofile(prof)
sys.argv = ["vf", *sys.argv[2:]]
try:
  runpy.run_module("vf", run_name="__main__", alter_sys=True)
finally:
  sys.setprofile(None)
  dump()
