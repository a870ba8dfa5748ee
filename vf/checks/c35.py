"""C35: calls are independent: no hidden state, side effects or races"""
import gc
import locale
import logging
import os
import pickle
import random
import signal
import sys
import tempfile
import threading
import warnings

import matplotlib
import numpy as np
from matplotlib import pyplot as plt

from vf import ops
from vf.core import Check

CHECK = Check(
    "C35",
    rule="every operation of the package (about ninety, from scales and "
    "filterbanks to fits and plots) repeated in random interleavings with "
    "others, on other data of the same shape, on the same buffer with other "
    "content, after its previous results were overwritten, under other "
    "process-wide settings, and in several threads at once with frequent "
    "switches, and after calls in which some function of the package fails or "
    "is interrupted at a random point: every result must be that of the first call in a fresh process, "
    "and the process-wide state, files, processes and sockets (audit hook) "
    "must be as before. Non-trivial: every repeated call.",
    require={"calls": 2209, "operations": 328, "same-memory": 775,
             "thread-runs": 43, "failed-calls": 300, "thread-switches": 100},
)


def call(f, args):
  try:
    return f(*args)
  except Exception as e:  # pylint: disable=W0703
    return ["raised", type(e).__name__]


# --- What a call may not do
AUDIT = {"on": False, "seen": []}
_WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _hook(event, args):
  if not AUDIT["on"]:
    return
  if event == "open":
    if isinstance(args[2], int) and args[2] & _WRITES and \
        not str(args[0]).startswith("/dev/"):
      AUDIT["seen"].append((event, str(args[0])))
  elif event in ("os.mkdir", "os.remove", "os.rename", "os.rmdir", "os.chdir",
                 "os.putenv", "os.unsetenv", "os.truncate", "os.chmod",
                 "os.fork", "os.system", "subprocess.Popen", "os.posix_spawn",
                 "shutil.rmtree", "socket.connect", "socket.bind",
                 "socket.__new__", "tempfile.mkstemp", "tempfile.mkdtemp",
                 "signal.pthread_kill", "os.kill"):
    AUDIT["seen"].append((event, str(args)[:80]))


HOOKED = []


def audit():
  if not HOOKED:
    HOOKED.append(1)
    sys.addaudithook(_hook)


def ambient():
  """Process-wide state"""
  return {
      "numpy-random": str(np.random.get_state()),
      "random": hash(random.getstate()),
      "numpy-errors": str(np.geterr()),
      "numpy-print": str(sorted((k, str(v)) for k, v in
                                np.get_printoptions().items())),
      "warning-filters": str(warnings.filters),
      "show-warning": warnings.showwarning,
      "plot-settings": str(sorted((k, str(v)) for k, v in
                                  matplotlib.rcParams.items())),
      "figures": plt.get_fignums(),
      "directory": os.getcwd(),
      "environment": dict(os.environ),
      "locale": locale.setlocale(locale.LC_ALL),
      "logging": (logging.getLogger().level, len(logging.getLogger().handlers),
                  logging.root.manager.disable),
      "signals": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM)],
      "threads": threading.active_count(),
      "path": list(sys.path),
      "recursion": sys.getrecursionlimit(),
      "switch": sys.getswitchinterval(),
      "hook": (sys.excepthook, threading.excepthook),
      "collector": (gc.isenabled(), gc.get_threshold()),
      "streams": (sys.stdout, sys.stderr, sys.stdin),
  }


def shake(rng, tmp):
  """Change process-wide settings that no result may depend on"""
  np.random.seed(int(rng.integers(1 << 30)))
  random.seed(int(rng.integers(1 << 30)))
  np.seterr(**{k: str(rng.choice(["ignore", "warn"])) for k in
               ("divide", "over", "under", "invalid")})
  np.set_printoptions(precision=int(rng.integers(1, 9)), threshold=5)
  warnings.resetwarnings()
  warnings.simplefilter("ignore")
  matplotlib.rcParams["lines.linewidth"] = float(rng.uniform(.5, 3))
  matplotlib.rcParams["image.cmap"] = str(rng.choice(["gray", "magma"]))
  os.chdir(tmp)
  os.environ["VF_SHAKE"] = str(rng.integers(1000))
  logging.getLogger().setLevel(int(rng.choice([10, 30])))


def perturbed(rng, args):
  """Other data of the same shapes and types, as valid as the first"""
  out = []
  for v in args:
    if v.size and v.dtype.kind in "fc":
      g = np.ravel(v)
      d = np.diff(g.real)
      # Axes stay ordered
      v = v * rng.uniform(.9, 1.1) if v.ndim == 1 and np.all(d >= 0) or \
          np.all(d[:d.size // 2] >= 0) else v * rng.uniform(.9, 1.1, v.shape)
    out.append(np.array(v))
  return out


def pick(rng, k):
  names = sorted(ops.OPS)
  light = [n for n in names if n not in ops.HEAVY]
  hv = [n for n in names if n in ops.HEAVY]
  out = [str(n) for n in rng.choice(light, k, replace=False)]
  out += [str(n) for n in rng.choice(hv, 2, replace=False)]
  return out


def fresh(jobs):
  """Results of calls, each computed in its own process"""
  out = []
  for f, args in jobs:
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
      try:
        os.close(r)
        with os.fdopen(w, "wb") as fp:
          with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v = ops.flat(call(f, [a.copy() for a in args]))
          pickle.dump(v, fp)
      finally:
        os._exit(0)  # pylint: disable=W0212
    os.close(w)
    with os.fdopen(r, "rb") as fp:
      out.append(pickle.load(fp))
    os.waitpid(pid, 0)
  return out


def overwrite(r):
  """The caller does what it wants with its results"""
  for _, v in [((), r)] if isinstance(r, np.ndarray) else enumerate(
      r.values() if isinstance(r, dict) else r
      if isinstance(r, (list, tuple)) else ()):
    if isinstance(v, np.ndarray):
      if v.flags.writeable and v.dtype.kind in "fc":
        v[...] = 7
    elif isinstance(v, (list, tuple, dict)):
      overwrite(v)


def tol(name):
  return 1e-6 if name in ops.HEAVY or "regression" in name else 1e-11


@CHECK.kind("history", quick=24, thorough=500)
def history(rng, mon, spec):
  """Random interleavings of calls, compared with calls of fresh processes"""
  jobs = []
  for name in pick(rng, 14):
    sub = np.random.default_rng(int(rng.integers(1 << 31)))
    f, args = ops.OPS[name](sub)
    # Same operation on other data, and another set-up on the same data
    f2, args2 = ops.OPS[name](sub)
    jobs += [(name, f, args), (name, f, perturbed(rng, args)),
             (name, f2, args2), (name, f2, args)]
  refs = fresh([(f, a) for _, f, a in jobs])
  mon.event("operations", len({n for n, _, _ in jobs}))
  buffers = {}
  audit()
  with tempfile.TemporaryDirectory() as tmp:
    order = rng.permutation(np.repeat(np.arange(len(jobs)), 2))
    cwd, env = os.getcwd(), dict(os.environ)
    rc, err = dict(matplotlib.rcParams), np.geterr()
    filters, prt = warnings.filters[:], np.get_printoptions()
    level = logging.getLogger().level
    try:
      for step, j in enumerate(order):
        name, f, args = jobs[j]
        det = {"operation": name, "step": step,
               "before": [jobs[i][0] for i in order[max(0, step - 3):step]]}
        if step % 7 == 3:
          with warnings.catch_warnings():
            shake(rng, tmp)
        how = int(rng.integers(3))
        if how == 0:
          given = [a.copy() for a in args]
        else:
          # The same memory as the previous call of this operation
          key = (name, tuple((a.shape, a.dtype.str) for a in args))
          if key not in buffers:
            buffers[key] = [np.empty_like(a) for a in args]
          given = buffers[key]
          for b, a in zip(given, args):
            b[...] = a
          mon.event("same-memory")
        before = ambient()
        del AUDIT["seen"][:]
        AUDIT["on"] = True
        try:
          r = call(f, given)
        finally:
          AUDIT["on"] = False
        after = ambient()
        mon.case((name, how))
        mon.event("calls")
        if isinstance(r, list) and str(r[:1]) == "['raised']":
          mon.event("raised")
        d = ops.differ(refs[j], ops.flat(r), tol(name), 1e-300)
        mon.check("same-as-alone", d is None, lambda: {**det, "at": d})
        for k, v in before.items():
          mon.check("process-state-untouched", after[k] == v, lambda: {**det, "state": k, "before": str(v)[:200],
                             "after": str(after[k])[:200]})
        mon.check("no-outside-effects", not AUDIT["seen"],
                  lambda: {**det, "seen": AUDIT["seen"][:5]})
        for b, a in zip(given, args):
          mon.check("data-untouched", np.array_equal(b, a), det)
        if rng.random() < .5:
          overwrite(r)
    finally:
      os.chdir(cwd)
      os.environ.clear()
      os.environ.update(env)
      with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        matplotlib.rcParams.update(rc)
      np.seterr(**err)
      np.set_printoptions(**prt)
      warnings.filters[:] = filters
      logging.getLogger().setLevel(level)


@CHECK.kind("threads", quick=24, thorough=500)
def threads(rng, mon, spec):
  """The same calls in several threads at once"""
  names = [n for n in pick(rng, 10) if not n.startswith("plot")]
  jobs = []
  for name in names:
    for _ in range(2):
      f, args = ops.OPS[name](rng)
      jobs.append((name, f, args))
  refs = fresh([(f, a) for _, f, a in jobs])
  mon.event("operations", len(names))
  k = int(rng.integers(3, 6))
  orders = [rng.permutation(len(jobs)) for _ in range(k)]
  if rng.random() < .5:
    # All threads do the same, in the same order
    orders = [orders[0]] * k
  results = [[] for _ in range(k)]
  start = threading.Barrier(k)
  done = []

  def work(i):
    start.wait()
    for j in orders[i]:
      name, f, args = jobs[j]
      r = call(f, [a.copy() for a in args])
      done.append((i, int(j)))
      results[i].append((j, r))

  s = sys.getswitchinterval()
  sys.setswitchinterval(10.**-rng.integers(3, 7))
  try:
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      with np.errstate(all="ignore"):
        ts = [threading.Thread(target=work, args=(i,)) for i in range(k)]
        for t in ts:
          t.start()
        for t in ts:
          t.join()
  finally:
    sys.setswitchinterval(s)
  mon.event("thread-runs", k)
  mon.event("thread-switches", sum(a[0] != b[0] for a, b in
                                   zip(done, done[1:])))
  mon.case(tuple(i for i, _ in done))
  for i, rs in enumerate(results):
    mon.check("thread-finished", len(rs) == len(jobs), {"thread": i})
    for j, r in rs:
      mon.event("calls")
      d = ops.differ(refs[j], ops.flat(r), tol(jobs[j][0]), 1e-300)
      mon.check("same-in-threads", d is None,
                lambda: {"operation": jobs[j][0], "at": d, "threads": k})


class Injected(Exception):
  """Failure of a function of the package"""


class Stop(BaseException):
  """Interruption by the user"""


class Injector:
  """Makes the k-th function call in the package fail as soon as entered"""

  def __init__(self, root, at=None, exc=Injected):
    self.root = root
    self.at = at
    self.exc = exc
    self.n = 0
    self.where = None

  def __call__(self, frame, event, arg):
    c = frame.f_code
    if event == "call" and not c.co_flags & 0x2a0 and c.co_name[0] != "<" and \
        c.co_name != "__del__" and c.co_filename.startswith(self.root):
      self.n += 1
      if self.n == self.at:
        self.where = f"{c.co_filename[len(self.root):]}:{c.co_name}"
        sys.settrace(None)
        raise self.exc("injected")

  def run(self, f, args):
    sys.settrace(self)
    try:
      return f(*args)
    finally:
      sys.settrace(None)


@CHECK.kind("failures", quick=32, thorough=600)
def failures(rng, mon, spec):
  """Calls in which something fails, each followed by an ordinary call"""
  import sample
  root = os.path.dirname(sample.__file__)
  jobs = []
  for name in pick(rng, 6):
    f, args = ops.OPS[name](rng)
    jobs.append((name, f, args))
  refs = fresh([(f, a) for _, f, a in jobs])
  audit()
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    for (name, f, args), ref in zip(jobs, refs):
      probe = Injector(root)
      try:
        probe.run(f, [a.copy() for a in args])
      except Exception:  # pylint: disable=W0703
        continue
      if not probe.n:
        continue
      for i in range(4):
        k = int(rng.integers(1, probe.n + 1)) if rng.random() < .7 else \
            min(probe.n, int(rng.integers(1, 40)))
        inj = Injector(root, k, [Injected, Stop, MemoryError][rng.integers(3)])
        given = [a.copy() for a in args]
        before = ambient()
        del AUDIT["seen"][:]
        AUDIT["on"] = True
        failed = False
        try:
          inj.run(f, given)
        except BaseException as e:  # pylint: disable=W0718
          failed = True
          if not isinstance(e, (Injected, Stop, MemoryError)):
            mon.event("translated-failures")
        finally:
          AUDIT["on"] = False
        after = ambient()
        det = {"operation": name, "failed": inj.where, "call": k}
        if inj.where is None:
          mon.event("not-reached")
          continue
        mon.event("failed-calls" if failed else "survived-calls")
        mon.case((name, inj.where))
        for s, v in before.items():
          mon.check("process-state-restored-after-failure", after[s] == v,
                    lambda: {**det, "state": s, "before": str(v)[:200],
                             "after": str(after[s])[:200]})
        mon.check("no-outside-effects", not AUDIT["seen"],
                  lambda: {**det, "seen": AUDIT["seen"][:5]})
        for b, a in zip(given, args):
          mon.check("data-untouched", np.array_equal(b, a), det)
      r = call(f, [a.copy() for a in args])
      d = ops.differ(ref, ops.flat(r), tol(name), 1e-300)
      mon.check("same-after-failure", d is None,
                lambda: {"operation": name, "at": d})
