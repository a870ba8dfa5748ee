"""C06: parallel fitting is indistinguishable from serial fitting"""
import contextlib
import copy
import multiprocessing
import os
import pickle
import sys
import threading
import time

import numpy as np

from sample import _training
from sample import hinge
from sample import sample as smp
from sample.beatsdrop import decision
from sample.beatsdrop import sample as bds
from sample.utils import learn
from vf import beats
from vf.checks.c05 import deep_same, learned
from vf.core import Check

CHECK = Check(
    "C06",
    rule="fits of multi-mode sounds with 1 to 5 workers, with the model's own, "
    "a shared, or a caller-supplied pool and manager, with seeded per-track "
    "delays that scramble completion, workers and stages that fail, several "
    "fits at once on one pool, and a pre-emptive manager; each result is "
    "compared exactly with the serial fit, and progress events, components "
    "and child processes are monitored. Non-trivial: at least two tracks.",
    require={"parallel-fits": 45, "beat-fits": 15, "tracks": 200,
             "scrambled": 8, "injected-faults": 12, "progress-events": 2000,
             "shared-pool-fits": 10, "concurrent-appends": 2000,
             "saved-states": 30},
    workers=5,
)


class Recorder(_training.FitArgs):
  """Progress recorder"""

  def __init__(self, *args, **kwargs):
    super().__init__(*args, **kwargs)
    self.log = []

  def progress_start(self, maximum, value=0):
    self.log.append(("start", maximum, value))

  def progress_update(self, value=None):
    self.log.append(("update", value))

  def progress_stop(self):
    self.log.append(("stop",))


class SleepyHinge(hinge.HingeRegression):
  """Takes an amount of time that depends on the track"""

  def fit(self, x, y, **kwargs):
    beats.delay(int(abs(y[0]) * 1e6) % 100000, 1)
    order = os.environ.get("VF_ORDER")
    out = super().fit(x, y, **kwargs)
    if order:
      with open(order, "ab", buffering=0) as f:
        f.write(b"%.9g\n" % float(np.ravel(x)[0]))
    return out


class FaultyHinge(hinge.HingeRegression):
  """Fails on tracks whose first magnitude is in a bad range"""

  def fit(self, x, y, **kwargs):
    beats.delay(int(abs(y[0]) * 1e6) % 100000, 1)
    if int(abs(y[0]) * 1e6) % 3 == 0:
      raise ZeroDivisionError("injected")
    return super().fit(x, y, **kwargs)


def no_children(mon, det, before):
  t = time.time()
  left = []
  while time.time() - t < 10:
    left = [p for p in multiprocessing.active_children() if p.pid not in before]
    if not left:
      break
    time.sleep(.05)
  mon.check("no-process-left", not left, lambda: f"{det}: {left}")


def own_components(mon, m, comps, det):
  """The model holds its own ordinary components again"""
  with mon.no_exception("components-restored", det):
    params = m.get_params()
    for k, v in comps.items():
      mon.check("components-restored", params[k] is v,
                lambda k=k: f"{det}: {k} is {params[k]!r}")
  with mon.no_exception("still-copyable", det):
    pickle.loads(pickle.dumps(m))
    copy.deepcopy(m)


def progress(mon, log, n_frames, n_tracks, parallel, det):
  """Grammar of the progress events of one completed fit"""
  mon.event("progress-events", len(log))
  stages = []
  bad = None
  for e in log:
    if e[0] == "start":
      if stages and stages[-1]["open"]:
        bad = bad or "start inside a stage"
      stages.append({"max": e[1], "value": e[2], "steps": 0, "open": True})
    elif not stages or not stages[-1]["open"]:
      bad = bad or f"{e} outside of a stage"
    elif e[0] == "stop":
      stages[-1]["open"] = False
    else:
      s = stages[-1]
      if e[1] is None:
        s["steps"] += 1
        s["value"] += 1
      else:
        if e[1] < s["value"]:
          bad = bad or f"backwards from {s['value']} to {e[1]}"
        if e[1] > s["max"]:
          bad = bad or f"{e[1]} of {s['max']}"
        s["value"] = e[1]
  if any(s["open"] for s in stages):
    bad = bad or "stage without stop"
  mon.check("progress-grammar", bad is None, lambda: f"{det}: {bad}")
  if mon.check("two-stages", len(stages) == 2,
               lambda: f"{det}: {len(stages)} stages"):
    mon.check("progress-totals",
              [s["max"] for s in stages] == [n_frames, n_tracks],
              lambda: f"{det}: {stages} want {n_frames} {n_tracks}")
    mon.check("one-step-per-item",
              [s["steps"] for s in stages] == [n_frames, n_tracks],
              lambda: f"{det}: {stages} want {n_frames} {n_tracks}")


def model(rng, beaty, regressor, fs=8000):
  cfg = beats.config(rng, fs, int(rng.choice([4, 8])) if beaty else 12)
  kw = dict(cfg)
  kw["regressor"] = regressor()
  cls = bds.SAMPLEBeatsDROP if beaty else smp.SAMPLE
  if beaty:
    kw["beatsdrop"] = beats.QuickBeat()
    kw["beat_decisor"] = [beats.Sleepy, beats.Seen, beats.Odd,
                          decision.AlmostNotABeatDecisor][rng.integers(4)]()
  m = cls(**kw)
  save = {"sinusoidal__intermediate__save": bool(rng.random() < .5)}
  if beaty:
    save["beat_decisor__intermediate__save"] = bool(rng.random() < .7)
  m.set_params(**save)
  return m, f"{cls.__name__} {kw.get('beat_decisor')} {save}"


def storages(m):
  return {k: m.get_params()[k]
          for k in ("sinusoidal__intermediate", "beat_decisor__intermediate")
          if k in m.get_params()}


def compare(mon, m, ref, det):
  a, b = learned(m), learned(ref)
  for k in b:
    mon.check(f"same-{k}-as-serial", deep_same(a[k], b[k]),
              lambda k=k: f"{det}: {k}: {a[k]!r:.250} serial {b[k]!r:.250}")
    mon.event("saved-states", k in ("sinusoidal", "decisions") and bool(b[k]))
  for k, v in storages(m).items():
    mon.check("storage-on-exactly-as-serial",
              hasattr(v, "cache_") == hasattr(storages(ref)[k], "cache_"),
              lambda k=k, v=v: f"{det}: {k} {vars(v)!r:.200}")


def reference(ref, x, mon, **kwargs):
  """Serial fit; the beat regression may declare that a track is unfeasible"""
  try:
    ref.fit(x, **kwargs)
  except ValueError as e:
    if isinstance(ref, bds.SAMPLEBeatsDROP) and "unfeasible" in str(e):
      mon.event("declared-failure")
      return False
    raise
  return True


@CHECK.kind("fits", quick=36, thorough=700)
def fits(rng, mon, spec):
  beaty = rng.random() < .45
  m, det = model(rng, beaty, SleepyHinge)
  x = beats.sound(rng, 8000, int(8000 * rng.uniform(.25, .5)),
                  k=int(rng.integers(1, 8)))
  if rng.random() < .06:
    x = np.zeros(3000)
  ref = copy.deepcopy(m)
  order = os.path.join(os.environ["VF_SCRATCH"], f"order{os.getpid()}")

  def drain():
    if not os.path.exists(order):
      return []
    with open(order, encoding="ascii") as f:
      out = f.read().split()
    os.remove(order)
    return out

  os.environ.pop("VF_DELAY", None)
  os.environ["VF_ORDER"] = order
  drain()
  rlog = Recorder()
  if not reference(ref, x, mon, _fit_args=rlog):
    return
  serial = drain()
  n = len(ref.sinusoidal.tracks_)
  nf = len(ref.sinusoidal.time_frames(x))
  progress(mon, rlog.log, nf, n, False, f"{det} serial")
  os.environ["VF_DELAY"] = repr(float(rng.choice([1e-6, .005, .03])))
  comps = storages(m)
  before = {p.pid for p in multiprocessing.active_children()}
  mode = ["jobs", "jobs", "pool", "manager", "both", "none"][rng.integers(6)]
  nj = int(rng.choice([1, 2, 3, 5]))
  det = f"{det} {mode} n_jobs={nj} tracks={n}"
  try:
    for rep in range(2):
      log = Recorder()
      kw = {"_fit_args": log}
      ctx = []
      if mode in ("pool", "both"):
        ctx.append(multiprocessing.Pool(nj))
        kw["pool"] = ctx[-1]
      else:
        kw["n_jobs"] = nj if mode != "none" else None
      if mode in ("manager", "both"):
        mg = _training._OptionalStorageManager()
        mg.start()
        ctx.append(mg)
        kw["mp_manager"] = mg
      try:
        m.fit(x, **kw)
        own_components(mon, m, comps, det)
        if "pool" in kw:
          mon.check("caller-pool-still-works",
                    kw["pool"].map(abs, [-1, 2]) == [1, 2], det)
        if "mp_manager" in kw:
          mon.check("caller-manager-still-works",
                    list(kw["mp_manager"].list([3])) == [3], det)
      finally:
        for c in ctx:
          c.__exit__(None, None, None)
      mon.event("parallel-fits")
      mon.event("beat-fits", beaty)
      mon.event("tracks", n)
      compare(mon, m, ref, f"{det} rep {rep}")
      progress(mon, log.log, nf, n, True, f"{det} rep {rep}")
      no_children(mon, det, before)
      mon.event("scrambled", drain() != serial)
      if mode in ("none", "manager", "jobs") and rng.random() < .5:
        break
    # and the model can go back to serial fitting
    del log.log[:]
    m.fit(x, _fit_args=log)
    compare(mon, m, ref, f"{det} serial again")
    progress(mon, log.log, nf, n, False, f"{det} serial again")
  finally:
    os.environ.pop("VF_DELAY", None)
    os.environ.pop("VF_ORDER", None)
  mon.case((det, spec["i"]), nontrivial=n > 1)


@CHECK.kind("faults", quick=40, thorough=400)
def faults(rng, mon, spec):
  """A worker, or the analysis itself, fails midway"""
  beaty = rng.random() < .5
  m, det = model(rng, beaty, SleepyHinge)
  x = beats.sound(rng, 8000, 3000, k=int(rng.integers(2, 7)))
  ref = copy.deepcopy(m)
  if not reference(ref, x, mon):
    return
  n = len(ref.sinusoidal.tracks_)
  style = ["decisor", "regressor", "audio", "freq", "progress", "progress"][
      rng.integers(0 if beaty else 1, 6)]
  det = f"{det} fault={style} tracks={n}"
  if rng.random() < .5:
    m.fit(x)  # something stale may be there
  bad = copy.deepcopy(m)
  kw = {"n_jobs": int(rng.choice([1, 2, 4]))}
  xb = x
  if style == "decisor":
    d = beats.Faulty(bad=int(rng.integers(0, max(n, 1))))
    d.intermediate = bad.beat_decisor.intermediate
    bad.beat_decisor = d
  elif style == "regressor":
    bad.regressor = FaultyHinge()
  elif style == "audio":
    xb = np.zeros((4, 4), dtype=object)
  elif style == "freq":
    bad.freq_reduce = _bad_reduce
  else:
    nf = len(ref.sinusoidal.time_frames(x))
    kw["_fit_args"] = _BadProgress(
        int(rng.integers(1, nf)) if rng.random() < .2 else nf +
        int(rng.integers(1, 6)))
  os.environ["VF_DELAY"] = ".01"
  comps = storages(bad)
  before = {p.pid for p in multiprocessing.active_children()}
  raised = None
  with contextlib.ExitStack() as stack:
    if rng.random() < .3:
      kw["pool"] = stack.enter_context(multiprocessing.Pool(kw.pop("n_jobs")))
    try:
      bad.fit(xb, **kw)
    except Exception as e:  # pylint: disable=W0703
      raised = e
    finally:
      os.environ.pop("VF_DELAY", None)
    if "pool" in kw:
      mon.check("caller-pool-still-works",
                kw["pool"].map(abs, [-1, 2]) == [1, 2], det)
  if raised is not None:
    mon.check("original-failure-is-reported", style == "audio" or isinstance(
        raised, ZeroDivisionError), lambda: f"{det}: {raised!r}")
  mon.event("injected-faults", raised is not None)
  if style in ("decisor", "freq") and n:
    mon.check("failure-is-reported", isinstance(raised, ZeroDivisionError),
              lambda: f"{det}: {raised!r}")
  own_components(mon, bad, comps, det)
  no_children(mon, det, before)
  # repaired, the same model is usable again
  bad.set_params(regressor=SleepyHinge(), freq_reduce=np.mean)
  if style == "decisor":
    bad.beat_decisor = copy.deepcopy(m.beat_decisor)
    bad.beat_decisor.intermediate.reset()
  bad.fit(x, n_jobs=0 if rng.random() < .5 else 2)
  compare(mon, bad, ref, det)
  mon.case((det, spec["i"]), nontrivial=n > 1)


def _bad_reduce(f):
  raise ZeroDivisionError("injected")


class _BadProgress(_training.FitArgs):
  """Progress callback that fails, as when a window is closed"""

  def __init__(self, n):
    super().__init__()
    self.left = [n]

  def progress_update(self, value=None):
    self.left[0] -= 1
    if self.left[0] == 0:
      raise ZeroDivisionError("injected")


@CHECK.kind("shared", quick=5, thorough=80)
def shared(rng, mon, spec):
  """Several models fitted at once, from threads, on one pool and manager"""
  k = int(rng.integers(2, 5))
  jobs = []
  for _ in range(k):
    m, det = model(rng, rng.random() < .4, SleepyHinge)
    x = beats.sound(rng, 8000, 2500, k=int(rng.integers(2, 5)))
    ref = copy.deepcopy(m)
    if reference(ref, x, mon):
      jobs.append((m, ref, x, det, storages(m)))
  os.environ["VF_DELAY"] = ".01"
  errors = []
  before = {p.pid for p in multiprocessing.active_children()}
  with multiprocessing.Pool(3) as pool:
    with _training._OptionalStorageManager() as mg:

      def run(j):
        try:
          j[0].fit(j[2], pool=pool, mp_manager=mg)
        except Exception as e:  # pylint: disable=W0703
          errors.append(repr(e))

      th = [threading.Thread(target=run, args=(j,)) for j in jobs]
      for t in th:
        t.start()
      for t in th:
        t.join()
  os.environ.pop("VF_DELAY", None)
  mon.check("concurrent-fits-complete", not errors, lambda: str(errors))
  if not errors:
    for m, ref, _, det, comps in jobs:
      compare(mon, m, ref, f"shared {det}")
      own_components(mon, m, comps, det)
      mon.event("shared-pool-fits")
  no_children(mon, "shared", before)
  mon.case(("shared", k, spec["i"]))


def _append(storage, calls):
  for key, value, index in calls:
    storage.append(key, value, index=index)


@CHECK.kind("storage", quick=6, thorough=60)
def storage(rng, mon, spec):
  """Concurrent appends to one managed storage, with a server that switches
  threads as often as it can"""
  mg = _training._OptionalStorageManager()
  mg.start(sys.setswitchinterval, (1e-6,))
  try:
    for rep in range(25):
      save = rng.random() < .95
      st = mg.OptionalStorage(save=save)
      n = int(rng.integers(8, 40))
      k = 8
      calls = [[] for _ in range(k)]
      for i in rng.permutation(n):
        c = calls[rng.integers(k)]
        c.append(("test", (int(i), -int(i)), int(i)))
        c.append(("decision", int(i), int(i)))
      th = [threading.Thread(target=_append, args=(st, c)) for c in calls]
      for t in th:
        t.start()
      for t in th:
        t.join()
      want = {"test": [(i, -i) for i in range(n)],
              "decision": list(range(n))} if save else {}
      got = st.get_state()
      mon.event("concurrent-appends", 2 * n)
      mon.check("managed-appends-linearizable", got == want,
                lambda: f"n={n} save={save} rep {rep}: {got!r:.300}")
      st.reset()
      mon.check("managed-reset", st.get_state() == {}, "")
    mon.case(("storage", spec["i"]))
  finally:
    mg.shutdown()
