"""C05: fitting depends only on the parameters and the input"""
import copy
import pickle
import warnings

import numpy as np
from sklearn import base
from sklearn.linear_model import LinearRegression

from sample import hinge
from sample import sample as smp
from sample.beatsdrop import decision
from sample.beatsdrop import regression as breg
from sample.beatsdrop import sample as bds
from sample.sms import mm, sm
from sample.utils import learn
from vf import audio, beats
from vf.core import Check

CHECK = Check(
    "C05",
    rule="random histories (fits, failed fits, predictions, parameter changes, "
    "clones, copies, pickles) on estimators sharing an interpreter; after "
    "every fit the learned state is compared exactly with that of a freshly "
    "built estimator given the ledger's parameters, and the monitors look for "
    "changes in the caller's arrays, templates, bystanders, warning filters "
    "and the global random state. Non-trivial: a history with at least two "
    "successful fits.",
    require={"refits": 80, "beat-refits": 6, "failed-fits": 15,
             "saved-states": 40, "tracker-refits": 30, "copies": 20,
             "regressor-refits": 60, "used-storages": 10, "few-frames": 20},
)


def deep_same(a, b):
  """Exact structural equality of nested results"""
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
      return False
    if a.dtype == object or b.dtype == object:
      return all(deep_same(i, j) for i, j in zip(a.ravel(), b.ravel()))
    return bool(np.all((a == b) | ((a != a) & (b != b))))
  if isinstance(a, dict):
    return isinstance(b, dict) and a.keys() == b.keys() and all(
        deep_same(a[k], b[k]) for k in a)
  if isinstance(a, (list, tuple)):
    return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
        deep_same(i, j) for i, j in zip(a, b))
  if isinstance(a, base.BaseEstimator):
    return type(a) is type(b) and deep_same(vars(a), vars(b))
  try:
    return bool(a == b) or bool(a != a and b != b)
  except Exception:  # pylint: disable=W0703
    return a is b


def params_view(est):
  """Parameters, with sub-estimators replaced by their state"""
  return {k: (type(v).__name__ if isinstance(v, base.BaseEstimator) else
              copy.deepcopy(v) if not callable(v) else v)
          for k, v in est.get_params(deep=True).items()}


def learned(m):
  out = {
      "matrix": m.param_matrix_,
      "tracks": m.sinusoidal.tracks_,
      "sinusoidal": m.sinusoidal.intermediate.get_state(),
      "w": m.sinusoidal.w_,
  }
  if hasattr(m, "beat_decisor"):
    out["decisions"] = m.beat_decisor.intermediate.get_state()
  return out


class Boom(hinge.HingeRegression):
  """Fails on long enough tracks, half way through a fit"""
  armed = [0]

  def fit(self, x, y, **kwargs):
    self.armed[0] -= 1
    if self.armed[0] == 0:
      raise ZeroDivisionError("injected")
    return super().fit(x, y, **kwargs)


def used_storage(rng, save):
  """A storage that still holds what an earlier fit saved"""
  st = learn.OptionalStorage(save=True)
  for k in ("stft", "peaks", "decision", "test"):
    for i in range(int(rng.integers(1, 60))):
      st.append(k, ("stale", i), index=i)
  st.save = save
  return st


def build(cls, ledger):
  """A fresh estimator with the ledger's parameters"""
  kw = {}
  for k, v in ledger.items():
    kw[k] = v() if isinstance(v, type) or (callable(v) and getattr(
        v, "factory", False)) else v
  return cls(**kw)


def factory(f):
  f.factory = True
  return f


def other_window(rng, w):
  """A window of the same size with another shape"""
  return [np.hamming, np.hanning, np.blackman, np.bartlett][rng.integers(4)](
      w.size) + rng.uniform(.01, .1)


DECISORS = (beats.Always, beats.Odd, beats.Seen,
            decision.AlmostNotABeatDecisor, decision.BeatDecisor)


@CHECK.kind("history", quick=110, thorough=1500)
def history(rng, mon, spec):
  fs = 8000
  beaty = rng.random() < .3
  cls = bds.SAMPLEBeatsDROP if beaty else smp.SAMPLE

  def signal():
    if beaty:
      return beats.sound(rng, fs, int(fs * rng.uniform(.1, .35)),
                         k=int(rng.integers(1, 4)))
    return audio.hostile(rng, fs)[1]

  def cfg():
    return beats.config(rng, fs, 4) if beaty else audio.config(rng, fs)

  ledger = cfg()
  if beaty:
    ledger["beatsdrop"] = [beats.QuickBeat, factory(
        lambda: beats.QuickBeat(linear_regressor=LinearRegression()))][
            rng.integers(2)]
    ledger["beat_decisor"] = DECISORS[rng.integers(len(DECISORS))]
  ledger["regressor"] = [Boom, factory(
      lambda: Boom(linear_regressor=LinearRegression(copy_X=True)))][
          rng.integers(2)]
  m = build(cls, ledger)
  for part in ("sinusoidal__intermediate__save",) + (
      ("beat_decisor__intermediate__save",) if beaty else ()):
    if rng.random() < .6:
      ledger[part] = True
      m.set_params(**{part: True})
  pool = [signal() for _ in range(3)]
  by = smp.SAMPLE(**audio.config(rng, fs)).fit(
      beats.sound(rng, fs, 3000, k=2, beating=0))
  by_state = copy.deepcopy(learned(by))
  by_params = params_view(by)
  log = []
  fits = total = 0
  for step in range(int(rng.integers(3, 7 if beaty else 14))):
    op = rng.choice(["fit", "fit", "fit", "fit-with", "set", "predict", "fail",
                     "clone", "copy", "pickle", "save", "sdt"])
    log.append(str(op))
    det = f"{cls.__name__} ops={log} {audio.brief(ledger)}"
    if op in ("fit", "fit-with"):
      x = pool[rng.integers(3)]
      over = {}
      if op == "fit-with":
        c = cfg()
        keys = list(c)
        for k in rng.choice(len(keys), int(rng.integers(1, 4)), replace=False):
          over[keys[k]] = c[keys[k]]
        if not beaty and ("sinusoidal__n" in over or "sinusoidal__w" in over):
          over["sinusoidal__n"] = c["sinusoidal__n"]
          over["sinusoidal__w"] = c["sinusoidal__w"]
        elif rng.random() < .3:
          over["sinusoidal__w"] = other_window(rng, ledger["sinusoidal__w"])
        ledger.update(over)
      for part in ("sinusoidal__intermediate",) + (
          ("beat_decisor__intermediate",) if beaty else ()):
        if op == "fit-with" and rng.random() < .25:
          save = bool(rng.random() < .7)
          over[part] = used_storage(rng, save)
          ledger[part + "__save"] = save
          mon.event("used-storages")
      x_ = x.copy()
      x_.flags.writeable = bool(rng.random() < .5)
      Boom.armed[0] = 0
      templates = {n: copy.deepcopy(vars(getattr(m, n)))
                   for n in ("regressor", "beatsdrop") if hasattr(m, n)}
      filters = list(warnings.filters)
      seed = int(rng.integers(1 << 30))
      np.random.seed(seed)
      want_rs = np.random.get_state()
      e1 = e2 = None
      try:
        m.fit(x_, **over)
      except Exception as e:  # pylint: disable=W0703
        e1 = e
      got_rs = np.random.get_state()
      mon.check("global-random-state", deep_same(list(want_rs), list(got_rs)),
                det)
      mon.check("warning-filters", list(warnings.filters) == filters, det)
      mon.same("audio-untouched", x_, x, det)
      for n, v in templates.items():
        mon.check("templates-untouched", deep_same(vars(getattr(m, n)), v),
                  lambda n=n: f"{det}: {n}")
      fresh = build(cls, ledger)
      try:
        fresh.fit(x)
      except Exception as e:  # pylint: disable=W0703
        e2 = e
      if not mon.check("same-outcome", type(e1) is type(e2),
                       lambda: f"{det}: {e1!r} fresh {e2!r}"):
        return
      if e1 is not None:
        mon.event("failed-fits")
        mon.check("documented-failure", isinstance(e1, ValueError) and beaty,
                  lambda: f"{det}: {e1!r}")
        continue
      fits += 1
      total += 1
      mon.event("refits", total > 1)
      mon.event("beat-refits", total > 1 and beaty)
      a, b = learned(m), learned(fresh)
      for k in b:
        mon.event("saved-states", k in ("sinusoidal", "decisions") and
                  bool(b[k]))
        mon.check(f"same-{k}-as-fresh", deep_same(a[k], b[k]),
                  lambda k=k: f"{det}: {k}: {a[k]!r:.250} fresh {b[k]!r:.250}")
      pa, pb = params_view(m), params_view(fresh)
      mon.check("same-parameters-as-fresh", deep_same(pa, pb), lambda: det + str(
          [k for k in pb if not deep_same(pa.get(k), pb[k])]))
      t = np.arange(50) / fs
      mon.same("same-resynthesis-as-fresh", m.predict(t), fresh.predict(t), det)
    elif op == "set":
      c = cfg()
      keys = [k for k in c if beaty or k not in ("sinusoidal__n",
                                                 "sinusoidal__w")]
      k = keys[rng.integers(len(keys))]
      if rng.random() < .3:
        k = "sinusoidal__w"
        c[k] = other_window(rng, ledger[k])
      ledger[k] = c[k]
      before = learned(m) if fits else None
      m.set_params(**{k: c[k]})
      if fits:
        mon.same("parameters-do-not-relearn", m.param_matrix_,
                 before["matrix"], det)
    elif op == "save":
      k = "sinusoidal__intermediate__save"
      ledger[k] = bool(rng.random() < .5)
      m.set_params(**{k: ledger[k]})
    elif op == "fail":
      Boom.armed[0] = int(rng.integers(1, 4))
      filters = list(warnings.filters)
      try:
        m.fit(pool[rng.integers(3)])
      except ZeroDivisionError:
        mon.event("failed-fits")
      except ValueError as e:
        mon.check("documented-failure", beaty, lambda: f"{det}: {e!r}")
      mon.check("warning-filters", list(warnings.filters) == filters, det)
      Boom.armed[0] = 0
      fits = 0
    elif op == "clone":
      c = base.clone(m)
      mon.check("clone-is-unfitted", not hasattr(c, "param_matrix_"), det)
      mon.check("clone-has-the-parameters",
                deep_same(params_view(c), params_view(m)), det)
      mon.check(
          "clone-shares-nothing", not any(
              isinstance(v, base.BaseEstimator) and v is m.get_params()[k]
              for k, v in c.get_params().items()), det)
      if rng.random() < .5:
        m, fits = c, 0
      mon.event("copies")
    elif op in ("copy", "pickle"):
      c = copy.deepcopy(m) if op == "copy" else pickle.loads(pickle.dumps(m))
      mon.event("copies")
      if fits:
        mon.check("copies-keep-what-was-learned",
                  deep_same(learned(c), learned(m)), det)
      m = c
    elif fits and op == "predict":
      before = copy.deepcopy(learned(m))
      m.predict(np.arange(100) / fs, n_modes=int(rng.integers(0, 5)),
                order=str(rng.choice(["energies", "freqs", "amps", "decays"])))
      mon.check("prediction-changes-nothing", deep_same(learned(m), before),
                det)
    elif fits:
      before = copy.deepcopy(learned(m))
      m.sdt_params_()
      mon.check("prediction-changes-nothing", deep_same(learned(m), before),
                det)
  mon.check("bystanders-untouched", deep_same(learned(by), by_state) and
            deep_same(params_view(by), by_params), f"{cls.__name__} {log}")
  mon.case((cls.__name__, tuple(log), spec["i"]), nontrivial=total > 1)


@CHECK.kind("tracker", quick=80, thorough=1500)
def tracker(rng, mon, spec):
  """Stand-alone trackers and sinusoidal models, refitted"""
  fs = 8000
  modal = rng.random() < .6
  cfg = {k[len("sinusoidal__"):]: v for k, v in audio.config(rng, fs).items()}
  if not modal:
    for k in ("reverse", "frequency_bounds", "peak_threshold",
              "merge_strategy", "strip_t"):
      cfg.pop("tracker__" + k)
  cls = mm.ModalModel if modal else sm.SinusoidalModel
  save = bool(rng.random() < .5)
  cfg["intermediate__save"] = save
  m = cls(**cfg)
  hist = []
  for _ in range(int(rng.integers(2, 6))):
    kind, x = audio.hostile(rng, fs)
    if rng.random() < .3:  # A few frames at most
      kind = "frames"
      n = cfg["w"].size + int(rng.integers(0, 3 * cfg["tracker__h"]))
      x = beats.sound(rng, fs, n, k=int(rng.integers(1, 3)), beating=0)
      mon.event("few-frames")
    hist.append(kind)
    det = f"{cls.__name__} {hist} {cfg}"
    if rng.random() < .2:
      c2 = audio.config(rng, fs)
      k = ["tracker__h", "tracker__max_n_sines", "padded",
           "t"][rng.integers(4)]
      cfg[k] = c2["sinusoidal__" + k]
    x0 = x.copy()
    over = {}
    if rng.random() < .2:
      over["intermediate"] = used_storage(rng, save)
      mon.event("used-storages")
    m.fit(x, **cfg, **over)
    mon.same("audio-untouched", x, x0, det)
    f = cls(**cfg).fit(x0)
    mon.event("tracker-refits", len(hist) > 1)
    mon.check("same-tracks-as-fresh", deep_same(m.tracks_, f.tracks_), det)
    mon.check("reading-tracks-changes-nothing",
              deep_same(m.tracks_, f.tracks_), det)
    mon.check("same-intermediate-as-fresh", deep_same(
        m.intermediate.get_state(), f.intermediate.get_state()), det)
    if save:
      n = len(m.time_frames(x0))
      mon.check("one-entry-per-frame", all(
          len(v) == n for v in m.intermediate.get_state().values()), det)
    else:
      mon.check("nothing-saved-when-off", not m.intermediate.get_state(), det)
  mon.case((cls.__name__, tuple(hist), spec["i"]), nontrivial=len(hist) > 1)


@CHECK.kind("regressors", quick=60, thorough=1000)
def regressors(rng, mon, spec):
  """Hinge and beat regressions, refitted on other tracks"""
  fs = 4000
  which = rng.integers(3)
  def make():
    return [hinge.HingeRegression,
            lambda: breg.BeatRegression(fs=fs),
            lambda: breg.DualBeatRegression(fs=fs)][which]()

  m = make()
  outcomes = []
  for k in range(int(rng.integers(2, 5))):
    n = int(rng.integers(8, 60))
    t = np.sort(rng.uniform(0, .6, n))
    if which:
      t = np.arange(n) * .01
      d = 10**rng.uniform(-.8, .2)
      a = 20 * np.log10(np.abs(
          np.exp(-2 * t / d) + rng.uniform(0, .9) * np.exp(
              -2 * t / d / rng.uniform(.8, 1.2) +
              2j * np.pi * rng.uniform(2, 15) * t)) + 1e-9)
      args = (t, a, rng.uniform(200, 900) + rng.normal(size=n))
    else:
      args = (t[:, None], -rng.uniform(0, 300) * np.minimum(
          t, rng.uniform(0, .6)) + rng.normal(size=n) * rng.uniform(0, 3))
    kw = {"max_nfev": 6} if which else {}
    copies = [a_.copy() for a_ in args]
    outs = []
    for r in (m, make()):
      try:
        r.fit(*args, **kw)
        outs.append({k_: v for k_, v in vars(r).items() if k_.endswith("_") and
                     k_ not in ("res_fn_", "result_", "beat_", "ls_")})
        if which:
          outs[-1]["am"] = r.predict(t, "am", "fm")
        else:
          outs[-1]["am"] = r.predict(args[0])
      except ValueError as e:
        outs.append(f"{type(e).__name__}")
    det = f"{type(m).__name__} fit {k} n={n}"
    outcomes.append(isinstance(outs[1], dict))
    mon.event("regressor-refits", k > 0 and outcomes[-1])
    for a_, c in zip(args, copies):
      mon.same("data-untouched", a_, c, det)
    clean = lambda o: o if isinstance(o, str) else {
        k_: v for k_, v in o.items() if isinstance(
            v, (np.ndarray, float, tuple, list))}
    mon.check("same-regression-as-fresh",
              deep_same(clean(outs[0]), clean(outs[1])),
              lambda: f"{det}: {clean(outs[0])!r:.250} fresh "
              f"{clean(outs[1])!r:.250}")
  mon.case((int(which), tuple(outcomes), spec["i"]),
           nontrivial=sum(outcomes) > 1)
