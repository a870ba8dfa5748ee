"""C24: old argument names keep working"""
import inspect
import warnings

import numpy as np
from sklearn import base

import sample
from sample import optimize, psycho, utils
from sample.beatsdrop import sample as bd_sample
from sample.evaluation import metrics
from sample.sample import additive_synth
from sample.sms import mm, sm
from vf.core import Check

CHECK = Check(
    "C24",
    rule="every deprecated name of constructors, setters, fits and functions, "
    "alone and combined with others and with current names, is compared with "
    "the same call that uses the replacements; random stacks of deprecations "
    "on generated functions are compared with a rewriting of the arguments. "
    "Non-trivial: every call with a deprecated name.",
    require={"old-names": 150, "combinations": 60, "setters": 25, "fits": 20,
             "sample-fits": 8, "functions": 35, "silent": 60, "stacks": 60,
             "optimizers": 10, "trackers": 5, "storages": 5, "rejected": 10},
    assumptions=["a value is given by its old or by its new name, not both"],
)

TRACKER = {
    "fs": lambda r: int(r.integers(2000, 9000)),
    "h": lambda r: int(r.integers(40, 300)),
    "max_n_sines": lambda r: int(r.integers(1, 50)),
    "min_sine_dur": lambda r: float(r.uniform(0, .2)),
    "freq_dev_offset": lambda r: float(r.uniform(0, 90)),
    "freq_dev_slope": lambda r: float(r.uniform(0, .1)),
}
MODAL = {
    "reverse": lambda r: bool(r.random() < .5),
    "frequency_bounds": lambda r: (20, float(r.uniform(30, 9000))),
    "peak_threshold": lambda r: float(r.uniform(-99, 0)),
    "merge_strategy": lambda r: str(r.choice(["average", "single"])),
    "strip_t": lambda r: [None, .5, 1][r.integers(3)],
}
OTHER = {
    "n": lambda r: 1 << int(r.integers(8, 12)),
    "t": lambda r: float(r.uniform(-99, 0)),
    "padded": lambda r: bool(r.random() < .5),
    "w": lambda r: np.hanning(int(r.integers(100, 256))),
}
TOP = {
    "max_n_modes": lambda r: int(r.integers(1, 99)),
    "regressor__method": lambda r: str(r.choice(["trf", "dogbox"])),
    "regressor_k": lambda r: "k_",
}


class SubTracker(mm.ModalTracker):
  """User's own tracker"""


def old_names(cls):
  d = {k: (f"tracker__{k}", v) for k, v in TRACKER.items()}
  if cls is mm.ModalModel:
    d.update({k: (f"tracker__{k}", v) for k, v in MODAL.items()})
  d["save_intermediate"] = ("intermediate__save", lambda r: bool(
      r.random() < .5))
  return d


def pick(rng, cls):
  """Arguments with deprecated names, and with current names"""
  old, new, used = {}, {}, []
  names = old_names(cls)
  keys = list(rng.permutation(list(names)))
  for k in keys[:int(rng.integers(1, 5))]:
    k = str(k)
    old[k] = new[names[k][0]] = names[k][1](rng)
    used.append(k)
  rest = [str(k) for k in keys[5:]]
  for k in rest[:int(rng.integers(0, 3))]:
    v = names[k][1](rng)
    old[names[k][0]] = new[names[k][0]] = v
  for k in OTHER:
    if rng.random() < .2:
      old[k] = new[k] = OTHER[k](rng)
  if rng.random() < .15:
    c = [mm.ModalTracker, SubTracker][rng.integers(2)]
    old["sine_tracker_cls"] = c
    new["tracker"] = c()
    used.append("sine_tracker_cls")
  # any order
  old = {k: old[k] for k in [str(k) for k in rng.permutation(list(old))]}
  return old, new, used


def flat(est):
  """Comparable parameters"""
  out = {}
  for k, v in est.get_params(deep=True).items():
    if isinstance(v, base.BaseEstimator):
      v = type(v)
    elif isinstance(v, np.ndarray):
      v = v.tobytes()
    elif callable(v):
      v = getattr(v, "__qualname__", repr(v))
    out[k] = v
  return out


def recorded(f):
  with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    out = f()
  return out, [x for x in w if issubclass(x.category,
                                          utils.SAMPLEDeprecationWarning)]


def named(ws, names):
  """Names that no warning mentions"""
  txt = [str(w.message) for w in ws]
  return [n for n in names if not any(f"'{n}'" in t for t in txt)]


def compare(mon, clause, f_old, f_new, used, what, result=flat):
  with mon.no_exception(clause + "-works", what):
    a, wa = recorded(f_old)
  with mon.no_exception(clause + "-replacement", what):
    b, wb = recorded(f_new)
  mon.event("old-names", len(used))
  mon.event("silent")
  ra, rb = result(a), result(b)
  if isinstance(ra, dict):
    bad = {k: (ra.get(k, "missing"), rb.get(k, "missing"))
           for k in {*ra, *rb} if not _eq(ra.get(k, "missing"), rb.get(
               k, "missing"))}
    mon.check(clause + "-effect", not bad, {**what, "differs": bad})
  else:
    mon.same(clause + "-effect", ra, rb, what)
  miss = named(wa, used)
  mon.check(clause + "-warns", not miss,
            {**what, "missing": miss, "got": [str(w.message) for w in wa]})
  mon.check(clause + "-silent", not wb,
            {**what, "got": [str(w.message) for w in wb]})
  return a, b


def _eq(a, b):
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    return np.array_equal(a, b)
  return a == b and type(a) is type(b)


@CHECK.kind("models", quick=120, thorough=3000)
def models(rng, mon, spec):
  cls = [sm.SinusoidalModel, mm.ModalModel][rng.integers(2)]
  old, new, used = pick(rng, cls)
  what = {"cls": cls.__name__, "old": sorted(old), "used": used}
  mon.case((cls.__name__, tuple(sorted(used))))
  if len(used) > 1:
    mon.event("combinations")
  if "sine_tracker_cls" in used:
    mon.event("trackers")
  if "save_intermediate" in used:
    mon.event("storages")
  how = str(rng.choice(["init", "init-positional", "set", "fit"]))
  what["how"] = how
  if how == "init":
    compare(mon, "constructor", lambda: cls(**old), lambda: cls(**new), used,
            what)
  elif how == "init-positional":
    w = np.hamming(99)
    for d in (old, new):
      d.pop("w", None)
    compare(mon, "constructor", lambda: cls(w, **old), lambda: cls(w, **new),
            used, what)
  elif how == "set":
    mon.event("setters")
    compare(mon, "setter", lambda: cls().set_params(**old),
            lambda: cls().set_params(**new), used, what)
  else:
    mon.event("fits")
    for d in (old, new):
      d["w"] = np.hamming(128)
      d["n"] = 256
    x = rng.normal(size=600)
    a, b = compare(mon, "fit", lambda: cls().fit(x, **old),
                   lambda: cls().fit(x, **new), used, what)
    ta, tb = a.tracks_, b.tracks_
    mon.check("fit-tracks", len(ta) == len(tb) and all(
        np.array_equal(u["freq"], v["freq"]) for u, v in zip(ta, tb)), what)
    mon.same("fit-storage", len(a.intermediate.get_state()),
             len(b.intermediate.get_state()), what)


def nested(rng, old, new, used):
  """Arguments for the whole model"""
  o, n, u = {}, {}, []
  for k, v in old.items():
    pre = "sinusoidal_model" if rng.random() < .6 else "sinusoidal"
    o[f"{pre}__{k}"] = v
    if pre == "sinusoidal_model":
      u.append(f"{pre}__{k}")
    if k in used:
      u.append(k)
  for k, v in new.items():
    n[f"sinusoidal__{k}"] = v
  for k in TOP:
    if rng.random() < .3:
      o[k] = n[k] = TOP[k](rng)
  return o, n, u


@CHECK.kind("samples", quick=90, thorough=2000)
def samples(rng, mon, spec):
  cls = [sample.SAMPLE, bd_sample.SAMPLEBeatsDROP][rng.integers(2)]
  o, n, u = nested(rng, *pick(rng, mm.ModalModel))
  what = {"cls": cls.__name__, "old": sorted(o), "used": u}
  mon.case((cls.__name__, tuple(sorted(u))))
  mon.event("combinations")
  how = str(rng.choice(["init", "set", "component", "fit"]))
  what["how"] = how
  if how == "init":
    compare(mon, "constructor", lambda: cls(**o), lambda: cls(**n), u, what)
  elif how == "set":
    mon.event("setters")
    compare(mon, "setter", lambda: cls().set_params(**o),
            lambda: cls().set_params(**n), u, what)
  elif how == "component":
    s = mm.ModalModel(tracker__fs=3000)
    a, b = compare(mon, "component", lambda: cls(sinusoidal_model=s),
                   lambda: cls(sinusoidal=s), ["sinusoidal_model"], what)
    mon.check("component-given", a.sinusoidal is s and b.sinusoidal is s, what)
    a = cls()
    recorded(lambda: a.set_params(sinusoidal_model=s))
    mon.check("component-set", a.sinusoidal is s, what)
  else:
    mon.event("fits")
    mon.event("sample-fits")
    for d in (o, n):
      for k in ("sinusoidal__w", "sinusoidal_model__w", "sinusoidal__n",
                "sinusoidal_model__n"):
        d.pop(k, None)
    u = [k for k in u if k in ("sinusoidal_model__" + v for v in ("w", "n")) or
         k not in ("sinusoidal_model__w", "sinusoidal_model__n")]
    u = [k for k in u if k in o or f"sinusoidal__{k}" in o or
         f"sinusoidal_model__{k}" in o]
    x = np.zeros(400)
    mk = lambda: cls(sinusoidal__w=np.hamming(128), sinusoidal__n=256)
    compare(mon, "fit", lambda: mk().fit(x, **o), lambda: mk().fit(x, **n), u,
            what)


@CHECK.kind("unknown", quick=20, thorough=200)
def unknown(rng, mon, spec):
  """Values are never silently dropped"""
  mon.event("rejected")
  name = str(rng.choice([
      "sinusoidal_models__fs", "sinusoidal__tracker__nothing", "nothing",
      "sinusoidal_model__nothing", "max_modes", "sinusoidal__trakcer__fs"]))
  cls = [sample.SAMPLE, bd_sample.SAMPLEBeatsDROP][rng.integers(2)]
  mk = lambda: cls(sinusoidal__w=np.hamming(128), sinusoidal__n=256)
  mon.case(("unknown", name, cls.__name__))
  for how, f in (("init", lambda: cls(**{name: 3})),
                 ("set", lambda: mk().set_params(**{name: 3})),
                 ("fit", lambda: mk().fit(np.zeros(400), **{name: 3}))):
    try:
      recorded(f)
    except (ValueError, TypeError):
      pass
    else:
      mon.fail("dropped", {"name": name, "how": how, "cls": cls.__name__})


@CHECK.kind("frames", quick=10, thorough=100)
def frames(rng, mon, spec):
  """Lengths in frames are still lengths in frames"""
  mon.event("old-names")
  k = [None, 2, 3, 7, 20][rng.integers(5)]
  cls = [sm.SinusoidalModel, mm.ModalModel][rng.integers(2)]
  fs, h = int(rng.integers(4000, 48000)), int(rng.integers(50, 700))
  what = {"cls": cls.__name__, "safe_sine_len": k, "fs": fs, "h": h}
  kw = {"tracker__min_sine_dur": 0} if rng.random() < .7 else {}
  low = 2 if kw else max(2, int(np.ceil(.04 * fs / h)))
  mon.case(("frames", k, cls.__name__))
  with mon.no_exception("frames-works", what):
    m, ws = recorded(lambda: cls(np.hamming(99), tracker__fs=fs, tracker__h=h,
                                 **kw, safe_sine_len=k)
                     if rng.random() < .3 else
                     cls(tracker__fs=fs, tracker__h=h, **kw, safe_sine_len=k))
  mon.check("frames-warns", not named(ws, ["safe_sine_len"]), what)
  want = low if k is None else max(k, low)
  got = m.tracker.min_sine_len
  # A number of seconds, at least one unless a minimum is given
  listed = max(-1 if k is None else k, 0 if kw else 1)
  listed = max(2, int(np.ceil(listed * fs / h)))
  mon.check("frames-effect", got == want, {**what, "got": got, "want": want},
            key="safe_sine_len-in-seconds" if got == listed else None)


@CHECK.kind("functions", quick=70, thorough=1500)
def functions(rng, mon, spec):
  fs = 4000.
  x = rng.normal(size=int(rng.integers(30, 200)))
  b = psycho.GammatoneFilterbank(freqs=rng.uniform(100, 1500, 3))
  g = psycho.GammatoneFilter(f=float(rng.uniform(100, 900)))
  t = np.arange(60) / fs
  flag = bool(rng.random() < .6)
  opt = [None, "ir", "input", "output"][rng.integers(4)]
  mode = lambda p: lambda key: p(**{key: flag})
  option = lambda p: lambda key: p(**{key: opt})
  table = {
      "additive_synth": mode(lambda **k: additive_synth(
          t, [100, 300], [.1, .2], [1, .5], **k)),
      "wavefun": mode(lambda **k: g.wavefun(t, **k)),
      "ir": mode(lambda **k: g.ir(t=t, **k)),
      "precompute": mode(lambda **k: [f.ir if hasattr(f, "ir") else f
                                      for f in [b.precompute(fs, **k)]]),
      "convolve": option(lambda **k: b.convolve(x, fs=fs, **k)),
      "cochleagram": option(lambda **k: psycho.cochleagram(
          x, fs=fs, filterbank=b, **k)[0]),
      "loss": option(lambda **k: metrics.CochleagramLoss(
          fs=fs, n_filters=4, **k)(x, x[::-1])),
  }
  name = list(table)[spec["i"] % len(table)]
  f = table[name]
  what = {"function": name, "flag": flag, "option": opt}
  mon.event("functions")
  mon.case((name, flag, opt))

  def res(r):
    if name == "precompute":
      p = r[0]
      return np.asarray(p.convolve(x, stride=None))
    return np.asarray(r)

  compare(mon, "function", lambda: f("analytical"), lambda: f("analytic"),
          ["analytical"], what, result=res)


REMAP = {
    "log_n": lambda r: int(r.integers(7, 11)),
    "wtype": lambda r: str(r.choice(["hamming", "hann", "blackman"])),
    "wsize": lambda r: float(r.uniform(.3, 1)),
    "overlap": lambda r: float(r.uniform(0, .9)),
}


def _bare(x, y):
  return 0.


def my_remap(**kwargs):
  """User's own remapper"""
  n = kwargs.pop("size", 300)
  return {"sinusoidal__n": 2 * n, "sinusoidal__w": np.hamming(n), **kwargs}


@CHECK.kind("optimizers", quick=40, thorough=600)
def optimizers(rng, mon, spec):
  mon.event("optimizers")
  kw = {f"sinusoidal__{k}": v(rng) for k, v in REMAP.items()
        if rng.random() < .6}
  kw["max_n_modes"] = 3
  how = str(rng.choice(["remap", "sample_kw", "sample_fn", "both"]))
  what = {"how": how, "kw": kw}
  mon.case((how, tuple(sorted(kw))))
  if how == "remap":
    old = {k.replace("sinusoidal__", "sinusoidal_model__"): v
           for k, v in kw.items()}
    compare(mon, "remap", lambda: optimize.sample_kwargs_remapper(**old),
            lambda: optimize.sample_kwargs_remapper(**kw),
            [k for k in old if k.startswith("sinusoidal_model")], what,
            result=lambda d: d)
    return
  extra = {}
  remap = optimize.sample_kwargs_remapper
  if rng.random() < .3:
    extra["remap"] = remap = my_remap
    kw = {"size": int(rng.integers(50, 200)), "max_n_modes": 2}
  cls = bd_sample.SAMPLEBeatsDROP if "fn" in how or how == "both" else (
      sample.SAMPLE)
  if how == "sample_kw":
    old = {"sample_kw": kw}
  elif how == "sample_fn":
    old = {"sample_fn": cls}
    kw = {}
    if rng.random() < .3:
      old["sample_kw"] = None
  else:
    old = {"sample_fn": cls, "sample_kw": kw}
  used = [k for k in old if old[k] is not None]
  with mon.no_exception("remapped", what):
    model = cls(**remap(**kw))
  dims = {"sinusoidal__t": (-90., -30.)}
  a, b = compare(
      mon, "optimizer",
      lambda: optimize.SAMPLEOptimizer(loss_fn=_bare, **old, **extra, **dims),
      lambda: optimize.SAMPLEOptimizer(loss_fn=_bare, model=model, **extra,
                                       **dims), used, what,
      result=lambda o: flat(o.model))
  mon.check("optimizer-class", type(a.model) is cls, what)
  mon.check("optimizer-dimensions", dict(a.dimensions) == dims, what)


@CHECK.kind("stacks", quick=120, thorough=3000)
def stacks(rng, mon, spec):
  """Deprecations of generated functions"""
  mon.event("stacks")
  steps = []
  names = ["a", "b", "c"]

  def target(x, *args, **kwargs):
    return x, args, dict(kwargs)

  f = target
  n = int(rng.integers(1, 4))
  for i in range(n):
    kind = str(rng.choice(["rename", "convert", "prefix"]))
    warn = bool(rng.random() < .8)
    msg = None if rng.random() < .5 else f"message {i}"
    new = names[i]
    if kind == "rename":
      f = utils.deprecated_argument(f"old{i}", new, warn=warn, msg=msg)(f)
    elif kind == "convert":
      f = utils.deprecated_argument(
          f"old{i}",
          convert=lambda *args, i=i, new=new, **kw: (new, ("converted", kw[
              f"old{i}"], len(args))), warn=warn, msg=msg)(f)
    else:
      f = utils.deprecated_argument(f"old{i}_", f"{new}_", prefix=True,
                                    warn=warn, msg=msg)(f)
    steps.append((kind, warn, msg, new, i))
  mon.check("metadata", f.__name__ == "target" and
            inspect.signature(f) == inspect.signature(target), steps)
  args = [object() for _ in range(int(rng.integers(0, 3)))]
  call, want, warned = {}, {}, []
  for kind, warn, msg, new, i in steps:
    r = rng.random()
    v = object()
    if r < .25:
      continue
    if r < .45:
      k = f"{new}_z" if kind == "prefix" else new
      call[k] = want[k] = v
    elif kind == "prefix":
      # The prefix may come again inside the name
      for s in rng.permutation(["x", "y", "", f"old{i}_", f"_old{i}_z"])[
          :int(rng.integers(1, 4))].tolist():
        call[f"old{i}_{s}"] = want[f"{new}_{s}"] = v
        warned.append((f"old{i}_{s}", f"{new}_{s}", warn, msg))
    else:
      call[f"old{i}"] = v
      want[new] = v if kind == "rename" else ("converted", v, len(args) + 1)
      warned.append((f"old{i}", new, warn, msg))
  call["other"] = want["other"] = 5
  what = {"steps": steps, "call": sorted(call)}
  mon.case(("stack", tuple(s[0] for s in steps), tuple(sorted(call))))
  given = dict(call)
  with mon.no_exception("stack-works", what):
    (x, rest, kw), ws = recorded(lambda: f(7, *args, **call))
  mon.check("stack-positional", x == 7 and all(
      a is b for a, b in zip(rest, args)) and len(rest) == len(args), what)
  mon.check("stack-effect", kw == want, {**what, "got": kw, "want": want})
  mon.check("stack-caller", call == given, what)
  got = [str(w.message) for w in ws]
  exp = [(o, n_, m) for o, n_, w, m in warned if w]
  mon.check("stack-count", len(got) == len(exp), {**what, "got": got})
  for o, n_, m in exp:
    mon.check("stack-message", any(
        f"'{o}'" in g and f"'{n_}'" in g and (m is None or m in g)
        for g in got), {**what, "old": o, "got": got})
  if n == 1:
    mon.check("stack-location", all(w.filename == __file__ for w in ws),
              {**what, "got": [w.filename for w in ws]})
  if not warned:
    mon.event("silent")


@CHECK.kind("helpers", quick=60, thorough=1000)
def helpers(rng, mon, spec):
  """Default keyword arguments and filters"""
  keys = ["a", "b", "c", "e"]
  d = {k: object() for k in keys if rng.random() < .5}
  if d and rng.random() < .3:
    d[next(iter(d))] = [None, 0, False][rng.integers(3)]
  kw = {k: object() for k in keys if rng.random() < .5}
  mon.case(("kws", tuple(d), tuple(kw)))
  before = dict(d)
  r = utils.default_kws(d, **kw)
  mon.check("kws", r == {**kw, **d} and r is not d and d == before, [d, kw])
  mon.check("kws-none", utils.default_kws(None, **kw) == kw, kw)

  toggle = bool(rng.random() < .5)
  traces = []

  @utils.warnings_simplefilter(action="ignore", category=RuntimeWarning,
                               catch_kws={"record": True}, traces=traces,
                               toggle=("quiet", toggle))
  def f(v, **k):
    warnings.warn("run", RuntimeWarning)
    warnings.warn("user", UserWarning)
    if v == 13:
      raise KeyError(v)
    return v, k

  state = warnings.filters[:]
  for quiet in (None, True, False):
    on = toggle if quiet is None else quiet
    k = {} if quiet is None else {"quiet": quiet}
    with warnings.catch_warnings(record=True) as w:
      warnings.simplefilter("always")
      del traces[:]
      out = f(3, z=1, **k)
    mon.check("filter-result", out == (3, {"z": 1}), [toggle, quiet])
    seen = [x.category for x in w]
    if on:
      mon.check("filter-on", seen == [] and len(traces) == 1 and all(
          x.category is not RuntimeWarning for x in traces[0]), [toggle, quiet])
    else:
      mon.check("filter-off", seen == [RuntimeWarning, UserWarning] and
                not traces, [toggle, quiet, seen])
    try:
      with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f(13, **k)
    except KeyError:
      pass
    else:
      mon.fail("filter-exception", [toggle, quiet])
  mon.check("filters-restored", warnings.filters[:] == state, "")
