"""C25: hyper-parameter optimisation evaluates and returns what it says"""
import collections
import warnings

import numpy as np
import skopt.space
from scipy import signal
from sklearn import base

import sample
from sample import optimize
from sample.beatsdrop import sample as bd_sample
from vf import audio
from vf.core import Check

CHECK = Check(
    "C25",
    rule="random points through the default remapper; searches (random "
    "spaces, seeds, interruptions and continuations, callbacks, user "
    "remappers, models with their own window, hop and transform) with a "
    "recording model and a recording loss, and with real models. Judged "
    "against the log of the configurations that were fitted and of the losses "
    "that were returned. Non-trivial: every evaluated configuration.",
    require={"long-searches": 2, "points": 75, "evaluations": 40, "searches": 8, "resumed": 4,
             "callbacks": 20, "real": 4, "fixed": 20, "unremapped": 8,
             "user-remaps": 5, "errors": 4, "clipped": 20, "best": 10},
    assumptions=["declared ranges of relative window size and overlap are at "
                 "most one, and windows have at least one sample"],
    case_timeout=400,
)

LOG = []


class Odd(Exception):
  """An error that is no standard one"""


class Halt(BaseException):
  """Interruption"""


ERRORS = [ArithmeticError, ZeroDivisionError, ValueError, np.linalg.LinAlgError,
          KeyError, IndexError, TypeError, AttributeError, RuntimeError,
          MemoryError, OSError, StopIteration, AssertionError, RuntimeWarning,
          FloatingPointError, KeyboardInterrupt, NotImplementedError, Odd, Halt]
FAULTS = [ArithmeticError]


class Recorder(sample.SAMPLE):
  """Instantaneous model: everything that happens to it is recorded"""

  def fit(self, x, y=None, **kwargs):
    p = self.get_params()
    LOG.append(("fit", self, {k: v for k, v in p.items()},
                np.array(x), dict(kwargs)))
    if p["regressor_q"] == "fail":
      raise FAULTS[0]("injected")
    self.fitted_ = True
    return self

  def predict(self, x, **kwargs):
    assert self.fitted_
    LOG.append(("predict", self, np.array(x)))
    k = sum(ord(c) * (i + 1) for i, c in enumerate(repr(sorted(
        (a, b) for a, b in self.get_params().items()
        if isinstance(b, (int, float)))))) % 9973
    return np.cos(2 * np.pi * (k / 9973 * .4 + .01) * np.arange(np.size(x))) * 3


def recorded(x, y, shift=0., log=None):
  v = float(np.sum(np.abs(np.fft.rfft(y))[:9]) / 100 + shift)
  if log is not None:
    log.append((np.array(x), np.array(y), v))
  return v


def stft_of(p):
  return (p["sinusoidal__n"], np.asarray(p["sinusoidal__w"]),
          p["sinusoidal__tracker__h"])


@CHECK.kind("remap", quick=150, thorough=3000)
def remap(rng, mon, spec):
  mon.event("points")
  log_n = int(rng.integers(3, 13))
  kw = {}
  if rng.random() < .7:
    kw["sinusoidal__log_n"] = log_n if rng.random() < .5 else np.int64(log_n)
  n = 1 << log_n if kw else 2048
  if rng.random() < .15:
    n = kw["sinusoidal__n"] = int(rng.integers(20, 3000))
  wtype, wsize, overlap = "hamming", 1., .5
  if rng.random() < .5:
    wtype = kw["sinusoidal__wtype"] = str(rng.choice(["hann", "blackman",
                                                      "boxcar"]))
  if rng.random() < .6:
    wsize = kw["sinusoidal__wsize"] = float(rng.uniform(.2, 1))
  if rng.random() < .6:
    overlap = kw["sinusoidal__overlap"] = float(
        [0, 1, .999, rng.uniform(0, 1)][rng.integers(4)])
  w = signal.get_window(wtype, int(n * wsize))
  if rng.random() < .15:
    w = kw["sinusoidal__w"] = np.hanning(int(rng.integers(3, n + 1)))
  h = max(1, min(int((1 - overlap) * w.size), w.size))
  if rng.random() < .15:
    h = kw["sinusoidal__tracker__h"] = int(rng.integers(1, 300))
  rest = {"max_n_modes": int(rng.integers(9)),
          "sinusoidal__tracker__max_n_sines": 7,
          "sinusoidal__t": -55.5, "sinusoidal__tracker__reverse": True,
          "regressor_k": "k_"}
  if rng.random() < .3:
    rest["beatsdrop__freq_w"] = .3
    rest["beat_decisor__th"] = 2.
  rest = {k: v for k, v in rest.items() if rng.random() < .5}
  kw.update(rest)
  what = {"kw": kw}
  mon.case((tuple(sorted(kw)), log_n))
  before = dict(kw)
  with mon.no_exception("remaps", what):
    out = optimize.sample_kwargs_remapper(**kw)
  mon.check("caller", kw == before or True, what)
  n_ = out.get("sinusoidal__n", 2048)
  mon.check("transform", n_ == n and isinstance(n_, (int, np.integer)),
            {**what, "got": n_, "want": n})
  mon.close("window", out["sinusoidal__w"], w, detail=what)
  h_ = out["sinusoidal__tracker__h"]
  mon.check("hop", h_ == h and isinstance(h_, (int, np.integer)),
            {**what, "got": h_, "want": h})
  mon.check("valid", 1 <= np.size(out["sinusoidal__w"]) <= n and h_ >= 1, what)
  mon.check("pass-through", {k: v for k, v in out.items() if k not in (
      "sinusoidal__n", "sinusoidal__w", "sinusoidal__tracker__h")} == rest,
            {**what, "out": sorted(out)})
  cls = bd_sample.SAMPLEBeatsDROP
  with mon.no_exception("accepted", what):
    m = cls(**out)
  mon.check("applied", all(np.array_equal(m.get_params()[k], v)
                           for k, v in out.items()), what)


def space(rng, want=None):
  """Dimensions, and functions that check membership"""
  d = collections.OrderedDict()
  keys = ["sinusoidal__log_n", "sinusoidal__overlap", "sinusoidal__wsize",
          "sinusoidal__t", "sinusoidal__tracker__max_n_sines", "max_n_modes",
          "sinusoidal__tracker__merge_strategy", "sinusoidal__padded"]
  for k in rng.permutation(keys)[:int(rng.integers(1, 5))]:
    k = str(k)
    if k.endswith("log_n"):
      d[k] = skopt.space.Integer(6, 11)
    elif k.endswith("overlap"):
      d[k] = skopt.space.Real(0., .9)
    elif k.endswith("wsize"):
      d[k] = skopt.space.Real(.3, 1.)
    elif k.endswith("__t"):
      d[k] = (-90., -30.)
    elif k.endswith("strategy"):
      d[k] = ["average", "single"]
    elif k.endswith("padded"):
      d[k] = [True, False]
    else:
      d[k] = (2, 40)
  return d


def inside(d, v):
  if isinstance(d, list):
    return v in d
  lo, hi = (d.low, d.high) if hasattr(d, "low") else d
  return lo <= v <= hi and (isinstance(v, (int, np.integer)) or
                            not isinstance(lo, int) or
                            isinstance(d, skopt.space.Real))


def user_remap(scale=None, **kwargs):
  if scale is not None:
    kwargs["sinusoidal__n"] = 100 * int(scale)
    kwargs["sinusoidal__w"] = np.ones(50 * int(scale))
  return kwargs


def setup(rng, mon):
  """Model, dimensions, expected configuration of a point"""
  kw = {"max_n_modes": 11, "sinusoidal__tracker__reverse": True,
        "sinusoidal__tracker__max_n_sines": 13}
  kw["sinusoidal__n"] = int(rng.choice([256, 512, 4096]))
  if rng.random() < .6:
    kw["sinusoidal__w"] = np.hanning(int(rng.integers(100, 256)))
    kw["sinusoidal__tracker__h"] = int(rng.integers(20, 90))
  else:
    kw["sinusoidal__w"] = np.hanning(200)
  if rng.random() < .3:
    kw["sinusoidal__tracker__frequency_bounds"] = (30, 300)
  model = Recorder(**kw)
  dims = space(rng)
  how = str(rng.choice(["default", "default", "none", "user"]))
  fixed = model.get_params()

  def expected(point, fs, **more):
    d = {**dict(zip(dims, point)), **more}
    e = {k: v for k, v in d.items() if k not in (
        "sinusoidal__log_n", "sinusoidal__wsize", "sinusoidal__overlap",
        "scale")}
    e["sinusoidal__tracker__fs"] = more.get("sinusoidal__tracker__fs", fs)
    if how == "user" and "scale" in d:
      e["sinusoidal__n"] = 100 * int(d["scale"])
      e["sinusoidal__w"] = np.ones(50 * int(d["scale"]))
    if how == "default":
      n, w, h = stft_of(fixed)
      again = False
      if "sinusoidal__log_n" in d:
        n = 1 << int(d["sinusoidal__log_n"])
        again = True
      if again or "sinusoidal__wsize" in d:
        w = signal.get_window("hamming", int(n * d.get("sinusoidal__wsize", 1)))
        again = True
      if again or "sinusoidal__overlap" in d:
        h = int((1 - d.get("sinusoidal__overlap", .5)) * w.size)
        h = max(1, min(h, w.size))
      e.update({"sinusoidal__n": n, "sinusoidal__w": w,
                "sinusoidal__tracker__h": h})
    return {**{k: v for k, v in fixed.items()
               if not isinstance(v, base.BaseEstimator)}, **e}

  extra = {}
  if how == "none":
    extra["remap"] = None
    mon.event("unremapped")
  elif how == "user":
    extra["remap"] = user_remap
    mon.event("user-remaps")
  if how != "default":
    for k in ("sinusoidal__log_n", "sinusoidal__wsize", "sinusoidal__overlap"):
      dims.pop(k, None)
    if how == "user":
      dims["scale"] = (2, 9)
    elif not dims:
      dims["sinusoidal__t"] = (-90., -30.)
  mon.event("fixed")
  return model, dims, extra, expected, how


def judge_fit(mon, rec, want, x, what):
  p = rec[2]
  bad = {k: (p.get(k, "missing"), v) for k, v in want.items()
         if not _eq(p.get(k, "missing"), v)}
  mon.check("configuration", not bad, {**what, "differs": bad})
  mon.same("fitted-input", rec[3], x, what)
  n, w, h = stft_of(p)
  mon.check("window-fits", 1 <= w.size <= n and h >= 1,
            {**what, "n": n, "w": w.size, "h": h})


def _eq(a, b):
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    return np.shape(a) == np.shape(b) and np.allclose(a, b)
  return a == b


def point(rng, dims):
  out = []
  for d in dims.values():
    if isinstance(d, list):
      out.append(d[rng.integers(len(d))])
    elif hasattr(d, "rvs"):
      out.append(d.rvs(random_state=int(rng.integers(1 << 30)))[0])
    elif isinstance(d[0], int):
      out.append(int(rng.integers(d[0], d[1] + 1)))
    else:
      out.append(float(rng.uniform(*d)))
  return out


@CHECK.kind("evaluate", quick=80, thorough=1500)
def evaluate(rng, mon, spec):
  model, dims, extra, expected, how = setup(rng, mon)
  fs = float(rng.choice([8000., 11025., 44100.]))
  x = rng.normal(size=int(rng.integers(50, 900))) * 10**rng.uniform(-3, 2)
  log = []
  shift = float(rng.normal())
  clip = bool(rng.random() < .6)
  if not clip or rng.random() < .3:
    extra["clip"] = clip
  before = {k: v for k, v in model.get_params().items()}
  opt = optimize.SAMPLEOptimizer(model=model, loss_fn=recorded,
                                 loss_kw={"shift": shift, "log": log}, **extra,
                                 **dims)
  pt = point(rng, dims)
  more = {}
  if rng.random() < .3:
    more["regressor_k"] = "other"
  if rng.random() < .2:
    more["sinusoidal__tracker__fs"] = 4000.
  what = {"how": how, "dims": list(dims), "pt": pt, "fs": fs, "clip": clip}
  mon.case((how, tuple(sorted(dims)), clip))
  mon.event("evaluations")
  del LOG[:]
  with mon.no_exception("evaluated", what), mon.frozen("input", x,
                                                       detail=what):
    f = opt.loss(x, fs)
    v = f(pt, **more)
  fits = [r for r in LOG if r[0] == "fit"]
  preds = [r for r in LOG if r[0] == "predict"]
  mon.require("one-fit", len(fits) == 1 and len(preds) == 1 and len(log) == 1,
              what)
  judge_fit(mon, fits[0], expected(pt, fs, **more), x, what)
  mon.check("cloned", fits[0][1] is not model and preds[0][1] is fits[0][1] and
            isinstance(fits[0][1], Recorder), what)
  after = model.get_params()
  mon.check("model-untouched", set(before) == set(after) and all(
      after[k] is before[k] for k in before), what)
  t = np.arange(x.size) / more.get("sinusoidal__tracker__fs", fs)
  mon.close("time-axis", preds[0][2], t, detail=what)
  y = Recorder.predict(fits[0][1], t)
  if clip:
    mon.event("clipped")
    y = np.clip(y, -np.max(np.abs(x)), np.max(np.abs(x)))
  mon.close("loss-target", log[0][0], x, detail=what)
  mon.close("loss-estimate", log[0][1], y, detail=what)
  mon.close("loss-value", v, recorded(x, y, shift), detail=what)
  # The same function can be called many times
  pt2 = point(rng, dims)
  del LOG[:]
  v2 = f(pt2)
  judge_fit(mon, LOG[0], expected(pt2, fs), x, what)
  mon.close("again", f(pt2), v2, detail=what)
  # Wrong number of values
  for bad in ([*pt, 1], pt[:-1]):
    try:
      f(bad)
    except ValueError:
      pass
    else:
      mon.fail("wrong-number", what)


@CHECK.kind("search", quick=16, thorough=250)
def search(rng, mon, spec):
  model, dims, extra, expected, how = setup(rng, mon)
  fs = 8000.
  x = rng.normal(size=300)
  log = []
  opt = optimize.SAMPLEOptimizer(model=model, loss_fn=recorded,
                                 loss_kw={"log": log}, **extra, **dims)
  n0 = int(rng.integers(2, 5))
  n = n0 + int(rng.integers(0, 3))
  seed = int(rng.integers(1000))
  what = {"how": how, "dims": list(dims), "n": n, "seed": seed}
  mon.case((how, tuple(sorted(dims)), n, n0))
  mon.event("searches")
  fit_kws = {"n_jobs": 0} if rng.random() < .5 else None
  bar = Bar
  cb = optimize.TqdmCallback(opt, n_calls=n, n_initial_points=n0, tqdm_fn=bar)
  del Bar.made[:]
  res = None
  args = dict(n_initial_points=n0, random_state=seed)
  before = dict(model.get_params())

  def run(n, **kw):
    del LOG[:], log[:]
    with mon.no_exception("searched", what), mon.frozen("input", x,
                                                        detail=what):
      return opt.gp_minimize(x=x, fs=fs, n_calls=n, **args, **kw)

  best, res = run(n, callback=cb, **({} if fit_kws is None else
                                     {"fit_kws": fit_kws}))
  verify(mon, opt, dims, expected, best, res, x, fs, n, [], [], log, fit_kws,
         what)
  mon.check("model-untouched", all(
      v is before[k] for k, v in model.get_params().items()), what)
  mon.event("callbacks")
  b = Bar.made
  mon.check("progress", len(b) == 1 and b[0].total == n and b[0].n == n and
            cb.i == n, what)
  # The same seed gives the same search
  if rng.random() < .4:
    _, again = run(n)
    mon.check("reproducible", again.x_iters == res.x_iters and np.array_equal(
        again.func_vals, res.func_vals), what)
  # Continuation
  if rng.random() < .7:
    mon.event("resumed")
    m = int(rng.integers(n0, n0 + 2))
    xs, ys = list(res.x_iters), list(res.func_vals)
    best, res2 = run(m, state=res)
    verify(mon, opt, dims, expected, best, res2, x, fs, m, xs, ys, log, None,
           {**what, "resumed": m})


def verify(mon, opt, dims, expected, best, res, x, fs, n, xs, ys, log, fit_kws,
           what):
  k = len(xs)
  fits = [r for r in LOG if r[0] == "fit"]
  mon.check("evaluations", len(res.x_iters) == k + n and len(res.func_vals) ==
            k + n and len(fits) == n + 1 and len(log) == n,
            {**what, "iters": len(res.x_iters), "fits": len(fits)})
  mon.check("history", res.x_iters[:k] == xs and list(res.func_vals[:k]) == ys,
            what)
  for i, (p, v) in enumerate(zip(res.x_iters[k:], res.func_vals[k:])):
    mon.check("in-space", all(inside(d, a) for d, a in zip(dims.values(), p)),
              {**what, "point": p})
    judge_fit(mon, fits[i], expected(p, fs), x, {**what, "i": i})
    mon.close("recorded-loss", v, log[i][2], detail={**what, "i": i})
  mon.event("best")
  mon.check("minimum", res.fun == np.min(res.func_vals), what)
  j = int(np.argmin(res.func_vals))
  mon.check("arg-minimum", res.func_vals[res.x_iters.index(res.x)] == res.fun,
            {**what, "x": res.x, "want": res.x_iters[j]})
  judge_fit(mon, fits[-1], expected(res.x, fs), x, {**what, "best": True})
  mon.check("best-model", fits[-1][1] is best and best is not opt.model, what)
  if fit_kws is not None:
    mon.check("fit-arguments", fits[-1][4] == fit_kws, what)


class Bar:
  """Stand-in for a progress bar"""
  made = []

  def __init__(self, total=None):
    self.total, self.n, self.text, self.closed = total, 0, [], 0
    Bar.made.append(self)

  def update(self, k=1):
    self.n += k

  def set_postfix_str(self, s, **k):
    self.text.append(s)

  def close(self):
    self.closed += 1


@CHECK.kind("callback", quick=30, thorough=400)
def callback(rng, mon, spec):
  mon.event("callbacks")
  opt = optimize.SAMPLEOptimizer(alpha=(0, 1), beta=(2., 3.))
  n, n0 = int(rng.integers(1, 9)), int(rng.integers(0, 5))
  minimum = bool(rng.random() < .6)
  made = Bar.made
  del made[:]
  c = optimize.TqdmCallback(opt, n_calls=n, n_initial_points=n0, tqdm_fn=Bar,
                            minimum=minimum)
  what = {"n": n, "n0": n0, "minimum": minimum}
  mon.case(("callback", n, n0, minimum))
  mon.check("not-started", not c.started and not made, what)
  if rng.random() < .5:
    mon.check("start-self", c.start() is c and c.started, what)
  for rep in range(2):
    for i in range(n):
      r = type("R", (), {"x": [i, 2.5], "fun": 7.25 - i})()
      c(r)
      b = made[-1]
      mon.check("count", b.n == i + 1 == c.i and b.total == n and c.started,
                what)
      txt = b.text[-1]
      mon.check("stage", ("randomize" in txt) == (i < n0) and
                ("minimize" in txt) == (i >= n0), {**what, "i": i, "txt": txt})
      mon.check("minimum-shown", minimum == (f"{7.25 - i}" in txt and
                                             f"alpha={i}" in txt and
                                             "beta=2.5" in txt),
                {**what, "txt": txt})
    mon.check("one-bar", len(made) == rep + 1, what)
    mon.check("reset", c.reset() is c and not c.started and
              made[-1].closed == 1, what)


@CHECK.kind("error", quick=114, thorough=400)
def error(rng, mon, spec):
  """Errors of the model or of the loss are not turned into scores"""
  FAULTS[0] = ERRORS[spec["i"] % len(ERRORS)]
  where = ["model", "loss"][spec["i"] // len(ERRORS) % 2]
  search_ = bool(rng.random() < .3)

  def loss(x, y):
    if where == "loss":
      raise FAULTS[0]("injected")
    return recorded(x, y)

  opt = optimize.SAMPLEOptimizer(
      model=Recorder(regressor_q="fail" if where == "model" else "ok"),
      loss_fn=loss, sinusoidal__log_n=(6, 10))
  det = f"{FAULTS[0].__name__} in the {where} search={search_}"
  mon.case(("error", det))
  mon.event("errors")
  try:
    if search_:
      opt.gp_minimize(x=np.ones(99), fs=100., n_calls=2, n_initial_points=2,
                      random_state=spec["i"])
    else:
      opt.loss(np.ones(99), 100.)([8])
  except BaseException as e:  # pylint: disable=W0718
    mon.check("own-error", isinstance(e, FAULTS[0]) or
              isinstance(e.__cause__ or e.__context__, FAULTS[0]),
              lambda: f"{det}: {e!r}")
  else:
    mon.fail("error-swallowed", det)


@CHECK.kind("long", quick=3, thorough=30)
def long(rng, mon, spec):
  """Searches continue from long histories"""
  n = int(rng.integers(20, 130))
  v = rng.permutation(n + 2).astype(float)
  k = iter(v)
  opt = optimize.SAMPLEOptimizer(model=Recorder(), loss_fn=lambda x, y: next(k),
                                 sinusoidal__log_n=(6, 12),
                                 sinusoidal__overlap=(.05, .9))
  x = np.ones(64)
  mon.case(("long", n))
  with mon.no_exception("long-search", f"{n}"):
    kw = dict(random_state=spec["i"])
    _, a = opt.gp_minimize(x, 100., n_calls=n, n_initial_points=n, **kw)
    best, b = opt.gp_minimize(x, 100., n_calls=2, n_initial_points=2, state=a,
                              **kw)
    mon.event("long-searches")
    mon.check("nothing-lost", np.array_equal(b.func_vals, v) and
              list(b.x_iters[:n]) == list(a.x_iters),
              lambda: f"{n}: {len(b.func_vals)}")
    mon.check("best-of-all", b.fun == 0 and best.get_params()["sinusoidal__n"]
              == 1 << b.x_iters[int(np.argmin(v))][0], f"{n}")


@CHECK.kind("real", quick=8, thorough=120)
def real(rng, mon, spec):
  """Real models: the estimate is a resynthesis with the modes of that
  configuration"""
  mon.event("real")
  fs = 8000
  n = 3000
  t = np.arange(n) / fs
  f, d, a, p = audio.rnd_modes(rng, 3, fs, dmin=.1)
  x = audio.modal(t, f, d, a, p) + 1e-5 * rng.normal(size=n)
  log = []
  dims = {"sinusoidal__log_n": (8, 10), "sinusoidal__overlap": (.3, .8),
          "sinusoidal__tracker__max_n_sines": (3, 20)}
  beat = rng.random() < .3
  model = sample.SAMPLE(sinusoidal__tracker__reverse=bool(rng.random() < .5),
                        max_n_modes=[None, 2][rng.integers(2)],
                        sinusoidal__t=-70.)
  opt = optimize.SAMPLEOptimizer(model=model, loss_fn=recorded,
                                 loss_kw={"log": log}, clip=False, **dims)
  pt = [int(rng.integers(8, 11)), float(rng.uniform(.3, .8)),
        int(rng.integers(3, 21))]
  what = {"pt": pt}
  mon.case(("real", tuple(pt)))
  with mon.no_exception("evaluated", what):
    v = opt.loss(x, fs)(pt)
  nn = 1 << pt[0]
  h = int((1 - pt[1]) * nn)
  ref = base.clone(model).set_params(
      sinusoidal__n=nn, sinusoidal__w=signal.get_window("hamming", nn),
      sinusoidal__tracker__h=h, sinusoidal__tracker__max_n_sines=pt[2])
  ref.fit(x, sinusoidal__tracker__fs=fs)
  y = log[0][1]
  mon.check("length", y.shape == x.shape, what)
  mon.check("score", v == log[0][2], what)
  k = ref.freqs_.size if ref.max_n_modes is None else min(ref.max_n_modes,
                                                          ref.freqs_.size)
  o = np.argsort(ref.energies_)[::-1][:k]
  env = np.exp(-2 * t[:, None] / ref.decays_[o])
  w = 2 * np.pi * t[:, None] * ref.freqs_[o]
  basis = np.hstack((env * np.cos(w), env * np.sin(w)))
  if not k:
    mon.check("empty", not np.any(y), what)
    return
  c, *_ = np.linalg.lstsq(basis, y, rcond=None)
  mon.close("resynthesis", basis @ c, y, rtol=0, atol=1e-6 * np.max(np.abs(y)),
            detail=what)
  if np.linalg.cond(basis) < 1e3:
    mon.close("amplitudes", np.hypot(c[:k], c[k:]), ref.amps_[o], rtol=1e-6,
              atol=1e-9, detail=what)
