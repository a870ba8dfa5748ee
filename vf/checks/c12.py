"""C12: beat regression is bounded, descends and picks the best association"""
import warnings

import numpy as np
from sklearn import linear_model

from sample import beatsdrop, psycho
from sample.beatsdrop import regression
from vf.core import Check

CHECK = Check(
    "C12",
    rule="tracks (pure beats, beats with noise and gaps, single partials, "
    "noise, constant and rising tracks, tracks of a few samples) and "
    "configurations (losses, weights, clipping, initial guesses, bounds, "
    "linear regressors, solver options). Residuals are recomputed from the "
    "analytic sum of two decaying phasors. Non-trivial: every fit that "
    "returned parameters.",
    require={"fits": 60, "declared-failures": 10, "residuals": 60,
             "user-init": 10, "user-bounds": 8, "user-loss": 6,
             "recoveries": 10, "swaps": 2, "sorted": 150, "predictions": 60,
             "short": 5},
    assumptions=["tracks are one-dimensional, with increasing time"],
    case_timeout=300,
)

FAIL = (ValueError,)


def truth(rng):
  a = 10**rng.uniform(-1.5, 0, 2)
  if rng.random() < .6:
    a[1] = a[0] * rng.uniform(.4, 2)
  fc = rng.uniform(100, 3000)
  df = rng.uniform(1, 9)
  d = 10**rng.uniform(-.4, .7, 2)
  if rng.random() < .5:
    d[1] = d[0] * rng.uniform(.7, 1.4)
  f = [fc - df, fc + df][::1 if rng.random() < .5 else -1]
  return np.array((*a, *f, *d, *rng.uniform(-3, 3, 2)))


def phasors(p, t):
  a0, a1, f0, f1, d0, d1, p0, p1 = p
  z0 = a0 * np.exp(-2 * t / d0 + 1j * (2 * np.pi * f0 * t + p0))
  z1 = a1 * np.exp(-2 * t / d1 + 1j * (2 * np.pi * f1 * t + p1))
  # common rotation removed for accuracy
  return z0, z1, (-2 / d0 + 2j * np.pi * f0), (-2 / d1 + 2j * np.pi * f1)


def am(p, t):
  z0, z1, _, _ = phasors(p, t)
  return np.abs(z0 + z1)


def fm(p, t):
  z0, z1, k0, k1 = phasors(p, t)
  z = z0 + z1
  return ((k0 * z0 + k1 * z1) / z).imag / (2 * np.pi)


def track(rng, kind=None):
  kind = kind or str(rng.choice(
      ["beat", "beat", "beat", "noisy", "noisy", "gaps", "single", "noise",
       "constant", "rising", "short", "level"]))
  h = rng.uniform(.004, .02)
  n = int(rng.integers(40, 220))
  if kind == "short":
    n = int(rng.integers(1, 8))
  t = (np.arange(n) + (rng.integers(0, 30) if rng.random() < .3 else 0)) * h
  p = truth(rng)
  if kind == "single":
    p[1] = 1e-9
  if kind == "rising":
    p[4:6] *= -1
    p[:2] *= .01
  a = 20 * np.log10(am(p, t) + 1e-9)
  f = fm(p, t)
  f = np.clip(f, np.median(f) - 200, np.median(f) + 200)
  if kind in ("noisy", "gaps", "short"):
    a = a + rng.normal(0, .4, n)
    f = f + rng.normal(0, .5, n)
  if kind == "gaps":
    k = np.sort(rng.choice(n, max(3, int(.7 * n)), replace=False))
    t, a, f = t[k], a[k], f[k]
  if kind == "noise":
    a = rng.normal(-40, 10, n)
    f = rng.uniform(100, 2000) + rng.normal(0, 10, n)
  if kind in ("beat", "noisy", "gaps") and rng.random() < .25:
    # Only the magnitude of frequencies counts
    f = np.where(rng.random(len(f)) < rng.choice([.1, .5, 1]), -f, f)
  if kind == "constant":
    a = np.full(n, -20.)
    f = np.full(n, 440.)
  if kind == "level":
    a = np.full(n, -20.)
    f = 440 + rng.normal(0, 1, n)
  return kind, t, a, f, p


def residuals(model, t, a, f, p):
  """What is minimised, by the declared losses"""
  a_lin = 10**(a / 20)
  if not isinstance(model, regression.DualBeatRegression):
    u = np.arange(int(np.ceil(np.max(t) * model.fs))) / model.fs
    return a_lin - np.interp(t, u, am(p, u))
  fe = np.abs(fm(p, t))
  if model.freq_clip is not None:
    q = np.quantile(fe, [.25, .5, .75])
    w = model.freq_clip * (q[2] - q[0]) / 2
    fe = np.clip(fe, q[1] - w, q[1] + w)
  m = USER_LOSS if getattr(model, "user_loss", False) else None
  if m:
    ra, rf = m[0](a_lin, am(p, t)), m[1](np.abs(f), fe)
  else:
    ra = a_lin - am(p, t)
    rf = 2595 * (np.log10(1 + np.abs(f) / 700) - np.log10(1 + fe / 700))
  return np.concatenate((ra, model.freq_w * rf))


def _rel(a, b):
  return (a - b) * .5


def _cents(a, b):
  return 12 * np.log2(np.maximum(a, 1) / np.maximum(b, 1))


USER_LOSS = (_rel, _cents)
RHO = {
    "cauchy": np.log1p,
    "linear": lambda z: z,
    "soft_l1": lambda z: 2 * (np.sqrt(1 + z) - 1),
    "arctan": np.arctan,
    "huber": lambda z: np.where(z <= 1, z, 2 * np.sqrt(np.maximum(z, 1)) - 1),
}


def cost(r, loss):
  return .5 * np.sum(RHO[loss](r**2))


def delicate(p, t):
  """Cancellation makes the instantaneous frequency ill-conditioned"""
  z0, z1, _, _ = phasors(p, t)
  return np.any(np.abs(z0 + z1) <= 1e-4 * (np.abs(z0) + np.abs(z1)))


def swapped(p):
  a0, a1, f0, f1, d0, d1, p0, p1 = p
  return np.array((a0, a1, f1, f0, d0, d1, p1, p0))


class Slope(linear_model.LinearRegression):
  """Linear regression with its own names"""

  def fit(self, X, y, sample_weight=None):
    super().fit(X, y, sample_weight)
    self.slope_, self.level_ = self.coef_, self.intercept_
    return self


@CHECK.kind("fit", quick=200, thorough=4000)
def fit(rng, mon, spec):
  kind, t, a, f, p_true = track(rng)
  dual = rng.random() < .6
  kw = {}
  if rng.random() < .5:
    kw["fs"] = float(rng.choice([50., 100., 160.]))
    kw["lpf"] = kw["fs"] * .45
  if rng.random() < .2:
    kw.update(linear_regressor=Slope(), linear_regressor_k="slope_",
              linear_regressor_q="level_")
  user_loss = False
  if dual:
    if rng.random() < .4:
      kw["freq_w"] = float(10**rng.uniform(-5, -1))
    if rng.random() < .4:
      kw["freq_clip"] = [None, 0., 1., 4.][rng.integers(4)]
    if rng.random() < .3:
      kw["disambiguate"] = False
    if rng.random() < .25:
      user_loss = True
      kw.update(amp_loss=_rel, freq_loss=_cents)
      mon.event("user-loss")
  calls = []
  init = bounds = None
  if rng.random() < .25:
    init = np.array(p_true)
    init[:2] = np.abs(init[:2]) + 1e-3
    init[4:6] = np.minimum(np.abs(init[4:6]), 50)
    init = init * np.exp(rng.normal(0, .05, 8))
    if rng.random() < .4:
      init = swapped(init)

    def user_init(t_, a_, f_, res_fn, model):
      calls.append(("init", t_, a_, f_, model, np.array(res_fn(init))))
      return tuple(init)

    kw["params_init"] = user_init
  if rng.random() < .25:
    wide = rng.random() < .75

    def user_bounds(t_, a_, f_, p, model):
      calls.append(("bounds", t_, a_, f_, model, p))
      p = np.array(p)
      w = np.abs(p) * .2 + .3
      w[4:6] = np.abs(p[4:6]) * .3 + 1e-6
      s = 1 if wide else 0
      return tuple(p - w), tuple(p + s * w)

    kw["bounds"] = user_bounds
    bounds = wide
  opts = {}
  if rng.random() < .4:
    opts["loss"] = str(rng.choice(list(RHO)))
  if rng.random() < .3:
    opts["method"] = "trf"
  opts["max_nfev"] = int(rng.choice([3, 10, 40]))
  cls = regression.DualBeatRegression if dual else regression.BeatRegression
  model = cls(**kw)
  model.user_loss = user_loss
  what = {"kind": kind, "n": len(t), "cls": cls.__name__, "opts": opts,
          "kw": sorted(kw)}
  if kind == "short":
    mon.event("short")
  with warnings.catch_warnings(), np.errstate(all="ignore"):
    warnings.simplefilter("ignore")
    ok = False
    with mon.frozen("inputs", t, a, f, detail=what), \
        mon.no_exception("total", what, allow=FAIL):
      ret = model.fit(t, a, f, **opts)
      ok = True
    if not ok:
      mon.event("declared-failures")
      mon.case(("failure", kind, dual), False)
      if kind in ("beat", "noisy") and init is not None and bounds:
        mon.fail("refused", what)
      return
    judge(rng, mon, model, ret, t, a, f, opts, what, calls, init, bounds, kw,
          dual)


def judge(rng, mon, model, ret, t, a, f, opts, what, calls, init, bounds, kw,
          dual):
  kind = what["kind"]
  mon.event("fits")
  mon.case((kind, dual, tuple(sorted(kw)), tuple(sorted(opts.items()))))
  mon.check("self", ret is model, what)
  # Callbacks
  if init is not None:
    mon.event("user-init")
    c = [c for c in calls if c[0] == "init"]
    if mon.check("init-called", len(c) == 1, what):
      mon.check("init-model", c[0][4] is model, what)
      for i, v in enumerate((t, a, f)):
        mon.same("init-args", c[0][1 + i], v, what)
      if not delicate(init, t):
        mon.close("init-residuals", c[0][5], residuals(model, t, a, f, init),
                  rtol=1e-5, atol=1e-7, detail=what)
    mon.same("init-used", np.array(model.initial_params_), init, what)
  if bounds is not None:
    mon.event("user-bounds")
    c = [c for c in calls if c[0] == "bounds"]
    if mon.check("bounds-called", len(c) == 1, what):
      mon.check("bounds-model", c[0][4] is model, what)
      mon.same("bounds-init", np.array(c[0][5]),
               np.array(model.initial_params_), what)
    p = np.array(model.initial_params_)
    w = np.abs(p) * .2 + .3
    w[4:6] = np.abs(p[4:6]) * .3 + 1e-6
    mon.same("bounds-used", np.array(model.bounds_), np.array((p - w, p + w)),
             what)
  x0 = np.array(model.initial_params_, float)
  lo, hi = np.array(model.bounds_, float)
  x = np.array(model.result_.x)
  got = np.array(model.params_, float)
  mon.check("finite", np.all(np.isfinite(got)), {**what, "p": got})
  mon.check("start-inside", np.all((lo < x0) & (x0 < hi)), what)
  mon.check("inside", np.all((lo <= x) & (x <= hi)), {**what, "p": x})
  if bounds is None:
    mon.check("inside-final", np.all(((lo <= got) & (got <= hi))[:6]),
              {**what, "p": got})
    # Default bounds
    mon.check("positive", np.all(lo[:2] >= 0) and np.all(lo[4:6] > 0), what)
    mon.check("default-frequencies",
              np.all(lo[2:4] >= min(np.min(f), *x0[2:4]) - 1 - 1e-9) and
              np.all(hi[2:4] <= max(np.max(f), *x0[2:4]) + 1 + 1e-9),
              {**what, "lo": lo, "hi": hi})
    mon.check("default-phases", np.all((hi - lo)[6:] <= 2 * np.pi + 1e-9), what)
    al = 10**(a / 20)
    top = max(np.max(al), *x0[:2])
    mon.check("default-amplitudes",
              np.all(hi[:2] >= np.max(al)) and np.all(hi[:2] <= 2 * top + 1),
              {**what, "hi": hi, "top": top})
  # Descent
  loss = opts.get("loss", "cauchy")
  c0, c1 = (cost(residuals(model, t, a, f, p), loss) for p in (x0, x))
  if not delicate(x, t):
    mon.event("residuals")
    mon.close("cost", float(model.result_.cost), float(c1), rtol=1e-4,
              atol=1e-9, detail=what)
    if not delicate(x0, t):
      mon.check("descent", c1 <= c0 * (1 + 1e-6) + 1e-9,
                {**what, "before": c0, "after": c1})
  # Association
  if dual and kw.get("disambiguate", True):
    cands = [x, swapped(x)]
    s = [np.sum(residuals(model, t, a, f, p)**2) for p in cands]
    which = [np.array_equal(got, c) for c in cands]
    mon.check("association", any(which), {**what, "x": x, "got": got})
    if not any(delicate(p, t) for p in cands) and abs(
        s[0] - s[1]) > 1e-6 * max(s):
      mon.check("best-association", which[int(np.argmin(s))],
                {**what, "ssr": s, "which": which})
      if s[1] < s[0]:
        mon.event("swaps")
  else:
    mon.same("as-fitted", got, x, what)
  # Predictions
  mon.event("predictions")
  u = np.linspace(0, float(np.max(t)) + .1, 30)
  names = ["x", "am", "fm", "a0", "f1", "p_hat", "pm"]
  names = [str(v) for v in rng.choice(names, int(rng.integers(0, 5)),
                                      replace=False)]
  out = model.predict(u, *names)
  mon.check("outputs", len(out) == max(1, len(names)), what)
  ref = beatsdrop.ModalBeat(*got)
  for n, v in zip(names or ["x"], out):
    mon.close("prediction", v, ref.compute(u, n), rtol=1e-9, atol=1e-9,
              detail={**what, "name": n})
    if n == "am":
      mon.close("prediction-am", v, am(got, u), rtol=1e-5, atol=1e-7,
                detail=what)
  if not names:
    # the sum of the partials, up to the integration of the phase
    mon.check("prediction-level",
              np.all(np.abs(out[0]) <= am(got, u) * (1 + 1e-6) + 1e-7), what)
  col = model.predict(u[:, None])
  mon.close("prediction-column", np.ravel(col[0]), model.predict(u)[0],
            detail=what)
  # Again
  if rng.random() < .3:
    model.fit(t, a, f, **opts)
    mon.close("refit", np.array(model.params_), got, rtol=1e-9, atol=1e-12,
              detail=what)


@CHECK.kind("recovery", quick=12, thorough=300)
def recovery(rng, mon, spec):
  """Clean beats: partials are recovered in most of the cases"""
  good = tot = 0
  log = []
  for _ in range(5):
    n = 200
    t = np.arange(n) * .01
    a0 = 10**rng.uniform(-1, 0)
    d0 = rng.uniform(.8, 2)
    fc, df = rng.uniform(200, 2000), rng.uniform(1.5, 6)
    p = np.array((a0, a0 * rng.uniform(.5, .8), fc + df, fc - df, d0,
                  d0 * rng.uniform(.9, 1.1), 0, rng.uniform(-3, 3)))
    if rng.random() < .5:
      p = p[[1, 0, 3, 2, 5, 4, 7, 6]]
    a, f = 20 * np.log10(am(p, t)), fm(p, t)
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      with mon.no_exception("clean-beat", str(p), allow=FAIL):
        model = regression.DualBeatRegression()
        model.fit(t, a, f)
        tot += 1
        got = regression.sort_params(model.params_)
        want = regression.sort_params(tuple(p))
        got, want = np.array(got), np.array(want)
        ok = (np.all(np.abs(got[:2] / want[:2] - 1) < .1) and
              np.all(np.abs(got[4:6] / want[4:6] - 1) < .15) and
              abs((got[2] - got[3]) - (want[2] - want[3])) < .2 and
              np.all(np.abs(got[2:4] - want[2:4]) < df + .5))
        good += ok
        log.append((ok, got.round(3).tolist(), want.round(3).tolist()))
  mon.event("recoveries", good)
  mon.event("recovery-attempts", tot)
  mon.case(("recovery", spec["i"] if "i" in spec else 0), good > 0)
  mon.check("recovered", good >= 3, log)


@CHECK.kind("sort", quick=300, thorough=5000)
def sort(rng, mon, spec):
  p = truth(rng)
  mon.event("sorted")
  mon.case(("sort", int(rng.integers(1000))))
  e = p[:2]**2 * p[4:6] / 4
  desc = bool(rng.random() < .5)
  swap = p[[1, 0, 3, 2, 5, 4, 7, 6]]
  i = int(rng.integers(4))
  key = [None, lambda q: q[2:4], lambda q: q[:2], lambda q: q[4:6]][i]
  kw = {} if key is None else {"key": key}
  v = e if key is None else key(p)
  if rng.random() < .5:
    kw["descending"] = desc
  else:
    desc = False
  want = p if (v[0] < v[1]) != desc else swap
  src = tuple(p) if rng.random() < .5 else np.array(p)
  got = regression.sort_params(src, **kw)
  mon.same("sorted", np.array(got), want, {"p": p, "key": i, "desc": desc})
  mon.same("idempotent", np.array(regression.sort_params(tuple(got), **kw)),
           want, {"key": i, "desc": desc})
  mon.same("label-invariant",
           np.array(regression.sort_params(tuple(swap), **kw)), want,
           {"key": i, "desc": desc})
