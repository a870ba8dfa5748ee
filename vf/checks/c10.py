"""C10: envelope regression returns a feasible and near-optimal hinge fit"""
import warnings

import numpy as np

from sample import hinge
from vf.core import Check

CHECK = Check(
    "C10",
    rule="random envelopes (noiseless hinges and lines, noisy, constant, two "
    "points, duplicated times, unsorted, rising, random walks) and custom "
    "initialisers, bounds, methods and linear regressors; oracle: own least "
    "squares line, bound box, cost comparison with the starting point, and "
    "true parameters. Non-trivial: the envelope is not constant.",
    require={"cost-not-worse": 300, "noiseless-recovered": 100,
             "noiseless-lines": 30, "noisy-batches": 4, "custom-bounds": 20},
    assumptions=["noiseless recovery is demanded when the true parameters lie "
                 "inside the declared bounds with at least 4 samples before "
                 "the knee and 6 in total"],
)


def line(t, y):
  a = np.stack((t - t.mean(), np.ones_like(t)), 1)
  k, m = np.linalg.lstsq(a, y, rcond=None)[0]
  return k, m - k * t.mean()


def cost(p, t, y):
  return np.sum((np.where(t < p[0], p[1] * t, p[1] * p[0]) + p[2] - y)**2)


def make(rng):
  n = int(rng.choice([2, 3, 5, 8, rng.integers(6, 200)]))
  t = np.arange(n) * float(rng.choice([.001, .01, .05])) + float(
      rng.choice([0, .02, rng.uniform(0, 2)]))
  if rng.random() < .3 and n > 5:  # gaps from merged tracks
    keep = rng.random(n) < .7
    keep[:3] = True
    t = t[keep]
  return t


def fit(t, y, **kw):
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    return hinge.HingeRegression(**kw).fit(t[:, None], y)


def feasible(mon, r, t, y, detail):
  k, q = line(t, y) if np.ptp(t) else (0., y.mean())
  lr = r.linear_regressor
  lk, lq = float(np.squeeze(lr.coef_)), float(np.squeeze(lr.intercept_))
  tol = 1e-6 * (1 + np.ptp(y)) / (np.ptp(t) or 1)
  mon.check("line-is-least-squares", abs(lk - k) <= tol + 1e-7 * abs(k),
            lambda: f"{detail} slope {lk} want {k}")
  lo, hi = r.bounds(t[:, None], y, lk, lq)
  got = (float(r.a_), float(r.k_), float(r.q_))
  for name, l, v, h in zip("akq", lo, got, hi):
    s = 1e-12 * max(abs(l), abs(h))
    mon.check("inside-bounds", np.isfinite(v) and l - s <= v <= h + s,
              lambda: f"{detail} {name}={v} not in [{l}, {h}]")
  c0 = cost(r.coeffs_init(t[:, None], y, lk, lq), t, y)
  c1 = cost(got, t, y)
  o = np.random.default_rng(t.size).permutation(t.size)
  mon.check("start-order-free", np.allclose(
      r.coeffs_init(t[o][:, None], y[o], lk, lq),
      r.coeffs_init(t[:, None], y, lk, lq), 1e-9, 1e-9 * np.ptp(t)) and
            np.allclose(r.bounds(t[o][:, None], y[o], lk, lq), (lo, hi), 1e-9,
                        1e-9 * np.ptp(t)), detail)
  mon.check("cost-not-worse", c1 <= c0 * (1 + 1e-9) + 1e-18 * np.sum(y**2),
            lambda: f"{detail} cost {c1} from {c0}")
  return got, (lo, hi), c0, c1


def predicted(mon, r, t, rng, detail):
  a, k, q = r.a_, r.k_, r.q_
  span = np.ptp(t) or 1
  x = np.concatenate((t, rng.uniform(t.min() - span, t.max() + span, 7)))
  y = r.predict(x)
  mon.close("before-knee-is-line", y[x <= a], k * x[x <= a] + q, 1e-9, 1e-9,
            detail)
  mon.close("after-knee-is-flat", y[x > a], np.full(np.sum(x > a), k * a + q),
            1e-9, 1e-9, detail)
  mon.same("predict-column", np.ravel(r.predict(x[:, None])), y, detail)
  mon.same("predict-is-hinge", hinge.hinge_function(x, a, k, q), y, detail)


@CHECK.kind("any-envelope", quick=2000, thorough=40000)
def any_envelope(rng, mon, spec):
  t = make(rng)
  n = t.size
  style = str(rng.choice(["noise", "walk", "constant", "rising", "noisy-hinge",
                          "dup-times", "tiny-variation", "outlier"]))
  y = -rng.uniform(0, 100) + np.zeros(n)
  if style == "noise":
    y = y + rng.normal(0, 10, n)
  elif style == "walk":
    y = y + np.cumsum(rng.normal(0, 3, n))
  elif style == "rising":
    y = y + rng.uniform(1, 100) * t
  elif style == "noisy-hinge":
    y = hinge.hinge_function(t, rng.uniform(t[0], t[-1]), -rng.uniform(1, 300),
                             rng.uniform(-20, 0)) + rng.normal(0, 2, n)
  elif style == "dup-times":
    t = np.repeat(t, 2)
    y = rng.normal(-30, 5, t.size)
  elif style == "tiny-variation":
    y = y + rng.normal(0, 1e-12, n)
  elif style == "outlier":
    y = y - 50. * t
    y[rng.integers(n)] += 200
  if rng.random() < .4:
    p = rng.permutation(t.size)
    t, y = t[p], y[p]
  d = f"{style} n={t.size}"
  with mon.frozen("inputs-untouched", t, y, detail=d):
    with mon.no_exception("fit-runs", d):
      r = fit(t, y)
  feasible(mon, r, t, y, d)
  predicted(mon, r, t, rng, d)
  p = np.argsort(t, kind="stable")
  r2 = fit(t[p], y[p])
  c1, c2 = cost(r.coeffs_, t, y), cost(r2.coeffs_, t, y)
  if style in ("noisy-hinge", "noise", "walk", "rising"):
    if np.isclose(c1, c2, 2e-2, 1e-9 * np.sum(y**2)):
      mon.event("order-free")
    else:
      mon.event("order-dependent")
      # ill-conditioned cases may stop elsewhere, but not another envelope
      mon.check("order-free", c1 < 2 * c2 and c2 < 2 * c1,
                lambda: f"{d} costs {c1} {c2}")
  mon.case((style, t.size, y.tolist()[:3]), style != "constant")


@CHECK.kind("noiseless", quick=1500, thorough=30000)
def noiseless(rng, mon, spec):
  t = make(rng)
  n = t.size
  flat = rng.random() < .7
  k = -10**rng.uniform(0, 3)
  q = rng.uniform(-40, 20)
  a = rng.uniform(t[0], t[-1]) if flat else t[-1] + rng.uniform(0, 1)
  y = k * np.minimum(t, a) + q
  d = f"n={n} a={a} k={k} q={q} t0={t[0]} t1={t[-1]}"
  r = fit(t, y)
  got, (lo, hi), _, _ = feasible(mon, r, t, y, d)
  predicted(mon, r, t, rng, d)
  if n < 6 or np.sum(t < a) < 4:
    mon.case(d, False)
    return
  # the documented default box: a knee among the samples, an intercept not
  # farther than the largest residual of the line, a slope up to 8 times
  # steeper than the line
  lk, lq = line(t, y)
  dq = np.max(np.abs(y - lq))
  if not (8 * lk <= k <= lk * (1 - 1e-12) and abs(q - lq) <= dq):
    mon.event("outside-box")
    return
  mon.event("noiseless-recovered" if flat else "noiseless-lines")
  mon.close("curve-recovered", r.predict(t), y, 0, 1e-2 * np.ptp(y), d)
  mon.close("slope-recovered", got[1], k, 4e-2, 0, d)
  mon.close("intercept-recovered", got[2], q, 0, 2e-2 * np.ptp(y), d)
  if flat and t[-1] - a > .02 * np.ptp(t):
    mon.close("knee-recovered", got[0], a, 0, 2e-2 * np.ptp(t), d)
  off = float(rng.choice([-60, -7, 30]))
  r2 = fit(t, y + off)
  mon.close("level-shift", r2.predict(t) - off, y, 0, 1e-2 * np.ptp(y), d)
  s = float(rng.choice([.25, 3, 10]))
  r3 = fit(t * s, y)
  mon.close("time-unit", r3.predict(t * s), y, 0, 1e-2 * np.ptp(y), d)
  mon.case(d)


@CHECK.kind("noisy-batch", quick=16, thorough=200)
def noisy_batch(rng, mon, spec):
  """Near-optimality with noise: compared with the true curve, on batches"""
  good = tot = same = 0
  for _ in range(40):
    n = int(rng.integers(40, 150))
    t = np.arange(n) * .01
    k = -rng.uniform(30, 200)
    a = rng.uniform(.4, .95) * t[-1]
    q = rng.uniform(-30, 0)
    y = k * np.minimum(t, a) + q + rng.normal(0, 1, n)
    r = fit(t, y)
    got, _, _, c1 = feasible(mon, r, t, y, "noisy")
    good += c1 <= 1.1 * cost((a, k, q), t, y)
    p = rng.permutation(n)
    same += np.allclose(fit(t[p], y[p]).predict(t), r.predict(t), 0,
                        1e-2 * np.ptp(y))
    tot += 1
    mon.case((n, k, a))
  mon.event("noisy-batches")
  mon.check("noisy-near-optimal", good >= .85 * tot,
            lambda: f"{good} of {tot} as good as the truth")
  mon.check("noisy-order-free", same >= .85 * tot,
            lambda: f"{same} of {tot} equal in another order")


@CHECK.kind("custom", quick=300, thorough=4000)
def custom(rng, mon, spec):
  """User-supplied initialiser, bounds, method, linear regressor"""
  t = make(rng)
  if t.size < 4:
    t = np.arange(8) * .1
  y = hinge.hinge_function(t, rng.uniform(t[0], t[-1]), -rng.uniform(1, 50),
                           0.) + rng.normal(0, .5, t.size)
  calls = []
  k0, q0 = line(t, y)
  lo = (t[0] + .01 * np.ptp(t), k0 - 5, q0 - 3)
  hi = (t[-1] - .3 * np.ptp(t), k0 + 3, q0 + 2)

  def init(x_, y_, k, q):
    calls.append(("init", np.array(x_), np.array(y_), float(k), float(q)))
    return tuple((np.array(lo) + hi) / 2)

  def bounds(x_, y_, k, q):
    calls.append(("bounds", np.array(x_), np.array(y_), float(k), float(q)))
    return lo, hi

  class Lin:
    """Minimal regressor with its own attribute names"""

    def fit(self, x_, y_):
      self.m_, self.c_ = line(np.squeeze(x_), np.squeeze(y_))
      return self

  method = str(rng.choice(["dogbox", "trf"]))
  own = rng.random() < .5
  kw = {}
  if own:
    kw = dict(linear_regressor=Lin(), linear_regressor_k="m_",
              linear_regressor_q="c_")
  d = f"custom {method} own={own} n={t.size}"
  with mon.no_exception("fit-runs", d):
    r = fit(t, y, coeffs_init=init, bounds=bounds, method=method, **kw)
  for i, (v, l, h) in enumerate(zip(r.coeffs_, lo, hi)):
    mon.check("custom-bounds", l - 1e-12 * abs(l) <= v <= h + 1e-12 * abs(h),
              lambda: f"{d} parameter {i}: {v} not in [{l}, {h}]")
  mon.check("custom-callables-used", {c[0] for c in calls} == {"init", "bounds"},
            d)
  for c in calls:
    mon.close("custom-receives-line", c[3:], (k0, q0), 1e-6, 1e-6, d)
    mon.same("custom-receives-data", np.ravel(c[1]), t, d)
    mon.same("custom-receives-level", np.ravel(c[2]), y, d)
  mon.check("custom-descends", cost(r.coeffs_, t, y) <= cost(
      (np.array(lo) + hi) / 2, t, y) * (1 + 1e-9), d)
  mon.case(d)
