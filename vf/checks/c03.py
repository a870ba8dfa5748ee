"""C03: resynthesis is exactly the sum of the selected damped partials"""
import math

import numpy as np

from sample import sample as smp
from sample.beatsdrop import sample as bds
from vf.core import Check

CHECK = Check(
    "C03",
    rule="random parameter matrices (0 to 60 modes, ties included), time axes "
    "(one sample to thousands, negative, unsorted, integer), orderings, mode "
    "counts, limits and phases; every output sample is compared with a scalar "
    "sum of damped cosines over independently selected modes. Non-trivial: at "
    "least one mode and one sample.",
    require={"samples-compared": 20000, "truncated": 100, "phases-array": 60,
             "analytic": 60, "random-phases": 100, "long-axes": 30, "no-modes": 5,
             "model-limit": 50, "one-sample": 10},
)

ORDERS = ("energies", "freqs", "amps", "decays")


def oracle(x, f, d, a, p, analytic):
  """Direct sum, one mode after the other"""
  y = np.zeros(x.size, complex if analytic else float)
  for fi, di, ai, pi in zip(f, d, a, p):
    ph = 2 * math.pi * fi * x + pi
    env = ai * np.exp(-2 * x / di)
    y = y + env * ((np.cos(ph) + 1j * np.sin(ph)) if analytic else np.cos(ph))
  return y


def tolerance(x, f, d, a):
  if not len(f):
    return np.full(x.shape, 1e-300)
  m = np.abs(x)[:, None]
  env = np.abs(a) * np.exp(-2 * x[:, None] / d)
  return 1e-300 + np.sum(
      env * (1e-10 + 1e-14 * (m * f * 7 + np.abs(m / d))), axis=1)


def matrix(rng, n, rows=3):
  f = rng.uniform(20, 16000, n)
  d = 10**rng.uniform(-2, 1, n)
  a = 10**rng.uniform(-3, 0, n) * (rng.random(n) * 0 + 1)
  m = [f, d, a]
  if rows == 4:
    m.append(rng.uniform(-np.pi, np.pi, n))
  return np.array(m).reshape(rows, n)


def axis(rng):
  n = int(rng.choice([1, 2, 3, 64, 500, 2000]))
  fs = float(rng.choice([100., 8000., 44100.]))
  x = np.arange(n) / fs
  style = rng.integers(0, 5)
  if style == 1:
    x = x + rng.uniform(0, .5)
  elif style == 2:
    x = rng.uniform(-.01, .5, n)
  elif style == 3:
    x = rng.permutation(x)
  elif style == 4 and n < 4:
    x = np.arange(n)
  return x


def compare(mon, y, x, f, d, a, p, analytic, detail):
  xf = np.asarray(x, float)
  want = oracle(xf, f, d, a, p, analytic)
  tol = tolerance(xf, f, d, a)
  got = np.ravel(y)
  mon.check("complex-exactly-when-analytic",
            np.iscomplexobj(y) == analytic, detail)
  if not mon.check("output-size", got.shape == want.shape,
                   lambda: f"{detail} {np.shape(y)} want {want.shape}"):
    return
  if x.size > 1:
    mon.check("output-shape", np.shape(y) == (x.size,),
              lambda: f"{detail} {np.shape(y)}")
  else:
    mon.event("one-sample")
  bad = ~(np.abs(got - want) <= tol)
  mon.event("samples-compared", got.size)
  mon.check("sum-of-partials", not bad.any(),
            lambda: f"{detail} sample {np.argmax(bad)}: {got[np.argmax(bad)]} "
            f"want {want[np.argmax(bad)]} tol {tol[np.argmax(bad)]}")


def feature(order, m):
  return {
      "freqs": m[0],
      "decays": m[1],
      "amps": m[2],
      "energies": m[2] * m[2] * m[1] / 4
  }[order]


@CHECK.kind("synth", quick=400, thorough=8000)
def synth(rng, mon, spec):
  n = int(rng.choice([0, 1, 2, 5, 20, 60]))
  m = matrix(rng, n)
  f, d, a = m
  if rng.random() < .2:
    a[:] = -a
  x = axis(rng)
  analytic = bool(rng.random() < .4)
  ph = [None, rng.uniform(-7, 7, n), list(rng.uniform(-7, 7, n)),
        np.zeros(n)][rng.integers(4)]
  det = f"synth n={n} T={x.size} analytic={analytic} phases={type(ph).__name__}"
  args = [x, f, d, a] + ([ph] if isinstance(ph, np.ndarray) else [])
  with mon.frozen("inputs-untouched", *args, detail=det):
    with mon.no_exception("synthesis-runs", det):
      if rng.random() < .3:
        y = smp.additive_synth(x, f.tolist(), d.tolist(), a.tolist(),
                               phases=ph, analytic=analytic)
      else:
        y = smp.additive_synth(x, f, d, a, phases=ph, analytic=analytic)
  compare(mon, y, x, f, d, a, np.zeros(n) if ph is None else ph, analytic, det)
  mon.event("analytic", analytic)
  mon.event("no-modes", n == 0)
  mon.case((det, f.tolist()[:2]), n)


@CHECK.kind("predict", quick=800, thorough=15000)
def predict(rng, mon, spec):
  beats = rng.random() < .4
  n = int(rng.choice([0, 1, 2, 3, 8, 30]))
  m = matrix(rng, n, 4 if beats else 3)
  limit = None if rng.random() < .5 else int(rng.integers(0, n + 3))
  model = (bds.SAMPLEBeatsDROP if beats else smp.SAMPLE)(max_n_modes=limit)
  model.param_matrix_ = m.copy()
  x = axis(rng)
  order = str(rng.choice(ORDERS))
  reverse = bool(rng.random() < .6)
  kw = {}
  if rng.random() < .7:
    kw["order"] = order
  else:
    order = "energies"
  if rng.random() < .7:
    kw["reverse"] = reverse
  else:
    reverse = True
  n_modes = None if rng.random() < .4 else int(rng.integers(0, n + 3))
  if n_modes is not None or rng.random() < .3:
    kw["n_modes"] = n_modes
  analytic = bool(rng.random() < .3)
  if analytic:
    kw["analytic"] = True
  style = rng.integers(0, 4)
  p = m[3] if beats else np.zeros(n)
  if style == 1:
    p = kw["phases"] = rng.uniform(-7, 7, n)
    mon.event("phases-array")
  elif style == 2:
    p = rng.uniform(-7, 7, n)
    kw["phases"] = p.tolist()
    mon.event("phases-array")
  elif style == 3 and rng.random() < .5:
    kw["phases"] = None
    p = np.zeros(n)
  det = f"predict beats={beats} n={n} limit={limit} T={x.size} style={style} {({k: v for k, v in kw.items() if k != 'phases'})}"
  key = feature(order, m)
  want_n = n if limit is None else limit
  if n_modes is not None:
    want_n = n_modes
  idx = sorted(range(n), key=lambda i: key[i], reverse=reverse)[:want_n]
  mon.event("truncated", want_n < n)
  mon.event("model-limit", limit is not None and n_modes is None)
  mon.event("no-modes", n == 0)
  mon.event("analytic", analytic)
  frozen = [x] + ([kw["phases"]] if style == 1 else [])
  before = {k: repr(v) for k, v in model.get_params().items()}
  with mon.frozen("inputs-untouched", *frozen, detail=det):
    with mon.no_exception("predict-runs", det):
      y = model.predict(x, **kw)
  mon.same("model-untouched", model.param_matrix_, m, det)
  mon.check("parameters-untouched",
            {k: repr(v) for k, v in model.get_params().items()} == before, det)
  compare(mon, y, x, m[0][idx], m[1][idx], m[2][idx], np.asarray(p)[idx],
          analytic, det)
  y2 = model.predict(x, **kw)
  mon.same("repeatable", y2, y, det)
  mon.case((det, m.tolist()[:1]), n)


@CHECK.kind("ordering", quick=200, thorough=4000)
def ordering(rng, mon, spec):
  n = int(rng.choice([0, 1, 2, 7, 40]))
  m = matrix(rng, n)
  if rng.random() < .3 and n:
    m = np.round(m, 1) + .1  # ties
  model = smp.SAMPLE()
  model.param_matrix_ = m
  for order in ORDERS:
    k = feature(order, m)
    mon.close("features", getattr(model, order + "_"), k, 1e-12, 0, order)
    for rev in (False, True):
      s = model.mode_argsort_(order=order, reverse=rev)
      mon.check("permutation", sorted(s) == list(range(n)), f"{order} {s}")
      v = k[np.array(s, int)]
      dv = np.diff(v)
      mon.check("sorted", np.all((-dv if rev else dv) >= -1e-12 * np.abs(
          v[1:])), lambda: f"{order} reverse={rev}: {v}")
  d = model.mode_argsort_()
  k = feature("energies", m)[np.array(d, int)]
  mon.check("default-is-energy-decreasing", np.all(np.diff(k) <= 1e-12 * np.abs(
      k[1:])), f"{k}")
  # setters write the row they are named after
  for r, name in enumerate(("freqs_", "decays_", "amps_")):
    v = rng.uniform(1, 2, n)
    m2 = np.array(model.param_matrix_)
    m2[r] = v
    setattr(model, name, v)
    mon.same("setter", model.param_matrix_, m2, name)
  mon.case((n, m.tolist()[:1]), n > 1)


@CHECK.kind("random-phases", quick=60, thorough=800)
def random_phases(rng, mon, spec):
  n = int(rng.integers(1, 40))
  m = matrix(rng, n)
  f, d, a = m
  x0 = np.zeros(1)
  seed = 0 if rng.random() < .2 else int(rng.integers(0, 2**31))
  st = np.random.get_state()[1].copy()

  def run(**kw):
    return smp.additive_synth(np.arange(50) / 8000., f, d, a, phases="random",
                              **kw)

  mon.same("seeded-reproducible", run(seed=seed), run(seed=seed))
  mon.same("generator-reproducible", run(rng=np.random.default_rng(seed)),
           run(rng=np.random.default_rng(seed)))
  mon.check("seeds-differ", not np.array_equal(run(seed=seed),
                                               run(seed=seed + 1)))
  mon.check("unseeded-differ", not np.array_equal(run(), run()))
  mon.check("global-state-untouched", np.array_equal(
      st, np.random.get_state()[1]))
  # each phase, one mode at a time
  ph = []
  g = np.random.default_rng(seed)
  for _ in range(200):
    z = smp.additive_synth(x0, f[:1], d[:1], a[:1], phases="random", rng=g,
                           analytic=True)
    mon.close("phase-has-amplitude", np.ravel(np.abs(z)), a[:1], 1e-6, 0)
    ph.append(float(np.ravel(np.angle(z))[0] % (2 * np.pi)))
  ph = np.sort(ph)
  mon.event("random-phases", ph.size)
  u = ph / (2 * np.pi)
  ks = np.max(np.abs(u - (np.arange(u.size) + .5) / u.size))
  mon.check("phases-uniform", ks < 2.2 / np.sqrt(u.size), f"KS {ks}")
  # modes are independent: with n modes of one frequency the sum is not n times
  if n > 2:
    z = smp.additive_synth(x0, np.full(n, 100.), np.ones(n), np.ones(n),
                           phases="random", seed=seed, analytic=True)
    mon.check("phases-differ-by-mode", np.abs(np.ravel(z)[0]) < n * (1 - 1e-6))
  bad = False
  try:
    smp.additive_synth(x0, f, d, a, phases="zero")
  except ValueError:
    bad = True
  mon.check("unknown-phase-option-refused", bad)
  model = smp.SAMPLE()
  model.param_matrix_ = m
  k = max(1, n // 2)
  y = model.predict(np.arange(50) / 8000., n_modes=k, phases="random",
                    seed=seed)
  y2 = model.predict(np.arange(50) / 8000., n_modes=k, phases="random",
                     seed=seed)
  mon.same("predict-random-reproducible", y, y2)
  mon.case((n, seed))


@CHECK.kind("long-axis", quick=16, thorough=120)
def long_axis(rng, mon, spec):
  """Each sample depends on its own instant only, however many there are"""
  n = int(rng.integers(1, 4))
  f, d, a = matrix(rng, n)
  size = int(rng.choice([65536, 65537, 100003, 131073, 262145, 400001]))
  sr = float(rng.choice([8000, 44100, 96000]))
  x = np.arange(size) / sr
  if rng.random() < .3:
    x = rng.permutation(x)
  idx = np.unique(np.concatenate([
      rng.integers(0, size, 300), [0, size - 1],
      np.flatnonzero(np.arange(size) % 4096 == 0),
      np.flatnonzero(np.arange(size) % 4096 == 4095)]))
  analytic = bool(rng.random() < .5)
  seed = int(rng.integers(2**31))
  for ph in ("random", "generator", "array", None):
    if ph == "random":
      kw = lambda: {"phases": "random", "seed": seed}
    elif ph == "generator":
      kw = lambda: {"phases": "random", "rng": np.random.default_rng(seed)}
    elif ph == "array":
      p = rng.uniform(-4, 4, n)
      kw = lambda: {"phases": p}
    else:
      kw = lambda: {}
    det = f"long n={n} T={size} sr={sr} phases={ph} analytic={analytic}"
    with mon.no_exception("long-synth-runs", det):
      y = smp.additive_synth(x, f, d, a, analytic=analytic, **kw())
      z = smp.additive_synth(x[idx], f, d, a, analytic=analytic, **kw())
      if mon.check("one-sample-per-instant", np.shape(y) == (size,), det):
        err = np.max(np.abs(y[idx] - z))
        mon.check("pointwise", err <= 1e-9 * np.sum(np.abs(a)),
                  lambda: f"{det}: {err}")
        mon.event("long-axes")
  mon.case((n, size, seed))


@CHECK.kind("energy", quick=60, thorough=800)
def energy(rng, mon, spec):
  """Modal energy is the integral of the squared envelope"""
  n = int(rng.integers(1, 6))
  a = rng.uniform(.1, 2, n)
  d = rng.uniform(.05, 2, n)
  with mon.frozen("inputs-untouched", a, d):
    e = smp.modal_energy(a, d)
  for i in range(n):
    t = np.linspace(0, 12 * d[i], 20001)
    v = (a[i] * np.exp(-2 * t / d[i]))**2
    mon.close("energy-is-integral", e[i], np.trapz(v, t), 1e-5, 0)
  mon.case((a.tolist(), d.tolist()))
