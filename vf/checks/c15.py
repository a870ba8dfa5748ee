"""C15: auditory filters and banks have the declared shape"""
import copy
import pickle

import numpy as np
from sklearn.exceptions import ConvergenceWarning

from sample import psycho
from vf.core import Check

CHECK = Check(
    "C15",
    rule="random gammatone filters (order 1-8, any centre frequency, numeric, "
    "default and callable bandwidth, leading time, phase and scale) and banks "
    "of them; impulse responses are compared with the closed form, with the "
    "closed form of their spectrum, and with their declared peak and decay "
    "times. Non-trivial: every filter.",
    require={"filters": 100, "samples": 8912, "spectra": 20, "decays": 50,
             "banks": 40, "bank-filters": 400, "copies": 60,
             "callable-parameters": 50, "other-scales": 100, "setters": 23, "delay-setters": 5},
    assumptions=["decay times are judged for orders above one (an order-one "
                 "filter has no default search range and declares failure)"],
)


def rnd(rng, lo=1.3, hi=4):
  f = float(10**rng.uniform(lo, hi))
  n = int(rng.integers(1, 9))
  kw = {}
  b = psycho.erb(f)
  z = rng.integers(0, 3)
  if z:
    b = float(10**rng.uniform(.3, 2.7))
    kw["bandwidth"] = b if z == 1 else (lambda g, b=b: b + 0 * g.f)
  raw = (n - 1) / (2 * np.pi * b)
  t_c = raw
  z = rng.integers(0, 4)
  if z > 1:
    t_c = [0., raw * rng.uniform(0, 2), rng.uniform(0, .02)][rng.integers(3)]
    kw["t_c"] = t_c if z == 2 else (lambda g, v=t_c: v + 0 * g.n)
  phi = -2 * np.pi * f * t_c
  z = rng.integers(0, 4)
  if z > 1:
    phi = float(rng.choice([0., np.pi / 2, rng.uniform(-9, 9)]))
    kw["phi"] = phi if z == 2 else (lambda g, v=phi: v)
  a = 1.
  z = rng.integers(0, 4)
  if z > 1:
    a = float(10**rng.uniform(-3, 6))
    kw["a"] = a if z == 2 else (lambda g, v=a: v)
  if rng.random() < .3:
    kw["normalize"] = True
  return f, n, float(b), float(t_c), float(phi), a, kw


def env(t, n, b, t_c):
  """Closed form of the envelope"""
  u = np.asarray(t, float) + t_c
  with np.errstate(all="ignore"):
    e = np.exp((n - 1) * np.log(np.maximum(u, 1e-300)) - 2 * np.pi * b * u)
  if n == 1:
    e = np.exp(-2 * np.pi * b * np.maximum(u, 0))
  return np.where(u > 0, e, np.where(u == 0, float(n == 1), 0))


def times(rng, b, t_c, n):
  k = int(rng.integers(1, 200))
  z = rng.integers(0, 4)
  top = (n + 8) / (2 * np.pi * b)
  if z == 0:
    return np.linspace(-t_c - top / 4, top, k)
  if z == 1:
    return rng.uniform(-t_c - top / 4, top, k)
  if z == 2:
    return np.linspace(-300, 300, k)  # long before the onset
  return np.arange(k) / 48000 - t_c


@CHECK.kind("filter", quick=200, thorough=4000)
def filters(rng, mon, spec):
  """Closed form of single filters"""
  f, n, b, t_c, phi, a, kw = rnd(rng)
  g = psycho.GammatoneFilter(f=f, n=n, **kw)
  mon.event("filters")
  mon.event("callable-parameters", any(map(callable, kw.values())))
  det = f"f={f} n={n} b={b} t_c={t_c} phi={phi} a={a} {sorted(kw)}"
  if rng.random() < .3:
    # change the parameters of an existing filter
    g = psycho.GammatoneFilter(f=99, n=3, normalize=kw.get("normalize", False))
    g.f, g.n = f, n
    for k in ("bandwidth", "t_c", "phi", "a"):
      setattr(g, k, kw.get(k))
    if "t_c" in kw and not callable(kw["t_c"]) and rng.random() < .7:
      # the leading time that gives the wanted delay
      raw = (n - 1) / (2 * np.pi * b)
      g.t_c = None
      g.group_delay = raw - t_c
      t_c = float(g.t_c)
      mon.close("leading-time-of-delay", t_c, kw["t_c"], 1e-12,
                1e-12 * raw + 1e-15, det)
      if "phi" not in kw:
        phi = -2 * np.pi * f * t_c
      mon.event("delay-setters")
    mon.event("setters")
  for k, v in (("bandwidth", b), ("t_c", t_c), ("phi", phi)):
    mon.close(k, getattr(g, k), v, 1e-12, 1e-12, det)
  raw = (n - 1) / (2 * np.pi * b)
  mon.close("raw-group-delay", g.raw_group_delay, raw, 1e-12, 0, det)
  mon.close("group-delay", g.group_delay, raw - t_c, 1e-12, 1e-12 * raw + 1e-15,
            det)
  t = times(rng, b, t_c, n)
  e = env(t, n, b, t_c)
  with np.errstate(all="ignore"):
    with mon.frozen("time-untouched", t, detail=det):
      y = g.envelope(t)
      r, c = g.wavefun(t), g.wavefun(t, analytic=True)
  mon.event("samples", t.size)
  # relative error of the power and of the exponential
  tol = 1e-9
  mon.close("envelope", y, e, tol, 1e-300, det)
  ph = 2 * np.pi * f * t + phi
  at = e * (1e-9 + 1e-12 * np.abs(ph)) + 1e-300
  mon.check("wave", np.all(np.abs(r - e * np.cos(ph)) <= at), det)
  mon.check("analytic-wave", np.all(np.abs(c - e * np.exp(1j * ph)) <= 2 * at),
            det)
  mon.check("real-part", np.all(np.abs(c.real - r) <= at), det)
  mon.check("peak-at-group-delay", np.all(
      y <= g.envelope(g.group_delay) * (1 + 1e-9) + 1e-300), det)
  mon.check("real-and-complex", r.dtype.kind == "f" and c.dtype.kind == "c",
            det)
  mon.close("zero-phase", np.cos(2 * np.pi * f * 0 + phi) * env(0., n, b, t_c),
            g.wavefun(np.zeros(1))[0], 1e-9, 1e-300, det)
  # integers are times too
  ti = np.arange(-2, 3)
  with np.errstate(all="ignore"):
    with mon.no_exception("integer-times", det):
      mon.close("integer-times", g.envelope(ti), env(ti, n, b, t_c), tol,
                1e-300, det)
      mon.close("integer-times", g.envelope(1), env(1, n, b, t_c), tol, 1e-300,
                det)
    if t.size > 2 and np.any(e > 1e-100):
      for analytic in (False, True):
        ir = g.ir(t, analytic=analytic)
        w = e * (np.exp(1j * ph) if analytic else np.cos(ph))
        if kw.get("normalize"):
          w = w / np.sqrt(np.sum(np.abs(w)**2))
          mon.close("unit-energy", np.sum(np.abs(ir)**2), a * a, 1e-6, 0, det)
        for v in (0, 0., -2., lambda g: 0.):
          h = psycho.GammatoneFilter(f=f, n=n, **{**kw, "a": v})
          v = v(h) if callable(v) else v
          mon.close("other-scales", h.ir(t, analytic=analytic), ir / a * v,
                    1e-9, 1e-12 * abs(v) * np.max(np.abs(ir)) / a, det)
          mon.event("other-scales")
        mon.check("scaled", np.all(np.abs(ir - a * w) <= 1e-6 * a * np.max(
            np.abs(w))), det)
  mon.case((f, n, b))


@CHECK.kind("decay", quick=100, thorough=2000)
def decay(rng, mon, spec):
  """Decay times and response lengths"""
  f, n, b, t_c, phi, a, kw = rnd(rng, 1.7, 3.6)
  n = max(n, 2)
  if "t_c" not in kw:
    t_c = (n - 1) / (2 * np.pi * b)
    if "phi" not in kw:
      phi = -2 * np.pi * f * t_c
  g = psycho.GammatoneFilter(f=f, n=n, **kw)
  floor = float(rng.choice([-60, -60, -20, -90]))
  det = f"f={f} n={n} b={b} t_c={t_c} floor={floor}"
  t = g.t60() if floor == -60 else g.t60(floor=floor)
  pk = g.raw_group_delay - t_c
  lev = 20 * np.log10(env(t, n, b, t_c) / env(pk, n, b, t_c))
  mon.close("level-at-decay-time", lev, floor, 0, 2e-3, det)
  mon.check("after-the-peak", t > pk, det)
  mon.event("decays")
  # Searches of few steps: as close as declared, or refused
  th = float(10**rng.uniform(-4, 1))
  steps = int(rng.integers(1, 20))
  kws = {"steps": steps, "floor": floor, "warn_th": th}
  if rng.random() < .3:
    kws["initial_range"] = float((t - pk) * rng.uniform(.05, 3))
  try:
    u = g.t60(**kws)
    lev = 20 * np.log10(env(u, n, b, t_c) / env(pk, n, b, t_c))
    mon.check("declared-precision", abs(lev - floor) <= th * 1.01 + 1e-9,
              lambda: f"{det} {kws}: {u} is at {lev} dB")
    mon.event("short-searches")
  except ConvergenceWarning:
    mon.event("refused-searches")
  kws["warn_th"] = None
  with mon.no_exception("unchecked-search", f"{det} {kws}"):
    u = g.t60(**kws)
    mon.check("search-after-peak", u > pk, lambda: f"{det} {kws}: {u}")
  fs = float(rng.choice([8000, 22050, 44100]))
  q = g.ir_size(fs=fs)
  t6 = g.t60()
  lo = (t6 + t_c) * fs
  mon.check("response-covers-decay", lo - 1.01 <= q <= lo + fs / f / 4 + 1.01,
            lambda: f"{det} fs={fs}: {q} for {lo}")
  ir = g.ir(fs=fs)
  ir2 = g.ir(np.arange(q) / fs - t_c)
  mon.close("default-time-axis", ir, ir2, 1e-9, 1e-12 * np.abs(ir2).max(), det)
  try:
    g.ir()
    mon.fail("no-time-axis", det)
  except ValueError:
    pass
  mon.case((f, n, b))


@CHECK.kind("spectrum", quick=40, thorough=800)
def spectrum(rng, mon, spec):
  """Centre frequency, bandwidth and order, seen from the spectrum"""
  f = float(10**rng.uniform(2, 3.5))
  n = int(rng.integers(2, 7))
  b = float(rng.uniform(.01, .1) * f)
  g = psycho.GammatoneFilter(f=f, n=n, bandwidth=b)
  fs = 12 * f
  ir = g.ir(fs=fs, analytic=True, floor=-100)
  t = np.arange(ir.size) / fs
  det = f"f={f} n={n} b={b}"

  def level(v):
    return np.abs(np.sum(ir * np.exp(-2j * np.pi * v * t)))

  top = level(f)
  for v in rng.uniform(-3, 3, 8):
    mon.close("frequency-response", level(f + v * b) / top,
              (1 + v * v)**(-n / 2), .02, .003, f"{det} offset {v} bandwidths")
  mon.close("half-power-per-order", level(f + b) / top, 2**(-n / 2), .02, 0,
            det)
  mon.event("spectra")
  mon.case((f, n, b))


def transforms():
  return [(psycho.hz2cams, psycho.cams2hz), (psycho.hz2mel, psycho.mel2hz),
          (psycho.hz2bark, psycho.bark2hz), (np.log, np.exp)]


@CHECK.kind("bank", quick=80, thorough=1500)
def bank(rng, mon, spec):
  """Banks and their precomputed responses"""
  z = rng.integers(0, 4)
  kw = {}
  if rng.random() < .5:
    kw["normalize"] = True
  if rng.random() < .4:
    kw["n"] = int(rng.integers(2, 6))
  if rng.random() < .4:
    kw["bandwidth"] = [lambda g: 30 + .1 * g.f, 120.,
                       lambda g: psycho.erb(g.f, degree="linear")][
                           rng.integers(3)]
  if rng.random() < .3:
    kw["t_c"] = float(rng.uniform(0, .004))
  lim = (float(rng.uniform(50, 300)), float(rng.uniform(1000, 8000)))
  tr = transforms()[rng.integers(4)]
  if z == 0:
    want = np.sort(10**rng.uniform(1.8, 3.8, rng.integers(1, 8)))
    if rng.random() < .3:
      rng.shuffle(want)
    given = [want, list(want), tuple(want), want.copy()][rng.integers(4)]
    b = psycho.GammatoneFilterbank(freqs=given, **kw)
    if given is not want and not isinstance(given, tuple):
      given[0] = 7.  # the caller's own
  elif z == 1:
    want = 10**rng.uniform(1.8, 3.8, int(rng.integers(1, 8)))
    given = [psycho.GammatoneFilter(f=f, **kw) for f in want]
    form = [list, tuple, iter, lambda x: x][rng.integers(4)]
    b = psycho.GammatoneFilterbank(filters=form(given))
    given.reverse()
    given.append(psycho.GammatoneFilter(f=77))
    given = given[-2::-1]
    mon.check("given-filters", list(b) == given, lambda: f"{len(b)}")
  else:
    args = {"flim": lim}
    if z == 2:
      n = int(rng.integers(1, 20))
      args["n_filters"] = n
      args["freq_transform"] = tr
    else:
      tr = transforms()[0]
      lo, hi = tr[0](lim[0]), tr[0](lim[1])
      n = int(np.ceil(2 * (hi - lo) - 1))
    b = psycho.GammatoneFilterbank(**args, **kw)
    lo, hi = tr[0](np.array(lim))
    want = tr[1](lo + (np.arange(n) + .5) / (n + 1) * (hi - lo))
    mon.check("number-of-filters", len(b) == n, f"{len(b)} want {n}")
  det = f"{z} {sorted(kw)} {want}"
  mon.event("banks")
  mon.event("bank-filters", len(b))
  mon.close("frequencies", np.array(b.f), want, 1e-9, 0, det)
  fl = list(b)
  mon.check("collection", len(fl) == len(b) and all(
      b[i] is g for i, g in enumerate(fl)) and list(b) == fl, det)
  for k in ("f", "t_c", "bandwidth", "phi", "group_delay", "n", "normalize"):
    mon.same("attribute-of-every-filter", np.array(getattr(b, k)),
             np.array([getattr(g, k) for g in fl]), f"{k} {det}")
  try:
    b.no_such_attribute  # pylint: disable=W0104
    mon.fail("unknown-attribute", det)
  except AttributeError:
    pass
  plain = not any(map(callable, kw.values()))
  with mon.no_exception("bank-copies", det):
    cs = [copy.copy(b), copy.deepcopy(b)]
    if plain:
      cs.append(pickle.loads(pickle.dumps(b)))
    for c in cs:
      mon.event("copies")
      mon.same("bank-copies", np.array(c.f), np.array(b.f), det)
  fs = float(rng.choice([16000, 22050]))
  analytic = bool(rng.random() < .5)
  p = b.precompute(fs=fs, analytic=analytic)
  mon.same("precomputed-frequencies", np.array(p.freqs), np.array(b.f), det)
  lead = np.ceil(np.array(b.t_c) * fs - 1e-9).astype(int)
  lead2 = np.ceil(np.array(b.t_c) * fs).astype(int)
  mon.check("responses-aligned", np.min(p.offsets) == 0 and (
      np.ptp(np.array(p.offsets) + lead) == 0 or
      np.ptp(np.array(p.offsets) + lead2) == 0), lambda: f"{det} {p.offsets}")
  mon.check("precomputed-number", len(p) == len(b) == len(p.irs), det)
  for g, ir, le in zip(b, p.irs, lead2):
    t = (np.arange(ir.size) - le) / fs
    w = env(t, g.n, g.bandwidth, g.t_c) * np.exp(
        1j * (2 * np.pi * g.f * t + g.phi))
    if not analytic:
      w = w.real
    if g.normalize:
      w = w / np.sqrt(np.sum(np.abs(w)**2))
    mon.check("precomputed-response", np.iscomplexobj(ir) == analytic and
              np.all(np.abs(ir - w) <= 1e-6 * np.abs(w).max()),
              lambda: f"{det} f={g.f}")
    mon.check("precomputed-length", ir.size == g.ir_size(fs=fs), det)
  mon.case(want.tolist())
