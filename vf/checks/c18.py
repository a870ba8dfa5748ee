"""C18: evaluation losses are proper distances"""
import functools
import multiprocessing as mp
import multiprocessing.pool
import warnings

import numpy as np
from scipy import signal

from sample import psycho
from sample.evaluation import metrics
from vf import audio
from vf.checks.c16 import bank, reference
from vf.core import Check

CHECK = Check(
    "C18",
    rule="random pairs and triples of signals of many kinds, norms, windows, "
    "floors, scales and worker counts: every loss is compared with an "
    "independent formulation and with the axioms of a distance; multi-scale "
    "losses with the sum over scales, in every execution mode. Non-trivial: "
    "the signals differ.",
    require={"norms": 120, "stft-losses": 70, "multi-scale": 17,
             "parallel": 3, "cochleagram-losses": 45, "triangle": 150,
             "orders": 70, "integers": 20},
    assumptions=["the triangle inequality is required for norms with exponent "
                 "at least one", "signals compared have the same length, at "
                 "least one window long"],
    serial=False,
)


def lp(x, y, p):
  d = np.abs(np.asarray(x).astype(complex) - np.asarray(y).astype(complex))
  m = np.max(d, initial=0)
  if m == 0:
    return 0.
  return float(m * np.sum((d / m)**p)**(1 / p))


def pair(rng, n, kind=None):
  """Three signals of the same length"""
  x, y, z = (audio.hostile(rng, 8000, n=n)[1]
             for _ in range(3))
  x, y, z = (np.resize(v, n) for v in (x, y, z))
  r = rng.integers(0, 6)
  if r == 0:
    y = x * (1 + 1e-3)
  elif r == 1:
    y = np.zeros(n)
  elif r == 2:
    y = x + rng.normal(size=n) * 1e-6
  return x, y, z


@CHECK.kind("norm", quick=240, thorough=6000)
def norm(rng, mon, spec):
  n = int(rng.choice([1, 2, rng.integers(1, 300)]))
  shape = (n,) if rng.random() < .6 else (n, int(rng.integers(1, 20)))
  p = [1, 1., 2, 2., 3, .5, float(rng.uniform(1, 8))][rng.integers(7)]
  kind = str(rng.choice(["float", "int", "int16", "uint8", "float32",
                         "complex", "mixed", "list"]))
  x, y, z = rng.normal(size=(3, *shape)) * 10.**rng.integers(-6, 6)
  if kind in ("int", "int16", "uint8"):
    t = {"int": np.int64, "int16": np.int16, "uint8": np.uint8}[kind]
    i = np.iinfo(t)
    x, y, z = rng.integers(max(i.min, -10**6), min(i.max, 10**6), (3, *shape),
                           dtype=np.int64).astype(t)
    mon.event("integers")
  elif kind == "float32":
    x, y, z = (v.astype(np.float32) for v in (x, y, z))
  elif kind == "complex":
    x, y, z = (v + 1j * rng.normal(size=shape) for v in (x, y, z))
  elif kind == "mixed":
    x = np.round(x).astype(int)
    y = y.astype(np.float32)
  if rng.random() < .1:
    y = x.copy()
  mon.case(("lp", kind, p, shape), nontrivial=bool(np.any(x != y)))
  what = {"kind": kind, "p": p, "shape": shape}
  for v in (x, y, z):
    v.setflags(write=False)
  a = (x.tolist(), y.tolist()) if kind == "list" else (x, y)
  x0, y0 = x.copy(), y.copy()
  d = metrics.lp_distance(*a, p)
  mon.event("norms")
  rt = 1e-4 if kind in ("float32", "mixed") else 1e-9
  mon.check("scalar-real", np.ndim(d) == 0 and np.isrealobj(d),
            {**what, "got": repr(d)})
  mon.close("norm-value", np.real(d), lp(x, y, p), rtol=rt, atol=0,
            detail=what)
  mon.check("non-negative", np.real(d) >= 0, what)
  mon.close("norm-symmetric", metrics.lp_distance(*a[::-1], p=p), d, rtol=rt,
            atol=0, detail=what)
  mon.check("norm-zero", metrics.lp_distance(a[0], a[0], p) == 0, what)
  mon.check("norm-definite", (np.real(d) == 0) == bool(np.all(x == y)), what)
  mon.check("norm-inputs", np.array_equal(x, x0) and np.array_equal(y, y0),
            what)
  if p == 1:
    mon.close("norm-default", metrics.lp_distance(*a), d, rtol=1e-12, atol=0,
              detail=what)
  if p >= 1:
    mon.event("triangle")
    e = metrics.lp_distance(x, z, p) + metrics.lp_distance(z, y, p)
    mon.check("norm-triangle", d <= e * (1 + 10 * rt), what)


def mags(x, w, n, hop):
  """Magnitude spectrogram, zero padded on both ends, scaled to unit response
  to a constant"""
  k = w.size
  x = np.asarray(x, float)
  v = np.concatenate((np.zeros(k // 2), x, np.zeros(k // 2)))
  v = np.concatenate((v, np.zeros((-(v.size - k) % hop) % k)))
  m = 1 + (v.size - k) // hop
  return np.abs(np.array(
      [np.fft.rfft(v[i * hop:i * hop + k] * w, n) for i in range(m)])) / \
      np.sum(w)


def db(m, floor):
  return 20 * np.log10(np.maximum(m, 10**(floor / 20)))


def stft_opts(rng, nmax):
  """Random options and what they declare: window, size, hop, alpha, p, floor"""
  n = int(2**rng.integers(4, int(np.log2(nmax)) + 1))
  kw = {"n": n} if n != 2048 or rng.random() < .5 else {}
  k = n
  name = "hamming"
  w = None
  z = rng.integers(0, 4)
  if z == 0:
    k = kw["wsize"] = int(rng.integers(max(4, n // 3), n + 1))
  elif z == 1:
    name = kw["wtype"] = str(rng.choice(["hann", "blackman", "boxcar"]))
  elif z == 2:
    k = int(rng.integers(max(4, n // 3), n + 1))
    w = kw["w"] = rng.uniform(.1, 1, k)
  if w is None:
    w = signal.get_window(name, k)
  olap = .75
  if rng.random() < .4:
    olap = kw["olap"] = float(rng.choice([0, .5, .9, rng.uniform(0, .9)]))
  hop = k - int(olap * k)
  floor = -60
  if rng.random() < .4:
    floor = kw["floor_db"] = float(rng.choice([-120, -80, -20, .5, 0]))
  alpha = 1 / max(1, -floor)
  if rng.random() < .4:
    alpha = kw["alpha"] = float(rng.choice([0, 1, rng.uniform(0, 2)]))
  p = 1
  if rng.random() < .4:
    p = kw["norm_p"] = float(rng.choice([1, 2, rng.uniform(1, 5)]))
  return kw, w, n, hop, alpha, p, floor


def ref_loss(x, y, w, n, hop, alpha, p, floor):
  a, b = mags(x, w, n, hop), mags(y, w, n, hop)
  return lp(a, b, p) + alpha * lp(db(a, floor), db(b, floor), p)


def axioms(mon, f, x, y, z, what, prefix, triangle=True):
  """Axioms of a distance, repeatability and non-interference"""
  for v in (x, y, z):
    v.setflags(write=False)
  x0, y0 = x.copy(), y.copy()
  d = f(x, y)
  mon.check(prefix + "finite", np.ndim(d) == 0 and np.isrealobj(d) and
            bool(np.isfinite(d)), {**what, "got": repr(d)})
  mon.check(prefix + "non-negative", np.real(d) >= 0, what)
  mon.check(prefix + "zero", f(x, x.copy()) == 0, what)
  dxz = f(x, z)
  mon.check(prefix + "repeatable", f(x, y) == d, what)
  mon.close(prefix + "symmetric", f(y, x), d, rtol=1e-9, atol=0, detail=what)
  if triangle:
    mon.event("triangle")
    mon.check(prefix + "triangle", d <= (dxz + f(z, y)) * (1 + 1e-6), what)
  mon.check(prefix + "inputs", np.array_equal(x, x0) and np.array_equal(y, y0),
            what)
  return d


@CHECK.kind("spectral", quick=140, thorough=3000)
def spectral(rng, mon, spec):
  kw, *o = stft_opts(rng, 1024)
  n = int(rng.integers(o[1], 4 * o[1] + 600))
  x, y, z = pair(rng, n)
  what = {"kw": str(kw)[:200], "size": n}
  mon.case(("stft", str(sorted(kw)), o[1], o[2]),
           nontrivial=not np.array_equal(x, y))
  f = functools.partial(metrics.lin_log_spectral_loss, **kw)
  mon.event("stft-losses")
  d = axioms(mon, f, x, y, z, what, "stft-")
  want = ref_loss(x, y, *o)
  f32 = any(v.dtype != float for v in (x, y))
  r = ref_loss(x, 0 * x, *o) + ref_loss(y, 0 * y, *o)
  mon.close("stft-value", d, want, rtol=1e-4 if f32 else 1e-7,
            atol=(1e-3 if f32 else 1e-8) * r + 1e-12, detail=what)
  mon.event("orders")
  if not f32:
    # Further apart in level: further apart
    x = np.asarray(x, float)
    g = np.sort(10**rng.uniform(0, 2, 4))
    u = [f(x, c * x) for c in (1, *g)]
    mon.check("louder-is-farther",
              all(a <= b * (1 + 1e-9) for a, b in zip(u, u[1:])),
              {**what, "g": g, "u": u})
    u = [f(x, x / c) for c in (1, *g)]
    mon.check("quieter-is-farther",
              all(a <= b * (1 + 1e-9) for a, b in zip(u, u[1:])),
              {**what, "g": g, "u": u})
    lin = functools.partial(f, alpha=0)
    c = float(10**rng.uniform(-3, 3))
    mon.close("linear-homogeneous", lin(c * x, c * np.asarray(y, float)),
              c * lin(x, y), rtol=1e-6, atol=1e-9 * c * r, detail=what)
    # Below the floor only the linear part is left
    m = np.max(mags(x, o[0], o[1], o[2])) + np.max(
        mags(y, o[0], o[1], o[2])) + 1e-30
    c = .5 * 10**(o[5] / 20) / m
    a, b = c * x, c * np.asarray(y, float)
    mon.close("floored", f(a, b), lin(a, b), rtol=1e-6, atol=1e-12 * r,
              detail=what)


def base_loss(x, y, a=0., b=1., **kw):
  """A user-supplied base loss"""
  return a + b * float(np.sum(np.abs(x - y))) + sum(kw.values())


@CHECK.kind("multi-scale", quick=30, thorough=500)
def multi_scale(rng, mon, spec):
  parallel = spec is not None and spec.get("parallel", False) or \
      rng.random() < .15
  k = int(rng.integers(1, 6))
  opts = [stft_opts(rng, 512)[0] for _ in range(k)]
  n = int(rng.integers(512, 2500))
  x, y, z = pair(rng, n)
  x, y, z = (np.asarray(v, float) for v in (x, y, z))
  what = {"scales": str(opts)[:300], "size": n}
  mon.case(("multi", k, parallel), nontrivial=not np.array_equal(x, y))
  it = [opts, tuple(opts), iter(opts)][rng.integers(3)]
  loss = metrics.MultiScaleSpectralLoss(metrics.lin_log_spectral_loss, it)
  mon.event("multi-scale")
  d = axioms(mon, loss, x, y, z, what, "multi-")
  want = sum(metrics.lin_log_spectral_loss(x, y, **o) for o in opts)
  mon.close("sum-of-scales", d, want, rtol=1e-12, atol=0, detail=what)
  mon.close("function-form", metrics.multiscale_spectral_loss(
      x, y, stfts=opts), want, rtol=1e-12, atol=0, detail=what)
  # Options of the call apply to every scale
  q = {"norm_p": 2.} if rng.random() < .5 else {"floor_db": -30.}
  want2 = sum(metrics.lin_log_spectral_loss(x, y, **{**o, **q}) for o in opts)
  mon.close("options-for-all", loss(x, y, **q), want2, rtol=1e-12, atol=0,
            detail=what)
  mon.close("options-forgotten", loss(x, y), want, rtol=1e-12, atol=0,
            detail=what)
  # User-supplied loss
  s = [{"a": float(v)} for v in rng.normal(size=k)]
  mon.close("custom-loss", metrics.multiscale_spectral_loss(
      x, y, spectral_loss=base_loss, stfts=s, b=.5),
            sum(base_loss(x, y, b=.5, **v) for v in s), rtol=1e-9, atol=1e-12,
            detail=what)
  with mp.pool.ThreadPool(int(rng.integers(1, 5))) as pool:
    mon.close("pool", loss(x, y, pool=pool), want, rtol=1e-12, atol=0,
              detail=what)
    mon.close("pool-options", loss(x, y, pool=pool, **q), want2, rtol=1e-12,
              atol=0, detail=what)
  if parallel:
    mon.event("parallel")
    j = int(rng.integers(1, 4))
    mon.close("jobs", loss(x, y, njobs=j), want, rtol=1e-12, atol=0,
              detail={**what, "jobs": j})
    mon.close("jobs-function", metrics.multiscale_spectral_loss(
        x, y, stfts=opts, njobs=j, **q), want2, rtol=1e-12, atol=0,
              detail={**what, "jobs": j})


@CHECK.kind("multi-parallel", quick=5, thorough=30)
def multi_parallel(rng, mon, spec):
  multi_scale(rng, mon, {"parallel": True})


@CHECK.kind("multi-default", quick=6, thorough=60)
def multi_default(rng, mon, spec):
  """The default scales"""
  n = int(rng.integers(2048, 6000))
  x, y, _ = pair(rng, n)
  x, y = np.asarray(x, float), np.asarray(y, float)
  mon.case(("default-scales", n), nontrivial=not np.array_equal(x, y))
  want = sum(
      ref_loss(x, y, signal.get_window("hamming", m), m, m - int(.75 * m),
               1 / 60, 1, -60) for m in (64, 128, 256, 512, 1024, 2048))
  mon.close("default-scales", metrics.multiscale_spectral_loss(x, y), want,
            rtol=1e-6, atol=1e-9, detail={"size": n})


@CHECK.kind("cochleagram", quick=90, thorough=2000)
def cochleagram(rng, mon, spec):
  fs, bk = bank(rng)
  n = int(rng.integers(1, 300))
  x, y, z = (np.asarray(v, float) for v in pair(rng, n))
  analytic = ("ir", "ir", "ir", None, "input", "output")[rng.integers(6)]
  kw = {} if analytic == "ir" and rng.random() < .5 else {"analytic": analytic}
  p = 1
  if rng.random() < .5:
    p = kw["p"] = float(rng.choice([1, 2, rng.uniform(1, 4)]))
  stride = None
  if analytic in ("ir", None) and rng.random() < .5:
    stride = kw["stride"] = int(rng.integers(1, 30))
  elif rng.random() < .5:
    kw["method"] = str(rng.choice(["auto", "fft", "direct", "overlap-add"]))
  post = np.abs if analytic is not None else lambda v: np.maximum(v, 0)
  r = rng.integers(0, 4)
  if r == 0:
    kw["postprocessing"] = None
    post = lambda v: v
  elif r == 1:
    kw["postprocessing"] = post = np.real
  what = {"kw": str(kw), "bank": str(bk)[:200], "size": n, "fs": fs}
  mon.case(("coch", str(sorted(kw)), analytic, p),
           nontrivial=not np.array_equal(x, y))
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    loss = metrics.CochleagramLoss(fs, **kw, **bk)
    b = psycho.GammatoneFilterbank(**bk)

    def ref(v):
      c = reference(v, b, fs, analytic if analytic != "output" else None)
      c = c if stride is None else c[:, ::stride]
      return post(signal.hilbert(c) if analytic == "output" else c)

    rx, ry = ref(x), ref(y)
  mon.event("cochleagram-losses")
  d = axioms(mon, loss, x, y, z, what, "cochleagram-")
  s = lp(rx, 0 * rx, p) + lp(ry, 0 * ry, p)
  mon.close("cochleagram-value", np.real(d), lp(rx, ry, p), rtol=1e-6,
            atol=1e-9 * s * max(1, rx.size)**(1 / p), detail=what)
  c = loss.cochleagram(x)
  mon.check("cochleagram-shape", c.shape == rx.shape, what)
  if c.shape == rx.shape:
    mon.close("cochleagram-of-input", c, rx, rtol=0,
              atol=1e-9 * np.max(np.abs(rx), initial=0) + 1e-300, detail=what)
  g = float(10**rng.uniform(-2, 2))
  mon.close("cochleagram-homogeneous", loss(g * x, g * y), g * d, rtol=1e-6,
            atol=1e-9 * g * s, detail=what)
