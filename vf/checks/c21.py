"""C21: signal helpers are exact, total and memory-safe"""
import warnings

import numpy as np

from sample.utils import dsp
from vf.core import Check

CHECK = Check(
    "C21",
    rule="random arrays (shapes, memory layouts, types, extreme values), "
    "kernels, strides, windows and spectra: every helper is compared with a "
    "plain formulation of its textbook definition, and the memory seen by "
    "views with that of their input. Non-trivial: every non-empty array.",
    require={"decibels": 80, "floors": 60, "normalised": 80, "silences": 10,
             "crossings": 53, "windows": 250, "views": 62, "layouts": 80,
             "convolutions": 100, "complex-kernels": 43, "longer-kernels": 10,
             "autocorrelograms": 40, "periodograms": 24, "bins": 40,
             "trends": 30, "rejected": 30},
    assumptions=["normalisation is required on floating-point and complex "
                 "arrays; windows and strides are at least one sample"],
)


def shape(rng):
  return [(), (int(rng.integers(1, 60)),), (1,),
          tuple(int(v) for v in rng.integers(1, 8, 2)),
          tuple(int(v) for v in rng.integers(1, 5, 3))][rng.integers(5)]


def values(rng, kind=None):
  """Finite numbers of any magnitude"""
  s = shape(rng)
  x = 10**rng.uniform(-12, 8, s)
  kind = kind or str(rng.choice(["float", "float32", "int", "scalar", "list"]))
  if kind == "float32":
    x = np.asarray(x, np.float32)
  elif kind == "int":
    x = np.asarray(np.ceil(10**rng.uniform(0, 6, s)), int)
  elif kind == "scalar":
    x = float(10**rng.uniform(-12, 8))
  elif kind == "list":
    x = np.ravel(x).tolist()
  return kind, x


@CHECK.kind("decibels", quick=160, thorough=3000)
def decibels(rng, mon, spec):
  kind, a = values(rng)
  rt = 2e-6 if kind == "float32" else 1e-9
  what = {"kind": kind, "shape": np.shape(a)}
  mon.case(("db", kind, np.shape(a)))
  mon.event("decibels")
  b = np.asarray(a, float)
  with mon.frozen("inputs", *([a] if isinstance(a, np.ndarray) else []),
                  detail=what):
    d = dsp.a2db(a)
  mon.close("decibels", d, 20 * np.log10(b), rtol=rt, atol=1e-4 * rt,
            detail=what)
  mon.check("decibels-shape", np.shape(d) == np.shape(a), what)
  mon.close("there-and-back", dsp.db2a(d), b, rtol=max(rt, 1e-9) * 10, atol=0,
            detail=what)
  q = rng.uniform(-400, 200, np.shape(a))
  mon.close("amplitudes", dsp.db2a(q), 10**(q / 20), rtol=1e-12, atol=0,
            detail=what)
  mon.close("back-and-there", dsp.a2db(dsp.db2a(q)), q, rtol=0, atol=1e-9,
            detail=what)
  # Floors
  mon.event("floors")
  fl = float(rng.uniform(-200, 80))
  if rng.random() < .2:
    fl = 0.
  elif rng.random() < .4 and np.ndim(a):
    fl = rng.uniform(-200, 80, np.shape(a))
  z = np.array(b)
  if z.ndim and rng.random() < .7:
    z.flat[rng.integers(z.size)] = 0
  if rng.random() < .3:
    z = -z
  want = 20 * np.log10(np.maximum(z, 10**(np.asarray(fl) / 20)))
  mon.close("decibel-floor", dsp.a2db(z, floor=fl, floor_db=True), want,
            rtol=1e-9, atol=1e-9, detail=what)
  mon.close("linear-floor", dsp.a2db(z, 10**(np.asarray(fl) / 20)), want,
            rtol=1e-9, atol=1e-9, detail=what)
  # Complex values
  p = np.asarray(b) * np.exp(1j * rng.uniform(-4, 4, np.shape(a)))
  r = dsp.complex2db(p)
  mon.check("complex-decibels-real", np.isrealobj(r), what)
  mon.close("complex-decibels", r, 20 * np.log10(b), rtol=1e-9, atol=1e-9,
            detail=what)
  mon.close("complex-floor", dsp.complex2db(p, floor=-30, floor_db=True),
            np.maximum(20 * np.log10(b), -30), rtol=1e-9, atol=1e-9,
            detail=what)


@CHECK.kind("normalize", quick=160, thorough=3000)
def normalize(rng, mon, spec):
  s = tuple(v for v in shape(rng)) or (5,)
  mode = [None, "peak", "rms", "range"][rng.integers(4)]
  kind = str(rng.choice(["noise", "silence", "constant", "float32", "offset",
                         "complex"]))
  x = rng.normal(size=s) * 10.**rng.integers(-9, 9)
  if kind == "silence":
    x = np.zeros(s)
    mon.event("silences")
  elif kind == "constant":
    x = np.full(s, float(rng.choice([-1, 1])) * 2.**rng.integers(-9, 9))
  elif kind == "float32":
    x = x.astype(np.float32)
  elif kind == "offset":
    x = x + np.max(np.abs(x)) * (3 if rng.random() < .5 else
                                 10.**rng.integers(5, 8)) * rng.choice([-1, 1])
  elif kind == "complex":
    mode = [None, "peak"][rng.integers(2)]
    x = x * np.exp(1j * rng.uniform(-4, 4, s))
  what = {"kind": kind, "mode": mode, "shape": s}
  mon.case(("norm", kind, mode, len(s)), nontrivial=kind != "silence")
  with mon.frozen("inputs", x, detail=what), warnings.catch_warnings():
    warnings.simplefilter("ignore")
    y = dsp.normalize(x, **({} if mode is None else {"mode": mode}))
  mon.event("normalised")
  mon.check("normalised-finite", bool(np.all(np.isfinite(y))), what)
  mon.check("normalised-shape", np.shape(y) == s, what)
  t = 1e-5 if kind == "float32" else 1e-9
  c = x.astype(complex) if kind == "complex" else x.astype(float)
  same = np.max(c.real) == np.min(c.real)
  if mode in (None, "peak"):
    want = c / (np.max(np.abs(c)) or 1)
    mon.close("peak-is-one", np.max(np.abs(y)), float(np.any(x)), rtol=t,
              atol=0, detail=what)
  elif mode == "rms":
    want = (c - np.mean(c)) / (np.std(c) or 1)
    mon.close("zero-mean", np.mean(y), 0, rtol=0, atol=1e-3 if
              kind == "float32" else 1e-6, detail=what)
    if not same:
      mon.close("unit-variance", np.mean(np.square(y)), 1, rtol=1e-3, atol=0,
                detail=what)
  else:
    want = (c - np.min(c)) / ((np.max(c) - np.min(c)) or 1)
    mon.check("zero-to-one", np.min(y) == 0 and
              abs(np.max(y) - (not same)) < 1e-6, what)
  mon.close("normalised", y, want, rtol=0, atol=100 * t, detail=what)
  if kind != "constant" or mode != "rms":
    z = dsp.normalize(y, **({} if mode is None else {"mode": mode}))
    mon.close("idempotent", z, y, rtol=0, atol=100 * t, detail=what)


def rejected(mon, clause, fun, what, exc=ValueError):
  try:
    r = fun()
  except exc:
    mon.event("rejected")
    mon.check(clause, True)
  else:
    mon.fail(clause, {**what, "got": str(r)[:200]})


@CHECK.kind("crossing", quick=140, thorough=3000)
def crossing(rng, mon, spec):
  lo, hi = float(rng.uniform(-9, 0)), float(rng.uniform(.1, 9))
  kind = str(rng.choice(["up", "down", "lower-end", "higher-end", "none",
                         "many", "step", "reversed"]))
  r = float(rng.uniform(lo, hi))
  g = 10.**rng.uniform(-6, 6)
  f = lambda v: g * ((v - r) + (v - r)**3)
  if kind == "down":
    f = lambda v: -g * (v - r)
  elif kind == "lower-end":
    r = lo
  elif kind == "higher-end":
    r = hi
  elif kind == "step":
    f = lambda v: -1. if v < r else 2.
  elif kind == "reversed":
    lo, hi = hi, lo
  elif kind == "many":
    f = lambda v: np.sin(3 * (v - r))
  steps = int(rng.integers(1, 50))
  calls = []

  def spy(v):
    calls.append(v)
    return f(v)

  what = {"kind": kind, "lo": lo, "hi": hi, "root": r, "steps": steps}
  mon.case(("zero", kind, steps))
  kw = {"steps": steps}
  if rng.random() < .2:
    kw, steps = {}, 16
  if kind == "none":
    rejected(mon, "no-crossing-rejected", lambda: dsp.dychotomic_zero_crossing(
        lambda v: 1 + v * v, lo, hi, **kw), what)
    return
  if f(lo) * f(hi) > 0:
    rejected(mon, "same-sign-rejected",
             lambda: dsp.dychotomic_zero_crossing(spy, lo, hi, **kw), what)
    return
  a = dsp.dychotomic_zero_crossing(spy, lo, hi, **kw)
  mon.event("crossings")
  e = abs(hi - lo) / 2.**steps + 1e-12 * (abs(lo) + abs(hi))
  if kind == "many":
    u, v = f(a - e), f(a + e)
    mon.check("near-a-crossing", u * v <= 1e-9 or abs(f(a)) < 1e-9,
              {**what, "got": a})
  else:
    mon.check("near-the-crossing", abs(a - r) <= e, {**what, "got": a, "tol": e})
  mon.check("inside", min(lo, hi) <= a <= max(lo, hi) and
            all(min(lo, hi) <= v <= max(lo, hi) for v in calls), what)


def layout(rng, n, kind=None):
  """An array of n samples with some memory layout, inside a larger buffer"""
  kind = kind or str(rng.choice(["plain", "strided", "reversed", "matrix",
                                 "fortran", "slice", "column"]))
  if kind == "strided":
    a = rng.normal(size=3 * n)[1::3]
  elif kind == "reversed":
    a = rng.normal(size=n)[::-1]
  elif kind == "matrix":
    a = rng.normal(size=(2, n))
  elif kind == "fortran":
    a = np.asfortranarray(rng.normal(size=(3, n)))
  elif kind == "slice":
    a = rng.normal(size=n + 20)[7:7 + n]
  elif kind == "column":
    a = rng.normal(size=(n, 4))[:, 1]
  else:
    a = rng.normal(size=n)
  if rng.random() < .2:
    a = (100 * a).astype([np.int16, np.float32, complex][rng.integers(3)])
  return kind, a


@CHECK.kind("windows", quick=280, thorough=6000)
def windows(rng, mon, spec):
  n = int(rng.choice([0, 1, 2, rng.integers(1, 20), rng.integers(1, 300)]))
  kind, a = layout(rng, n)
  w = int(rng.choice([1, 2, n or 1, n + 1, rng.integers(1, 40)]))
  hop = [None, 1, w, w + 3, int(rng.integers(1, 50))][rng.integers(5)]
  h = w if hop is None else hop
  flat = np.array([a[i] for i in np.ndindex(a.shape)], dtype=a.dtype)
  # As many complete windows as there are
  k = sum(i + w <= flat.size for i in range(0, flat.size, h))
  what = {"layout": kind, "shape": a.shape, "w": w, "hop": hop}
  mon.case(("win", kind, min(n, 3), w == n, hop), nontrivial=n > 0)
  kw = {} if hop is None else {"hop": hop}
  mon.check("window-count", dsp.n_windows(flat.size, w, **kw) == k,
            {**what, "want": k})
  before = a.copy()
  write = rng.random() < .3
  b = dsp.overlapping_windows(a, w, **kw, **({"writeable": True} if write
                                             else {}))
  mon.event("windows", max(k, 1))
  if kind != "plain":
    mon.event("layouts")
  mon.check("window-shape", b.shape == (k, w), {**what, "got": b.shape})
  if b.shape != (k, w):
    return
  want = np.array([flat[i * h:i * h + w] for i in range(k)],
                  dtype=a.dtype).reshape(k, w)
  mon.check("window-content", np.array_equal(b, want) and b.dtype == a.dtype,
            what)
  mon.check("read-only", b.flags.writeable == write, what)
  if k:
    base = np.reshape(a, -1)
    if np.shares_memory(base, a):
      # A view, which never leaves the memory of the array
      mon.event("views")
      lo, hi = np.byte_bounds(base)
      u, v = np.byte_bounds(b)
      mon.check("inside-memory", lo <= u and v <= hi, what)
      mon.check("is-a-view", np.shares_memory(a, b), what)
    if write:
      b[k - 1, w - 1] = 7
      flat[(k - 1) * h + w - 1] = 7
      again = np.array([flat[i * h:i * h + w] for i in range(k)])
      mon.check("written-through", np.array_equal(b, again.astype(a.dtype)),
                what)
      before = a
  mon.check("array-untouched", np.array_equal(a, before), what)


@CHECK.kind("convolution", quick=200, thorough=5000)
def convolution(rng, mon, spec):
  n = int(rng.choice([1, 2, rng.integers(1, 20), rng.integers(1, 400)]))
  k = int(rng.choice([1, 2, n, n + 1, rng.integers(1, 60)]))
  if k > n and rng.random() < .6:
    k = int(rng.integers(1, n + 1))
  stride = int(rng.choice([1, 2, rng.integers(1, 12), n + 2]))
  kx, x = layout(rng, n, str(rng.choice(["plain", "strided", "reversed",
                                         "slice", "column"])))
  if x.dtype.kind == "c":
    x = x.real.copy()
  cplx = rng.random() < .5
  h = rng.normal(size=k)
  if cplx:
    h = h + 1j * rng.normal(size=k)
  if rng.random() < .3:
    h = np.repeat(h, 2)[::2]
  what = {"n": n, "k": k, "stride": stride, "complex": cplx, "layout": kx,
          "dtype": str(x.dtype)}
  mon.case(("conv", kx, cplx, min(n, 3), k > n, stride))
  if k <= n:
    want = np.array([
        sum(complex(x[i + j]) * complex(h[k - 1 - j]) for j in range(k))
        for i in range(0, n - k + 1, stride)])
  else:
    want = np.zeros(0, complex)
    mon.event("longer-kernels")
  kw = {} if stride == 1 and rng.random() < .5 else {"stride": stride}
  s = 1e-4 if x.dtype == np.float32 else 1e-9
  s *= (np.sum(np.abs(h)) + 1) * (np.max(np.abs(x), initial=0) + 1)
  mon.event("convolutions")
  if cplx:
    mon.event("complex-kernels")
    with mon.frozen("inputs", x, h, detail=what):
      y = dsp.strided_convolution_complex_kernel(x, h, **kw)
    mon.check("complex-result", np.iscomplexobj(y), what)
    out = [np.full(want.size, np.nan, complex),
           np.full((want.size, 2), np.nan, complex)[:, 1]][rng.integers(2)]
    r = dsp.strided_convolution_complex_kernel(x, h, **kw, out=out)
    # Real and imaginary parts are ordinary convolutions
    re, im = (np.ravel(dsp.strided_convolution(x, p(h), **kw))
              for p in (np.real, np.imag))
    if np.size(re) == want.size:
      mon.close("convolution-parts", re + 1j * im, want, rtol=0, atol=s,
                detail=what)
  else:
    with mon.frozen("inputs", x, h, detail=what):
      y = dsp.strided_convolution(x, h, **kw)
    out = np.full((want.size, 1), np.nan)
    r = dsp.strided_convolution(x, h, **kw, out=out)
    # A real kernel is a complex one
    o = np.full(want.size, np.nan + 1j * rng.normal(), complex)
    for z in (dsp.strided_convolution_complex_kernel(x, h, **kw, out=o), o,
              dsp.strided_convolution_complex_kernel(x, h + 0j, **kw)):
      mon.close("real-kernel", z, want, rtol=0, atol=s, detail=what)
  mon.check("convolution-size", np.size(y) == want.size,
            {**what, "got": np.shape(y), "want": want.size})
  if np.size(y) == want.size:
    mon.close("convolution", np.ravel(y), want if cplx else want.real, rtol=0,
              atol=s, detail=what)
    mon.check("convolution-output", r is out and
              np.allclose(np.ravel(out), np.ravel(y), rtol=0, atol=s), what)


@CHECK.kind("autocorrelation", quick=80, thorough=1500)
def autocorrelation(rng, mon, spec):
  n = int(rng.integers(1, 120))
  real = rng.random() < .6
  x = rng.normal(size=n)
  if not real:
    x = x + 1j * rng.normal(size=n)
  z = rng.integers(0, 3)
  nfft = n if z == 0 else int(rng.integers(n, 4 * n + 4))
  if z == 2:
    nfft = 2 * n
  a = (np.fft.rfft if real else np.fft.fft)(x, nfft)
  kw = {}
  if not real:
    kw["real"] = False
  p = np.pad(x, (0, nfft - n))
  full = np.array([np.sum(np.conj(p) * np.roll(p, -k)) for k in range(nfft)])
  m = nfft
  if nfft % 2 or rng.random() < .5:
    m = kw["n"] = n if rng.random() < .7 else nfft
    kw["nfft"] = nfft
  elif not real:
    m = nfft
  if rng.random() < .3:
    a, kw["power"] = np.abs(a)**2, True
  elif rng.random() < .3:
    a = np.abs(a)
  what = {"n": n, "nfft": nfft, "kw": kw}
  mon.case(("acf", real, str(sorted(kw)), nfft > n))
  if real and nfft == 1 and "nfft" not in kw:
    return
  with mon.frozen("inputs", a, detail=what):
    r = dsp.fft2autocorrelogram(a, **kw)
  mon.event("autocorrelograms")
  full = full.real if real else full
  mon.check("autocorrelogram-size", np.shape(r) == (m,),
            {**what, "got": np.shape(r), "want": m})
  if np.shape(r) == (m,):
    mon.close("autocorrelogram", r, full[:m], rtol=0,
              atol=1e-9 * abs(full[0]), detail=what)


def lomb(t, x, w):
  """Classical periodogram of Lomb and Scargle"""
  u = np.arctan2(np.sum(np.sin(2 * w * t)), np.sum(np.cos(2 * w * t))) / (2 * w)
  c, s = np.cos(w * (t - u)), np.sin(w * (t - u))
  with np.errstate(all="ignore"):
    return .5 * (np.sum(x * c)**2 / np.sum(c**2) +
                 np.sum(x * s)**2 / np.sum(s**2))


@CHECK.kind("periodogram", quick=60, thorough=1000)
def periodogram(rng, mon, spec):
  fs = float(rng.choice([1, 50, 100, 8000]))
  n = int(rng.integers(5, 80))
  t = np.sort(rng.uniform(0, n / fs, n))
  x = rng.normal(size=n)
  nfft = int(rng.integers(4, 200))
  m = nfft // 2 + 1
  kw = {} if fs == 1 and rng.random() < .5 else {"fs": fs}
  f = np.arange(m) * fs / nfft
  keep = np.ones(m, bool)
  # Cut-off frequencies between bins
  if rng.random() < .5:
    kw["hpf"] = float((rng.integers(0, m) + .5) * fs / nfft)
    if rng.random() < .2:
      kw["hpf"] = 0.
    keep &= f >= kw["hpf"]
  if rng.random() < .5:
    kw["lpf"] = float((rng.integers(1, m + 3) + .5) * fs / nfft)
    keep &= f <= kw["lpf"]
  if not np.any(keep[1:]):
    mon.case(("lomb-empty", nfft), nontrivial=False)
    return
  what = {"n": n, "nfft": nfft, "kw": kw}
  mon.case(("lomb", str(sorted(kw)), nfft))
  with mon.frozen("inputs", t, x, detail=what):
    p, g = dsp.lombscargle_as_fft(t, x, nfft, **kw)
  mon.event("periodograms")
  mon.check("periodogram-shape", np.shape(p) == (m,) and np.shape(g) == (m,),
            what)
  if np.shape(p) != (m,) or np.shape(g) != (m,):
    return
  mon.close("periodogram-frequencies", g, f, rtol=1e-9, atol=0, detail=what)
  want = np.array([0. if not k else np.mean(x)**2 if i == 0 else
                   lomb(t, x, 2 * np.pi * f[i]) for i, k in enumerate(keep)])
  # Degenerate frequencies (multiples of a sampling frequency) have no value
  ok = np.isfinite(want)
  mon.close("periodogram", p[ok], want[ok], rtol=1e-6, atol=1e-9, detail=what)
  # Autocorrelogram of the same
  k2 = {k: v for k, v in kw.items()}
  n2 = int(np.ceil(np.max(t) * fs))
  if n2 < 2:
    return
  if rng.random() < .5:
    n2 = k2["n"] = int(rng.integers(2, 60))
  f2 = 2 * n2
  if rng.random() < .5:
    f2 = k2["nfft"] = int(rng.integers(n2, 3 * n2))
  k2 = {k: v for k, v in k2.items() if k not in ("hpf", "lpf")}
  p, _ = dsp.lombscargle_as_fft(t, x, f2, fs=fs)
  a = dsp.lombscargle_autocorrelogram(t, x, **k2)
  mon.check("periodic-autocorrelogram-size", np.shape(a) == (n2,),
            {**what, "kw": k2, "got": np.shape(a)})
  if np.shape(a) == (n2,) and np.all(np.isfinite(p)):
    mon.close("periodic-autocorrelogram", a, np.fft.irfft(p, f2)[:n2],
              rtol=1e-7, atol=1e-9 * np.max(p), detail={**what, "kw": k2})


@CHECK.kind("bins", quick=80, thorough=1500)
def bins(rng, mon, spec):
  fs = float(rng.choice([1, 8000, 44100, 48000]))
  nfft = int(rng.choice([64, 1000, 1024, rng.integers(2, 5000)]))
  s = shape(rng)
  b = rng.integers(0, nfft, s)
  kw = {} if fs == 1 else {"fs": fs}
  what = {"nfft": nfft, "fs": fs, "shape": s}
  mon.case(("bins", nfft, fs, len(s)))
  mon.event("bins")
  f = dsp.bin2f(b, nfft, **kw)
  mon.close("bin-frequency", f, b * fs / nfft, rtol=1e-12, atol=0, detail=what)
  mon.check("bin-shape", np.shape(f) == s, what)
  # The first bin not below a frequency
  e = rng.uniform(.001, .999, s)
  r = dsp.f2bin((b + e) * fs / nfft, nfft, **kw)
  mon.check("frequency-bin", np.array_equal(r, b + 1) and np.shape(r) == s and
            np.asarray(r).dtype.kind == "i", {**what, "got": np.ravel(r)[:9]})
  r = dsp.f2bin(f, nfft, **kw)
  mon.check("there-and-back", bool(np.all((r == b) | (r == b + 1))), what)


@CHECK.kind("trend", quick=60, thorough=1000)
def trend(rng, mon, spec):
  n = int(rng.integers(3, 200))
  t = np.arange(n) if rng.random() < .5 else np.sort(rng.uniform(-3, 9, n))
  y = rng.normal(size=n) + rng.normal() * t + rng.normal()
  if rng.random() < .2:
    y = (100 * y).astype(int)
  kw = {} if np.array_equal(t, np.arange(n)) else {"x": t}
  what = {"n": n, "axis": bool(kw)}
  mon.case(("trend", n, bool(kw)))
  with mon.frozen("inputs", y, t, detail=what):
    r = dsp.detrend(y, **kw)
  mon.event("trends")
  a = np.stack((t, np.ones(n)), 1)
  c = np.linalg.lstsq(a, y, rcond=None)[0]
  s = 1e-8 * (np.max(np.abs(y)) + 1)
  mon.close("residual", r, y - a @ c, rtol=0, atol=s, detail=what)

  class Half:
    def fit(self, u, v):
      self.seen = np.shape(u), np.shape(v)
      self.m = np.mean(v) / 2
      return self

    def predict(self, u):
      return np.full(np.shape(u), self.m)

  mon.close("custom-trend", dsp.detrend(y, model=Half(), **kw),
            y - np.mean(y) / 2, rtol=0, atol=s, detail=what)
  rejected(mon, "matrix-rejected", lambda: dsp.detrend(np.stack((y, y))), what)


@CHECK.kind("phasor", quick=40, thorough=500)
def phasor(rng, mon, spec):
  s = shape(rng)
  x = rng.uniform(-50, 50, s)
  z = rng.integers(0, 3)
  if z == 1:
    x = np.asarray(x, np.float32)
  elif z == 2:
    x = np.asarray(np.round(x), int)
  mon.case(("expi", s, int(z)))
  r = dsp.expi(x)
  mon.check("phasor-shape", np.shape(r) == s and np.iscomplexobj(r), {"s": s})
  mon.close("phasor", r, np.cos(np.asarray(x, float)) +
            1j * np.sin(np.asarray(x, float)), rtol=0,
            atol=1e-9 if z == 0 else 1e-4, detail={"s": s, "type": z})
