"""C16: cochleagram strategies agree with the plain definition"""
import warnings

import numpy as np
from scipy import signal

from sample import psycho
from vf.core import Check

CHECK = Check(
    "C16",
    rule="random banks and signals: every way of computing a cochleagram is "
    "compared, over its whole length, with an explicit direct convolution of "
    "the signal with closed-form impulse responses placed at their alignment "
    "delay, post-processed as requested and decimated. Non-trivial: the "
    "signal is not silent.",
    require={"cochleagrams": 300, "strided": 100, "strided-complex": 40,
             "analytic": 100, "methods": 100, "rejected": 40,
             "postprocessed": 80, "longer-stride": 10},
    assumptions=["the extent of every impulse response is the one the filter "
                 "suggests (judged in C15 against its decay time)"],
)
METHODS = (None, "overlap-add", "fft", "direct", "auto")


def bank(rng):
  """Random bank arguments, sampling rate"""
  fs = float(rng.choice([1000, 2000, 4000, 8000, 11025, 700.5]))
  m = int(rng.integers(1, 6))
  kw = {"n": int(rng.integers(2, 6)),
        "bandwidth": float(fs * 10**rng.uniform(-2, -.7))}
  if rng.random() < .3:
    b = kw["bandwidth"]
    kw["bandwidth"] = lambda g: b * (1 + g.f / fs)
  z = rng.integers(0, 4)
  if z == 0:
    kw["t_c"] = 0.
  elif z == 1:
    kw["t_c"] = float(rng.uniform(0, 20) / fs)
  elif z == 2:
    kw["t_c"] = lambda g: 1 / g.f
  if rng.random() < .3:
    kw["phi"] = float(rng.uniform(-4, 4))
  if rng.random() < .3:
    kw["normalize"] = True
  if rng.random() < .3:
    kw["a"] = float(10**rng.uniform(-2, 3))
  if rng.random() < .5:
    kw["freqs"] = np.sort(rng.uniform(.02, .48, m)) * fs
    if rng.random() < .3:
      kw["freqs"] = kw["freqs"][::-1]
  else:
    kw["n_filters"] = m
    kw["flim"] = (fs * rng.uniform(.01, .1), fs * rng.uniform(.2, .5))
  return fs, kw


def sig(rng):
  n = int(rng.choice([1, 2, 3, rng.integers(1, 50), rng.integers(50, 400)]))
  x = rng.normal(size=n)
  z = rng.integers(0, 6)
  if z == 0:
    x = np.zeros(n)
    x[rng.integers(n)] = 1
  elif z == 1:
    x = x.astype(np.float32)
  elif z == 2:
    x = np.round(x * 8000).clip(-30000, 30000).astype(np.int16)
  elif z == 3:
    x = np.repeat(x, 2)[::2]
  elif z == 4:
    x[n // 2:] = 0
  x.setflags(write=False)
  return x


def responses(b, fs, analytic):
  """Closed-form responses and their alignment delays"""
  irs, lead = [], []
  for g in b:
    le = int(np.ceil(g.t_c * fs))
    t = (np.arange(g.ir_size(fs=fs)) - le) / fs
    u = t + g.t_c
    with np.errstate(all="ignore"):
      e = np.where(u >= 0, np.abs(u)**(g.n - 1) *
                   np.exp(-2 * np.pi * g.bandwidth * np.maximum(u, 0)), 0.)
    ph = 2 * np.pi * g.f * t + g.phi
    h = e * np.exp(1j * ph) if analytic else e * np.cos(ph)
    if g.normalize:
      h = h / np.sqrt(np.sum(np.abs(h)**2))
    if g.a is not None:
      h = h * g.a
    irs.append(h)
    lead.append(le)
  lead = np.array(lead)
  return irs, lead.max() - lead


def reference(x, b, fs, analytic):
  irs, off = responses(b, fs, analytic == "ir")
  n = max(h.size + o for h, o in zip(irs, off)) + x.size - 1
  x = np.asarray(x, float)
  if analytic == "input":
    x = signal.hilbert(x)
  y = np.zeros((len(irs), n), complex if analytic in ("ir", "input") else float)
  for i, (h, o) in enumerate(zip(irs, off)):
    y[i, o:o + h.size + x.size - 1] = np.convolve(x, h)
  return y


def cube(y):
  return np.abs(y)**3 - 1


@CHECK.kind("strategies", quick=320, thorough=6000)
def strategies(rng, mon, spec):
  fs, kw = bank(rng)
  x = sig(rng)
  analytic = (None, None, "ir", "ir", "input", "output")[rng.integers(6)]
  b = psycho.GammatoneFilterbank(**kw)
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    full = reference(x, b, fs, analytic)
  scale = np.max(np.abs(full)) + 1e-300
  mon.case(("coch", tuple(sorted(kw)), analytic, x.size, str(x.dtype)),
           nontrivial=bool(np.any(x)))
  if analytic:
    mon.event("analytic")
  freqs = [g.f for g in b]
  for _ in range(4):
    method = METHODS[rng.integers(len(METHODS))]
    stride = None
    if analytic != "input" and rng.random() < .5:
      method = None
      stride = int(rng.choice([1, 2, 3, rng.integers(1, 20),
                               rng.integers(1, 200)]))
    elif rng.random() < .1:
      stride, method = None, None
    # Output transform is taken on whatever was computed
    want = full if stride is None else full[:, ::stride]
    if analytic == "output":
      want = signal.hilbert(want)
    z = int(rng.integers(0, 4))
    opts = {}
    if z == 0:
      opts["postprocessing"] = None
    elif z == 1:
      f = [np.abs, cube, np.real][rng.integers(3)]
      opts["postprocessing"] = f
      want = f(want)
      mon.event("postprocessed")
    elif analytic is None:
      want = np.maximum(want, 0)
      mon.event("postprocessed")
    if method is not None or rng.random() < .3:
      opts["method"] = method
    if stride is not None:
      opts["stride"] = stride
    what = dict(n=x.size, dtype=str(x.dtype), fs=fs, kw=str(kw)[:200],
                analytic=analytic, method=method, stride=stride, post=z)
    entry = int(rng.integers(0, 4))
    before = x.copy()
    with mon.no_exception("runs", what), warnings.catch_warnings():
      warnings.simplefilter("ignore")
      if entry == 0:
        r = psycho.cochleagram(x, fs=fs, analytic=analytic, **opts, **kw)
      elif entry == 1:
        r = psycho.cochleagram(x, fs=fs, filterbank=b, analytic=analytic,
                               **opts)
      elif entry == 2:
        p = b.precompute(fs=fs, analytic=analytic == "ir")
        mon.check("bank-size", len(p) == len(b), what)
        mon.check("same-frequencies", np.array_equal(p.freqs, freqs), what)
        a = analytic
        if a == "ir" and rng.random() < .5:
          a = None
        r = psycho.cochleagram(x, filterbank=p, analytic=a, **opts)
        keep = np.array(r[0]), np.array(r[1])
        for v in r:
          if isinstance(v, np.ndarray) and v.flags.writeable:
            v[:] = 0  # What the caller got is the caller's
        r2 = psycho.cochleagram(x, filterbank=p, analytic=a, **opts)
        r = keep
        mon.check("repeatable", np.array_equal(r[0], r2[0]) and
                  np.array_equal(r[1], r2[1]), what)
      else:
        r = b.convolve(x, fs=fs, analytic=analytic, **opts), freqs
      y, c = r
      mon.event("cochleagrams")
      mon.check("frequencies", np.array_equal(c, freqs),
                {**what, "got": str(c)[:200]})
      mon.check("input-untouched", np.array_equal(x, before), what)
      mon.check("shape", np.shape(y) == want.shape,
                {**what, "got": np.shape(y), "want": want.shape})
      if np.shape(y) == want.shape:
        mon.check("complex-iff-analytic",
                  np.iscomplexobj(y) == np.iscomplexobj(want),
                  {**what, "dtype": str(np.asarray(y).dtype)})
        s = max(scale, np.max(np.abs(want), initial=0))
        if opts.get("postprocessing") is cube:
          s = max(1, scale**3)
        tol = (1e-4 if x.dtype == np.float32 else 1e-9) * s
        e = np.abs(y - want)
        mon.check("values", bool(np.all(e <= tol)),
                  {**what, "err": float(np.max(e)), "scale": float(s),
                   "at": str(np.argwhere(e > tol)[:5].tolist())})
    if stride is not None:
      mon.event("strided")
      if analytic == "ir":
        mon.event("strided-complex")
      if stride > full.shape[1] // 2:
        mon.event("longer-stride")
    elif method is not None:
      mon.event("methods")


def rejects(mon, clause, exc, fun, what):
  try:
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      r = fun()
  except exc:
    mon.check(clause, True)
    mon.event("rejected")
  else:
    mon.fail(clause, {**what, "got": str(r)[:200]})


@CHECK.kind("contradictions", quick=20, thorough=200)
def contradictions(rng, mon, spec):
  fs, kw = bank(rng)
  x = sig(rng)
  b = psycho.GammatoneFilterbank(**kw)
  mon.case(("reject", tuple(sorted(kw))))
  m = METHODS[rng.integers(1, len(METHODS))]
  s = int(rng.integers(1, 9))
  rejects(mon, "stride-and-method", ValueError,
          lambda: psycho.cochleagram(x, fs, b, method=m, stride=s),
          {"m": m, "s": s})
  rejects(mon, "stride-and-complex", ValueError,
          lambda: psycho.cochleagram(x, fs, b, analytic="input", stride=s),
          {"s": s})
  rejects(mon, "no-rate", TypeError,
          lambda: psycho.cochleagram(x, filterbank=b), {})
  for a in ("input", "output"):
    rejects(mon, "analytic-twice", ValueError,
            lambda a=a: psycho.cochleagram(
                x, filterbank=b.precompute(fs=fs, analytic=True), analytic=a),
            {"a": a})


@CHECK.kind("linear", quick=40, thorough=800)
def linear(rng, mon, spec):
  """Rows superpose, shift with the input, and do not depend on each other"""
  fs, kw = bank(rng)
  b = psycho.GammatoneFilterbank(**kw)
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    p = b.precompute(fs=fs, analytic=bool(rng.integers(2)))
  n = int(rng.integers(1, 200))
  x, z = rng.normal(size=(2, n))
  k = int(rng.integers(0, 50))
  opts = {} if rng.random() < .5 else {"stride": int(rng.integers(1, 9))}
  mon.case(("linear", n, k, str(opts)))
  what = {"n": n, "shift": k, **opts, "kw": str(kw)[:200]}

  def f(v):
    return psycho.cochleagram(v, filterbank=p, postprocessing=None, **opts)[0]

  y = f(x)
  s = np.max(np.abs(y)) + 1e-300
  mon.close("superposition", f(2 * x - z), 2 * y - f(z), rtol=0,
            atol=1e-9 * (s + np.max(np.abs(f(z)))), detail=what)
  k *= opts.get("stride", 1)
  v = f(np.concatenate((np.zeros(k), x)))[:, k // opts.get("stride", 1):]
  mon.close("shift", v[:, :y.shape[1]], y, rtol=0, atol=1e-9 * s, detail=what)


@CHECK.kind("defaults", quick=4, thorough=30)
def defaults(rng, mon, spec):
  """The default bank on the usual sampling rates"""
  fs = float(rng.choice([8000, 16000, 22050]))
  x = rng.normal(size=int(rng.integers(1, 300)))
  kw = {"flim": (20, fs * .45)} if rng.random() < .5 else {}
  b = psycho.GammatoneFilterbank(**kw)
  s = int(rng.integers(2, 300))
  full = reference(x, b, fs, None)
  mon.case(("default", fs, x.size, s, str(kw)))
  want = np.maximum(full, 0)
  what = {"fs": fs, "n": x.size, "stride": s, "kw": str(kw)}
  for w, opts in ((want, {}), (want, {"filterbank": b}),
                  (want[:, ::s], {"stride": s})):
    y, c = psycho.cochleagram(x, fs, **opts,
                              **({} if "filterbank" in opts else kw))
    mon.event("default-banks")
    mon.check("default-frequencies", np.array_equal(c, [g.f for g in b]), what)
    mon.check("default-shape", y.shape == w.shape, what)
    if y.shape == w.shape:
      mon.close("default-values", y, w, rtol=0,
                atol=1e-9 * np.max(np.abs(full)), detail=what)
