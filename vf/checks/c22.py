"""C22: preallocated outputs are honoured everywhere"""
import inspect
import warnings

import numpy as np

import sample.sample as smp
from sample import beatsdrop, hinge, psycho, utils
from sample.utils import dsp
from vf.core import Check

CHECK = Check(
    "C22",
    rule="every numerical function of the package that accepts an output "
    "array, with every option, on inputs of several shapes and layouts: the "
    "output array (fresh, strided inside a larger buffer, transposed, or the "
    "input itself) must receive the whole result, be returned, and agree with "
    "the result without it; memory around it and inputs are watched. "
    "Non-trivial: every call.",
    require={"narrow-inputs": 1000, "calls": 424, "functions": 35, "strided-outputs": 100,
             "in-place": 150, "scalars": 54, "complex-outputs": 32,
             "wrapped": 40, "other-precisions": 800, "variants-rejected": 10},
    assumptions=["an in-place result is required where input and output have "
                 "the same type and the function is element-wise"],
)


def pos(rng, s):
  return 10**rng.uniform(1, 4, s)


def any_(rng, s):
  return rng.normal(size=s)


def gamma(rng):
  return psycho.GammatoneFilter(
      f=float(rng.uniform(50, 4000)), n=int(rng.integers(1, 6)),
      **({} if rng.random() < .5 else {"a": 3., "normalize": True}))


def table():
  """name, function of (rng) -> (callable(x, out=...), input generator,
  output type, works in place)"""
  t = []

  def add(name, make, gen, dtype=float, inplace=True, scalar=True):
    t.append((name, make, gen, dtype, inplace, scalar))

  def plain(f, **kw):
    return lambda rng: (lambda x, **o: f(x, **kw, **o))

  for m in (None, "zwicker", "traunmuller", "wang"):
    add(f"hz2bark-{m}", plain(psycho.hz2bark, **({"mode": m} if m else {})),
        pos)
  for m in (None, "traunmuller", "wang"):
    add(f"bark2hz-{m}", plain(psycho.bark2hz, **({"mode": m} if m else {})),
        any_)
  for m in (None, "default", "fant"):
    kw = {"mode": m} if m else {}
    add(f"hz2mel-{m}", plain(psycho.hz2mel, **kw), pos)
    add(f"mel2hz-{m}", plain(psycho.mel2hz, **kw), pos)
  for m in (None, "quadratic", "linear"):
    kw = {"degree": m} if m else {}
    add(f"erb-{m}", plain(psycho.erb, **kw), pos)
    add(f"hz2cams-{m}", plain(psycho.hz2cams, **kw), pos)
    add(f"cams2hz-{m}", plain(psycho.cams2hz, **kw), any_)
  for d in (None, True, False):
    add(f"a_weighting-{d}", plain(psycho.a_weighting,
                                  **({} if d is None else {"db": d})), pos)
  add("hwr", plain(psycho.hwr), any_)
  add("hwr-th", plain(psycho.hwr, th=.3), any_)
  add("db2a", plain(dsp.db2a), any_)
  add("a2db", plain(dsp.a2db), pos)
  add("a2db-floor", plain(dsp.a2db, floor=30.), pos)
  add("a2db-floor-db", plain(dsp.a2db, floor=30., floor_db=True), pos)
  add("a2db-floorless", plain(dsp.a2db.floorless), pos)
  add("complex2db", plain(dsp.complex2db), lambda r, s: pos(r, s) * (1 + 1j),
      inplace=False)
  add("complex2db-floor", plain(dsp.complex2db, floor=60, floor_db=True),
      lambda r, s: pos(r, s) * (1 + 1j), inplace=False)
  add("complex2db-real", plain(dsp.complex2db), pos)
  add("expi", plain(dsp.expi), any_, dtype=complex, inplace=False)
  add("expi-complex", plain(dsp.expi), lambda r, s: any_(r, s) + .1j,
      dtype=complex)
  add("bin2f", plain(dsp.bin2f, nfft=64, fs=100.), any_)
  for m in (None, "peak", "rms", "range"):
    add(f"normalize-{m}", plain(dsp.normalize, **({"mode": m} if m else {})),
        any_, scalar=False)

  def energy(rng):
    d = rng.uniform(.1, 2)
    return lambda x, **o: smp.modal_energy(x, d, **o)

  add("modal_energy", energy, pos)
  add("modal_energy-of-decays",
      lambda rng: (lambda x, **o: smp.modal_energy(np.full(np.shape(x), 3.), x,
                                                   **o)), pos)

  def hinge_(rng):
    a, k, q = rng.normal(size=3)
    return lambda x, **o: hinge.hinge_function(x, float(a), float(k), float(q),
                                               **o)

  add("hinge", hinge_, any_)

  def expdec(rng):
    return beatsdrop.ExponentialDecay(float(rng.uniform(.1, 3)),
                                      float(rng.uniform(.1, 3)))

  add("decay", lambda rng: expdec(rng).__call__, any_)
  add("decay-dt", lambda rng: expdec(rng).dt, any_)
  tm = lambda r, s: r.uniform(-.01, .1, s)
  add("envelope", lambda rng: gamma(rng).envelope, tm)
  add("wave", lambda rng: gamma(rng).wavefun, tm, scalar=False)
  add("wave-analytic",
      lambda rng: (lambda g: lambda x, **o: g.wavefun(x, analytic=True, **o))
      (gamma(rng)), tm, dtype=complex, inplace=False, scalar=False)
  add("ir", lambda rng: gamma(rng).ir, lambda r, s: tm(r, s).ravel(),
      scalar=False)
  add("ir-analytic",
      lambda rng: (lambda g: lambda x, **o: g.ir(x, analytic=True, **o))
      (gamma(rng)), lambda r, s: tm(r, s).ravel(), dtype=complex,
      inplace=False, scalar=False)

  def maxi(rng):
    w = int(rng.integers(1, 4))
    key = None
    return lambda x, **o: dsp.local_maxima(x, w=w, key=key, **o)

  add("local_maxima", maxi, lambda r, s: any_(r, s).ravel(), dtype=bool,
      inplace=False, scalar=False)
  return t


TABLE = table()


def buffer(rng, s, dtype):
  """Output array of a shape, its surrounding buffer"""
  nan = {float: np.nan, complex: np.nan * (1 + 1j), bool: True}[dtype]
  kind = int(rng.integers(0, 4))
  if not s:
    b = np.full((), nan, dtype)
    return "plain", b, None
  if kind == 1:
    big = np.full((*s[:-1], 2 * s[-1] + 1), 77, dtype)
    b = big[..., 1::2]
    b[...] = nan
    return "strided", b, big
  if kind == 2 and len(s) > 1:
    b = np.full(s[::-1], nan, dtype).T
    return "transposed", b, None
  if kind == 3:
    big = np.full((*s[:-1], s[-1] + 6), 77, dtype)
    b = big[..., 3:-3][..., ::-1]
    b[...] = nan
    return "reversed", b, big
  return "plain", np.full(s, nan, dtype), None


def same(a, b):
  return np.shape(a) == np.shape(b) and np.allclose(
      np.asarray(a).astype(complex), np.asarray(b).astype(complex), rtol=1e-12,
      atol=1e-14, equal_nan=True)


def one(rng, mon, entry):
  name, make, gen, dtype, inplace, scalar = entry
  f = make(rng)
  s = [(), (1,), (int(rng.integers(2, 40)),), (3, 4), (2, 3, 2),
       (int(rng.integers(9, 60)),)][rng.integers(0 if scalar else 1, 6)]
  x = gen(rng, s)
  s = np.shape(x)
  if s and rng.random() < .3 and name != "expi-complex":
    x = np.repeat(x, 2, axis=-1)[..., ::2]
  if not s:
    mon.event("scalars")
    if rng.random() < .5:
      x = x.item() if hasattr(x, "item") else x
  what = {"function": name, "shape": s}
  mon.case((name, len(s), s == (1,)))
  x0 = np.array(x)
  if isinstance(x, np.ndarray):
    x.setflags(write=False)
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    r = f(x)
    mon.event("calls")
    mon.check("result-shape", np.shape(r) == s, {**what, "got": np.shape(r)})
    mon.check("result-is-new", not (isinstance(x, np.ndarray) and isinstance(
        r, np.ndarray) and np.shares_memory(r, x)), what)
    r = np.array(r)
    kind, out, big = buffer(rng, s, dtype)
    what["output"] = kind
    if big is not None:
      mon.event("strided-outputs")
    if dtype is complex:
      mon.event("complex-outputs")
    q = f(x, out=out)
    mon.check("returns-the-output", q is out, {**what, "got": type(q).__name__})
    mon.check("output-is-complete", same(out, r),
              {**what, "got": str(out)[:200], "want": str(r)[:200]})
    if big is not None:
      b = np.array(big)
      mask = np.zeros(b.shape, bool)
      (mask[..., 1::2] if kind == "strided" else mask[..., 3:-3])[...] = True
      mon.check("nothing-else-written", bool(np.all(b[~mask] == 77)) if
                dtype is not bool else bool(np.all(b[~mask])), what)
    mon.check("input-untouched", np.array_equal(x, x0), what)
    # Explicit absence
    mon.check("no-output", same(f(x, out=None), r), what)
    mon.check("repeatable", same(f(x), r), what)
    if inplace and isinstance(x, np.ndarray):
      y = np.array(x0)
      q = f(y, out=y)
      mon.event("in-place")
      mon.check("in-place", q is y and same(y, r),
                {**what, "got": str(y)[:200], "want": str(r)[:200]})

  # Narrow inputs do not narrow the result
  if dtype is float and x0.dtype == float and name.split("-")[0] not in (
      "hwr", "normalize", "wave", "ir"):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
      warnings.simplefilter("ignore")
      for xt in ("f4", "f2", "i2", "i4", "u1"):
        y = np.asarray(np.abs(np.rint(x0)) % 100 + 1 if xt[0] in "iu" else x0)
        q = f(y.astype(xt))
        mon.event("narrow-inputs")
        mon.check("declared-precision", np.asarray(q).dtype == np.float64,
                  lambda xt=xt, q=q: {**what, "input": xt,
                                      "result": str(np.asarray(q).dtype)})

  # Outputs of another precision
  if s and x0.dtype == float and dtype is not bool:
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      for xt, ot in ((np.float32, dtype), (float, np.complex64 if
                      dtype is complex else np.float32), (np.float32, None)):
        y = x0.astype(xt)
        ot = ot or (np.complex64 if dtype is complex else np.float32)
        if ot is not dtype and name.split("-")[0] in ("envelope", "wave", "ir"):
          continue  # Beyond the range of single precision
        out = np.full(s, np.nan, ot)
        y.setflags(write=False)
        q = f(y, out=out)
        r = f(y.astype(float))
        mon.event("other-precisions")
        w = {**what, "input": np.dtype(xt).name, "output": np.dtype(ot).name}
        mon.check("returns-the-output", q is out, w)
        mon.close("output-of-another-precision", out, r, rtol=1e-3,
                  atol=1e-3 * np.max(np.abs(r), initial=0), detail=w)


@CHECK.kind("functions", quick=16, thorough=300)
def functions(rng, mon, spec):
  mon.event("functions", len(TABLE))
  for e in TABLE:
    one(rng, mon, e)


@CHECK.kind("wrapper", quick=80, thorough=1500)
def wrapper(rng, mon, spec):
  """The output handling itself, around user functions"""
  dt = [None, float, np.float32, complex][rng.integers(4)]
  promote = rng.random() < .7
  method = rng.random() < .4
  s = [(), (3,), (2, 5)][rng.integers(3)]
  xt = [float, np.float32, int, complex][rng.integers(4)]
  if dt is not None and not promote and xt is complex:
    dt = complex
  seen = []

  def fun(x, y=2., out=None, gain=1):
    """Doc"""
    seen.append(out)
    return np.add(np.multiply(x, gain), y, out=out, casting="unsafe")

  kw = {"dtype": dt, **({} if promote else {"dtype_promote": False})}
  wrap = utils.numpy_out(**kw) if rng.random() < .8 else \
      (lambda f: utils.numpy_out(f, **kw))
  if method:

    class C:
      @utils.numpy_out(method=True, **kw)
      def fun(self, x, y=2., out=None, gain=1):
        """Doc"""
        return fun(x, y, out, gain)

    f = C().fun
  else:
    f = wrap(fun)
  x = (10 * rng.normal(size=s))
  x = np.asarray(x).astype(xt)
  if not s:
    x = x[()]
  args = (x,) if rng.random() < .5 else (x, 3)
  y = args[1] if len(args) > 1 else 2.
  ty = [np.result_type(x)] + ([np.result_type(3)] if len(args) > 1 else [])
  want_t = np.dtype(dt) if dt is not None and not promote else \
      np.result_type(*([] if dt is None else [dt]), *ty)
  okw = {}
  if rng.random() < .3:
    want_t = np.dtype(complex)
    okw["dtype"] = complex
  if rng.random() < .3:
    okw["gain"] = 3
  what = {"dtype": str(dt), "promote": promote, "method": method, "shape": s,
          "x": str(xt), "args": len(args), "kw": str(okw)}
  mon.case(("wrap", str(dt), promote, method, s, str(xt)))
  mon.event("wrapped")
  mon.check("documentation-kept", f.__doc__ == "Doc" and f.__name__ == "fun",
            what)
  r = f(*args, **okw)
  want = (x * okw.get("gain", 1) + y)
  mon.check("declared-type", np.asarray(r).dtype == want_t,
            {**what, "got": str(np.asarray(r).dtype), "want": str(want_t)})
  mon.check("scalar-for-scalar", np.ndim(r) == len(s) and
            (bool(s) or not isinstance(r, np.ndarray)), what)
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    mon.check("value", np.allclose(r, np.asarray(want).astype(want_t),
                                   rtol=1e-5), what)
    out = np.full(s, 9, complex)
    q = f(*args, out=out, **{k: v for k, v in okw.items() if k != "dtype"})
    mon.check("output-passed-through", q is out and seen[-1] is out, what)
    mon.check("output-value", np.allclose(out, want, rtol=1e-5), what)


@CHECK.kind("variants", quick=20, thorough=200)
def variants(rng, mon, spec):
  """Variants of a function are chosen by name"""
  key = str(rng.choice(["mode", "type", "how"]))
  names = [str(v) for v in rng.permutation(["a", "b", "c", "d"])]
  calls = []

  def main(x, k=1):
    """Doc"""
    calls.append("main")
    return ("main", x, k)

  this = names[0] if rng.random() < .7 else None
  f = utils.function_with_variants(key=key, default=names[0], this=this)(main)
  for n in names[0 if this is None else 1:]:
    g = lambda x, k=1, n=n: (n, x, k)
    if rng.random() < .5:
      utils.function_variant(f, n)(g)
    else:
      utils.function_variant(f, n, g)
  what = {"key": key, "names": names, "this": this}
  mon.case(("variants", key, this is None))
  first = "main" if this else names[0]
  mon.check("default-variant", f(3) == (first, 3, 1) and
            f(3, k=2) == (first, 3, 2), what)
  for n in names:
    w = "main" if n == this else n
    mon.check("named-variant", f(4, **{key: n}) == (w, 4, 1), {**what, "n": n})
  mon.check("documentation-kept", f.__doc__ == "Doc", what)
  ps = inspect.signature(f).parameters
  mon.check("option-in-signature", list(ps) == ["x", "k", key] and
            ps[key].default == names[0] and ps["k"].default == 1,
            lambda: {**what, "signature": str(ps)})
  for g, k in ((psycho.hz2bark, "mode"), (psycho.bark2hz, "mode"),
               (psycho.hz2mel, "mode"), (psycho.erb, "degree"),
               (psycho.hz2cams, "degree"), (psycho.cams2hz, "degree"),
               (dsp.normalize, "mode")):
    ps = inspect.signature(g).parameters
    mon.check("option-in-signature", k in ps and "out" in ps and
              g(np.ones(3) * .5, **{k: ps[k].default}).tolist() ==
              g(np.ones(3) * .5).tolist(),
              lambda g=g: {"function": g.__name__})
  try:
    r = f(1, **{key: "nonesuch"})
  except ValueError as e:
    mon.event("variants-rejected")
    mon.check("unknown-variant-explained", "nonesuch" in str(e) and
              key in str(e) and all(n in str(e) for n in names),
              {**what, "message": str(e)})
  else:
    mon.fail("unknown-variant-rejected", {**what, "got": str(r)})
