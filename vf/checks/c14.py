"""C14: perceptual scales are monotone and invertible"""
import numpy as np

from sample import psycho
from vf.core import Check

CHECK = Check(
    "C14",
    rule="random frequencies (audible, subsonic and ultrasonic; scalars, "
    "integers, lists, empty and multi-dimensional arrays, read-only, strided "
    "and single precision) through every conversion and every variant, against "
    "the published formulas, the companion conversion, finite differences and "
    "the table of the weighting standard. Non-trivial: at least one value.",
    require={"values": 12784, "round-trips": 200, "shapes": 200,
             "variants": 100, "weights": 809, "bandwidths": 2000},
    assumptions=["round trips are exact to 1e-6 relative (rounding of the "
                 "logarithms), formulas to 1e-9"],
)

FORMULA = {
    ("hz2bark", "mode", "zwicker"):
        lambda f: 13 * np.arctan(.00076 * f) + 3.5 * np.arctan((f / 7500)**2),
    ("hz2bark", "mode", "traunmuller"):
        lambda f: 26.81 / (1 + 1960 / f) - .53,
    ("hz2bark", "mode", "wang"):
        lambda f: 6 * np.log(f / 600 + np.sqrt((f / 600)**2 + 1)),
    ("hz2mel", "mode", "default"):
        lambda f: 2595 * np.log(1 + f / 700) / np.log(10),
    ("hz2mel", "mode", "fant"):
        lambda f: 1000 / np.log(2) * np.log(1 + f / 1000),
    ("hz2cams", "degree", "quadratic"):
        lambda f: 11.17 * (np.log(f + 312) - np.log(f + 14675)) + 43,
    ("hz2cams", "degree", "linear"):
        lambda f: 21.4 * np.log(4.37 * f / 1000 + 1) / np.log(10),
    ("erb", "degree", "quadratic"):
        lambda f: 6.23 * (f / 1000)**2 + 9.339e-2 * f + 28.52,
    ("erb", "degree", "linear"):
        lambda f: 24.7 * (4.37 * f / 1000 + 1),
}
DEFAULT = {"hz2bark": "traunmuller", "bark2hz": "traunmuller",
           "hz2mel": "default", "mel2hz": "default", "hz2cams": "quadratic",
           "cams2hz": "quadratic", "erb": "quadratic"}
INVERSE = {"hz2bark": "bark2hz", "hz2mel": "mel2hz", "hz2cams": "cams2hz"}
# nominal A-weights at the exact base-ten frequencies, 10^(n/10)
TABLE = {10: -70.4, 13: -50.5, 15: -39.4, 18: -26.2, 21: -16.1, 24: -8.6,
         27: -3.2, 30: 0, 33: 1.2, 36: 1.0, 39: -1.1, 42: -6.6}


def frequencies(rng, n):
  z = rng.integers(0, 4)
  if z == 0:
    return 10**rng.uniform(1, 4.4, n)
  if z == 1:
    return rng.uniform(20, 20000, n)
  if z == 2:
    return 10**rng.uniform(-3, 5.5, n)
  return np.sort(rng.choice([1, 20, 99.5, 600, 700, 1000, 1960, 7500, 15500.,
                             20000, 44100], n))


@CHECK.kind("formula", quick=100, thorough=2000)
def formula(rng, mon, spec):
  """Published formulas, monotonicity, inverses"""
  f = frequencies(rng, int(rng.integers(1, 60)))
  grid = np.sort(10**rng.uniform(np.log10(20), np.log10(20000), 60))
  grid = grid[np.r_[True, np.diff(grid) > 1e-6 * grid[1:]]]
  for (name, key, var), g in FORMULA.items():
    foo = getattr(psycho, name)
    det = f"{name} {key}={var}"
    with mon.frozen("input-untouched", f, detail=det):
      y = foo(f, **{key: var})
    mon.close("formula", y, g(f), 1e-9, 1e-9, lambda: f"{det} f={f}")
    mon.event("values", f.size)
    u = foo(grid, **{key: var})
    mon.check("strictly-increasing", np.all(np.diff(u) > 0), det)
    if DEFAULT[name] == var:
      mon.same("default-variant", foo(f), y, det)
      mon.event("variants")
    if name == "erb":
      mon.check("positive-bandwidth", np.all(y > 0), det)
      continue
    if name in INVERSE and var != "zwicker":
      inv = getattr(psycho, INVERSE[name])
      back = inv(u, **{key: var})
      mon.close("inverse", back, grid, 1e-6, 1e-9, det)
      # any value of the scale
      lo, hi = u[0], u[-1]
      b = rng.uniform(lo, hi, 20)
      h = inv(b, **{key: var})
      mon.close("inverse-of-inverse", foo(h, **{key: var}), b, 1e-6, 1e-9, det)
      o = np.argsort(b)
      mon.check("inverse-increasing", np.all(np.diff(h[o]) >= 0), det)
      if DEFAULT[name] == var:
        mon.same("default-variant", inv(u), back, det)
      mon.event("round-trips")
  # bandwidths are the reciprocal of the slope of their scale
  m = rng.uniform(100, 6500, 20)
  for deg, tol in (("quadratic", .06), ("linear", .01)):
    e = 1e-3 * m
    slope = (psycho.hz2cams(m + e, degree=deg) -
             psycho.hz2cams(m - e, degree=deg)) / (2 * e)
    mon.close("bandwidth-is-inverse-slope", slope * psycho.erb(m, degree=deg),
              np.ones(m.size), tol, 0, deg)
    mon.event("bandwidths", m.size)
  mon.case(f.tolist())


def dress(rng, f):
  """The same values in another container"""
  z = int(rng.integers(0, 10))
  if z == 0:
    return "scalar", float(f[0]), ()
  if z == 1:
    return "numpy-scalar", np.float64(f[0]), ()
  if z == 2:
    return "zero-dim", np.array(f[0]), ()
  if z == 3:
    return "int", int(np.ceil(f[0])), ()
  if z == 4:
    return "int-array", np.ceil(f).astype(int), f.shape
  if z == 5:
    return "list", f.tolist(), f.shape
  if z == 6:
    return "float32", f.astype(np.float32), f.shape
  if z == 7:
    g = np.resize(f, (2, 3, max(1, f.size // 3)))
    return "3d", g, g.shape
  if z == 8:
    g = np.repeat(f, 2)[::2]
    g.flags.writeable = False
    return "read-only-strided", g, g.shape
  return "tuple", tuple(f.tolist()), f.shape


@CHECK.kind("shapes", quick=100, thorough=2000)
def shapes(rng, mon, spec):
  """Element-wise on any container"""
  f = frequencies(rng, int(rng.integers(1, 12)))
  # floating-point single precision overflows nowhere in this range
  for name, var in [(k[0], {k[1]: k[2]}) for k in FORMULA] + [
      ("a_weighting", {"db": True}), ("a_weighting", {"db": False}),
      ("bark2hz", {"mode": "traunmuller"}), ("bark2hz", {"mode": "wang"}),
      ("mel2hz", {"mode": "default"}), ("mel2hz", {"mode": "fant"}),
      ("cams2hz", {"degree": "quadratic"}), ("cams2hz", {"degree": "linear"})]:
    v = f
    if name == "bark2hz":
      v = np.mod(f, 24)
    elif name == "cams2hz":
      v = np.mod(f, 38)
    elif name == "mel2hz":
      v = np.mod(f, 3900)
    foo = getattr(psycho, name)
    kind, x, shape = dress(rng, v)
    det = f"{name} {var} {kind} {x!r:.80}"
    y = foo(x, **var)
    mon.check("shape", np.shape(y) == shape, lambda: f"{det}: {np.shape(y)}")
    mon.event("shapes")
    each = np.array([foo(float(i), **var) for i in np.ravel(x)])
    mon.close("element-wise", np.ravel(y), each, 1e-3 if kind == "float32" else
              1e-10, 1e-3 if kind == "float32" else 1e-10, det)
    mon.check("no-alias", not (isinstance(x, np.ndarray) and
                               np.shares_memory(x, y)), det)
    e = foo(np.empty((0, 2)), **var)
    mon.check("empty", np.shape(e) == (0, 2), det)
  mon.case((f.tolist()))


@CHECK.kind("weighting", quick=60, thorough=1000)
def weighting(rng, mon, spec):
  """Loudness weighting"""
  f = frequencies(rng, int(rng.integers(1, 60)))
  lin, db = psycho.a_weighting(f, db=False), psycho.a_weighting(f)
  mon.same("decibels-by-default", psycho.a_weighting(f, db=True), db)
  f2 = f * f
  r = 12194.**2 * f2 * f2 / ((f2 + 20.6**2) * (f2 + 12194.**2) * np.sqrt(
      (f2 + 107.7**2) * (f2 + 737.9**2)))
  mon.close("standard", lin, r, 1e-6, 0, lambda: str(f))
  one = psycho.a_weighting(1000., db=False)
  mon.close("zero-at-1k", psycho.a_weighting(1e3), 0., 0, 1e-9)
  # the decibel conversion has a floor far below any weight of sound
  ok = r > 1e-9
  mon.close("decibels-of-linear", db[ok], 20 * np.log10(lin[ok] / one), 1e-7,
            1e-7, lambda: str(f))
  mon.event("weights", f.size)
  if spec["i"] == 0:
    for k, v in TABLE.items():
      mon.close("standard-table", psycho.a_weighting(10**(k / 10)), v, 0, .11,
                f"{10**(k/10)} Hz")
  lo, hi = rng.uniform(5, 300), rng.uniform(9000, 40000)
  mon.check("extremes-attenuated", psycho.a_weighting(lo) < -6 and
            psycho.a_weighting(hi) < -1, f"{lo} {hi}")
  u = np.sort(rng.uniform(1, 1000, 20))
  mon.check("rises-to-1k", np.all(np.diff(psycho.a_weighting(u)) > 0), str(u))
  v = np.sort(rng.uniform(5000, 60000, 20))
  mon.check("falls-at-high", np.all(np.diff(psycho.a_weighting(v)) < 0), str(v))
  mon.case(f.tolist())


@CHECK.kind("names", quick=20, thorough=100)
def names(rng, mon, spec):
  """Variants are chosen by name, unknown names are refused"""
  for name, key in (("hz2bark", "mode"), ("bark2hz", "mode"),
                    ("hz2mel", "mode"), ("mel2hz", "mode"),
                    ("hz2cams", "degree"), ("cams2hz", "degree"),
                    ("erb", "degree")):
    foo = getattr(psycho, name)
    bad = ["cubic", "", "Zwicker", "none", "quadratic ", "bark"][
        rng.integers(6)]
    try:
      foo(100., **{key: bad})
      mon.fail("unknown-variant", f"{name} {bad!r} accepted")
    except ValueError as e:
      mon.check("unknown-variant", DEFAULT[name] in str(e) and name in str(e),
                lambda: f"{name}: {e}")
    mon.event("variants")
    mon.case((name, bad))
