"""C34: results depend on values, not on how they are stored or passed"""
import warnings

import numpy as np

from vf import ops
from vf.core import Check

CHECK = Check(
    "C34",
    rule="every operation of the package on arrays (about ninety), on random "
    "data stored in different ways: one channel of an interleaved recording, a "
    "reversed view, a slice of a larger buffer, column-major, read-only, other "
    "byte order, unaligned, single precision; the result must be that for a "
    "plain copy, and neither the data nor what lies around them may change. "
    "Non-trivial: every call on a stored variant.",
    require={"calls": 3000, "operations": 800, "typed-calls": 150},
)

VARIANTS = ("interleaved", "reversed", "slice", "column-major", "read-only",
            "byte-order", "unaligned")


def stored(v, how):
  """Equal array stored in some other way, and the buffer to watch"""
  junk = {"f": 1e3, "c": 1e3 - 7e2j}.get(v.dtype.kind, 1)
  if how == "interleaved":
    b = np.full((*v.shape, 3), junk, v.dtype)
    r = b[..., 1]
  elif how == "reversed":
    b = np.full(v.shape, junk, v.dtype)
    r = b[tuple(slice(None, None, -1) for _ in v.shape)]
  elif how == "slice":
    b = np.full(tuple(n + 5 for n in v.shape), junk, v.dtype)
    r = b[tuple(slice(2, -3) for _ in v.shape)]
  elif how == "column-major":
    b = r = np.full(v.shape, junk, v.dtype, order="F")
  elif how == "byte-order":
    b = r = np.full(v.shape, junk, v.dtype.newbyteorder())
  elif how == "unaligned":
    b = np.zeros(v.nbytes + 1, np.uint8)
    r = b[1:].view(v.dtype).reshape(v.shape)
  else:
    b = r = np.full(v.shape, junk, v.dtype)
  r[...] = v
  if how == "read-only":
    r.flags.writeable = False
  return r, b


def call(f, args):
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    with np.errstate(all="ignore"):
      try:
        return ops.flat(f(*args))
      except (ValueError, np.linalg.LinAlgError) as e:
        # Data that the plain copy cannot use either
        return [(("raised", type(e).__name__), 0)]


@CHECK.kind("storage", quick=24, thorough=600)
def storage(rng, mon, spec):
  names = sorted(ops.OPS)
  for name in names:
    if name in ops.HEAVY and rng.random() < .6:
      continue
    f, args = ops.OPS[name](rng)
    if not args:
      continue
    mon.event("operations")
    ref = call(f, [v.copy() for v in args])
    for how in rng.permutation(VARIANTS)[:2 if name in ops.HEAVY else 4]:
      which = rng.random(len(args)) < .7
      which[rng.integers(len(args))] = True
      vs = [stored(v, str(how)) if w else (v.copy(), None)
            for v, w in zip(args, which)]
      before = [None if b is None else b.tobytes() for _, b in vs]
      det = {"operation": name, "storage": str(how), "which": which.tolist(),
             "shapes": [v.shape for v in args]}
      mon.case((name, str(how)))
      mon.event("calls")
      mon.event("storage-" + str(how))
      with mon.no_exception("accepted", det):
        r = call(f, [v for v, _ in vs])
        d = ops.differ(ref, r, 1e-6 if name in ops.HEAVY else 1e-9)
        mon.check("same-result", d is None, lambda: {**det, "at": d})
      for (v, b), o, v0 in zip(vs, before, args):
        mon.check("data-untouched", np.array_equal(v, v0), det)
        if b is not None:
          mon.check("surroundings-untouched", b.tobytes() == o, det)


TYPES = {"sample-fit": 1, "sinusoidal-fit": 1, "modal-fit": 1,
         "onset-detection": 1, "spectral-flux": 1, "strided-convolution": 1,
         "strided-convolution-complex": 1, "cochleagram-fft-ir": 1,
         "cochleagram-stride-ir": 1, "cochleagram-direct-None": 1,
         "mel-spectrogram": 1, "spectral-loss": 2, "cochleagram-loss": 2,
         "multiscale-loss": 2, "dft": 1, "lp-distance": 2,
         "overlapping-windows": 1, "local-maxima": 1, "detrend": 1}


# Short-time transforms of short integers are in single precision
STFT = ("spectral-flux", "onset-detection", "mel-spectrogram", "spectral-loss",
        "multiscale-loss")


@CHECK.kind("sample-types", quick=24, thorough=600)
def sample_types(rng, mon, spec):
  """Recordings with integer or single-precision samples"""
  for name, n in TYPES.items():
    if name in ops.HEAVY and rng.random() < .5:
      continue
    f, args = ops.OPS[name](rng)
    t = [np.int16, np.int32, np.float32, ">i2", np.uint8][rng.integers(5)]
    t = np.dtype(t)
    if (name, t) == ("strided-convolution", np.dtype(np.float32)):
      continue
    vs = []
    for v in args[:n]:
      g = v / max(np.max(np.abs(v)), 1e-9)
      vs.append((np.round(g * 127) + 128 if t == np.uint8 else np.round(
          g * 32767) if t.kind == "i" else g).astype(t))
    det = {"operation": name, "type": str(t)}
    mon.case((name, str(t)))
    mon.event("typed-calls")
    ref = call(f, [v.astype(float) for v in vs] + args[n:])
    with mon.no_exception("accepted", det):
      r = call(f, vs + args[n:])
      d = ops.differ(ref, r, 1e-4 if t.kind == "f" or name in STFT else
                     1e-6 if name in ops.HEAVY else 1e-9)
      mon.check("same-result-for-type", d is None, lambda: {**det, "at": d})
