"""C17: Mel banks and spectrograms"""
import numpy as np
from scipy import signal

from sample import psycho
from vf.core import Check

CHECK = Check(
    "C17",
    rule="random frequency axes, bank sizes, ranges, scales and bandwidths: "
    "every filter is compared with the closed form of a triangle; every Mel "
    "spectrogram with the bank applied to the (power of the) magnitude of an "
    "independently computed spectrogram, and with homogeneity, tones and "
    "frame times. Non-trivial: at least one filter.",
    require={"banks": 130, "filters": 800, "bandwidth-banks": 40,
             "corner-banks": 20, "scales": 40, "rejected": 40,
             "spectrograms": 80, "complex": 9, "power": 20, "tones": 29,
             "explicit-banks": 20},
    assumptions=["a tone peaks in its band when the band is wider than the "
                 "main lobe of the analysis window"],
)


def log_hz(f):
  return np.log2(np.asarray(f, float))


def exp_hz(f):
  return 2.**np.asarray(f, float)


SCALES = {
    "default": None,
    "mel": (lambda f: 2595 * np.log10(1 + np.asarray(f, float) / 700),
            lambda m: 700 * (10.**(np.asarray(m, float) / 2595) - 1)),
    "linear": (lambda f: np.asarray(f, float), lambda f: np.asarray(f, float)),
    "log": (log_hz, exp_hz),
}


def mel(f):
  return psycho.hz2mel(np.asarray(f, float))


def imel(f):
  return psycho.mel2hz(np.asarray(f, float))


def triangle(f, l, c, r):
  f = np.asarray(f, float)
  return np.maximum(0, np.minimum((f - l) / (c - l), (r - f) / (r - c)))


def axis(rng):
  fs = float(rng.choice([8000, 22050, 44100, 48000, 96000]))
  k = int(rng.choice([2, 5, 64, 257, 513, rng.integers(2, 1200)]))
  f = np.linspace(0, fs / 2, k)
  z = rng.integers(0, 4)
  if z == 0:
    f = f[1:] if k > 2 else f + 10
  elif z == 1:
    f = np.sort(rng.uniform(20, fs / 2, k))
  return fs, f


def setup(rng, f):
  """Random bank options and the centres and edges they declare"""
  lo, hi = f[0], f[-1]
  kw = {}
  name = str(rng.choice(list(SCALES)))
  tr, itr = SCALES[name] or (mel, imel)
  if name == "log" and lo <= 0:
    lo = float(rng.uniform(10, 100))
    kw["flim"] = (lo, hi)
  if name != "default":
    kw["freq_transform"] = SCALES[name]
  if rng.random() < .5:
    lo = max(lo, float(rng.uniform(10, .2 * hi)))
    hi = float(rng.uniform(lo + 10, 1.2 * hi + lo + 10))
    kw["flim"] = [(lo, hi), [lo, hi], np.array([lo, hi]),
                  (lo, .3 * lo + .7 * hi, hi)][rng.integers(4)]
  wide = rng.random() < .4
  if rng.random() < .75:
    n = int(rng.integers(1, 60))
    kw["n_filters"] = n
    c = itr(np.linspace(tr(lo), tr(hi), n + 2))
  else:
    c = np.sort(rng.uniform(1, f[-1], int(rng.integers(3, 20))))
    kw["flim"] = c if rng.random() < .5 else tuple(c)
    n = c.size if wide else c.size - 2
  if wide:
    a, b = rng.uniform(5, 300), rng.uniform(0, .4)
    z = float(rng.choice([1., 1., .5, 2.]))
    bw = lambda g: a + b * g**z / f[-1]**(z - 1)
    kw["bandwidth"] = bw
    if "n_filters" in kw:
      c = c[1:-1]
    left, centre, right = c - bw(c), c, c + bw(c)
  else:
    left, centre, right = c[:-2], c[1:-1], c[2:]
  return kw, name, n, left, centre, right


def call_kw(kw):
  return {k: v for k, v in kw.items() if v is not None}


@CHECK.kind("triangles", quick=260, thorough=5000)
def triangles(rng, mon, spec):
  fs, f = axis(rng)
  kw, name, n, left, centre, right = setup(rng, f)
  f.setflags(write=False)
  what = {"axis": (f[0], f[-1], f.size), "kw": str(kw)[:300]}
  mon.case(("bank", name, f.size, n, "bandwidth" in kw, "flim" in kw))
  before = f.copy()
  bank, c = psycho.mel_triangular_filterbank(f, **kw)
  mon.event("banks")
  mon.event("filters", n)
  if "bandwidth" in kw:
    mon.event("bandwidth-banks")
  if "n_filters" not in kw:
    mon.event("corner-banks")
  if name != "default":
    mon.event("scales")
  mon.check("axis-untouched", np.array_equal(f, before), what)
  mon.check("shape", bank.shape == (n, f.size) and np.size(c) == n,
            {**what, "got": (bank.shape, np.size(c)), "want": n})
  if bank.shape != (n, f.size) or np.size(c) != n:
    return
  # The last representable bits of corners depend on the transform
  mon.close("centres", c, centre, rtol=1e-9, atol=1e-6, detail=what)
  want = np.array([
      triangle(f, l, m, r) for l, m, r in zip(left, centre, right)])
  width = np.maximum(np.minimum(centre - left, right - centre), 1e-3)
  err = np.max(np.abs(bank - want) * np.minimum(width, 1)[:, None])
  mon.check("triangles", err < 1e-6, {**what, "err": float(err)})
  mon.check("range", np.all(bank >= 0) and np.all(bank <= 1 + 1e-9), what)
  mon.check("ordered", bool(np.all(np.diff(c) > 0)), what)
  mon.check("zero-elsewhere", not np.any(
      bank[(f[None] < left[:, None] - 1e-6) | (f[None] > right[:, None] + 1e-6)]
  ), what)
  if "bandwidth" not in kw:
    inside = (f >= centre[0]) & (f <= centre[-1])
    if n > 1:
      mon.close("partition-of-unity", np.sum(bank, 0)[inside],
                np.ones(np.sum(inside)), rtol=0, atol=1e-5, detail=what)
    mon.check("in-range", not np.any(
        bank[:, (f < left[0] - 1e-6) | (f > right[-1] + 1e-6)]), what)


@CHECK.kind("no-filters", quick=80, thorough=500)
def no_filters(rng, mon, spec):
  fs, f = axis(rng)
  kw = [{}, {"flim": (100., 200.)}, {"n_filters": 0}, {"flim": [100.]},
        {"n_filters": 0, "bandwidth": lambda g: 10.}][rng.integers(5)]
  mon.case(("none", str(sorted(kw))))
  try:
    r = psycho.mel_triangular_filterbank(f, **kw)
  except ValueError:
    mon.event("rejected")
    mon.check("no-filters-rejected", True)
  else:
    mon.fail("no-filters-rejected", {"kw": str(kw), "got": str(r)[:200]})


def frames(x, fs, n, hop, window):
  """Plain one-sided spectrogram with zero padding on both ends, in the
  convention declared by scipy (unit response to a constant)"""
  w = signal.get_window(window, n)
  v = np.concatenate((np.zeros(n // 2), x, np.zeros(n // 2)))
  pad = (-(v.size - n) % hop) % n
  v = np.concatenate((v, np.zeros(pad)))
  k = 1 + (v.size - n) // hop
  s = np.array([np.fft.rfft(v[i * hop:i * hop + n] * w) for i in range(k)]).T
  return (np.arange(n // 2 + 1) * fs / n, np.arange(k) * hop / fs,
          s / np.sum(w))


@CHECK.kind("spectrogram", quick=160, thorough=3000)
def spectrogram(rng, mon, spec):
  fs = float(rng.choice([8000, 22050, 44100]))
  n = int(rng.choice([64, 128, 256, 512]))
  hop = int(n // rng.choice([1, 2, 4]))
  window = str(rng.choice(["hann", "hamming", "boxcar", "blackman"]))
  x = rng.normal(size=int(rng.integers(n, 8 * n))) * 10.**rng.integers(-6, 5)
  x.setflags(write=False)
  skw = dict(fs=fs, nperseg=n, noverlap=n - hop, window=window)
  f, t, s = frames(x, fs, n, hop, window)
  kw, name, m, left, centre, right = setup(rng, f)
  power = [2, 2, 1, None, .5, 3, 1.7][rng.integers(7)]
  if power is None:
    mon.event("complex")
  elif power not in (1, 2):
    mon.event("power")
  opts = {} if power == 2 and rng.random() < .5 else {"power": power}
  bank = np.array([
      triangle(f, l, c, r) for l, c, r in zip(left, centre, right)])
  fb = None
  if rng.random() < .3:
    fb = bank if rng.random() < .5 else rng.uniform(0, 1, bank.shape)
    bank = fb = fb.copy()
    fb.setflags(write=False)
    kw = {"filterbank": fb}
    mon.event("explicit-banks")

  def ref(z):
    if power is None:
      return bank @ z
    return (bank @ np.abs(z)**power)**(1 / power)

  want = ref(s)
  scale = np.max(np.abs(want)) + 1e-300
  mon.case(("spec", name, n, hop, window, m, power, fb is None),
           nontrivial=bool(scale > 1e-200))
  what = {"fs": fs, "n": n, "hop": hop, "window": window, "power": power,
          "kw": str(kw)[:200], "size": x.size}
  x0 = x.copy()
  skw0 = dict(skw)
  c, tt, y = psycho.mel_spectrogram(x, stft_kws=skw, **opts, **kw)
  mon.event("spectrograms")
  mon.check("inputs-untouched", np.array_equal(x, x0) and skw == skw0, what)
  if fb is None:
    mon.check("centre-count", np.size(c) == m, what)
    mon.close("centres", c, centre, rtol=1e-9, atol=1e-6, detail=what)
  else:
    mon.check("no-centres", c is None, what)
  mon.check("spectrogram-shape", y.shape == want.shape, {
      **what, "got": y.shape, "want": want.shape})
  mon.check("times", np.shape(tt) == t.shape and np.allclose(tt, t), what)
  if y.shape != want.shape:
    return
  # Narrow filters amplify the representation error of their corners
  slack = 1e-7 if fb is not None else 1e-5
  p = 1 if power is None else power
  sc = np.max(np.abs(s))
  if power is None or power >= 1:
    tol = slack * max(scale, sc)
    mon.check("values", bool(np.all(np.abs(y - want) <= tol**1 if p == 1 else
                                    np.abs(np.abs(y)**p - np.abs(want)**p) <=
                                    slack * max(scale, sc)**p)), {
        **what, "err": float(np.max(np.abs(y - want))), "scale": scale})
  else:
    mon.check("values", bool(np.all(np.abs(y**p - want**p) <=
                                    slack * max(scale, sc)**p)), {
        **what, "err": float(np.max(np.abs(y - want))), "scale": scale})
  mon.check("complex-iff-unpowered",
            np.iscomplexobj(y) == (power is None), what)
  # Straight from a spectrogram
  z = s.copy()
  z.setflags(write=False)
  y2, c2 = psycho.stft2mel(z, f, **opts, **kw)
  mon.check("from-spectrogram", y2.shape == y.shape and
            np.allclose(y2, y, rtol=1e-6, atol=slack * scale), what)
  mon.check("spectrogram-untouched", np.array_equal(z, s), what)
  mon.check("from-spectrogram-centres",
            (c2 is None) == (c is None) and (c is None or np.allclose(c, c2)),
            what)
  # A spectrogram of magnitudes, or anything else real
  z = np.abs(s) if rng.random() < .7 else s.real.copy()
  if rng.random() < .3:
    z = np.asfortranarray(z)
  z0 = z.copy()
  want4 = ref(z0)
  y4, _ = psycho.stft2mel(z, f, **opts, **kw)
  mon.check("real-spectrogram-untouched", np.array_equal(z, z0), what)
  mon.check("real-spectrogram", np.shape(y4) == want4.shape and np.all(
      np.abs(np.abs(y4)**p - np.abs(want4)**p) <=
      slack * max(scale, sc)**p), what)
  if f is not None:
    f0 = np.array(f)
    psycho.stft2mel(z0.tolist(), np.asarray(f).tolist(), **opts, **kw)
    mon.check("axis-untouched", np.array_equal(f, f0), what)
  # Homogeneous
  g = float(10**rng.uniform(-3, 3)) * (1 if power is not None else -1)
  _, _, y3 = psycho.mel_spectrogram(g * x, stft_kws=skw, **opts, **kw)
  mon.check("homogeneous", np.allclose(y3, g * y, rtol=1e-6,
                                       atol=1e-9 * abs(g) * scale), what)


@CHECK.kind("tones", quick=60, thorough=1000)
def tones(rng, mon, spec):
  fs = float(rng.choice([16000, 44100, 48000]))
  m = int(rng.integers(4, 40))
  lo, hi = float(rng.uniform(50, 500)), float(rng.uniform(.3, .49) * fs)
  e = imel(np.linspace(mel(lo), mel(hi), m + 2))
  n = 4096
  j = int(rng.integers(0, m))
  # Main lobe of a Hann window: four bins
  if e[j + 1] - e[j] < 12 * fs / n:
    mon.case(("tone-narrow", j), nontrivial=False)
    return
  f = float(rng.uniform(.8 * e[j + 1] + .2 * e[j], .8 * e[j + 1] + .2 * e[j + 2]))
  a = float(10**rng.uniform(-4, 2))
  x = a * np.sin(2 * np.pi * f * np.arange(3 * n) / fs + rng.uniform(0, 6))
  mon.case(("tone", m, j, fs))
  c, t, y = psycho.mel_spectrogram(
      x, stft_kws=dict(fs=fs, nperseg=n), n_filters=m, flim=(lo, hi),
      **({} if rng.random() < .5 else {"power": 1}))
  mon.event("tones")
  k = y[:, y.shape[1] // 2]
  mon.check("tone-in-its-band", int(np.argmax(k)) == j,
            {"f": f, "band": j, "got": int(np.argmax(k)), "edges": e[j:j + 3]})
  mon.check("tone-centre", abs(c[j] - e[j + 1]) < 1e-6 * e[j + 1] + 1e-6,
            {"c": c[j], "want": e[j + 1]})
