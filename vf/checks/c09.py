"""C09: spectral frames and peaks describe the analysed signal"""
import numpy as np
from scipy.signal import windows

from sample.sms import dsp as sdsp
from sample.sms import mm, sm
from vf.core import Check

CHECK = Check(
    "C09",
    rule="random signals (tones, noise, clicks, silence, integers, short) "
    "analysed with random windows, FFT sizes, hops, padding and direction; "
    "every saved frame is recomputed from the definition of the discrete "
    "Fourier transform over the documented segment and every saved peak list "
    "from a scan of the saved magnitudes. Non-trivial: at least one frame.",
    require={"frames": 400, "peaks": 3000, "padded-odd": 3, "reversed": 5,
             "dft-frames": 100, "no-frame-signal": 2},
)


def dft_matrix(w, n):
  """exp(-2 pi i k (j - floor(w/2)) / n), from exact integer phases"""
  k = np.arange(n // 2 + 1)[:, None]
  j = np.arange(w)[None, :] - w // 2
  return np.exp(-2j * np.pi * ((k * j) % n) / n)


def check_spectrum(mon, mx, px, seg, w, n, m, detail, tol=1e-14):
  z = m @ (seg.astype(float) * w)
  a = np.abs(z)
  scale = np.sum(np.abs(seg * w)) + 1e-300
  eps = np.finfo(float).eps
  err = 1e-11 * scale
  mon.check("spectrum-shape", mx.shape == (n // 2 + 1,) and px.shape ==
            (n // 2 + 1,), detail)
  lin = 10**(mx / 20)
  want = np.maximum(a, eps)
  bad = ~(np.abs(lin - want) <= err + 1e-9 * want)
  mon.check("magnitude", not bad.any(),
            lambda: f"{detail} bin {np.argmax(bad)}: {mx[np.argmax(bad)]} dB "
            f"want {20 * np.log10(want[np.argmax(bad)])}")
  # phase modulo a turn, where it is defined
  ok = a > max(err * 1e3, 10 * tol)
  d = np.angle(np.exp(1j * (px - np.angle(z))))
  lim = 1e-6 + 10 * err / np.maximum(a, 1e-300)
  bad = ok & ~(np.abs(d) <= lim)
  mon.check("phase", not bad.any(),
            lambda: f"{detail} bin {np.argmax(bad)}: off by {d[np.argmax(bad)]}")
  low = a < .1 * tol - err
  if low.all():
    mon.check("phase-of-silence", not np.any(px), detail)
  mon.check("unwrapped", np.all(np.abs(np.diff(px)) <= np.pi + 1e-9), detail)


def check_peaks(mon, loc, mag, ph, mx, px, t, detail):
  want = []
  for i in range(1, mx.size - 1):
    if mx[i] > mx[i - 1] and mx[i] > mx[i + 1] and (t is None or mx[i] > t):
      want.append(i)
  mon.event("peaks", len(want))
  if not mon.check("peak-count", len(loc) == len(want) == len(mag) and
                   (ph is None or len(ph) == len(want)),
                   lambda: f"{detail} {len(loc)} want {len(want)}"):
    return
  if not want:
    return
  i = np.array(want)
  l, c, r = mx[i - 1], mx[i], mx[i + 1]
  den = l - 2 * c + r
  with np.errstate(all="ignore"):
    d = .5 * (l - r) / den
  mon.check("peak-is-local-maximum", np.all(np.abs(loc - i) <= .5 + 1e-9),
            lambda: f"{detail} {loc} want about {i}")
  mon.close("vertex-position", loc, i + d, 1e-9, 1e-7, detail)
  mon.check("not-below-the-bin", np.all(mag >= c - 1e-9), detail)
  mon.close("vertex-level", mag, c - .25 * (l - r) * d, 1e-9, 1e-7, detail)
  if ph is not None:
    x = i + d
    k = np.minimum(np.floor(x).astype(int), px.size - 2)
    mon.close("phase-at-vertex", ph, px[k] + (x - k) * (px[k + 1] - px[k]),
              1e-6, 1e-5, detail)


def signal(rng, n, fs):
  kind = rng.choice(["tones", "noise", "clicks", "silence", "int", "dc", "tiny"])
  t = np.arange(n) / fs
  if kind == "tones":
    x = sum(rng.uniform(.01, 1) * np.cos(2 * np.pi * rng.uniform(20, fs / 2) * t
                                         + rng.uniform(0, 6)) for _ in range(4))
    x = x + np.zeros(n)
  elif kind == "noise":
    x = rng.normal(size=n)
  elif kind == "clicks":
    x = np.zeros(n)
    if n:
      x[rng.integers(0, n, 3)] = rng.normal(size=3)
  elif kind == "silence":
    x = np.zeros(n)
  elif kind == "int":
    x = rng.integers(-32768, 32768, n).astype(np.int16)
  elif kind == "dc":
    x = np.full(n, rng.normal())
  else:
    x = 1e-7 * rng.normal(size=n)
  return str(kind), x


def flattop(k):
  """A window with negative lobes"""
  return windows.flattop(k)


def kaiser(k):
  return np.kaiser(k, 9)


def rnd_window(rng, n):
  k = int(rng.choice([2, 3, 16, 17, n // 2, n // 2 + 1, n - 1, n,
                      rng.integers(2, n + 1)]))
  k = min(k, n)
  fn = [np.hamming, np.hanning, np.blackman, np.ones, None, flattop,
        kaiser][rng.integers(7)]
  w = rng.uniform(.1, 1, k) if fn is None or k < 4 else fn(k)
  return w


@CHECK.kind("model-frames", quick=700, thorough=15000)
def model_frames(rng, mon, spec):
  fs = int(rng.choice([1000, 8000, 44100]))
  n = int(2**rng.integers(5, 10))
  if rng.random() < .3:
    n = int(rng.integers(16, 300)) * 2
  w = rnd_window(rng, n)
  h = int(rng.choice([1, 3, w.size, w.size // 2 or 1, 2 * w.size + 1,
                      rng.integers(1, 200)]))
  size = int(rng.choice([w.size, w.size + h, w.size + h - 1, w.size + 3 * h + 1,
                         rng.integers(w.size, w.size + 20 * h + 1)]))
  if h < 4:
    size = min(size, w.size + 40)
  size = min(size, 6000)
  if rng.random() < .06:
    size = int(rng.integers(1, w.size))
  kind, x = signal(rng, size, fs)
  padded = bool(rng.random() < .5)
  reverse = bool(rng.random() < .5)
  t = float(rng.choice([-120, -90, -60, -30]))
  modal = rng.random() < .5
  cls = mm.ModalModel if modal else sm.SinusoidalModel

  # a recorder on either kind of tracker
  class Rec(mm.ModalTracker if modal else sm.SineTracker):

    def reset(self):
      super().reset()
      self.log = []
      return self

    def __call__(self, f, m, p):
      self.log.append((np.array(f), np.array(m), np.array(p)))
      return super().__call__(f, m, p)

  Rec.__init__ = (mm.ModalTracker if modal else sm.SineTracker).__init__
  kw = dict(fs=fs, h=h)
  if modal:
    kw["reverse"] = reverse
  else:
    reverse = False
  model = cls(w=w, n=n, t=t, padded=padded, tracker=Rec(**kw),
              intermediate__save=True)
  d = f"{kind} size={size} w={w.size} n={n} h={h} padded={padded} rev={reverse}"
  with mon.frozen("input-untouched", x, w, detail=d):
    with mon.no_exception("analysis-runs", d):
      model.fit(x)
  wn = w / np.sum(w)
  y = (x[::-1] if reverse else x).astype(float)
  if padded:
    # first window centred on the first sample, and all samples analysed
    y = np.concatenate((np.zeros(w.size // 2), y, np.zeros(
        w.size - w.size // 2)))
    mon.event("padded-odd", w.size % 2)
  mon.event("reversed", reverse)
  frames = max(0, 1 + (y.size - w.size) // h)
  st = model.intermediate.get_state()
  if frames == 0:
    mon.event("no-frame-signal")
    mon.check("no-frame", not model.tracker.log and not st.get("stft"), d)
    mon.case(d, False)
    return
  stft = st.get("stft", [])
  peaks = st.get("peaks", [])
  mon.check("one-entry-per-frame",
            len(stft) == len(peaks) == frames == len(model.tracker.log),
            lambda: f"{d}: {len(stft)}, {len(peaks)}, {len(model.tracker.log)} "
            f"entries, want {frames}")
  tf = np.asarray(model.time_frames(x[::-1] if reverse else x))
  mon.check("frames-listed", len(tf) == frames, d)
  m = dft_matrix(w.size, n)
  sel = range(frames) if frames <= 12 else sorted(
      {0, 1, frames - 1, *rng.integers(0, frames, 9).tolist()})
  for i in sel:
    if i >= min(len(stft), len(peaks), len(tf), len(model.tracker.log)):
      break
    seg = y[i * h:i * h + w.size]
    di = f"{d} frame {i}"
    mon.event("frames")
    mon.same("frame-segment", tf[i], seg, di)
    mx, px = stft[i]
    check_spectrum(mon, mx, px, seg, wn, n, m, di)
    loc, mag, ph = peaks[i]
    check_peaks(mon, loc, mag, ph, mx, px, t, di)
    f, lm, lp = model.tracker.log[i]
    mon.close("peak-frequency", f, np.asarray(loc) * fs / n, 1e-12, 1e-9, di)
    mon.same("peak-level-passed-on", lm, mag, di)
    mon.same("peak-phase-passed-on", lp, ph, di)
  mon.case(d)


@CHECK.kind("dft", quick=500, thorough=10000)
def dft(rng, mon, spec):
  n = int(rng.choice([8, 16, 64, 100, 256, 514, 1024]))
  w = rnd_window(rng, n)
  kind, x = signal(rng, w.size, 1000)
  if rng.random() < .3:
    x = x * 10.**rng.integers(-12, 6)
  d = f"dft {kind} w={w.size} n={n}"
  with mon.frozen("input-untouched", x, w, detail=d):
    mx, px = sdsp.dft(x, w, n)
  check_spectrum(mon, mx, px, x, w, n, dft_matrix(w.size, n), d)
  mon.event("dft-frames")
  mon.case(d)


@CHECK.kind("peaks", quick=700, thorough=10000)
def peaks(rng, mon, spec):
  """Peak functions on arbitrary spectra, plateaus and edge maxima included"""
  n = int(rng.choice([3, 4, 5, 17, 129, 1025]))
  style = rng.integers(0, 4)
  if style == 0:
    mx = rng.uniform(-120, 0, n)
  elif style == 1:
    mx = rng.integers(-6, 0, n).astype(float) * 10  # many ties and plateaus
  elif style == 2:
    mx = -np.abs(np.arange(n) - rng.uniform(0, n)) * rng.uniform(.1, 5)
  else:
    mx = np.full(n, -313.)
    mx[rng.integers(0, n, 1 + n // 5)] = rng.uniform(-300, 0, 1 + n // 5)
  px = np.cumsum(rng.uniform(-3, 3, n))
  if rng.random() < .3:
    mx = mx + rng.uniform(0, 60)  # loud
  t = [None, -90., -50., float(mx[rng.integers(n)]), 0., 0][rng.integers(6)]
  d = f"peaks n={n} style={style} t={t}"
  want = [i for i in range(1, n - 1)
          if mx[i] > mx[i - 1] and mx[i] > mx[i + 1] and (t is None or
                                                          mx[i] > t)]
  with mon.frozen("input-untouched", mx, px, detail=d):
    got = sdsp.peak_detect(mx, t)
    a = sdsp.peak_detect_interp(mx, px, t)
    b = sdsp.peak_detect_interp(mx, t=t)
    c = sdsp.peak_refine(np.array(want, int), mx, px)
  mon.same("detected", got, np.array(want, int), d)
  check_peaks(mon, *a, mx, px, t, d)
  mon.check("without-phase", len(b) == 2, d)
  check_peaks(mon, b[0], b[1], None, mx, px, t, d)
  for u, v in zip(a, c):
    mon.same("refine-equals-detect-interp", v, u, d)
  mon.case((d, tuple(want)), want)
