"""C20: onset detection"""
import numpy as np
from scipy import signal

from sample.utils import dsp
from vf import audio
from vf.core import Check

CHECK = Check(
    "C20",
    rule="random functions, radii, keys and thresholds for the selection of "
    "maxima and onsets, compared sample by sample with a plain-loop "
    "formulation of the published criteria; random sounds with isolated "
    "attacks at known times; hostile audio. Non-trivial: the function is not "
    "constant.",
    require={"maxima": 100, "found-maxima": 290, "keys": 27, "accumulated": 30,
             "selections": 78, "found-onsets": 60, "fluxes": 40,
             "attacks": 40, "detections": 30, "long": 2, "ties": 20},
    assumptions=["window radii are at least one", "attacks are isolated when "
                 "half a second apart, of similar level (6 dB), and 40 dB "
                 "above the noise"],
)


def maxima(x, w, key=None):
  x = np.ravel(x)
  key = x if key is None else np.ravel(key)
  out = np.zeros(x.size, bool)
  for i in range(w, x.size - w):
    out[i] = all(x[i] >= key[j] for j in range(i - w, i + w + 1))
  return out


def selection(x, w, m, alpha, delta):
  """Onset selection criteria of Dixon (2006) on a normalised function.
  Also returns the smallest margin of any decision"""
  x = np.ravel(x).astype(float)
  z = (x - np.mean(x)) / (np.std(x) or 1)
  out = np.zeros(x.size, bool)
  margin = np.inf
  g = 0.
  for i in range(x.size):
    if w <= i < x.size - w:
      mean = 0.
      if m * w <= i:
        mean = np.mean(z[i - m * w:i + w + 1])
      a = z[i] - (mean + delta)
      b = z[i] - g
      nb = [x[i] - x[j] for j in range(i - w, i + w + 1)]
      if min(nb) >= 0:
        out[i] = a >= 0 and b >= 0
        margin = min(margin, abs(a), abs(b) if b else np.inf)
    g = max(z[i], alpha * g + (1 - alpha) * z[i])
  return out, margin


def function(rng, n):
  kind = str(rng.choice(["noise", "ties", "ramp", "constant", "peaks", "walk",
                         "int"]))
  x = rng.normal(size=n)
  if kind == "ties":
    x = np.round(x)
  elif kind == "int":
    x = rng.integers(-4, 5, n)
  elif kind == "ramp":
    x = np.linspace(0, rng.normal(), n)
  elif kind == "constant":
    x = np.full(n, rng.normal())
  elif kind == "peaks":
    x = np.abs(x) * .01
    x[rng.integers(0, n, 1 + n // 20)] += rng.uniform(1, 5)
  elif kind == "walk":
    x = np.cumsum(x)
  return kind, x


@CHECK.kind("maxima", quick=200, thorough=5000)
def local_maxima(rng, mon, spec):
  n = int(rng.choice([1, 2, 3, 7, rng.integers(1, 200)]))
  w = int(rng.integers(1, 12))
  kind, x = function(rng, n)
  what = {"n": n, "w": w, "kind": kind}
  mon.case(("max", kind, w, n), nontrivial=bool(np.any(x != x[0])))
  if kind in ("ties", "int"):
    mon.event("ties")
  key = None
  opts = {}
  if rng.random() < .3:
    key = opts["key"] = np.convolve(x, np.ones(3) / 3)[:n] if \
        rng.random() < .5 else rng.normal(size=n)
    mon.event("keys")
  if w != 1 or rng.random() < .5:
    opts["w"] = w
  want = maxima(x, w, key)
  mon.event("found-maxima", int(np.sum(want)))
  with mon.frozen("inputs", x, *([] if key is None else [key]), detail=what):
    r = dsp.local_maxima(x, **opts)
  mon.event("maxima")
  mon.check("boolean", np.asarray(r).dtype == bool and np.shape(r) == (n,),
            what)
  mon.check("maxima", np.array_equal(r, want),
            {**what, "x": x[:50], "at": np.flatnonzero(r != want)[:9]})
  out = rng.random(n) < .5
  start = out.copy()
  both = rng.random() < .5
  q = dsp.local_maxima(x, out=out, logical_and=both, **opts)
  mon.check("given-output", q is out, what)
  if both:
    mon.event("accumulated")
  mon.check("maxima-in-output",
            np.array_equal(out, want & start if both else want),
            {**what, "and": both})
  if kind not in ("int",) and key is None:
    g = float(2.**rng.integers(-8, 8))
    mon.check("scale-free", np.array_equal(dsp.local_maxima(g * x, **opts), r),
              what)
    mon.check("mirror", np.array_equal(dsp.local_maxima(x[::-1], **opts),
                                       want[::-1]), what)


@CHECK.kind("selection", quick=160, thorough=4000)
def onset_selection(rng, mon, spec):
  n = int(rng.choice([1, 3, 10, rng.integers(10, 400), rng.integers(30, 400)]))
  kind, x = function(rng, n)
  x = x.astype(float)
  o = dict(w=3, m=3, alpha=.75, delta=1.5)
  opts = {}
  if rng.random() < .8:
    opts = {"w": int(rng.integers(1, 9)), "m": int(rng.integers(1, 6)),
            "alpha": float(rng.choice([0, .5, .9, 1, rng.uniform(0, 1)])),
            "delta": float(rng.uniform(0, 2.5))}
    o.update(opts)
  what = {"kind": kind, "n": n, **o}
  want, margin = selection(x, **o)
  if margin < 1e-9:
    # A decision on the edge of the criterion: either is right
    mon.case(("sel", kind, n), nontrivial=False)
    return
  mon.case(("sel", kind, n, o["w"], o["m"]),
           nontrivial=bool(np.any(x != x[0])))
  mon.event("selections")
  mon.event("found-onsets", int(np.sum(want)))
  with mon.frozen("inputs", x, detail=what):
    r = dsp.onset_selection(x, **opts)
  mon.check("boolean", np.asarray(r).dtype == bool and np.shape(r) == (n,),
            what)
  mon.check("selection", np.array_equal(r, want), {
      **what, "got": np.flatnonzero(r)[:20], "want": np.flatnonzero(want)[:20],
      "margin": margin})
  if margin > 1e-6 and kind != "constant":
    # Offsets and gains do not matter
    y = dsp.onset_selection(x * float(2.**rng.integers(-9, 9)), **opts)
    mon.check("gain-free", np.array_equal(y, r), what)


@CHECK.kind("flux", quick=80, thorough=1500)
def flux(rng, mon, spec):
  f, t = rng.integers(1, 40, 2)
  a = rng.normal(size=(f, t + 1)) * 10.**rng.integers(-6, 6)
  if rng.random() < .6:
    a = a + 1j * rng.normal(size=a.shape)
  what = {"shape": a.shape, "complex": np.iscomplexobj(a)}
  mon.case(("flux", a.shape))
  m = np.abs(a)
  want = np.array([sum(max(m[i, j + 1] - m[i, j], 0) for i in range(f))
                   for j in range(t)])
  with mon.frozen("inputs", a, detail=what):
    r = dsp.spectral_flux_from_tf(a)
  mon.event("fluxes")
  mon.close("flux", r, want, rtol=1e-9, atol=1e-12 * np.max(m), detail=what)
  kw = {}
  n = 256
  if rng.random() < .5:
    n = kw["nperseg"] = int(2**rng.integers(4, 9))
  x = rng.normal(size=int(rng.integers(n, 3000)))
  s = np.abs(signal.stft(x, nperseg=n)[-1])
  with mon.frozen("inputs", x, detail=kw):
    r = dsp.spectral_flux(x, **kw)
  mon.close("flux-of-audio", r, np.sum(np.maximum(np.diff(s), 0), 0),
            rtol=1e-9, atol=1e-12, detail=kw)
  seen = []

  def tf(v, gain=1):
    seen.append((v, gain))
    return "frequencies", gain * a

  r = dsp.spectral_flux(x, tf, gain=2)
  mon.check("custom-transform", len(seen) == 1 and seen[0][0] is x and
            seen[0][1] == 2, what)
  mon.close("custom-flux", r, 2 * want, rtol=1e-9, atol=1e-12 * np.max(m),
            detail=what)


@CHECK.kind("attacks", quick=40, thorough=800)
def attacks(rng, mon, spec):
  fs = int(rng.choice([11025, 22050, 44100]))
  k = int(rng.integers(1, 5))
  # A few periods of the lowest partial
  n = int(2**np.ceil(np.log2(fs * rng.uniform(.015, .045))))
  t0 = .3 + np.cumsum(rng.uniform(.5, .9, k))
  dur = t0[-1] + rng.uniform(.5, .8)
  t = np.arange(int(dur * fs)) / fs
  x = np.zeros(t.size)
  g = 2.**rng.uniform(-.5, .5, k)
  f, d, a, p = audio.rnd_modes(rng, int(rng.integers(1, 6)), fs, .03, .15)
  f = np.maximum(f, 200)
  for i in range(k):
    u = t >= t0[i]
    x[u] += g[i] * audio.modal(t[u] - t0[i], f, d, a / np.sum(a), p)
  x += rng.normal(size=x.size) * 10**(-rng.uniform(40, 90) / 20) * .3
  x *= 10.**rng.integers(-5, 5)
  kw = {"nperseg": n} if n != 256 or rng.random() < .5 else {}
  what = {"fs": fs, "t0": t0, "nperseg": n, "f": f, "d": d}
  mon.case(("attacks", k, fs, n))
  with mon.frozen("inputs", x, detail=what):
    r = dsp.onset_detection(x, **kw)
  mon.event("attacks", k)
  mon.check("flag-per-sample", np.shape(r) == x.shape and
            np.asarray(r).dtype == bool, what)
  i = np.flatnonzero(r)
  mon.check("one-onset-per-attack", len(i) == k, {**what, "got": i / fs})
  if len(i) == k:
    e = i - t0 * fs
    mon.check("onset-close", bool(np.all(np.abs(e) <= 1.5 * n + 2)),
              {**what, "error": e})


@CHECK.kind("detection", quick=60, thorough=1500)
def detection(rng, mon, spec):
  """Consistency with the selection, whatever the audio"""
  fs = 8000
  kind, x = audio.hostile(rng, fs, n=int(rng.integers(600, 6000)))
  if x.size < 256:
    x = np.resize(x, 300)
  o = {}
  if rng.random() < .6:
    o = {"w": int(rng.integers(1, 9)), "m": int(rng.integers(1, 5)),
         "alpha": float(rng.uniform(0, 1)), "delta": float(rng.uniform(.1, 3))}
  kw = {"nperseg": int(2**rng.integers(4, 9))}
  what = {"kind": kind, "n": x.size, **o, **kw}
  mon.case(("detect", kind), nontrivial=bool(np.any(x != x[0])))
  custom = rng.random() < .3
  if custom:
    if rng.random() < .4:
      # Minutes of audio
      x = np.resize(x, int(rng.integers(1000000, 4000000)))
      what["n"] = x.size
      mon.event("long")
    env = rng.normal(size=int(rng.integers(20, min(x.size, 6000))))
    kw = {"detection_fn": lambda v, gain=1: gain * env, "gain": 2.}
    f = 2 * env
  else:
    f = dsp.spectral_flux(x, **kw)
  with mon.frozen("inputs", x, detail=what):
    r = dsp.onset_detection(x, **o, **kw)
  mon.event("detections")
  idx = np.flatnonzero(dsp.onset_selection(f, **o))
  want = np.zeros(x.size, bool)
  want[(idx * x.size) // f.size] = True
  mon.check("flags", np.shape(r) == want.shape and
            np.asarray(r).dtype == bool, what)
  mon.check("onset-times", np.array_equal(r, want), {
      **what, "got": np.flatnonzero(r)[:20], "want": np.flatnonzero(want)[:20]})
  mon.check("repeatable",
            np.array_equal(dsp.onset_detection(x, **o, **kw), r), what)
  if kind in ("silence",):
    mon.check("silence-has-none", custom or not np.any(r), what)
