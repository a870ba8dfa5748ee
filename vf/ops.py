"""Operations of the package on arrays, as a user calls them.

Every entry is a function of a random generator that gives a callable and the
arrays to pass to it. Callables build their own objects, so that calling them
again must give the same result."""
import functools

import numpy as np
from matplotlib import figure
from scipy import signal

from sample import beatsdrop, hinge, ipython, optimize, plots, psycho
from sample import sample as smp
from sample.beatsdrop import regression as breg
from sample.beatsdrop import sample as bds
from sample.evaluation import metrics
from sample.evaluation import random as erandom
from sample.sms import dsp as sdsp
from sample.sms import mm, sm
from sample.utils import dsp, learn
from vf import audio, beats

OPS = {}
HEAVY = {"sample-fit", "beatsdrop-fit", "sinusoidal-fit", "modal-fit",
         "beat-regression", "dual-regression", "web-audio", "sample-predict",
         "plot-tracks", "plot-resynthesis"}


def op(name):

  def deco(f):
    OPS[name] = f
    return f

  return deco


def elementwise(name, f, gen):
  """An element-wise function, on arrays of several shapes"""

  def make(rng):
    s = [(1,), (int(rng.integers(2, 70)),), (3, 5), (2, 3, 4), (64,)][
        rng.integers(5)]
    return f, [gen(rng, s)]

  OPS[name] = make


pos = lambda r, s: 10**r.uniform(1, 4, s)
reals = lambda r, s: r.normal(size=s)
cplx = lambda r, s: r.normal(size=s) + 1j * r.normal(size=s)
for m_ in ("zwicker", "traunmuller", "wang"):
  elementwise(f"hz2bark-{m_}", functools.partial(psycho.hz2bark, mode=m_), pos)
for m_ in ("traunmuller", "wang"):
  elementwise(f"bark2hz-{m_}", functools.partial(psycho.bark2hz, mode=m_),
              lambda r, s: r.uniform(1, 22, s))
for m_ in ("default", "fant"):
  elementwise(f"hz2mel-{m_}", functools.partial(psycho.hz2mel, mode=m_), pos)
  elementwise(f"mel2hz-{m_}", functools.partial(psycho.mel2hz, mode=m_), pos)
for m_ in ("quadratic", "linear"):
  elementwise(f"erb-{m_}", functools.partial(psycho.erb, degree=m_), pos)
  elementwise(f"hz2cams-{m_}", functools.partial(psycho.hz2cams, degree=m_),
              pos)
  elementwise(f"cams2hz-{m_}", functools.partial(psycho.cams2hz, degree=m_),
              lambda r, s: r.uniform(1, 30, s))
elementwise("a_weighting", psycho.a_weighting, pos)
elementwise("a_weighting-amp", functools.partial(psycho.a_weighting, db=False),
            pos)
elementwise("hwr", functools.partial(psycho.hwr, th=.2), reals)
elementwise("db2a", dsp.db2a, reals)
elementwise("a2db", dsp.a2db, pos)
elementwise("a2db-floor", functools.partial(dsp.a2db, floor=-3, floor_db=True),
            reals)
elementwise("complex2db", functools.partial(dsp.complex2db, floor=-3,
                                            floor_db=True), cplx)
elementwise("expi", dsp.expi, reals)
elementwise("expi-complex", dsp.expi, cplx)
elementwise("f2bin", functools.partial(dsp.f2bin, nfft=256, fs=8000), pos)
elementwise("bin2f", functools.partial(dsp.bin2f, nfft=256, fs=8000), pos)
elementwise("normalize", dsp.normalize, reals)
elementwise("normalize-range", functools.partial(dsp.normalize, mode="range"),
            reals)
elementwise("normalize-rms", functools.partial(dsp.normalize, mode="rms"),
            reals)
elementwise("hinge", lambda x: hinge.hinge_function(x, .3, -2., .1), reals)
elementwise("decay", beatsdrop.ExponentialDecay(.7, .4), reals)
elementwise("decay-dt", beatsdrop.ExponentialDecay(.7, .4).dt, reals)
elementwise("modal_energy", lambda x: smp.modal_energy(x, .7), reals)


@op("modal_energy-2")
def _(rng):
  n = int(rng.integers(1, 30))
  return smp.modal_energy, [rng.normal(size=n), rng.uniform(.1, 2, n)]


@op("energies-of-a-beat")
def _(rng):
  return (lambda p: breg.sort_params(p, descending=True)), [
          np.concatenate((rng.uniform(.1, 1, 2), rng.uniform(100, 900, 2),
                          rng.uniform(.1, 1, 2), rng.uniform(0, 6, 2)))]


def gamma(rng):
  return psycho.GammatoneFilter(
      f=float(rng.uniform(80, 2500)), n=int(rng.integers(2, 6)),
      **({} if rng.random() < .5 else {"a": 3., "normalize": True}))


def _gamma_op(name, **kw):

  def make(rng):
    g = gamma(rng)
    t = rng.uniform(-.01, .1, int(rng.integers(2, 90)))
    return (lambda t: getattr(g, name)(t, **kw)), [np.sort(t)]

  OPS[f"gammatone-{name}" + "".join(f"-{k}" for k in kw)] = make


_gamma_op("envelope")
_gamma_op("wavefun")
_gamma_op("wavefun", analytic=True)


@op("filterbank-centres")
def _(rng):
  f = np.sort(rng.uniform(80, 2500, int(rng.integers(1, 9))))

  kw = {"n": int(rng.integers(2, 6))}
  if rng.random() < .5:
    kw["bandwidth"] = float(rng.uniform(20, 90))

  def build(f):
    b = psycho.GammatoneFilterbank(freqs=f, **kw)
    t = np.arange(80) / 8000
    p = b.precompute(8000, analytic=True)
    return [(g.f, g.bandwidth, g.a, g.wavefun(t), list(p.irs)) for g in b]

  return build, [f]


for m_ in ("fft", "direct", "overlap-add", "stride"):
  for a_ in (None, "input", "ir", "output"):
    if (m_, a_) == ("stride", "input"):
      continue  # Unsupported

    @op(f"cochleagram-{m_}-{a_}")
    def _(rng, m=m_, a=a_):
      x = rng.normal(size=int(rng.integers(150, 700)))
      f = np.sort(rng.uniform(80, 2500, int(rng.integers(1, 5))))
      kw = {"stride": int(rng.integers(1, 60))} if m == "stride" else {
          "method": m}
      kw["n"] = int(rng.integers(2, 6))
      if rng.random() < .3:
        kw["normalize"] = True

      def build(x, f):
        return psycho.cochleagram(x, fs=8000, analytic=a, freqs=f, **kw)

      return build, [x, f]


@op("mel-filterbank")
def _(rng):
  f = np.linspace(0, 4000, int(rng.integers(40, 200)))
  n = int(rng.integers(1, 9))
  return (lambda f: psycho.mel_triangular_filterbank(f, n_filters=n)), [f]


@op("mel-filterbank-limits")
def _(rng):
  f = np.linspace(0, 4000, int(rng.integers(40, 200)))
  c = np.sort(rng.uniform(50, 3900, int(rng.integers(3, 9))))
  return (lambda f, c: psycho.mel_triangular_filterbank(f, flim=c)), [f, c]


@op("stft2mel")
def _(rng):
  f = np.linspace(0, 4000, int(rng.integers(40, 100)))
  s = cplx(rng, (f.size, int(rng.integers(1, 20))))
  h = rng.random((int(rng.integers(1, 6)), f.size))
  p = [None, 1, 2, 3.][rng.integers(4)]
  k = ({} if rng.random() < .5 else {"n_filters": 5})
  if k:
    return (lambda s, f: psycho.stft2mel(s, f, power=p, **k)), [s, f]
  return (lambda s, f, h: psycho.stft2mel(s, f, filterbank=h, power=p)), [
      s, f, h]


@op("mel-spectrogram")
def _(rng):
  x = rng.normal(size=int(rng.integers(300, 2000)))
  w = np.hanning(int(rng.integers(30, 128)))
  return (lambda x, w: psycho.mel_spectrogram(
      x, stft_kws={"fs": 8000, "window": w, "nperseg": w.size},
      n_filters=7)), [x, w]


@op("detrend")
def _(rng):
  s = (int(rng.integers(5, 60)),)
  t = np.sort(rng.uniform(0, 3, s))
  return dsp.detrend, [rng.normal(size=s), t]


@op("lombscargle")
def _(rng):
  n = int(rng.integers(9, 50))
  t = np.sort(rng.uniform(0, 3, n))
  return (lambda t, x: dsp.lombscargle_as_fft(t, x, 32)), [t, rng.normal(size=n)]


@op("lombscargle-autocorrelogram")
def _(rng):
  n = int(rng.integers(9, 50))
  t = np.sort(rng.uniform(0, 3, n))
  return (lambda t, x: dsp.lombscargle_autocorrelogram(t, x)), [
      t, rng.normal(size=n)]


@op("fft2autocorrelogram")
def _(rng):
  return dsp.fft2autocorrelogram, [rng.random(int(rng.integers(4, 50)))]


@op("overlapping-windows")
def _(rng):
  w, h = int(rng.integers(1, 9)), int(rng.integers(1, 9))
  return (lambda x: np.array(dsp.overlapping_windows(x, w, h))), [
      rng.normal(size=int(rng.integers(9, 60)))]


@op("strided-convolution")
def _(rng):
  s = int(rng.integers(1, 9))
  k = int(rng.integers(1, 12))
  return (lambda x, h: dsp.strided_convolution(x, h, s)), [
      rng.normal(size=int(rng.integers(k, 80))), rng.normal(size=k)]


@op("strided-convolution-complex")
def _(rng):
  s = int(rng.integers(1, 9))
  k = int(rng.integers(1, 12))
  return (lambda x, h: dsp.strided_convolution_complex_kernel(x, h, s)), [
      rng.normal(size=int(rng.integers(k, 80))), cplx(rng, k)]


@op("spectral-flux")
def _(rng):
  return (lambda x: dsp.spectral_flux(x, nperseg=64)), [
      rng.normal(size=int(rng.integers(64, 900)))]


@op("spectral-flux-from-tf")
def _(rng):
  return dsp.spectral_flux_from_tf, [cplx(rng, (9, int(rng.integers(2, 40))))]


@op("spectral-flux-from-magnitudes")
def _(rng):
  return dsp.spectral_flux_from_tf, [
      rng.normal(size=(9, int(rng.integers(2, 40))))]


@op("local-maxima")
def _(rng):
  w = int(rng.integers(1, 5))
  return (lambda x: dsp.local_maxima(x, w=w)), [
      rng.normal(size=int(rng.integers(1, 80)))]


@op("onset-selection")
def _(rng):
  return (lambda x: dsp.onset_selection(x, delta=.5)), [
      rng.random(int(rng.integers(9, 200)))]


@op("onset-detection")
def _(rng):
  x = rng.normal(size=2000) * .01
  for i in rng.integers(100, 1800, 3):
    x[i:i + 200] += rng.normal(size=200)
  return (lambda x: dsp.onset_detection(x, nperseg=64)), [x]


@op("dft")
def _(rng):
  n = int(rng.integers(8, 100))
  k = 1 << int(np.ceil(np.log2(n)))
  return (lambda x, w: sdsp.dft(x, w, k)), [rng.normal(size=n), np.hanning(n)]


@op("peaks")
def _(rng):
  n = int(rng.integers(9, 90))
  return (lambda m, p: sdsp.peak_detect_interp(m, p, t=-.5)), [
      rng.normal(size=n), np.cumsum(rng.normal(size=n))]


@op("lp-distance")
def _(rng):
  s = [(40,), (5, 9)][rng.integers(2)]
  p = [1, 2, 3.5][rng.integers(3)]
  return (lambda x, y: metrics.lp_distance(x, y, p)), [reals(rng, s),
                                                      reals(rng, s)]


@op("spectral-loss")
def _(rng):
  n = int(rng.integers(300, 900))
  w = np.hanning(128)
  return (lambda x, y, w: metrics.lin_log_spectral_loss(x, y, n=128, w=w)), [
      reals(rng, n), reals(rng, n), w]


@op("multiscale-loss")
def _(rng):
  n = int(rng.integers(2100, 2900))
  return metrics.multiscale_spectral_loss, [reals(rng, n), reals(rng, n)]


@op("cochleagram-loss")
def _(rng):
  n = int(rng.integers(100, 500))
  a = [None, "ir", "input", "output"][rng.integers(4)]
  k = int(rng.integers(2, 6))
  return (lambda x, y, f: metrics.CochleagramLoss(
      fs=8000, analytic=a, freqs=f, n=k)(x, y)), [
          reals(rng, n), reals(rng, n), np.array([200., 500., 900.])]


@op("synthesis")
def _(rng):
  k = int(rng.integers(1, 5))
  return (lambda x, f, d, a, p: smp.additive_synth(x, f, d, a, phases=p)), [
      np.sort(rng.uniform(0, 1, int(rng.integers(1, 300)))),
      rng.uniform(50, 900, k), rng.uniform(.1, 2, k), rng.normal(size=k),
      rng.uniform(-3, 3, k)]


@op("hinge-regression")
def _(rng):
  n = int(rng.integers(12, 80))
  x = np.sort(rng.uniform(0, 2, n))
  y = hinge.hinge_function(x, 1.1, -9., -1.) + .05 * rng.normal(size=n)

  def build(x, y):
    m = hinge.HingeRegression().fit(x.reshape((-1, 1)), y)
    return m.coeffs_, m.predict(x)

  return build, [x, y]


@op("beat-waveforms")
def _(rng):
  b = beatsdrop.ModalBeat(*(float(v) for v in rng.uniform(.1, 1, 2)),
                          *(float(v) for v in rng.uniform(100, 200, 2)),
                          *(float(v) for v in rng.uniform(.1, 1, 2)))
  names = [v for v in b.variables if v != "t"]
  return (lambda t: b.compute(t, names)), [
      np.sort(rng.uniform(0, 1, int(rng.integers(1, 50))))]


def _beat_data(rng):
  t = np.linspace(0, .5, int(rng.integers(60, 90)))
  b = beatsdrop.ModalBeat(1., .4, 440., 448., .4, .3, .1, .2)
  a, f = b.compute(t, ["am", "fm"])
  return [t, 20 * np.log10(np.maximum(a, 1e-6)), f / (2 * np.pi)]


@op("beat-regression")
def _(rng):

  def build(t, a, f):
    m = breg.BeatRegression(fs=8000)
    m.fit(t, a, f, max_nfev=4)
    return m.params_, m.predict(t, "am")

  return build, _beat_data(rng)


@op("dual-regression")
def _(rng):

  def build(t, a, f):
    m = breg.DualBeatRegression(fs=8000)
    m.fit(t, a, f, max_nfev=4)
    return m.params_, m.predict(t, "am", "fm")

  return build, _beat_data(rng)


def _sound(rng, fs=4000, n=2400):
  x = audio.hostile(rng, fs, str(rng.choice(["noisy-modal", "modal", "beating",
                                             "bursts"])), n)
  x = x[1] if isinstance(x, tuple) else x
  return x / np.max(np.abs(x))


KW = {"sinusoidal__n": 512, "sinusoidal__tracker__fs": 4000,
      "sinusoidal__tracker__h": 64, "sinusoidal__tracker__max_n_sines": 12,
      "sinusoidal__tracker__reverse": True, "sinusoidal__t": -60,
      "sinusoidal__tracker__peak_threshold": -60}


def _intermediates(m):
  s = m.intermediate
  return [(n, s[n]) for n in sorted(s.keys())] if hasattr(s, "keys") else []


def tracks(ts):
  return [[(k, t[k]) for k in sorted(t)] for t in ts]


@op("sample-fit")
def _(rng):
  kw = dict(KW)
  if rng.random() < .4:
    kw["sinusoidal__tracker__reverse"] = False

  def build(x, w):
    m = smp.SAMPLE(sinusoidal__w=w, **kw).fit(x)
    return m.param_matrix_, tracks(m.sinusoidal.tracks_), m.sdt_params_()

  return build, [_sound(rng), np.blackman(255)]


@op("sample-predict")
def _(rng):
  m = smp.SAMPLE(sinusoidal__w=np.blackman(255), **KW).fit(_sound(rng))
  k = int(m.freqs_.size)
  return (lambda t, p: m.predict(t, phases=p)), [
      np.arange(500) / 4000, rng.uniform(-3, 3, k)]


@op("beatsdrop-fit")
def _(rng):

  def build(x, w):
    m = bds.SAMPLEBeatsDROP(sinusoidal__w=w,
                            beatsdrop=beats.QuickBeat(fs=4000),
                            **{**KW, "sinusoidal__tracker__max_n_sines": 3})
    m.fit(x)
    return m.param_matrix_, tracks(m.sinusoidal.tracks_)

  return build, [_sound(rng), np.blackman(255)]


@op("sinusoidal-fit")
def _(rng):
  kw = {k.split("__", 1)[1]: v for k, v in KW.items()}
  for k in ("tracker__reverse", "tracker__peak_threshold"):
    kw.pop(k)
  s = bool(rng.random() < .5)

  def build(x, w):
    m = sm.SinusoidalModel(w=w, intermediate=learn.OptionalStorage(save=s),
                           **kw)
    m.fit(x)
    return tracks(m.tracks_)

  return build, [_sound(rng), np.blackman(255)]


@op("modal-fit")
def _(rng):
  kw = {k.split("__", 1)[1]: v for k, v in KW.items()}

  def build(x, w):
    m = mm.ModalModel(w=w, **kw)
    m.fit(x)
    return tracks(m.tracks_)

  return build, [_sound(rng), np.blackman(255)]


@op("web-audio")
def _(rng):
  x = rng.uniform(-1, 1, [(50,), (2, 50)][rng.integers(2)])
  return (lambda x: ipython.WebAudio(x, rate=8000).data), [x]


@op("tracker")
def _(rng):
  n, k = int(rng.integers(8, 25)), int(rng.integers(1, 6))
  f0 = np.sort(rng.uniform(100, 2000, k))

  def build(f, m, p):
    t = sm.SineTracker(fs=4000, h=64, max_n_sines=5, min_sine_dur=.02)
    t.reset()
    for i in range(f.shape[0]):
      t(f[i], m[i], p[i])
    return tracks(t.all_tracks_)

  return build, [f0 + rng.normal(size=(n, k)), rng.uniform(-60, 0, (n, k)),
                 rng.uniform(-3, 3, (n, k))]


@op("beats-generator")
def _(rng):
  seed = int(rng.integers(1000))

  def build():
    g = erandom.BeatsGenerator(seed=seed)
    return [g.audio(dur=.05, fs=2000), g.noise(nsamples=9), g.freqs(size=3)]

  return build, []


@op("random-phases")
def _(rng):
  seed = int(rng.integers(1000))
  k = int(rng.integers(1, 5))
  return (lambda x, f, d, a: smp.additive_synth(
      x, f, d, a, phases="random", seed=seed)), [
          np.arange(99) / 99, rng.uniform(5, 40, k), rng.uniform(.1, 2, k),
          rng.normal(size=k)]


@op("remapper")
def _(rng):
  n = int(rng.integers(6, 10))
  o = float(rng.uniform(.1, .9))
  w = ["hann", "blackman", "hamming"][rng.integers(3)]
  return (lambda: optimize.sample_kwargs_remapper(
      sinusoidal__log_n=n, sinusoidal__overlap=o, sinusoidal__wtype=w,
      max_n_modes=3)), []


def _drawn(axs):
  out = []
  for a in axs:
    out.append(([l.get_xydata() for l in a.lines],
                [np.asarray(i.get_array()) for i in a.images],
                a.get_xlim(), a.get_ylim(), a.get_title(), a.get_xlabel()))
  return out


@op("plot-tf")
def _(rng):
  t = (0., float(rng.uniform(.1, 2)))

  def build(z):
    ax = figure.Figure().add_subplot()
    plots.tf_plot(z, tlim=t, flim=(0, 4000), ax=ax)
    return _drawn([ax])

  return build, [rng.normal(size=(int(rng.integers(2, 20)), 9))]


@op("plot-tracks")
def _(rng):
  x = _sound(rng)
  kw = {k.split("__", 1)[1]: v for k, v in KW.items()}

  def build(x):
    m = mm.ModalModel(w=np.blackman(255), **kw).fit(x)
    axs = figure.Figure().subplots(1, 2)
    plots.sine_tracking_2d(m, ax=axs)
    return _drawn(axs)

  return build, [x]


@op("plot-resynthesis")
def _(rng):
  x = _sound(rng)

  def build(x):
    m = smp.SAMPLE(sinusoidal__w=np.blackman(255), **KW).fit(x)
    f = figure.Figure()
    _, axs = plots.resynthesis(x, {"a": m}, fs=4000, fig=f, tf_fun=_tf)
    return _drawn(np.ravel(axs))

  return build, [x]


def _tf(x, fs):
  f, _, s = signal.stft(x, fs=fs, nperseg=128)
  return (f[0], f[-1]), s


def flat(r):
  """Result as a flat list of (path, array or plain value)"""
  out = []

  def rec(path, v):
    if isinstance(v, dict):
      for k in sorted(v, key=str):
        rec(path + (str(k),), v[k])
    elif isinstance(v, (list, tuple)) and not (v and all(
        isinstance(i, (int, float)) for i in v)):
      out.append((path, len(v)))
      for i, w in enumerate(v):
        rec(path + (i,), w)
    else:
      out.append((path, v if isinstance(v, (str, type(None))) else
                  np.array(v)))

  rec((), r)
  return out


def differ(a, b, rtol=1e-9, atol=1e-12):
  """Where two flattened results differ; None if they do not"""
  if [p for p, _ in a] != [p for p, _ in b]:
    return "different structure: %s, %s" % ([p for p, _ in a][:9],
                                            [p for p, _ in b][:9])
  for (p, x), (_, y) in zip(a, b):
    if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and \
        x.dtype.kind in "biufc" and y.dtype.kind in "biufc":
      if x.shape != y.shape:
        return p, x.shape, y.shape
      s = np.max(np.abs(x[np.isfinite(x)]), initial=0)
      if not np.allclose(y, x, rtol=rtol, atol=atol + rtol * s,
                         equal_nan=True):
        return p, str(x)[:150], str(y)[:150]
    elif isinstance(x, np.ndarray) != isinstance(y, np.ndarray) or not \
        np.array_equal(x, y):
      return p, str(x)[:150], str(y)[:150]
  return None
