"""Planted bugs: beat regression, psychoacoustics, evaluation, signal helpers"""

REG = '''
import numpy as np
from sample.beatsdrop import ModalBeat
from sample.beatsdrop.regression import BeatRegression, DualBeatRegression, sort_params
'''

seed("c12-cost-square", "C12",
     "a dual regression on data with isolated frequency outliers",
     "the association is chosen by the largest residual, not by the sum of their squares",
     [("sample/beatsdrop/regression.py", '''        res = self.res_fn_(p)
        np.square(res, out=res)
        return np.sum(res)
''', '''        res = self.res_fn_(p)
        np.abs(res, out=res)
        return np.max(res)
''')],
     REG + '''
bad = 0
for s in range(12):
  rng = np.random.default_rng(s)
  p = (0.7, 0.3, 1000.0, 1000.0 + rng.uniform(2, 4), 1.0, 1.0, 0.0, 1.0)
  t = np.arange(0, 2, 0.01)
  b = ModalBeat(*p)
  am, fm = b.compute(t, ("am", "fm"))
  a = 20 * np.log10(am + 1e-3 * rng.random(t.size))
  f = fm / 2 / np.pi + rng.normal(size=t.size) * 0.3
  f[rng.integers(t.size, size=3)] += rng.normal(size=3) * 500
  r = DualBeatRegression().fit(t.reshape(-1, 1).ravel()[:, None], a, f) if False else None
  m = DualBeatRegression()
  try:
    m.fit(t, a, f)
  except ValueError:
    m = None
  if m is None:
    continue
  q = m.params_
  sw = (*q[:2], *q[3:1:-1], *q[4:6], *q[7:5:-1])
  c0, c1 = (np.sum(np.square(m.res_fn_(x))) for x in (q, sw))
  print(c0, c1)
  bad += c0 > c1 * (1 + 1e-9)
assert not bad
''')

seed("c12-sort-phases", "C12",
     "parameters to sort whose energies are in the wrong order and whose phases differ",
     "sorting swaps everything except the phases",
     [("sample/beatsdrop/regression.py",
       "p = (p[1], p[0], p[3], p[2], p[5], p[4], p[7], p[6])",
       "p = (p[1], p[0], p[3], p[2], p[5], p[4], *p[6:])")],
     REG + '''
p = (1., .2, 440., 442., 1., .5, .1, .9)
q = (.2, 1., 442., 440., .5, 1., .9, .1)
print(sort_params(p), sort_params(q))
assert tuple(sort_params(p)) == tuple(sort_params(q))
''')

seed("c12-clip-hint", "C12",
     "frequencies of the caller's array that are negative",
     "the absolute value of the frequencies is taken in place, which modifies the caller's array",
     [("sample/beatsdrop/regression.py", '''    f_abs = np.abs(f)
''', '''    f_abs = np.abs(f, out=f if isinstance(f, np.ndarray) else None)
''')],
     REG + '''
t = np.arange(0, 2, 0.01)
b = ModalBeat(.6, .4, -1000., -1003., 1., 1., 0., 1.)
am, fm = b.compute(t, ("am", "fm"))
f = fm / 2 / np.pi
g = f.copy()
try:
  DualBeatRegression().fit(t, 20 * np.log10(am + 1e-6), f)
except ValueError:
  pass
print(f[:3], g[:3])
assert np.array_equal(f, g)
''')

P = '''
import numpy as np
from sample import psycho
'''






seed("c16-bank-cache", "C16",
     "the same filter bank used twice at the same rate, real first and analytic later",
     "precomputed responses are cached by sampling rate only",
     [("sample/psycho.py", '''    self._filters = tuple(filters)

''', '''    self._filters = tuple(filters)
    self._precomputed = {}

'''), ("sample/psycho.py", '''    return GammatoneFilterbank.PrecomputedIRBank(parent=self,
                                                 fs=fs,
                                                 analytic=analytic)
''', '''    bank = self._precomputed.get(fs, None)
    if bank is None:
      self._precomputed[
          fs] = bank = GammatoneFilterbank.PrecomputedIRBank(parent=self,
                                                             fs=fs,
                                                             analytic=analytic)
    return bank
''')],
     P + '''
b = psycho.GammatoneFilterbank(freqs=(300., 800.))
x = np.random.default_rng(0).normal(size=500)
b.convolve(x, fs=8000)
c = b.convolve(x, fs=8000, analytic="ir")
d = psycho.GammatoneFilterbank(freqs=(300., 800.)).convolve(x, fs=8000, analytic="ir")
print(c.dtype, d.dtype)
assert c.dtype == d.dtype and np.allclose(c, d)
''')


seed("c17-inplace-power", "C17",
     "a Mel spectrogram computed from a matrix that is already a magnitude",
     "the magnitude of real matrices is not copied and the power is computed in place, which modifies the input",
     [("sample/psycho.py", '''    stft = np.abs(stft)
    if power != 1:
''', '''    if np.iscomplexobj(stft) or np.any(np.less(stft, 0)):
      stft = np.abs(stft)
    if power != 1:
''')],
     P + '''
m = np.random.default_rng(0).random((65, 4))
c = m.copy()
psycho.stft2mel(m, np.linspace(0, 4000, 65), n_filters=5)
assert np.array_equal(m, c)
''')

seed("c17-flim-last", "C17",
     "a number of filters together with more than two frequency limits",
     "the upper limit of the range is the second of the given limits instead of the last",
     [("sample/psycho.py", '''                                         freq_transform[0](flim[-1]),
                                         n_filters + 2))
''', '''                                         freq_transform[0](flim[1]),
                                         n_filters + 2))
''')],
     P + '''
f = np.linspace(0, 4000, 513)
a = psycho.mel_triangular_filterbank(f, n_filters=6, flim=(100., 3000.))
b = psycho.mel_triangular_filterbank(f, n_filters=6, flim=(100., 500., 3000.))
print(a[1], b[1])
assert np.allclose(a[1], b[1])
''')

seed("c18-silent-second", "C18",
     "a comparison in which only the second signal is silent",
     "the decibel part of the spectral loss is skipped when the second signal is silent",
     [("sample/evaluation/metrics.py", '''  loss = lp_distance(x_stft, y_stft, p=norm_p)
''', '''  loss = lp_distance(x_stft, y_stft, p=norm_p)
  if not np.any(y_stft):
    return loss
''')],
     '''
import numpy as np
from sample.evaluation import metrics
x = np.random.default_rng(0).normal(size=5000)
a, b = (metrics.lin_log_spectral_loss(*p, n=512) for p in ((x, 0 * x), (0 * x, x)))
print(a, b)
assert np.isclose(a, b)
''')

seed("c18-lazy-scales", "C18",
     "a multi-scale loss object called more than once",
     "the scales are a one-shot iterator, so the second call returns zero",
     [("sample/evaluation/metrics.py",
       "self.funcs = [functools.partial(spectral_loss, **kw) for kw in stfts]",
       "self.funcs = map(lambda kw: functools.partial(spectral_loss, **kw), stfts)")],
     '''
import numpy as np
from sample.evaluation import metrics
x, y = np.random.default_rng(0).normal(size=(2, 5000))
m = metrics.MultiScaleSpectralLoss(metrics.lin_log_spectral_loss, [{"n": 512}, {"n": 64}])
a, b = m(x, y), m(x, y)
print(a, b)
assert a == b
''')

seed("c18-pool-options", "C18",
     "options given to a multi-scale loss computed in a pool",
     "the options of the call are lost when a pool is used",
     [("sample/evaluation/metrics.py",
       "results = [pool.apply_async(f, args, kwargs) for f in self.funcs]",
       "results = [pool.apply_async(f, args) for f in self.funcs]")],
     '''
import numpy as np
from multiprocessing.pool import ThreadPool
from sample.evaluation import metrics
x, y = np.random.default_rng(0).normal(size=(2, 5000))
with ThreadPool(2) as p:
  a = metrics.multiscale_spectral_loss(x, y, norm_p=2.)
  b = metrics.multiscale_spectral_loss(x, y, norm_p=2., pool=p)
print(a, b)
assert np.isclose(a, b)
''')

G = '''
import numpy as np
from sample.evaluation.random import BeatsGenerator
from sample import psycho
'''


seed("c19-range-top", "C19",
     "a beat frequency that pushes the second partial above the maximum frequency",
     "the frequency limit does not make room for the beating partial",
     [("sample/evaluation/random.py",
       '''            (psycho.hz2bark(self.f_max) - psycho.hz2bark(self.f_max - beat_hz),
             delta_bark, 0)),
''', '''            (delta_bark, 0)),
''')],
     G + '''
g = BeatsGenerator(f_min=200, f_max=260, beat_min=10, beat_max=40, delta_min=.01, delta_max=.02, seed=1, f_a=4, f_b=.5)
f = np.array(g.freqs(size=500))
print(f.min(), f.max())
assert f.max() <= 261
''')

seed("c19-global-phases", "C19",
     "two generators with the same seed",
     "phases are drawn from the global random state",
     [("sample/evaluation/random.py",
       "phases = self.rng.uniform(0, 2 * np.pi, size=3)",
       "phases = np.random.uniform(0, 2 * np.pi, size=3)")],
     G + '''
a, b = (BeatsGenerator(seed=2).audio(dur=.1, fs=8000) for _ in range(2))
assert np.array_equal(a[0], b[0])
''')

D = '''
import numpy as np
from sample.utils import dsp
'''

seed("c20-index-overflow", "C20",
     "onsets late in an audio file longer than about ten seconds",
     "the conversion from frames to samples overflows 32-bit integers",
     [("sample/utils/dsp.py", "ons_idx = np.flatnonzero(ons_subs)\n",
       "ons_idx = np.flatnonzero(ons_subs).astype(np.int32)\n")],
     D + '''
fs = 44100
x = np.random.default_rng(0).normal(size=30 * fs) * 1e-4
at = [5 * fs, 15 * fs, 27 * fs]
for a in at:
  x[a:a + 8000] += np.sin(np.arange(8000) * .2) * np.exp(-np.arange(8000) / 1000)
try:
  o = np.flatnonzero(dsp.onset_detection(x, nperseg=256))
except Exception as e:
  print(repr(e))
  raise SystemExit(1)
print(o)
for a in at:
  assert np.any(np.abs(o - a) < 4000), a
''')



seed("c21-periodogram-dc", "C21",
     "a periodogram with a high-pass corner at zero",
     "the constant component is computed only when no high-pass corner is given",
     [("sample/utils/dsp.py", '''  if i < 1:
    ls[0] = np.square(np.mean(x))
''', '''  if hpf is None:
    ls[0] = np.square(np.mean(x))
''')],
     D + '''
t = np.sort(np.random.default_rng(0).random(30)) * 10
x = np.cos(t) + 2
a, b = (dsp.lombscargle_as_fft(t, x, 64, fs=4, hpf=h)[0] for h in (None, 0))
print(a[0], b[0])
assert np.allclose(a, b)
''')

