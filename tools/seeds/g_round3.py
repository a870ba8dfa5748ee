"""Planted bugs: third round on the numerical core"""

seed("c01-single-floor", "C01",
     "a sound so quiet that its spectrum is below -140 dB, with thresholds to match",
     "spectra are floored at single precision, so that very quiet sounds lose their decay",
     [("sample/sms/dsp.py", "  ax = np.maximum(ax, np.finfo(float).eps, out=ax)  # avoid zeros in log\n",
       "  ax = np.maximum(ax, np.finfo(np.float32).eps, out=ax)  # avoid zeros in log\n")],
     '''
import numpy as np
from sample.sample import SAMPLE
t = np.arange(44100) / 44100
x = np.cos(2 * np.pi * 440 * t) * np.exp(-2 * t)
g = 1e-7
m = SAMPLE(sinusoidal__t=-90 - 140, sinusoidal__tracker__peak_threshold=-90 - 140).fit(x * g)
i = np.argmax(m.energies_)
assert abs(m.decays_[i] - 1) < .05 and abs(m.amps_[i] / g - 1) < .1, m.param_matrix_
''')

seed("c02-median-bounds", "C02",
     "a partial that glides, most of the time within the frequency bounds",
     "frequency bounds are checked on the median of the track",
     [("sample/sms/mm.py", '    mf = np.mean(track["freq"])\n',
       '    mf = np.median(track["freq"])\n')],
     '''
import numpy as np
from sample.sample import SAMPLE
fs = 44100
t = np.arange(fs) / fs
f = 500 + 400 * np.clip((t - .6) / .35, 0, 1)
x = np.cos(2 * np.pi * np.cumsum(f) / fs) * np.exp(-2 * t)
m = SAMPLE(sinusoidal__tracker__frequency_bounds=(20, 510)).fit(x)
print(m.freqs_)
assert np.all(m.freqs_ <= 510)
''')

seed("c02-shift-reversed", "C02",
     "a reversed analysis without padding",
     "the half window is added after the time axis is reversed",
     [("sample/sample.py", """    if not self.sinusoidal.padded:
      time_axis += 0.5 * self.sinusoidal.w.size / self.sinusoidal.fs
""", ""),
      ("sample/sample.py", """      time_axis = np.size(x) / self.sinusoidal.fs - time_axis
""", """      time_axis = np.size(x) / self.sinusoidal.fs - time_axis
    if not self.sinusoidal.padded:
      time_axis += 0.5 * self.sinusoidal.w.size / self.sinusoidal.fs
""")],
     '''
import numpy as np
from sample.sample import SAMPLE
fs = 44100
t = np.arange(fs) / fs
x = np.cos(2 * np.pi * 500 * t) * np.exp(-8 * t)
m = SAMPLE(sinusoidal__tracker__reverse=True).fit(x)
i = np.argmax(m.energies_)
print(m.param_matrix_[:, i])
assert abs(m.amps_[i] - 1) < .1
''')

seed("c04-single-mode", "C04",
     "a model that learned exactly one mode",
     "the gains of a single mode are exported as a number instead of a list",
     [("sample/sample.py", '        "gains": [self.amps_[m_ord].tolist()],\n',
       '        "gains": [np.squeeze(self.amps_[m_ord]).tolist()],\n')],
     '''
import numpy as np
from sample.sample import SAMPLE
m = SAMPLE()
m.param_matrix_ = np.array([[440.], [.5], [.3]])
p = m.sdt_params_()
assert p["gains"] == [[.3]], p
''')

seed("c04-ascending-gains", "C04",
     "an export in increasing order",
     "the gains keep the decreasing order",
     [("sample/sample.py", '''    return {
        "nModes": n_modes,
''', '''    g_ord = m_ord if reverse else np.sort(m_ord)
    return {
        "nModes": n_modes,
'''), ("sample/sample.py", '        "gains": [self.amps_[m_ord].tolist()],\n',
       '        "gains": [self.amps_[g_ord].tolist()],\n')],
     '''
import numpy as np
from sample.sample import SAMPLE
m = SAMPLE()
m.param_matrix_ = np.array([[440., 220, 330], [.5, .1, .2], [.3, .2, .7]])
p = m.sdt_params_("freqs", reverse=False)
assert p["freqs"] == [220, 330, 440] and p["gains"] == [[.2, .7, .3]], p
''')

seed("c06-stop-empty", "C06",
     "a fit that finds no track",
     "the progress of the second stage starts and never stops when there are no tracks",
     [("sample/_training.py", """    if tot is not None:
      self.progress_stop()
""", """    if tot:
      self.progress_stop()
""")],
     '''
import numpy as np
from sample.sample import SAMPLE
from sample._training import FitArgs
log = []
class P(FitArgs):
  def progress_start(self, maximum, value=0): log.append("start")
  def progress_stop(self): log.append("stop")
SAMPLE().fit(np.zeros(20000), _fit_args=P())
assert log == ["start", "stop"] * 2, log
''')


seed("c09-threshold-equal", "C09",
     "a peak whose magnitude is exactly the threshold",
     "peaks at the threshold are detected",
     [("sample/sms/dsp.py", "    conditions.append(np.greater(x[1:-1], t))  # above threshold\n",
       "    conditions.append(np.greater_equal(x[1:-1], t))  # above threshold\n")],
     '''
import numpy as np
from sample.sms.dsp import peak_detect
x = np.array([0., 3, 0, 5, 0])
assert peak_detect(x, 3).tolist() == [3]
''')

seed("c09-phase-tolerance", "C09",
     "frames of a very quiet signal",
     "phases of bins below -180 dB are replaced with zero",
     [("sample/sms/dsp.py", "    tol: float = 1e-14,\n", "    tol: float = 1e-9,\n")],
     '''
import numpy as np
from sample.sms.dsp import dft
x = np.cos(2 * np.pi * .1 * np.arange(501) + 1) * 1e-9
w = np.hanning(501) / np.sum(np.hanning(501))
_, p = dft(x, w, 1024)
_, q = dft(x * 1e9, w, 1024)
k = np.round(.1 * 1024).astype(int)
d = np.mod(p[k] - q[k] + np.pi, 2 * np.pi) - np.pi
print(d)
assert abs(d) < 1e-3
''')





seed("c20-flux-overwrites", "C20",
     "the flux of a matrix that is already a magnitude",
     "the magnitude of real matrices is taken in place",
     [("sample/utils/dsp.py", "  a = np.abs(x)\n  delta", "  a = np.abs(x, out=None if np.iscomplexobj(x) else x)\n  delta")],
     '''
import numpy as np
from sample.utils.dsp import spectral_flux_from_tf
x = np.random.default_rng(0).normal(size=(5, 9))
y = x.copy()
spectral_flux_from_tf(x)
assert np.array_equal(x, y)
''')

seed("c20-borders-and", "C20",
     "local maxima combined with previous flags near the borders",
     "previous flags at the borders are kept",
     [("sample/utils/dsp.py", """  if logical_and:
    np.logical_and(maxima, out[w:-w], out=out[w:-w])
  out[:w] = False
  out[-w:] = False
  return out
""", """  if logical_and:
    np.logical_and(maxima, out[w:-w], out=out[w:-w])
    return out
  out[:w] = False
  out[-w:] = False
  return out
""")],
     '''
import numpy as np
from sample.utils.dsp import local_maxima
o = np.ones(9, dtype=bool)
local_maxima(np.array([9., 1, 2, 3, 4, 3, 2, 1, 9]), w=2, logical_and=True, out=o)
assert o.tolist() == [False] * 4 + [True] + [False] * 4, o
''')

seed("c20-equal-neighbour", "C20",
     "a detection function with two equal maxima within the radius",
     "a maximum equal to another one is not one",
     [("sample/utils/dsp.py", """  np.greater_equal(x_flat[w:-w],
                   maxima,
""", """  maxima[np.sum(wins == maxima[:, None], axis=-1) > 1] = np.inf
  np.greater_equal(x_flat[w:-w],
                   maxima,
""")],
     '''
import numpy as np
from sample.utils.dsp import local_maxima
assert np.flatnonzero(local_maxima(np.array([0., 1, 2, 2, 1, 0]), w=1)).tolist() == [2, 3]
''')

seed("c21-floor-inplace", "C21",
     "an array of floors in decibel",
     "the floors of the caller are converted in place",
     [("sample/utils/dsp.py", "    floor = db2a(floor)\n",
       "    floor = db2a(floor, out=floor if isinstance(floor, np.ndarray) else None)\n")],
     '''
import numpy as np
from sample.utils.dsp import a2db
f = np.array([-60., -20.])
a2db(np.array([0., 1.]), floor=f, floor_db=True)
assert f.tolist() == [-60, -20], f
''')


seed("c21-stale-imaginary", "C21",
     "a convolution with a real kernel written in a complex array",
     "the imaginary part of the output keeps what it held before",
     [("sample/utils/dsp.py", "  for p in (np.real, np.imag):\n",
       "  for p in (np.real, np.imag) if np.iscomplexobj(kernel) else (np.real,):\n")],
     '''
import numpy as np
from sample.utils.dsp import strided_convolution_complex_kernel as f
x = np.arange(20.)
k = np.ones(3)
o = np.full(18, 1j)
f(x, k, out=o)
assert not np.any(o.imag)
''')

seed("c19-decays-scale", "C19",
     "a generator whose minimum decay is a large part of the mean decay",
     "the mean of the decays is the scale plus the minimum",
     [("sample/evaluation/random.py",
       "    d = self.rng.exponential(scale=self.decay - self.decay_min, size=3)\n",
       "    d = self.rng.exponential(scale=self.decay * .5, size=3)\n")],
     '''
import numpy as np
from sample.evaluation.random import BeatsGenerator
g = BeatsGenerator(decay=1, decay_min=.9, seed=0)
d = np.mean(g.decays(size=3000))
print(d)
assert abs(d - 1) < .05
''')



seed("c18-postprocessing-none", "C18",
     "a cochleagram loss with a post-processing given as nothing and an analytic signal",
     "the cochleagrams are compared by their real part",
     [("sample/evaluation/metrics.py", """    if kpp in kwargs:
      self.postprocessing = {kpp: kwargs.pop(kpp)}
    elif analytic is not None:
""", """    if kpp in kwargs:
      self.postprocessing = {kpp: kwargs.pop(kpp) or np.real}
    elif analytic is not None:
""")],
     '''
import numpy as np
from sample.evaluation.metrics import CochleagramLoss
rng = np.random.default_rng(0)
x, y = rng.normal(size=(2, 800))
c = CochleagramLoss(fs=8000, flim=(100, 3000), n_filters=4, postprocessing=None)
assert np.iscomplexobj(c.cochleagram(x))
''')

seed("c18-norm-in-pool", "C18",
     "an order of the norm below one",
     "orders below one are taken as one",
     [("sample/evaluation/metrics.py", "    d = np.power(d, 1 / p)\n", "    d = np.power(d, 1 / max(p, 1))\n")],
     '''
import numpy as np
from sample.evaluation.metrics import lp_distance
x, y = np.array([1., 2]), np.array([0., 0])
assert abs(lp_distance(x, y, p=.5) - (1 + 2**.5)**2) < 1e-9
''')

seed("c23-storage-none", "C23",
     "saving nothing at an index that already holds a value",
     "a value of nothing does not replace the saved one",
     [("sample/utils/learn.py", "        self.cache_[key][index] = value\n",
       "        if value is not None:\n          self.cache_[key][index] = value\n")],
     '''
from sample.utils.learn import OptionalStorage
s = OptionalStorage(save=True)
s.append("a", 1, index=0)
s.append("a", None, index=0)
assert s["a"] == [None]
''')


seed("c12-clip-median", "C12",
     "a dual regression without frequency clipping",
     "no clipping at all is taken for the default one",
     [("sample/beatsdrop/regression.py", """      if self.freq_clip is not None:
        q1, q2, q3 = np.quantile(f_est, (0.25, 0.5, 0.75))
        max_df = self.freq_clip * (q3 - q1) / 2
""", """      if self.freq_clip != 0:
        q1, q2, q3 = np.quantile(f_est, (0.25, 0.5, 0.75))
        max_df = (self.freq_clip or 2.5) * (q3 - q1) / 2
""")],
     '''
import numpy as np
from sample.beatsdrop import ModalBeat
from sample.beatsdrop.regression import DualBeatRegression
t = np.arange(300) / 100
p = (1., .98, 500., 503., 2., 2., 0., 0.)
am, fm = ModalBeat(*p).compute(t, ("am", "fm"))
a = 20 * np.log10(am)
f = np.abs(fm) / (2 * np.pi)
r = DualBeatRegression(freq_clip=None)
r.linear_regressor = __import__("sklearn.linear_model").linear_model.LinearRegression()
e = r._residual_fn(t, a, f)(p)
print(np.abs(e).max())
assert np.abs(e).max() < 1e-6
''')
