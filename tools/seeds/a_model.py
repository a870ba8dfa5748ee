M = '''
import numpy as np
def modal(fs, T, modes):
  t = np.arange(int(fs * T)) / fs
  return t, sum(a * np.exp(-2 * t / d) * np.cos(2 * np.pi * f * t) for f, d, a in modes)
'''

seed("c01-window-offset", "C01",
     "an analysis whose FFT size differs a lot from its window size",
     "the time of the first frame is derived from the FFT size, so amplitudes are wrong when the window is much shorter than the FFT",
     [("sample/sample.py", "time_axis += 0.5 * self.sinusoidal.w.size / self.sinusoidal.fs",
       "time_axis += 0.5 * self.sinusoidal.n / self.sinusoidal.fs")],
     M + '''
from sample.sample import SAMPLE
fs = 22050
t, x = modal(fs, 1.0, [(1000, 0.2, 1.0)])
for n in (1024, 8192):
  m = SAMPLE(sinusoidal__tracker__fs=fs, sinusoidal__tracker__h=128, sinusoidal__w=np.hamming(1001), sinusoidal__n=n).fit(x)
  i = np.argmax(m.energies_)
  print(n, m.amps_[i])
  assert abs(m.amps_[i] - 1) < 0.2, (n, m.amps_[i])
''')

seed("c02-merged-time", "C02",
     "a track made of several pieces merged across a gap",
     "the frames after the gap of a merged track are placed right after those before the gap, so the decay is fitted on a compressed time axis",
     [("sample/sample.py", '''    time_axis = np.arange(t["mag"].size, dtype=float)[notnans]
''', '''    time_axis = np.arange(np.count_nonzero(notnans), dtype=float)
''')],
     '''
import numpy as np
from sample.sample import SAMPLE
from sample.sms.mm import ModalModel
class Stub(ModalModel):
  @property
  def tracks_(self):
    n = np.arange(60.)
    mag = -40 * np.log10(np.e) / 0.8 * n * 256 / 22050
    mag[20:45] = np.nan
    f = np.full(60, 1000.)
    return [dict(start_frame=0, freq=f, mag=mag, phase=np.zeros(60))]
m = SAMPLE(sinusoidal=Stub(), sinusoidal__tracker__fs=22050, sinusoidal__tracker__h=256).fit(np.zeros(5000))
print(m.decays_)
assert abs(m.decays_[0] - 0.8) < 0.01, m.decays_
''')

seed("c03-zero-limit", "C03",
     "a model limited to zero modes",
     "a limit of zero modes is taken for no limit, so every mode is resynthesised",
     [("sample/sample.py", '''    if n_modes is None:
      if self.max_n_modes is None:
        n_modes = self.freqs_.size
      else:
        n_modes = self.max_n_modes
''', '''    if n_modes is None:
      n_modes = self.max_n_modes or self.freqs_.size
''')],
     '''
import numpy as np
from sample.sample import SAMPLE
m = SAMPLE(max_n_modes=0)
m.param_matrix_ = np.array([[100., 200, 300], [1., 2, 3], [.1, .2, .3]])
t = np.arange(100) / 8000
assert np.all(m.predict(t) == 0)
''')

seed("c04-lossy-decays", "C04",
     "modes with very short decays",
     "exported decays are rounded to the millisecond, so short decays lose precision or become zero",
     [("sample/sample.py", '''"decays": self.decays_[m_ord].tolist(),''',
       '''"decays": np.round(self.decays_[m_ord], 3).tolist(),''')],
     '''
import numpy as np, json
from sample.sample import SAMPLE
m = SAMPLE()
m.param_matrix_ = np.array([[100., 200, 300], [1.5, 0.00042, 0.01234], [.1, .2, .3]])
p = json.loads(json.dumps(m.sdt_params_()))
assert sorted(p["decays"]) == sorted(m.decays_), p["decays"]
''')

seed("c05-shared-regressor", "C05",
     "a beat regression template with a linear regressor supplied by the user",
     "the beat regression template is copied shallowly, so fitting trains the user's own linear regressor",
     [("sample/beatsdrop/sample.py", "b = base.clone(self.beatsdrop)",
       "b = copy.copy(self.beatsdrop)"),
      ("sample/beatsdrop/sample.py", "import functools\n", "import copy\nimport functools\n"),
      ("sample/beatsdrop/sample.py", "from sklearn import base\n", "")],
     M + '''
from sample.beatsdrop.sample import SAMPLEBeatsDROP
from sample.beatsdrop.regression import BeatRegression
from sklearn.linear_model import LinearRegression
fs = 8000
t, x = modal(fs, 1.0, [(1000, 0.6, 1.0), (1006, 0.7, 0.6)])
lr = LinearRegression()
class R(BeatRegression):
  def fit(self, t, a, f, **kw):
    return super().fit(t, a, f, max_nfev=3, **kw)
m = SAMPLEBeatsDROP(beatsdrop=R(linear_regressor=lr), sinusoidal__tracker__fs=fs, sinusoidal__tracker__h=128, sinusoidal__w=np.hamming(512), sinusoidal__n=1024, sinusoidal__tracker__frequency_bounds=(900, 1100))
try:
  m.fit(x)
except ValueError as e:
  print(e)
assert not hasattr(lr, "coef_")
''')

seed("c05-stale-window", "C05",
     "refitting after changing the window to another one of the same size",
     "the normalised window is cached by size, so a later fit uses the window of an earlier one",
     [("sample/sms/sm.py", '''    self.w_ = self._normalized_window
''', '''    if np.size(getattr(self, "w_", ())) != np.size(self.w):
      self.w_ = self._normalized_window
''')],
     M + '''
from sample.sample import SAMPLE
fs = 8000
t, x = modal(fs, 1.0, [(1000, 0.6, 1.0)])
kw = dict(sinusoidal__tracker__fs=fs, sinusoidal__tracker__h=128, sinusoidal__n=1024)
m = SAMPLE(**kw, sinusoidal__w=np.ones(512)).fit(x)
a = m.set_params(sinusoidal__w=np.hanning(512)).fit(x).param_matrix_
b = SAMPLE(**kw, sinusoidal__w=np.hanning(512)).fit(x).param_matrix_
assert np.array_equal(a, b), (a, b)
''')

seed("c06-insert", "C06",
     "workers that finish out of order while intermediate results are saved",
     "indexed values are inserted instead of placed, so results that arrive out of order are misplaced",
     [("sample/utils/learn.py", '''        if index >= len(self.cache_[key]):
          self.cache_[key].extend(
              itertools.repeat(None, index + 1 - len(self.cache_[key])))
        self.cache_[key][index] = value
''', '''        self.cache_[key].insert(index, value)
'''), ("sample/utils/learn.py", "import itertools\n", "")],
     '''
from sample.utils.learn import OptionalStorage
s = OptionalStorage(save=True)
for i in (3, 2, 1, 0):
  s.append("k", i, index=i)
assert s["k"] == [0, 1, 2, 3], s["k"]
''')

seed("c07-deviation", "C07",
     "a track that jumps by almost the allowed deviation at a high frequency",
     "the allowed deviation is computed at the track's previous frequency instead of the peak's",
     [("sample/sms/sm.py", "if df < self.df(pfreq[p_i]):",
       'if df < self.df(self._active_tracks[t_i]["freq"][-1]):')],
     '''
import numpy as np
from sample.sms.sm import SineTracker
t = SineTracker(fs=1000, h=10, min_sine_dur=0.01, freq_dev_offset=10, freq_dev_slope=0.1).reset()
one = np.ones(1)
t(one * 1000, one, one)
t(one * 1115, one, one)  # deviation 115 < 10 + 0.1 * 1115
tr = list(t.all_tracks_)
assert len(tr) == 1 and tr[0]["freq"].size == 2, tr
''')

seed("c07-min-duration", "C07",
     "a minimum duration that is not a whole number of frames",
     "the minimum length is rounded down, so tracks shorter than the minimum duration are kept",
     [("sample/sms/sm.py", "return max(2, math.ceil(self.min_sine_dur * self.frame_rate))",
       "return max(2, int(self.min_sine_dur * self.frame_rate + 1e-9))")],
     '''
import numpy as np
from sample.sms.sm import SineTracker
t = SineTracker(fs=1000, h=10, min_sine_dur=0.035).reset()
one = np.ones(1)
for _ in range(3):
  t(one * 100, one, one)
assert not list(t.all_tracks_)
''')

seed("c08-reverse-strip", "C08",
     "a strip time in reversed analysis",
     "in reversed analysis the strip time is compared with the physical end of tracks instead of their onset",
     [("sample/sms/mm.py", '''o = self._frame - (o + t["mag"].size)''',
       '''o = self._frame - 1 - o''')],
     '''
import numpy as np
from sample.sms.mm import ModalTracker
t = ModalTracker(fs=1000, h=10, min_sine_dur=0.02, strip_t=0.05, reverse=True, freq_dev_offset=50).reset()
one = np.ones(1)
for i in range(30):
  t(one * 100, one * (i - 40), one)
assert len(list(t.all_tracks_)) == 1  # onset is at physical time 0
''')

seed("c08-adjacent-merge", "C08",
     "a louder partial that takes the peak of a track while another track starts right after it",
     "a track that starts in the frame right after another one ends is merged into it",
     [("sample/sms/mm.py", '''(u["start_frame"] + u["mag"].size) < t["start_frame"]''',
       '''(u["start_frame"] + u["mag"].size) <= t["start_frame"]''')],
     '''
import numpy as np
from sample.sms.mm import ModalTracker
t = ModalTracker(fs=1000, h=10, min_sine_dur=0.02, freq_dev_offset=50, freq_dev_slope=0).reset()
one = np.ones(1)
for i in range(10):
  t(one * 100, -one * i, one)
for i in range(10):
  t(one * 151, -one * i, one)   # jump larger than the deviation
for i in range(5):
  t(np.empty(0), np.empty(0), np.empty(0))
tr = t.tracks_
assert [u["start_frame"] for u in tr] == [0, 10], tr
t = ModalTracker(fs=1000, h=10, min_sine_dur=0.02, freq_dev_offset=50, freq_dev_slope=0).reset()
for i in range(10):
  f = [125 + 49 / 9 * i - 25]
  t(np.array(f), -one * i, one)
for i in range(10):
  t(one * 90, -one * i, one)
t(np.empty(0), np.empty(0), np.empty(0))
assert [u["start_frame"] for u in t.tracks_] == [0, 10], t.tracks_
''')

seed("c09-plateau", "C09",
     "a spectrum with a flat top or a flat floor",
     "the first bin of a plateau counts as a peak although it is not a strict maximum",
     [("sample/sms/dsp.py", "np.greater(x[1:-1], x[2:]),  # greater than next sample",
       "np.greater_equal(x[1:-1], x[2:]),  # greater than next sample")],
     '''
import numpy as np
from sample.sms.dsp import peak_detect
assert list(peak_detect(np.array([0., 1, 3, 3, 1, 2, 0]))) == [5]
''')

seed("c10-slope-box", "C10",
     "an envelope whose knee comes early in the track",
     "the slope is limited to four times the linear slope, so steep envelopes with an early knee are not recovered",
     [("sample/hinge.py", '''      k_min = 8 * k if k < 0 else k
      k_max = k if k < 0 else 8 * k
''', '''      k_min = 4 * k if k < 0 else k
      k_max = k if k < 0 else 4 * k
''')],
     '''
import numpy as np
from sample.hinge import HingeRegression
x = np.linspace(0, 1, 200)
y = -60 * np.minimum(x, 0.26) - 3
r = HingeRegression().fit(x.reshape(-1, 1), y)
print(r.coeffs_)
assert abs(r.k_ + 60) < 2, r.coeffs_
''')

seed("c11-initial-phase", "C11",
     "partials whose starting phases differ by more than pi",
     "the initial phase loses its quadrant",
     [("sample/beatsdrop/__init__.py", "np2pg.arctan2.op(y0, x0)",
       "np2pg.arctan.op(np2pg.true_divide.op(y0, x0))")],
     '''
import numpy as np
from sample.beatsdrop import ModalBeat
fs = 20000
t = np.arange(fs) / fs
b = ModalBeat(1, .6, 50, 53, 1, 2, 2.5, -1.9)
x = b.x(t)
y = np.exp(-2 * t) * np.cos(100 * np.pi * t + 2.5) + .6 * np.exp(-t) * np.cos(106 * np.pi * t - 1.9)
assert np.abs(x - y).max() < 0.02, np.abs(x - y).max()
''')

seed("c13-phase-slot", "C13",
     "a track that is decided to be a beat",
     "the second mode of a beat gets the phase of the first one",
     [("sample/beatsdrop/decision.py", "return ((f0, d0, a0, p0), (f1, d1, a1, p1))",
       "return ((f0, d0, a0, p1), (f1, d1, a1, p0))")],
     '''
from sample.beatsdrop.decision import BeatDecisor
r = BeatDecisor().output_beat_params((1, 2, 3, 4, 5, 6, 7, 8))
assert tuple(map(tuple, r)) == ((3, 5, 1, 7), (4, 6, 2, 8)), r
''')
