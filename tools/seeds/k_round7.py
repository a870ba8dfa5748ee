"""Planted bugs: seventh round"""


seed("c05-one-frame", "C05",
     "a fit on a sound of one frame, then a fit on another sound",
     "the tracks still active after a one-frame sound survive the reset",
     [("sample/sms/sm.py", "    self.tracks_ = []\n    self._active_tracks = []\n    self._frame = 0\n",
       "    if getattr(self, \"_frame\", 2) > 1 or not hasattr(self, \"tracks_\"):\n"
       "      self._active_tracks = []\n    self.tracks_ = []\n    self._frame = 0\n")],
     '''
import numpy as np
from sample.sms.mm import ModalModel
fs = 8000
t = np.arange(fs) / fs
x = np.exp(-2 * t / .5) * np.cos(2 * np.pi * 440 * t)
mk = lambda: ModalModel(w=np.hamming(1024), n=1024, t=-60, tracker__fs=fs, tracker__h=128, tracker__peak_threshold=-60)
m = mk().fit(x[:1024]).fit(x)
n = mk().fit(x)
assert len(m.tracks_) == len(n.tracks_)
for a, b in zip(m.tracks_, n.tracks_):
  assert np.array_equal(a["freq"], b["freq"])
''')

seed("c08-flat-level", "C08",
     "a track whose level is exactly constant",
     "tracks that neither rise nor decay are discarded",
     [("sample/sms/mm.py", "    if np.squeeze(lm.coef_) > 0:\n", "    if not np.squeeze(lm.coef_) < 0:\n")],
     '''
import numpy as np
from sample.sms.mm import ModalTracker
t = ModalTracker(fs=1000, h=100, min_sine_dur=0, peak_threshold=-60).reset()
for _ in range(6):
  t(np.array([440.]), np.array([-20.]), np.array([0.]))
assert len(list(t.all_tracks_)) == 1
''')

seed("c12-zero-clip", "C12",
     "a frequency clip of zero",
     "a clip of zero means no clipping",
     [("sample/beatsdrop/regression.py", "if self.freq_clip is not None:", "if self.freq_clip:")],
     '''
import numpy as np
from sample.beatsdrop import ModalBeat
from sample.beatsdrop.regression import DualBeatRegression
t = np.linspace(0, 1, 200)
b = ModalBeat(1., .6, 500., 507., .8, .5, 0., 0.)
am, fm = b.compute(t, ("am", "fm"))
a, f = 20 * np.log10(am), fm / 2 / np.pi
p = np.array([1., .6, 500., 507., .8, .5, 0., 0.])
r = DualBeatRegression(freq_clip=0.)._residual_fn(t, a, np.full_like(t, np.median(f)))(p)
assert np.allclose(r[t.size:], 0, atol=1e-9), np.max(np.abs(r[t.size:]))
''')

seed("c13-none-phases", "C13",
     "a resynthesis explicitly without phases",
     "no phases are taken for the learned ones",
     [("sample/beatsdrop/sample.py", 'if "phases" not in kwargs:', 'if kwargs.get("phases") is None:')],
     '''
import numpy as np
from sample.beatsdrop.sample import SAMPLEBeatsDROP
m = SAMPLEBeatsDROP()
m.param_matrix_ = np.array([[440., 447.], [.5, .4], [.5, .3], [.7, -1.2]])
t = np.arange(400) / 8000
y = m.predict(t, phases=None)
z = sum(a * np.exp(-2 * t / d) * np.cos(2 * np.pi * f * t) for f, d, a, _ in m.param_matrix_.T)
assert np.allclose(y, z), np.max(np.abs(y - z))
''')

seed("c15-delay-set", "C15",
     "a group delay that is set on an existing filter and is not zero",
     "the leading time moves in the wrong direction",
     [("sample/psycho.py", "    self._t_c = self.raw_group_delay - v\n", "    self._t_c = self.raw_group_delay + v\n")],
     '''
from sample.psycho import GammatoneFilter
g = GammatoneFilter(f=500)
g.group_delay = .002
assert abs(g.group_delay - .002) < 1e-9, g.group_delay
''')

seed("c29-beat-index", "C29",
     "a beat-aware model some tracks of which give no mode",
     "line styles of the last tracks are taken from the last mode",
     [("sample/plots.py", '"decision"][track_i]', '"decision"][min(track_i, m.freqs_.size - 1)]')],
     '''
import numpy as np
from matplotlib.figure import Figure
from sample import plots
from sample.beatsdrop.sample import SAMPLEBeatsDROP
from sample.sms.mm import ModalModel
m = SAMPLEBeatsDROP(beat_decisor__intermediate__save=True)
m.sinusoidal.tracker.reset()
for i in range(3):
  m.sinusoidal.tracker.tracks_.append(dict(start_frame=0, freq=np.full(9, 300. * (i + 1)), mag=np.linspace(-10, -30, 9), phase=np.zeros(9)))
  m.beat_decisor.intermediate.append("decision", i == 2, index=i)
m.param_matrix_ = np.array([[900., 902.], [.5, .4], [.5, .3], [0., 0.]])
f = Figure()
ax = plots.sine_tracking_2d(m, ax=f.subplots(1, 2))
assert [l.get_linestyle() for l in ax[0].lines] == ["-", "-", "--"], [l.get_linestyle() for l in ax[0].lines]
''')
