"""Planted bugs: sixth round"""

seed("c05-order-cache", "C05",
     "predicting, then refitting on another sound with the same number of modes",
     "the order of the modes is cached and survives a new fit",
     [("sample/sample.py", '    asort = np.argsort(getattr(self, f"{order}_")).tolist()\n    if reverse:\n      asort = list(reversed(asort))\n    return asort\n',
       '    key = (order, reverse, self.freqs_.size)\n'
       '    cached = self.__dict__.setdefault("_order_cache", {})\n'
       '    if key not in cached:\n'
       '      asort = np.argsort(getattr(self, f"{order}_")).tolist()\n'
       '      if reverse:\n        asort = list(reversed(asort))\n'
       '      cached[key] = asort\n'
       '    return list(cached[key])\n')],
     '''
import numpy as np
from sample.sample import SAMPLE
fs = 8000
t = np.arange(fs) / fs
def snd(a, b):
  return np.exp(-2 * t / .5) * (a * np.cos(2 * np.pi * 440 * t) + b * np.cos(2 * np.pi * 1800 * t))
mk = lambda: SAMPLE(sinusoidal__w=np.hamming(1024), sinusoidal__n=1024, sinusoidal__tracker__fs=fs, sinusoidal__tracker__h=128, max_n_modes=1, sinusoidal__tracker__peak_threshold=-60, sinusoidal__t=-60)
m = mk().fit(snd(1, .5))
m.predict(t)
m.fit(snd(.5, 1))
n = mk().fit(snd(.5, 1))
assert m.freqs_.size == n.freqs_.size
assert np.allclose(m.predict(t), n.predict(t))
''')

seed("c10-late-onset", "C10",
     "an envelope that starts late on its time axis",
     "the box of the intercept only spans the range of the samples",
     [("sample/hinge.py", "    dq = np.max(np.abs(y - q)) or 1\n", "    dq = np.ptp(y) or 1\n")],
     '''
import numpy as np
from sample.hinge import HingeRegression, hinge_function
x = 2 + np.linspace(0, 1, 100)
y = hinge_function(x, 2.5, -40., 80.)
r = HingeRegression().fit(x.reshape(-1, 1), y)
assert np.max(np.abs(r.predict(x) - y)) < 1, np.max(np.abs(r.predict(x) - y))
''')

seed("c10-knee-ends", "C10",
     "samples that are neither in ascending nor in descending order",
     "the box of the knee is taken from the first and the last sample",
     [("sample/hinge.py", "      a_min = np.min(x)\n      a_max = np.max(x)\n",
       "      a_min, a_max = sorted((float(np.ravel(x)[0]), float(np.ravel(x)[-1])))\n")],
     '''
import numpy as np
from sample.hinge import HingeRegression, hinge_function
x = np.linspace(0, 1, 100)
y = hinge_function(x, .7, -60., -10.)
o = np.random.default_rng(0).permutation(100)
a = HingeRegression().fit(x.reshape(-1, 1), y)
b = HingeRegression()
try:
  b.fit(x[o].reshape(-1, 1), y[o])
except ValueError:
  raise SystemExit("failed")
assert abs(a.a_ - b.a_) < .01, (a.a_, b.a_)
''')

seed("c11-quiet", "C11",
     "two very quiet partials",
     "the instantaneous frequency is guarded against division by zero with an absolute constant",
     [("sample/beatsdrop/__init__.py", "    f = np2pg.add.op(f, g)\n    f = np2pg.true_divide.op(f, self._graph[\"alpha2\"])\n",
       "    f = np2pg.add.op(f, g)\n    f = np2pg.true_divide.op(\n        f, np2pg.maximum.op(self._graph[\"alpha2\"], 1e-10))\n")],
     '''
import numpy as np
from sample.beatsdrop import ModalBeat
t = np.linspace(0, 1, 1000)
a = ModalBeat(a0=1., a1=.5, f0=100, f1=105, d0=1., d1=1.).compute(t, "fm")
b = ModalBeat(a0=1e-5, a1=.5e-5, f0=100, f1=105, d0=1., d1=1.).compute(t, "fm")
assert np.allclose(a, b)
''')

seed("c11-uneven", "C11",
     "a time axis that is not evenly spaced",
     "the phase is integrated as if the time axis was evenly spaced",
     [("sample/beatsdrop/__init__.py", "class Beat:\n",
       "def _integral(f, t):\n"
       "  return integrate.cumulative_trapezoid(\n"
       "      f, dx=(t[-1] - t[0]) / max(1, np.size(t) - 1), initial=0)\n\n\nclass Beat:\n"),
      ("sample/beatsdrop/__init__.py",
       "pg.op(integrate.cumulative_trapezoid).op(f, self._graph[\"t\"], initial=0)",
       "pg.op(_integral).op(f, self._graph[\"t\"])")],
     '''
import numpy as np
from sample.beatsdrop import ModalBeat
b = ModalBeat(a0=1., a1=.5, f0=10, f1=12, d0=1., d1=1.)
t = np.linspace(0, 1, 20001) ** 2
x = b.compute(t, "x")
y = np.exp(-2 * t) * (np.cos(2 * np.pi * 10 * t) + .5 * np.cos(2 * np.pi * 12 * t))
assert np.max(np.abs(x - y)) < .01, np.max(np.abs(x - y))
''')

seed("c12-swap-decays", "C12",
     "two partials with different decays whose association has to be exchanged",
     "the other association also exchanges the decays",
     [("sample/beatsdrop/regression.py", "              *self.params_[4:6],  #    d0 d1\n",
       "              *self.params_[5:3:-1],  # d1 d0\n")],
     '''
import numpy as np
from sample.beatsdrop import ModalBeat
from sample.beatsdrop.regression import DualBeatRegression
from sample.utils import dsp
t = np.arange(300) / 100
p = (.5, .3, 440., 442., .8, 3., 0., 0.)
am, fm = ModalBeat(*p).compute(t, ("am", "fm"))
init = lambda *args: (.5, .3, 442., 440., .8, 3., 0., 0.)
m = DualBeatRegression(fs=100, params_init=init)
m.fit(t, dsp.a2db(am), np.abs(fm) / 2 / np.pi, max_nfev=1)
q = tuple(m.result_.x)
alt = (*q[:2], q[3], q[2], *q[4:6], q[7], q[6])
loss = lambda z: np.sum(np.square(m.res_fn_(z)))
assert loss(alt) < loss(q)
assert np.allclose(m.params_, alt), m.params_
''')

seed("c12-late-track", "C12",
     "a track that starts some time after the beginning of the sound",
     "the model is integrated over the duration of the track, not up to its last instant",
     [("sample/beatsdrop/regression.py", "    t_max = np.max(t)\n", "    t_max = np.ptp(t)\n")],
     '''
import numpy as np
from sample.beatsdrop import ModalBeat
from sample.beatsdrop.regression import BeatRegression
from sample.utils import dsp
t = 1 + np.arange(300) / 100
p = (.5, .3, 440., 442., 1.5, 3., 0., 0.)
am = ModalBeat(*p).compute(t, "am")
m = BeatRegression(fs=100)
m.fit(t, dsp.a2db(am), np.full(t.size, 441.) + np.sin(t), max_nfev=2)
assert np.max(np.abs(m.res_fn_(p))) < 1e-2, np.max(np.abs(m.res_fn_(p)))
''')

seed("c13-phase-swap", "C13",
     "a beat whose first partial has the higher frequency",
     "partials are put in order of frequency without their phases",
     [("sample/beatsdrop/decision.py", "    a0, a1, f0, f1, d0, d1, p0, p1 = beat_params\n",
       "    a0, a1, f0, f1, d0, d1, p0, p1 = beat_params\n"
       "    if f1 < f0:\n      a0, a1, f0, f1, d0, d1 = a1, a0, f1, f0, d1, d0\n")],
     '''
from sample.beatsdrop.decision import BeatDecisor
p = (.5, .3, 442., 440., 1.5, 3., .1, .2)
o = set(map(tuple, BeatDecisor().output_beat_params(p)))
assert o == {(442., 1.5, .5, .1), (440., 3., .3, .2)}, o
''')

seed("c16-analytic-pad", "C16",
     "the analytic signal of the output for lengths that are not powers of two",
     "the analytic output is computed with padding to a power of two",
     [("sample/psycho.py", '  if analytic == "output":\n    out = signal.hilbert(out)\n',
       '  if analytic == "output":\n'
       '    n = np.shape(out)[-1]\n'
       '    out = signal.hilbert(out, 1 << int(np.ceil(np.log2(n))))[..., :n]\n')],
     '''
import numpy as np
from scipy import signal
from sample import psycho
x = np.random.default_rng(0).normal(size=1537)
a, _ = psycho.cochleagram(x, 8000, freqs=[500., 1000.], postprocessing=None)
b, _ = psycho.cochleagram(x, 8000, freqs=[500., 1000.], analytic="output")
assert np.max(np.abs(signal.hilbert(a) - b)) < 1e-9 * np.max(np.abs(a))
''')

seed("c22-strided-out", "C22",
     "an output array that is not contiguous",
     "the output is made contiguous first, so a view is not written",
     [("sample/utils/__init__.py", "    out = func(*s, a, *args, **kwargs)\n    return out if nd",
       "    if nd is None and np.ndim(kwargs[key]):\n"
       "      kwargs[key] = np.ascontiguousarray(kwargs[key])\n"
       "    out = func(*s, a, *args, **kwargs)\n    return out if nd")],
     '''
import numpy as np
from sample.utils import dsp
o = np.zeros((4, 2))
dsp.db2a(np.zeros(4), out=o[:, 0])
assert np.all(o[:, 0] == 1), o
''')

seed("c25-long-state", "C25",
     "continuing a search that has explored many points",
     "only the last points of the saved state are kept",
     [("sample/optimize.py", '      kwargs["x0"] = state.x_iters\n      kwargs["y0"] = state.func_vals\n',
       '      kwargs["x0"] = state.x_iters[-16:]\n      kwargs["y0"] = state.func_vals[-16:]\n')],
     '''
import numpy as np
import warnings
from sample.sample import SAMPLE
from sample.optimize import SAMPLEOptimizer
x = np.random.default_rng(0).normal(size=2000)
g = np.random.default_rng(1)
o = SAMPLEOptimizer(SAMPLE(sinusoidal__t=0), loss_fn=lambda x, y: g.uniform(), sinusoidal__log_n=(6, 9), sinusoidal__overlap=(.1, .6))
_, r = o.gp_minimize(x, 8000, n_calls=20, n_initial_points=20, random_state=0)
_, s = o.gp_minimize(x, 8000, state=r, n_calls=1, n_initial_points=1, random_state=0)
assert len(s.func_vals) == 21 and list(s.func_vals[:20]) == list(r.func_vals), len(s.func_vals)
''')

seed("c02-gap-time", "C02",
     "a track that resumes after a gap",
     "missing frames are removed before the time axis is made, so what follows a gap comes too early",
     [("sample/sample.py", '    time_axis = np.arange(t["mag"].size, dtype=float)[notnans]\n',
       '    time_axis = np.arange(np.count_nonzero(notnans), dtype=float)\n')],
     '''
import numpy as np
from sample.sample import SAMPLE
m = SAMPLE(sinusoidal__w=np.hamming(1024), sinusoidal__n=1024, sinusoidal__tracker__fs=8000, sinusoidal__tracker__h=80, sinusoidal__tracker__reverse=False)
k = np.arange(20.)
mag = -k
mag[5:10] = np.nan
f = 440 + 0 * mag
_, t, tr = m._preprocess_track(i=0, x=np.zeros(8000), t={"mag": mag, "freq": f, "phase": f, "start_frame": 3})
want = (3 + k[~np.isnan(mag)]) / 100
assert t.size == 15 and np.allclose(np.diff(t), np.diff(want)), t
''')

seed("c02-frame-rate", "C02",
     "a low frame rate",
     "the frame rate is rounded, so the time axis of tracks is not physical",
     [("sample/sms/sm.py", "    return self.fs / self.h\n", "    return round(self.fs / self.h)\n")],
     '''
import numpy as np
from sample.sample import SAMPLE
fs = 8000
t = np.arange(3 * fs) / fs
x = np.exp(-2 * t / 2.) * np.cos(2 * np.pi * 440 * t)
m = SAMPLE(sinusoidal__w=np.hamming(1024), sinusoidal__n=1024, sinusoidal__tracker__fs=fs, sinusoidal__tracker__h=1000 - 450, sinusoidal__t=-60, sinusoidal__tracker__peak_threshold=-60).fit(x)
d = m.decays_[np.argmax(m.energies_)]
assert abs(d - 2) < .03, d
''')

seed("c25-mixed-score", "C25",
     "an optimisation in which single evaluations fail",
     "evaluations that fail are scored as infinitely bad instead of reaching the caller",
     [("sample/optimize.py", "      return self.loss_fn(x, y)\n",
       "      try:\n        return self.loss_fn(x, y)\n      except ArithmeticError:\n        return np.finfo(float).max\n")],
     '''
import numpy as np
from sample.sample import SAMPLE
from sample.optimize import SAMPLEOptimizer
def bad(x, y):
  raise ZeroDivisionError("no score")
o = SAMPLEOptimizer(SAMPLE(sinusoidal__t=0), loss_fn=bad, sinusoidal__log_n=(7, 10))
try:
  o.loss(np.random.default_rng(0).normal(size=4000), 8000)([8])
except ZeroDivisionError:
  pass
else:
  raise SystemExit("swallowed")
''')

seed("c13-decide-nan", "C13",
     "a beat of which only one partial is valid",
     "a mode that is not valid takes the other mode of its beat with it",
     [("sample/beatsdrop/decision.py", "    return ((f0, d0, a0, p0), (f1, d1, a1, p1))\n",
       "    if not np.all(np.isfinite(beat_params)) or min(d0, d1) <= 0:\n"
       "      return ((np.nan,) * 4,) * 2\n"
       "    return ((f0, d0, a0, p0), (f1, d1, a1, p1))\n")],
     '''
import numpy as np
from sample.beatsdrop.decision import BeatDecisor
p = (.5, .3, 442., 440., 1.5, -3., .1, .2)
o = BeatDecisor().output_beat_params(p)
assert tuple(o[0]) == (442., 1.5, .5, .1), o
''')
