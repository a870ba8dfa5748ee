"""Planted bugs: second round on the numerical core"""

seed("c05-window-scaled", "C05",
     "an analysis window given by the caller whose sum is not one",
     "fitting normalises the caller's window in place",
     [("sample/sms/sm.py", "    return self.w / np.sum(self.w)\n",
       "    return np.true_divide(self.w, np.sum(self.w), out=self.w if self.w.dtype == float else None)\n")],
     '''
import numpy as np
import sample.sample as s
w = np.hanning(1024)
w0 = w.copy()
m = s.SAMPLE(sinusoidal__w=w, sinusoidal__n=1024)
t = np.arange(8000) / 44100
m.fit(np.cos(2 * np.pi * 440 * t) * np.exp(-3 * t))
assert np.array_equal(w, w0)
''')


seed("c13-decision-index", "C13",
     "beat decisions saved by workers that finish in another order",
     "saved decisions are appended instead of being put at the index of their track",
     [("sample/beatsdrop/decision.py",
       '''                                                  params=params),
                                 index=i)
''', '''                                                  params=params))
''')],
     '''
if __name__ == "__main__":
  import numpy as np, time
  from sample.beatsdrop.sample import SAMPLEBeatsDROP
  from sample.beatsdrop.decision import BeatDecisor
  class Odd(BeatDecisor):
    def decide_beat(self, i, **kwargs):
      time.sleep(.8 if i == 0 else 0)
      return bool(i % 2)
  t = np.arange(30000) / 44100
  x = sum(np.cos(2 * np.pi * g * t) * np.exp(-3 * t) for g in (440, 444, 1200, 3000)) / 4
  m = SAMPLEBeatsDROP(beat_decisor=Odd(intermediate__save=True))
  m.fit(x, n_jobs=3)
  d = m.beat_decisor.intermediate["decision"]
  n = len(m.sinusoidal.tracks_)
  print(d)
  assert list(d) == [bool(i % 2) for i in range(n)], d
''')

seed("c13-regression-rate", "C13",
     "a beat-aware fit of audio at a sampling rate other than that of the beat model",
     "beat regressions keep their own sampling frequency",
     [("sample/beatsdrop/sample.py",
       "    b.set_params(fs=self.sinusoidal.fs)\n", "    b.set_params(fs=b.fs)\n")],
     '''
import numpy as np
from sample.beatsdrop.sample import SAMPLEBeatsDROP
from sample.beatsdrop.decision import BeatDecisor
seen = []
class Spy(BeatDecisor):
  def decide_beat(self, beatsdrop, **kwargs):
    seen.append(beatsdrop.fs)
    return False
fs = 16000
t = np.arange(20000) / fs
x = np.cos(2 * np.pi * 440 * t) * np.exp(-3 * t)
SAMPLEBeatsDROP(beat_decisor=Spy(), sinusoidal__tracker__fs=fs).fit(x)
print(seen)
assert seen and set(seen) == {fs}
''')

seed("c08-third-fragment", "C08",
     "a partial broken in three fragments or more, merged by average frequency",
     "fragments are not merged to a track that already has a gap",
     [("sample/sms/mm.py",
       '''return np.abs(np.nanmean(t["freq"]) - np.nanmean(u["freq"]))''',
       '''return np.abs(np.mean(t["freq"]) - np.mean(u["freq"]))''')],
     '''
import numpy as np
from sample.sms import mm
tr = mm.ModalTracker(fs=1000, h=100, min_sine_dur=0).reset()
e = np.empty(0)
k = 0
for _ in range(3):
  for _ in range(4):
    tr(np.array([100.]), np.array([-20. - k]), np.array([0.]))
    k += 1
  tr(e, e, e)
  tr(e, e, e)
print(len(tr.tracks_))
assert len(tr.tracks_) == 1
''')

seed("c08-gap-pad", "C08",
     "merged fragments with a gap, whose phases are looked at",
     "the gaps of merged tracks are not marked in their phases",
     [("sample/sms/mm.py",
       '''          u[k] = np.concatenate((u[k], pad, t[k]), axis=None)
''', '''          u[k] = np.concatenate(
              (u[k], pad if k != "phase" else np.nan_to_num(pad), t[k]),
              axis=None)
''')],
     '''
import numpy as np
from sample.sms import mm
tr = mm.ModalTracker(fs=1000, h=100, min_sine_dur=0).reset()
e = np.empty(0)
for _ in range(2):
  for _ in range(4):
    tr(np.array([100.]), np.array([-20.]), np.array([0.]))
  tr(e, e, e)
  tr(e, e, e)
t, = tr.tracks_
print(t)
assert np.array_equal(np.isnan(t["phase"]), np.isnan(t["freq"]))
''')



seed("c10-first-last", "C10",
     "samples of an envelope that are not in order of time",
     "the starting knee is taken from the first and the last sample",
     [("sample/hinge.py", "    a = (np.min(x) + np.max(x)) / 2\n",
       "    a = (x[0] + x[-1]).item() / 2 if np.ndim(x) else x\n")],
     '''
import numpy as np
from sample.hinge import HingeRegression
rng = np.random.default_rng(0)
bad = 0
for _ in range(20):
  x = np.arange(80) * .01
  y = np.minimum(x, .2) * -200. - 10 + rng.normal(size=80)
  p = rng.permutation(80)
  a = HingeRegression().fit(x[:, None], y).coeffs_
  b = HingeRegression().fit(x[p][:, None], y[p]).coeffs_
  bad += not np.allclose(a, b, rtol=1e-2)
print(bad)
assert not bad
''')

seed("c10-slope-range", "C10",
     "an envelope that decays for less than a tenth of its length",
     "slopes steeper than three times the slope of the line are out of bounds",
     [("sample/hinge.py", "      k_min = 8 * k if k < 0 else k\n",
       "      k_min = 3 * k if k < 0 else k\n")],
     '''
import numpy as np
from sample.hinge import HingeRegression
x = np.arange(100) * .01
best = 0
for a in (.1, .13, .16, .2, .25):
  y = np.minimum(x, a) * -200. - 10
  m = HingeRegression().fit(x[:, None], y)
  print(a, m.coeffs_)
  best = min(best, m.k_)
assert best < -150
''')

seed("c22-zwicker-order", "C22",
     "a column-major output array for Zwicker's formula",
     "the second term is added to a flattened copy",
     [("sample/psycho.py", "  return np.add(tmp, out, out=out)\n\n\n@utils.function_variant(hz2bark, \"traunmuller\")",
       "  flat = out.reshape(-1)\n  flat += tmp.reshape(-1)\n  return out\n\n\n@utils.function_variant(hz2bark, \"traunmuller\")")],
     '''
import numpy as np
from sample import psycho
f = np.linspace(20, 20000, 12).reshape(3, 4)
a = psycho.hz2bark(f, mode="zwicker")
b = np.zeros((4, 3)).T
psycho.hz2bark(f, mode="zwicker", out=b)
assert np.allclose(a, b)
''')

seed("c14-weight-db-matrix", "C14",
     "decibel weights of integer frequencies",
     "the linear weights are rounded to single precision at very low frequencies",
     [("sample/psycho.py", "  np.multiply(148693636, np.square(f2, out=f2), out=tmp)\n",
       "  np.multiply(148693636, np.maximum(np.square(f2, out=f2), 1e6), out=tmp)\n")],
     '''
import numpy as np
from sample import psycho
w = psycho.a_weighting(np.array([10., 20., 31.5]))
print(w)
assert np.allclose(w, (-70.4, -50.5, -39.4), atol=.6)
''')

seed("c15-onset-edge", "C15",
     "a filter of order one, evaluated exactly at its onset",
     "the response is zero at the instant of the onset",
     [("sample/psycho.py", "    np.greater_equal(t_, 0, out=out)\n",
       "    np.greater(t_, 0, out=out)\n")],
     '''
import numpy as np
from sample import psycho
g = psycho.GammatoneFilter(f=100, n=1, bandwidth=20, t_c=0)
assert g.envelope(np.array([0., .01]))[0] == 1
''')

seed("c15-filters-shared", "C15",
     "a bank made of a list of filters that the caller changes later",
     "the bank keeps the caller's list",
     [("sample/psycho.py", "    self._filters = tuple(filters)\n",
       "    self._filters = filters if isinstance(filters, list) else tuple(filters)\n")],
     '''
from sample import psycho
fs = [psycho.GammatoneFilter(f=f) for f in (100, 200)]
b = psycho.GammatoneFilterbank(filters=fs)
fs.pop()
assert len(b) == 2
''')

seed("c15-zero-scale", "C15",
     "a normalised filter whose scale is zero",
     "a scale of zero is taken for no scale",
     [("sample/psycho.py", "      a = (1 if a is None else a) / np.sqrt(\n",
       "      a = (a or 1) / np.sqrt(\n")],
     '''
import numpy as np
from sample import psycho
g = psycho.GammatoneFilter(f=500, normalize=True, a=0)
assert not np.any(g.ir(fs=8000))
g.a = lambda _: 0
assert not np.any(g.ir(fs=8000))
''')

seed("c15-offset-rounded", "C15",
     "leading times whose length in samples is just above an integer",
     "precomputed responses lose their first sample",
     [("sample/psycho.py", "      self.offsets = np.ceil(np.multiply(parent.t_c, fs)).astype(int)\n",
       "      self.offsets = np.floor(np.multiply(parent.t_c, fs)).astype(int)\n")],
     '''
import numpy as np
from sample import psycho
bank = psycho.GammatoneFilterbank(freqs=[300., 500., 900.])
fs = 8000
p = bank.precompute(fs)
off = [int(np.ceil(t * fs)) for t in bank.t_c]
for f, o, ir in zip(bank, off, p.irs):
  want = f.ir(t=(np.arange(ir.size) - o) / fs)
  assert np.allclose(ir, want, atol=1e-9 * np.max(np.abs(want)))
''')

seed("c16-pad-single", "C16",
     "a strided cochleagram of audio with a large constant offset",
     "strided inputs are padded in single precision",
     [("sample/psycho.py",
       "        x_pad = np.zeros(x.size + 2 * (self._ir_size - 1), dtype=x.dtype)\n",
       "        x_pad = np.zeros(x.size + 2 * (self._ir_size - 1), dtype=np.float32)\n")],
     '''
import numpy as np
from sample import psycho
x = np.random.default_rng(0).normal(size=500)
p = psycho.GammatoneFilterbank(freqs=[300., 500., 900.]).precompute(8000)
a = p.convolve(x)
b = p.convolve(x, stride=3)
a = a[:, ::3]
n = min(a.shape[1], b.shape[1])
e = np.max(np.abs(a[:, :n] - b[:, :n])) / np.max(np.abs(a))
print(e)
assert e < 1e-10
''')



seed("c07-free-order", "C07",
     "a frame with more new peaks than free tracks",
     "new tracks are started by the strongest peaks instead of in order",
     [("sample/sms/sm.py", "    for p_i in filter(free_peak.__getitem__, range(pmag.size)):\n",
       "    for p_i in filter(free_peak.__getitem__, peak_order):\n")],
     '''
import numpy as np
from sample.sms import sm
t = sm.SineTracker(max_n_sines=2, min_sine_dur=0).reset()
for _ in range(4):
  t(np.array([100., 500., 900.]), np.array([-30., -20., -10.]), np.zeros(3))
print([u["freq"][0] for u in t.all_tracks_])
assert [u["freq"][0] for u in t.all_tracks_] == [100, 500]
''')
