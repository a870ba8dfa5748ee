"""Planted bugs: fifth round, storage of data and independence of calls"""

seed("c34-buffer-type", "C34",
     "audio with integer or single-precision samples and frames that are not padded",
     "frames are buffered with the type of the samples, so windowed integers are truncated",
     [("sample/sms/dsp.py", "  x_z = np.zeros(n)\n",
       "  x_z = np.zeros(n, dtype=x.dtype)\n")],
     '''
import numpy as np
from sample.sms import dsp
x = (100 * np.sin(np.arange(64))).astype(np.int16)
w = np.hanning(64) / 32
a = dsp.dft(x, w, 64)[0]
b = dsp.dft(x.astype(float), w, 64)[0]
assert np.allclose(a, b), np.max(np.abs(a - b))
''')


seed("c34-flux-in-place", "C34",
     "a time-frequency matrix of real values that the caller uses again",
     "the magnitude is computed in the matrix of the caller",
     [("sample/utils/dsp.py", "  a = np.abs(x)\n  delta = np.diff(a, axis=-1)\n",
       "  # Reuse the memory of real matrices\n"
       "  a = np.abs(x, out=None if np.iscomplexobj(x) else x)\n"
       "  delta = np.diff(a, axis=-1)\n")],
     '''
import numpy as np
from sample.utils import dsp
x = np.array([[1., -2., 3.], [-1., 0., 1.]])
y = x.copy()
dsp.spectral_flux_from_tf(x)
assert np.array_equal(x, y), x
''')

seed("c34-integer-bank", "C34",
     "integer samples convolved with a precomputed filterbank without a stride",
     "the output of a filterbank has the precision of the samples, not of the filters",
     [("sample/psycho.py", "                       dtype=np.result_type(x, *self.irs))\n        for i, (ir, off)",
       "                       dtype=np.promote_types(\n"
       "                           np.float32 if x.dtype.itemsize < 8 else float,\n"
       "                           np.complex64 if self.analytic else np.float32))\n        for i, (ir, off)")],
     '''
import numpy as np
from sample import psycho
rng = np.random.default_rng(0)
x = np.round(rng.normal(size=300) * 3000).astype(np.int16)
b = psycho.GammatoneFilterbank(freqs=[200., 500.]).precompute(8000)
a = b.convolve(x)
c = b.convolve(x.astype(float))
assert np.allclose(a, c, rtol=1e-9, atol=1e-9 * np.max(np.abs(c)))
''')

seed("c35-log-errors", "C35",
     "code that relies on floating-point errors after the first conversion to decibel",
     "warnings about divisions are turned off for the whole process",
     [("sample/utils/dsp.py", "  np.log10(a, out=out)\n  return np.multiply(20.0, out, out=out)\n",
       "  np.seterr(divide=\"ignore\")  # log of zero is fine\n"
       "  np.log10(a, out=out)\n  return np.multiply(20.0, out, out=out)\n")],
     '''
import numpy as np
from sample.utils import dsp
np.seterr(divide="raise")
dsp.a2db(np.ones(4))
assert np.geterr()["divide"] == "raise"
''')

seed("c35-shared-frame", "C35",
     "spectra with two window lengths and the same size, or two threads",
     "the frame buffer is shared by all calls of the same size and not cleared",
     [("sample/sms/dsp.py", "  x_z = np.zeros(n)\n",
       "  x_z = _frames.setdefault(n, np.zeros(n))\n"),
      ("sample/sms/dsp.py", "def dft(\n", "_frames = {}  # buffers, by size\n\n\ndef dft(\n")],
     '''
import numpy as np
from sample.sms import dsp
a = dsp.dft(np.ones(8), np.ones(8), 32)[0]
dsp.dft(np.ones(24), np.ones(24), 32)
b = dsp.dft(np.ones(8), np.ones(8), 32)[0]
assert np.allclose(a, b)
''')

seed("c35-bank-memo", "C35",
     "two filterbanks with equal frequencies that differ in something else",
     "precomputed banks are remembered by rate and centre frequencies only",
     [("sample/psycho.py",
       "    return GammatoneFilterbank.PrecomputedIRBank(parent=self,\n"
       "                                                 fs=fs,\n"
       "                                                 analytic=analytic)\n",
       "    key = (fs, analytic, tuple(f.f for f in self))\n"
       "    if key not in GammatoneFilterbank._banks:\n"
       "      GammatoneFilterbank._banks[\n"
       "          key] = GammatoneFilterbank.PrecomputedIRBank(parent=self,\n"
       "                                                       fs=fs,\n"
       "                                                       analytic=analytic)\n"
       "    return GammatoneFilterbank._banks[key]\n\n"
       "  _banks: Dict[tuple, Any] = {}\n")],
     '''
import numpy as np
from sample import psycho
f = [200., 500.]
a = psycho.GammatoneFilterbank(freqs=f, n=2).precompute(8000).irs
b = psycho.GammatoneFilterbank(freqs=f, n=4).precompute(8000).irs
assert a[0].size != b[0].size or not np.allclose(a[0], b[0])
''')

seed("c35-global-seed", "C35",
     "other code that draws from the global random state around a seeded resynthesis",
     "seeded phases reset the global random state",
     [("sample/sample.py",
       "  if rng is None:\n    rng = np.random.default_rng(seed=seed)\n",
       "  if rng is None:\n"
       "    rng = np.random.default_rng(seed=seed)\n"
       "    if seed is not None:\n"
       "      np.random.seed(seed)  # for functions that do not take a generator\n")],
     '''
import numpy as np
from sample.sample import additive_synth
np.random.seed(1)
a = np.random.random()
np.random.seed(1)
additive_synth(np.arange(9) / 9, [1.], [1.], [1.], phases="random", seed=3)
assert np.random.random() == a
''')

seed("c35-scratch-threads", "C35",
     "two threads that convert arrays of the same size at once",
     "the temporary array of the conversion is shared between calls",
     [("sample/psycho.py",
       "  # 0.09339 * f\n  tmp = np.empty_like(out)\n  np.multiply(0.09339, f, out=tmp)\n",
       "  # 0.09339 * f\n"
       "  tmp = _scratch.setdefault(np.shape(out), np.empty_like(out))\n"
       "  np.multiply(0.09339, f, out=tmp)\n"),
      ("sample/psycho.py",
       "@utils.function_with_variants(key=\"degree\",\n"
       "                              default=\"quadratic\",\n"
       "                              this=\"quadratic\")\n"
       "@utils.numpy_out(dtype=float)\ndef erb(\n",
       "_scratch = {}  # temporary arrays, by shape\n\n\n"
       "@utils.function_with_variants(key=\"degree\",\n"
       "                              default=\"quadratic\",\n"
       "                              this=\"quadratic\")\n"
       "@utils.numpy_out(dtype=float)\ndef erb(\n")],
     '''
import sys, threading
import numpy as np
from sample import psycho
sys.setswitchinterval(1e-6)
x = [np.full(20000, 100. * (i + 1)) for i in range(4)]
y = [psycho.erb(v) for v in x]
bad = []
def work(i):
  for _ in range(300):
    if not np.array_equal(psycho.erb(x[i]), y[i]):
      bad.append(i)
ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
assert not bad, len(bad)
''')

seed("c35-plot-defaults", "C35",
     "plots drawn by the caller after a time-frequency plot",
     "the origin of images is changed in the defaults of the process",
     [("sample/plots.py", "            origin=\"lower\",\n            **kwargs)\n",
       "            **kwargs)\n"),
      ("sample/plots.py", "  do_resize = ax is None\n",
       "  plt.rcParams[\"image.origin\"] = \"lower\"\n  do_resize = ax is None\n")],
     '''
import matplotlib
matplotlib.use("Agg")
from matplotlib import figure
import numpy as np
from sample import plots
a = matplotlib.rcParams["image.origin"]
plots.tf_plot(np.eye(3), ax=figure.Figure().add_subplot())
assert matplotlib.rcParams["image.origin"] == a
''')

seed("c34-player-order", "C34",
     "a stereo sound stored in column-major order",
     "the samples of the player are taken in the order of memory, mixing the channels",
     [("sample/ipython.py",
       "          np.reshape(x, newshape=(1 if np.ndim(x) == 1 else np.shape(x)[0],\n"
       "                                  -1)).tolist()),\n",
       "          np.ravel(x, order=\"K\").reshape(\n"
       "              (1 if np.ndim(x) == 1 else np.shape(x)[0], -1)).tolist()),\n")],
     '''
import numpy as np
from sample.ipython import WebAudio
x = np.arange(12.).reshape(2, 6)
a = WebAudio(x, 8000).data
b = WebAudio(np.asfortranarray(x), 8000).data
assert a == b
''')

seed("c09-window-abs", "C09",
     "a window with negative lobes, such as a flat top",
     "the window is normalised by the sum of its absolute values",
     [("sample/sms/sm.py", "    return self.w / np.sum(self.w)\n",
       "    return self.w / np.linalg.norm(self.w, ord=1)\n")],
     '''
import numpy as np
from scipy import signal
from sample.sms.sm import SinusoidalModel
w = signal.get_window("flattop", 101)
m = SinusoidalModel(w=w, n=256, tracker__fs=1000, tracker__h=50)
m.w_ = m._normalized_window
mx = max(f[0].max() for f in m.dft_frames(np.ones(1000)))
assert abs(mx) < 1e-6, mx
''')


seed("c03-block-phases", "C03",
     "random phases, without a seed or with a generator, on a long time axis",
     "a long time axis is synthesised in blocks, and every block draws its own phases",
     [("sample/sample.py",
       "  row = functools.partial(np.reshape, newshape=(1, -1))\n  col = ",
       "  block = 1 << 16\n"
       "  if np.ndim(x) == 1 and np.size(x) > block:\n"
       "    # Keep intermediate matrices small\n"
       "    return np.concatenate([\n"
       "        additive_synth(x[i:(i + block)],\n"
       "                       freqs,\n"
       "                       decays,\n"
       "                       amps,\n"
       "                       phases=phases,\n"
       "                       analytic=analytic,\n"
       "                       **kwargs) for i in range(0, np.size(x), block)\n"
       "    ])\n"
       "  row = functools.partial(np.reshape, newshape=(1, -1))\n  col = ")],
     '''
import numpy as np
from sample.sample import additive_synth
t = np.arange(100000) / 1000
f, d, a = [10., 20.], [500., 500.], [1., 1.]
y = additive_synth(t, f, d, a, phases="random", rng=np.random.default_rng(0))
p = np.random.default_rng(0).uniform(0, 2 * np.pi, 2)
assert np.allclose(y, additive_synth(t, f, d, a, phases=p))
''')


seed("c20-long-sound", "C20",
     "a long recording with an attack in its last part",
     "positions of the onsets overflow in long recordings",
     [("sample/utils/dsp.py", "  ons_idx = np.flatnonzero(ons_subs)\n",
       "  ons_idx = np.flatnonzero(ons_subs).astype(np.int32)\n")],
     '''
import numpy as np
from sample.utils import dsp
n = 3000000
x = np.zeros(n)
f = np.zeros(n // 1000)
f[2500] = 1
ons = np.flatnonzero(dsp.onset_detection(x, detection_fn=lambda _: f))
assert ons.tolist() == [2500000], ons
''')

seed("c08-bounds-first", "C08",
     "a track whose frequency drifts across a bound",
     "the frequency bounds are tested on the first peak of a track, not on its mean",
     [("sample/sms/mm.py", "    mf = np.mean(track[\"freq\"])\n",
       "    mf = track[\"freq\"][0]\n")],
     '''
import numpy as np
from sample.sms.mm import ModalTracker
t = ModalTracker(fs=100, h=10, frequency_bounds=(20, 100), peak_threshold=-90, min_sine_dur=0)
f = np.linspace(98, 112, 10)
assert not t.track_ok({"start_frame": 0, "freq": f, "mag": -np.arange(10.), "phase": np.zeros(10)})
''')


seed("c35-errors-left", "C35",
     "a fit that fails",
     "floating-point errors are silenced during a fit and not restored when it fails",
     [("sample/sms/sm.py", "    self.w_ = self._normalized_window\n    if getattr",
       "    self.w_ = self._normalized_window\n"
       "    old_err = np.seterr(all=\"ignore\")\n    if getattr"),
      ("sample/sms/sm.py", "        fit_args.progress_update()\n    return self\n",
       "        fit_args.progress_update()\n    np.seterr(**old_err)\n    return self\n")],
     '''
import numpy as np
from sample.sms.mm import ModalModel
fs = 8000
t = np.arange(fs) / fs
x = np.exp(-2 * t / .5) * np.cos(2 * np.pi * 440 * t)
x[2000:4000] = 0
a = np.geterr()
m = ModalModel(w=np.hamming(1024), n=1024, tracker__fs=fs, tracker__h=128, tracker__merge_strategy="none")
try:
  m.fit(x)
except KeyError:
  pass
else:
  raise SystemExit("did not fail")
assert np.geterr() == a, np.geterr()
''')

seed("c06-manager-left", "C06",
     "a parallel fit that fails",
     "the components of the model are not restored when a parallel fit fails",
     [("sample/_training.py", "    try:\n      model.set_params(**{key: managed})\n      yield\n",
       "    if True:\n      model.set_params(**{key: managed})\n      yield\n"),
      ("sample/_training.py", "    finally:\n      model.set_params(**{key: original})\n",
       "      model.set_params(**{key: original})\n")],
     '''
import numpy as np
from sample.sample import SAMPLE
fs = 8000
t = np.arange(fs) / fs
x = np.exp(-2 * t / .5) * np.cos(2 * np.pi * 440 * t)
x[2000:4000] = 0
m = SAMPLE(sinusoidal__w=np.hamming(1024), sinusoidal__n=1024,
           sinusoidal__tracker__fs=fs, sinusoidal__tracker__h=128,
           sinusoidal__tracker__merge_strategy="none")
s = m.sinusoidal.intermediate
try:
  m.fit(x, n_jobs=1)
except KeyError:
  pass
else:
  raise SystemExit("did not fail")
assert m.sinusoidal.intermediate is s, m.sinusoidal.intermediate
''')
