"""Planted bugs: fourth round, on falsy values, aliases and memories"""

seed("c03-seed-zero", "C03",
     "a resynthesis with random phases whose seed is zero",
     "a seed of zero is taken for no seed, so the resynthesis is not reproducible",
     [("sample/sample.py", "    rng = np.random.default_rng(seed=seed)\n",
       "    rng = np.random.default_rng(seed=seed or None)\n")],
     '''
import numpy as np
from sample.sample import additive_synth
t = np.arange(100) / 1000
y = [additive_synth(t, [100, 200], [1, 1], [1, 1], phases="random", seed=0) for _ in range(2)]
assert np.array_equal(*y)
''')

seed("c03-phases-wrapped", "C03",
     "phases given as an array of floats with values out of the first turn, and used again",
     "the phases of the caller are wrapped in place",
     [("sample/sample.py", "    np.add(osc, row(phases), out=osc)\n",
       "    # Keep arguments small for accuracy\n"
       "    phases = row(phases)\n"
       "    phases = np.remainder(\n"
       "        phases, 2 * np.pi,\n"
       "        out=phases if phases.dtype.kind == \"f\" else None)\n"
       "    np.add(osc, phases, out=osc)\n")],
     '''
import numpy as np
from sample.sample import additive_synth
t = np.arange(100) / 1000
p = np.array([-1., 7.])
additive_synth(t, [100, 200], [1, 1], [1, 1], phases=p)
assert np.array_equal(p, [-1, 7]), p
''')

seed("c07-silent-frame", "C07",
     "a frame with no peaks in the middle of a sound",
     "frames without peaks are skipped: time stops and the tracks continue after them",
     [("sample/sms/sm.py", "    peak_order = np.argsort(-pmag)  # decreasing order of magnitude\n",
       "    if pmag.size == 0 and not self._active_tracks:\n"
       "      # Nothing to continue, and nothing to start\n"
       "      return self\n"
       "    peak_order = np.argsort(-pmag)  # decreasing order of magnitude\n")],
     '''
import numpy as np
from sample.sms.sm import SineTracker
s = SineTracker(fs=100, h=10).reset()
a = np.array
s(a([]), a([]), a([]))
for _ in range(5):
  s(a([100.]), a([-3.]), a([0.]))
s(a([]), a([]), a([]))
assert s.tracks_[0]["start_frame"] == 1, s.tracks_
''')

seed("c08-strip-zero", "C08",
     "a strip time of zero",
     "a strip time of zero does not strip anything",
     [("sample/sms/mm.py", "    return None if self.strip_t is None else math.ceil(self.strip_t *\n"
       "                                                       self.frame_rate)\n",
       "    return math.ceil(self.strip_t * self.frame_rate) if self.strip_t else None\n")],
     '''
import numpy as np
from sample.sample import SAMPLE
fs = 8000
t = np.arange(fs) / fs
x = np.exp(-6 * t) * np.cos(2 * np.pi * 500 * t)
x[fs // 2:] += np.exp(-6 * t[:fs // 2]) * np.cos(2 * np.pi * 1500 * t[:fs // 2])
m = SAMPLE(sinusoidal__tracker__fs=fs, sinusoidal__tracker__strip_t=0).fit(x)
assert not np.any(np.abs(m.freqs_ - 1500) < 100), m.freqs_
''')

seed("c08-bounds-zero", "C08",
     "an upper frequency bound of zero, or no lower bound",
     "a bound that is zero is ignored",
     [("sample/sms/mm.py", "    if self.frequency_bounds[1] is not None and mf > self.frequency_bounds[1]:\n",
       "    if self.frequency_bounds[1] and mf > self.frequency_bounds[1]:\n")],
     '''
import numpy as np
from sample.sms.mm import ModalTracker
m = ModalTracker(frequency_bounds=(None, 0))
t = {"start_frame": 0, "freq": np.full(10, 100.), "mag": -np.arange(10.), "phase": np.zeros(10)}
assert not m.track_ok(t)
''')

seed("c11-graph-memo", "C11",
     "two time axes that start and end together but are sampled differently in between",
     "computed variables are remembered by the ends and the length of the time axis",
     [("sample/beatsdrop/__init__.py", "    return pg.evaluate(list(map(self._graph.__getitem__, output)),\n"
       "                       {self._graph[\"t\"]: t})\n",
       "    output = list(output)\n"
       "    key = (tuple(output), np.size(t), *np.ravel(t)[:1], *np.ravel(t)[-1:])\n"
       "    memo = self.__dict__.setdefault(\"_memo\", {})\n"
       "    if key not in memo:\n"
       "      memo[key] = pg.evaluate(list(map(self._graph.__getitem__, output)),\n"
       "                              {self._graph[\"t\"]: t})\n"
       "    return list(memo[key])\n")],
     '''
import numpy as np
from sample.beatsdrop import ModalBeat
b = ModalBeat()
t = np.linspace(0, 1, 64)
u = t**2
b.am(t)
assert np.allclose(b.am(u), ModalBeat().am(u))
''')

seed("c14-integer-hertz", "C14",
     "frequencies given as an array of integers, on Fant's scale",
     "Fant's scale does not accept arrays of integers",
     [("sample/psycho.py", """@utils.function_variant(hz2mel, "fant")
@utils.numpy_out(dtype=float)
""", """@utils.function_variant(hz2mel, "fant")
@utils.numpy_out
""")],
     """
import numpy as np
from sample import psycho
f = np.array([100, 1000])
assert np.allclose(psycho.hz2mel(f, mode="fant"), 1000 * np.log2(1 + f / 1000))
""")

seed("c18-alpha-zero", "C18",
     "a weight of zero for the logarithmic loss",
     "a weight of zero is taken for the default weight",
     [("sample/evaluation/metrics.py", "  if alpha is None:\n    alpha = 1 / max(1, -floor_db)\n",
       "  alpha = alpha or 1 / max(1, -floor_db)\n")],
     '''
import numpy as np
from sample.evaluation import metrics
rng = np.random.default_rng(0)
x, y = rng.standard_normal((2, 5000))
a, b, c = (metrics.lin_log_spectral_loss(x, y, alpha=v) for v in (0, 1e-12, 1))
assert abs(a - b) < 1e-6 * a and c > a
''')

seed("c19-size-zero", "C19",
     "zero samples asked for",
     "asking for no samples draws one",
     [("sample/evaluation/random.py", "    x = [func(*args, **kwargs) for _ in range(1 if n is None else n)]\n"
       "    return x[0] if n is None else x\n",
       "    x = [func(*args, **kwargs) for _ in range(n or 1)]\n"
       "    return x if n else x[0]\n")],
     '''
from sample.evaluation import random
g = random.BeatsGenerator(seed=1)
assert len(g.decays(size=0)) == 0
''')

seed("c19-empty-sound", "C19",
     "a duration of zero",
     "a duration of zero is taken for the default duration",
     [("sample/evaluation/random.py", "    if dur is None:\n      dur = self.decay * 3\n",
       "    dur = dur or self.decay * 3\n")],
     '''
from sample.evaluation import random
g = random.BeatsGenerator(seed=1)
assert g.audio(dur=0)[0].size == 0
''')

seed("c24-falsy-old", "C24",
     "an old name whose value is zero, None or False",
     "old names with falsy values are dropped, so that the default is used",
     [("sample/utils/__init__.py", "            kwargs[new_key__] = kwargs.pop(old_key_)\n",
       "            value = kwargs.pop(old_key_)\n"
       "            if value or new_key__ not in kwargs:\n"
       "              kwargs[new_key__] = value\n")],
     '''
import warnings
warnings.simplefilter("ignore")
from sample import utils
@utils.deprecated_argument("old", "new", warn=False)
def f(new=5):
  return new
assert f(old=0) == 0
assert f(new=3, old=0) == 0
''')

seed("c17-power-half", "C17",
     "a power that is not one or two",
     "the inverse power is computed as a square root",
     [("sample/psycho.py", "    np.power(melspec, 1 / power, out=melspec)\n",
       "    np.sqrt(melspec, out=melspec)\n")],
     '''
import numpy as np
from sample import psycho
f = np.linspace(0, 8000, 257)
s = np.ones((257, 3))
m = [psycho.stft2mel(2 * s, f, n_filters=10, power=p)[0] / psycho.stft2mel(s, f, n_filters=10, power=p)[0] for p in (2, 3)]
assert np.allclose(m, 2), m
''')

seed("c17-empty-filter", "C17",
     "a bandwidth that depends on the frequency more than linearly",
     "all the filters get the bandwidth of the middle one, if the bandwidth function is linear",
     [("sample/psycho.py", "    b = np.array(list(map(bandwidth, flim)))\n",
       "    b = np.interp(flim, flim[::max(1, len(flim) - 1)],\n"
       "                  list(map(bandwidth, flim[::max(1, len(flim) - 1)])))\n")],
     '''
import numpy as np
from sample import psycho
f = np.linspace(0, 8000, 1025)
w, c = psycho.mel_triangular_filterbank(f, flim=np.array([500., 1500, 3000]), bandwidth=lambda v: 100 + v**2 / 9e3)
assert np.allclose(w[1], np.interp(f, [1500 - 350, 1500, 1500 + 350], [0, 1, 0]))
''')

seed("c21-floor-zero", "C21",
     "a floor of zero decibel",
     "a floor of zero is taken for no floor",
     [("sample/utils/dsp.py", "  if floor is None:\n    return a2db.floorless(a, out=out)\n",
       "  if not np.any(floor):\n    return a2db.floorless(a, out=out)\n")],
     """
from sample.utils import dsp
assert dsp.a2db(.5, floor=0, floor_db=True) == 0
""")

seed("c29-floor-zero", "C29",
     "a floor of zero decibel for the plotted magnitudes",
     "with a floor of zero the magnitudes are not converted to decibel",
     [("sample/plots.py", "    if db_floor is not None:\n", "    if db_floor:\n")],
     """
import matplotlib
matplotlib.use("Agg")
import numpy as np
from sample import plots
x = np.zeros(5000)
x[0] = 1
fig, axs = plots.resynthesis(x, {}, fs=8000, db_floor=0)
a = np.concatenate([np.ravel(i.get_array()) for b in axs for i in b.get_images() + list(b.collections)])
assert np.all(a >= 0) and np.isrealobj(a) and np.all(a == 0), a
""")

seed("c26-clip-zero", "C26",
     "a negative value for a setting whose minimum is zero",
     "a bound of zero is not applied",
     [("sample/widgets/settings.py", "    if left is not None:\n      x = max(left, x)\n",
       "    if left:\n      x = max(left, x)\n")],
     """
import sys, types, os
sys.path.insert(0, os.getcwd())
from sample.widgets import settings
assert settings.float_clip(left=0)("-3") == 0
""")

seed("c27-trim-zero", "C27",
     "a sound trimmed from its very beginning, found again at the next start",
     "a saved trim start of zero is taken for a missing one, and the sound is trimmed again",
     [("sample/widgets/audioload.py", "        if self.audio_trim_start is None or self.audio_trim_stop is None:\n",
       "        if not self.audio_trim_start or not self.audio_trim_stop:\n")],
     """
import tempfile, os
import numpy as np
from scipy.io import wavfile
import headless
d = tempfile.mkdtemp()
x = np.zeros(8000)
t = np.arange(4000) / 8000
x[4000:] = np.exp(-9 * t) * np.sin(3000 * t)
p = os.path.join(d, "a.wav")
wavfile.write(p, 8000, x)
with headless.Gui(d, tabs=("load", "settings"), answers={"askopenfilename": p, "askyesno": True}) as g:
  g.load.load_cbk()
  g.load.set_trim(0, start=True)
  g.load.set_trim(3000, start=False)
  a = g.load.audio_trim_start, g.load.audio_trim_stop
  g.settings._settings["gui_theme"].var.set("black")
  g.settings.apply_cbk()
with headless.Gui(d, tabs=("load",)) as g:
  assert (g.load.audio_trim_start, g.load.audio_trim_stop) == a == (0, 3000), (a, g.load.audio_trim_start, g.load.audio_trim_stop)
""")

seed("c32-first-seed", "C32",
     "the row of seed zero, when results are put together",
     "seed zero is taken for a missing result, so its row is not saved",
     [("scripts/beatsdrop/evaluation.py", "  for r in filter(lambda r: r.seed is not None, results):\n",
       "  for r in filter(lambda r: r.seed, results):\n")],
     """
import importlib.util, types, sys
sys.argv = ["x"]
sp = importlib.util.spec_from_file_location("ev", "scripts/beatsdrop/evaluation.py")
ev = importlib.util.module_from_spec(sp)
sp.loader.exec_module(ev)
f = [v for k, v in vars(ev).items() if callable(v) and getattr(v, "__code__", None) and v.__code__.co_varnames[:2] == ("results", "fieldnames")]
assert f
d = f[0]([types.SimpleNamespace(seed=i, a=i) for i in (0, 1)], ("seed", "a"))
assert list(d["seed"]) == [0, 1], d
""")

seed("c33-crop-zero", "C33",
     "a crop that starts at zero, in a sound whose attack comes later",
     "a crop start of zero is taken for no crop start",
     [("scripts/beatsdrop/example.py", "  i0 = None if args.crop_start is None else int(args.crop_start * args.fs)\n",
       "  i0 = int(args.crop_start * args.fs) if args.crop_start else None\n")],
     """
import importlib.util, types, sys, tempfile, os
import numpy as np
sys.argv = ["x"]
sp = importlib.util.spec_from_file_location("ex", "scripts/beatsdrop/example.py")
ex = importlib.util.module_from_spec(sp)
sp.loader.exec_module(ex)
f = [v for k, v in vars(ex).items() if "crop" in k and callable(v)][0]
fs = 8000
x = np.zeros(fs)
t = np.arange(fs // 2) / fs
x[fs // 2:] = np.exp(-9 * t) * np.sin(3000 * t)
with tempfile.TemporaryDirectory() as d:
  a = types.SimpleNamespace(no_crop=False, crop_start=0., crop_end=1., fs=fs, x=x, cropped=os.path.join(d, "c.wav"), input="a.wav")
  assert f(a).x.size == fs, a.x.size
""")
