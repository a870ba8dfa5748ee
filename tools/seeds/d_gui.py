"""Bugs in the GUI, the plots, the notebook widgets and the release scripts"""
S = "sample/widgets/settings.py"
A = "sample/widgets/audioload.py"
N = "sample/widgets/analysis.py"
P = "sample/plots.py"
I = "sample/ipython.py"

GUI = '''
import tempfile, os
import numpy as np
from scipy.io import wavfile
import headless
d = tempfile.mkdtemp()
'''

seed("c26-window-size", "C26",
     "a window size larger than the FFT size",
     "the window is computed before its size is limited to the FFT size: what is shown is not what reaches the model",
     [(S, "  wsize = min(wsize, sinusoidal__n)\n", ""),
      (S, '''"wsize": wsize, "wtype": wtype}''', '''"wsize": min(wsize, sinusoidal__n), "wtype": wtype}''')],
     GUI + '''
with headless.Gui(d, tabs=("settings",)) as g:
  g.settings._settings["wsize"].var.set("8192")
  g.settings._settings["sinusoidal__n"].var.set("2048")
  g.settings.apply_cbk()
  kw = g.settings.sample_object_kwargs
  print(len(kw["sinusoidal__w"]))
  assert len(kw["sinusoidal__w"]) <= kw["sinusoidal__n"]
''')

seed("c26-theme-order", "C26",
     "settings applied again with an empty theme after a theme other than the default was saved",
     "the settings are saved before the empty theme is replaced by the current one: the chosen theme is lost",
     [(S, '''    if len(settings["gui_theme"]) == 0:
      settings["gui_theme"] = prev_theme
    logging.debug("Settings: %s", settings)
    if self.settings_file.is_valid():
      self.settings_file.save_json(settings, indent=2)
''', '''    logging.debug("Settings: %s", settings)
    if self.settings_file.is_valid():
      self.settings_file.save_json(settings, indent=2)
    if len(settings["gui_theme"]) == 0:
      settings["gui_theme"] = prev_theme
''')],
     GUI + '''
with headless.Gui(d, tabs=("settings",)) as g:
  s = g.settings._settings
  s["gui_theme"].var.set("equilux"); g.settings.apply_cbk()
  s["gui_theme"].var.set(""); g.settings.apply_cbk()
  from sample.widgets import userfiles
  t = userfiles.UserTtkTheme(g.master.settings_file).get()
  print(t)
  assert t == "equilux"
''')

seed("c26-clip-both", "C26",
     "a value above the upper limit of a setting with both limits",
     "when a setting has a lower limit its upper limit is ignored",
     [(S, '''      x = max(left, x)
    if right is not None:
''', '''      x = max(left, x)
    elif right is not None:
''')],
     GUI + '''
with headless.Gui(d, tabs=("settings",)) as g:
  g.settings._settings["beatsdrop__lpf"].var.set("800")
  g.settings.apply_cbk()
  v = g.settings.sample_object_kwargs["beatsdrop__lpf"]
  print(v)
  assert 2 <= v <= 50
''')

seed("c26-equal-bounds", "C26",
     "equal frequency bounds",
     "equal frequency bounds are shown as their default, but the empty range reaches the model",
     [(S, '''  out_kw = {"sinusoidal__tracker__frequency_bounds": (smfb_0, smfb_1)}
''', '''  out_kw = {"sinusoidal__tracker__frequency_bounds": bounds}
'''), (S, '''  if smfb_0 > smfb_1:
    smfb_0, smfb_1 = (smfb_1, smfb_0)
''', '''  bounds = (min(smfb_0, smfb_1), max(smfb_0, smfb_1))
  if smfb_0 > smfb_1:
    smfb_0, smfb_1 = (smfb_1, smfb_0)
''')],
     GUI + '''
with headless.Gui(d, tabs=("settings",)) as g:
  for k in ("smfb_0", "smfb_1"):
    g.settings._settings[k].var.set("440")
  g.settings.apply_cbk()
  v = g.settings.sample_object_kwargs["sinusoidal__tracker__frequency_bounds"]
  print(v)
  assert v[0] < v[1]
''')

LOAD = GUI + '''
def wav(name, sr, x):
  p = os.path.join(d, name)
  wavfile.write(p, sr, x)
  return p
r = np.random.default_rng(0)
'''

seed("c27-surround", "C27",
     "a file with more than two channels",
     "only the first two channels are mixed to mono",
     [(A, "x = np.mean(x, axis=-1)", "x = np.mean(x[..., :2], axis=-1)")],
     LOAD + '''
x = r.uniform(-.5, .5, (8000, 4))
with headless.Gui(d, tabs=("load",), answers={"askopenfilename": wav("a.wav", 8000, x)}) as g:
  g.load.load_cbk()
  assert np.allclose(g.load.audio_x, x.mean(axis=1))
''')


PLAY = LOAD + '''
from sample.widgets import audio
played = []
audio.TempAudio.play = lambda self: played.append(self.x)
'''

seed("c27-player-reuse", "C27",
     "playing two different selections of the same length",
     "the player of the previous selection is used again when the selection has the same length",
     [(A, '''      self._tmp_audio = audio.TempAudio(
          self.audio_x[self.audio_trim_start:self.audio_trim_stop],
          self.audio_sr)
''', '''      x = self.audio_x[self.audio_trim_start:self.audio_trim_stop]
      if self._tmp_audio is None or self._tmp_audio.sr != self.audio_sr or \\
            self._tmp_audio.x.size != x.size:
        self._tmp_audio = audio.TempAudio(x, self.audio_sr)
''')],
     PLAY + '''
x = r.uniform(-.5, .5, 8000)
with headless.Gui(d, tabs=("load",), answers={"askopenfilename": wav("a.wav", 8000, x)}) as g:
  g.load.load_cbk()
  for a in (0, 1000):
    g.load.set_trim(0, start=True)
    g.load.set_trim(a + 1000, start=False); g.load.set_trim(a, start=True)
    g.load.play_cbk()
  assert np.allclose(played[0], x[:1000]) and np.allclose(played[1], x[1000:2000])
''')

seed("c27-last-sample", "C27",
     "a sound without onsets, or whose last segment is the longest",
     "the automatic selection leaves out the last sample of the sound",
     [(A, "onsets = np.array([*onsets, self.audio_x.size])", "onsets = np.array([*onsets, self.audio_x.size - 1])")],
     LOAD + '''
with headless.Gui(d, tabs=("load",), answers={"askopenfilename": wav("a.wav", 8000, np.zeros(8000))}) as g:
  g.load.load_cbk()
  assert (g.load.audio_trim_start, g.load.audio_trim_stop) == (0, 8000)
''')

FIT = LOAD + '''
from sample.widgets import audio
def tone(f, sr=8000, n=8000):
  t = np.arange(n) / sr
  return .5 * np.sin(2 * np.pi * f * t) * np.exp(-3 * t)
FAST = {"sinusoidal__n": "512", "wsize": "512", "sinusoidal__tracker__h": "128", "sinusoidal__tracker__max_n_sines": "4"}
def go(g, files):
  g.answers["askopenfilename"] = files
  g.load.load_cbk()
  g.load.set_trim(0, start=True); g.load.set_trim(10**9, start=False)
'''

seed("c28-stale-resynthesis", "C28",
     "an analysis that fails after one that succeeded",
     "after a failed analysis the resynthesis of the previous one is still played and exported",
     [(N, '''        self.sample_object.fit(x, **fit_kwargs)
''', '''        self.sample_object.fit(x, **fit_kwargs)
        self.audio_resynth_x = None
'''), (N, '''      finally:
        self.audio_resynth_x = None
        self.update_plot()
''', '''      finally:
        self.update_plot()
''')],
     FIT + '''
from sample.widgets import sample as ws
with headless.Gui(d, tabs=("load", "settings", "analysis")) as g:
  for k, v in FAST.items(): g.settings._settings[k].var.set(v)
  g.settings.apply_cbk()
  go(g, wav("a.wav", 8000, tone(440)))
  g.analysis.analysis_cbk()
  assert g.analysis._get_audio(True) is not None
  def fail(*a, **k): raise RuntimeError("x")
  ws.sample_factory = fail
  g.analysis.analysis_cbk()
  assert g.analysis._get_audio(True) is None
''')

seed("c28-model-rate", "C28",
     "a resynthesis requested after loading audio at a sampling rate other than that of the analysed one",
     "the resynthesis is computed at the rate of the model but used at the rate of the loaded audio",
     [(N, '''            self.sample_object.predict(np.arange(x.size) / self.audio_sr,), -1,
''', '''            self.sample_object.predict(
                np.arange(x.size) / self.sample_object.sinusoidal.fs,), -1,
''')],
     FIT + '''
with headless.Gui(d, tabs=("load", "settings", "analysis")) as g:
  for k, v in FAST.items(): g.settings._settings[k].var.set(v)
  g.settings.apply_cbk()
  go(g, wav("a.wav", 8000, tone(440)))
  g.analysis.analysis_cbk()
  go(g, wav("b.wav", 16000, tone(440, 16000)))
  y = g.analysis._get_audio(True)
  f = np.argmax(np.abs(np.fft.rfft(y, 16000)))
  print(f)
  assert abs(f - 440) < 10
''')


seed("c28-error-lock", "C28",
     "an analysis interrupted by an error of the window itself, such as a failure while drawing",
     "the lock of the analysis is not released when an error escapes, so that no analysis can start any longer",
     [(N, '''  owned = False
  try:
    owned = lock.acquire(blocking=False)
    yield owned
  finally:
    if owned:
      lock.release()
''', '''  owned = lock.acquire(blocking=False)
  yield owned
  if owned:
    lock.release()
''')],
     FIT + '''
with headless.Gui(d, tabs=("load", "settings", "analysis")) as g:
  for k, v in FAST.items(): g.settings._settings[k].var.set(v)
  g.settings.apply_cbk()
  go(g, wav("a.wav", 8000, tone(440)))
  draw = g.analysis.plt.canvas.draw
  def fail(): raise RuntimeError("drawing")
  g.analysis.plt.canvas.draw = fail
  try: g.analysis.analysis_cbk()
  except RuntimeError: pass
  g.analysis.plt.canvas.draw = draw
  g.analysis.sample_object = None
  g.analysis.analysis_cbk()
  assert g.analysis.sample_object is not None
''')

seed("c28-progress-origin", "C28",
     "an analysis with BeatsDROP disabled or enabled, with more than one phase",
     "the count of a phase of the progress bar goes on from that of the previous phase",
     [("sample/widgets/sample.py", '''      self._current_progress = value
      if self.progressbar is not None:
        self.progressbar["maximum"]''', '''      self._current_progress = max(value, self._current_progress)
      if self.progressbar is not None:
        self.progressbar["maximum"]''')],
     FIT + '''
from sample.widgets import sample as ws
class Bar(dict):
  v = 0
  def config(self, value=None, maximum=None):
    if maximum is not None: self["maximum"] = maximum
    if value is not None:
      self.v = value
      assert maximum is not None or value <= self["maximum"], (value, self["maximum"])
  def update(self): pass
a = ws._GUIFitArgs(progressbar=Bar())
a._progress_update_inner = lambda value: a.progressbar.config(value=value)
a.progress_start(10)
for _ in range(10): a.progress_update()
a.progress_stop()
a.progress_start(3)
for _ in range(3): a.progress_update()
a.progress_stop()
''')

PLOT = '''
import numpy as np, warnings
warnings.simplefilter("ignore")
from matplotlib.figure import Figure
from sample import plots
from sample.sample import SAMPLE
'''

seed("c29-rate-min", "C29",
     "a comparison of models with different sampling rates and no rate given",
     "the lowest rate of the models is used in place of the highest",
     [(P, "    fs = max((m.sinusoidal.fs for m in models.values()), default=44100)",
       "    fs = min((m.sinusoidal.fs for m in models.values()), default=44100)")],
     PLOT + '''
ms = {}
for k, fs in (("a", 8000), ("b", 16000)):
  m = SAMPLE(); m.set_params(sinusoidal__tracker__fs=fs)
  m.param_matrix_ = np.array([[400.], [1.], [.5]])
  ms[k] = m
x = np.sin(np.arange(16000))
f, axs = plots.resynthesis(x, ms, fig=Figure())
t = axs[0].lines[0].get_xdata()
assert abs(t[1] - 1 / 16000) < 1e-9
''')

seed("c29-extent-limits", "C29",
     "a time-frequency plot with axes limits different from those of the data",
     "the image is stretched to the limits of the plot",
     [(P, "            extent=(*tlim, *flim),", "            extent=(*xlim, *ylim),")],
     PLOT + '''
ax = Figure().add_subplot()
plots.tf_plot(np.eye(4), tlim=(0, 2), flim=(0, 100), xlim=(0, 1), ylim=(10, 50), ax=ax)
assert tuple(ax.images[0].get_extent()) == (0, 2, 0, 100)
''')

COMP = PLOT + '''
from sample.beatsdrop.regression import BeatRegression
t = np.arange(16000) / 8000
x = (np.sin(2*np.pi*400*t) + .8*np.sin(2*np.pi*404*t)) * np.exp(-1.5*t) / 2
m = SAMPLE()
m.set_params(sinusoidal__tracker__fs=8000, sinusoidal__n=1024, sinusoidal__w=np.hanning(1024), sinusoidal__tracker__h=128,
             sinusoidal__tracker__min_sine_dur=.1, sinusoidal__tracker__max_n_sines=2)
m.fit(x)
i = int(np.argmax([k["mag"].size for k in m.sinusoidal.tracks_]))
'''

seed("c29-floor-alias", "C29",
     "a comparison of beats with amplitudes below -60 dB",
     "values below the floor of the decibel plot are also removed from the amplitude plot",
     [(P, "      a_ = np.copy(a)\n", "      a_ = np.asarray(a)\n")],
     COMP + '''
x2 = x.copy()
for k in m.sinusoidal.tracks_: k["mag"] = k["mag"] - 45
f, axs = plots.beatsdrop_comparison(m, {"b": BeatRegression()}, x, track_i=i, fig=Figure())
for l in axs[0][0].lines[1:]:
  assert np.isfinite(l.get_ydata()).all(), l.get_label()
''')

seed("c29-hilbert-step", "C29",
     "a comparison of beats with a subsampled envelope",
     "the envelope is computed from the subsampled signal in place of subsampling the envelope",
     [(P, '''      x_a = signal.hilbert(x)
      x_env = np.abs(x_a[i_env])
''', '''      x_a = signal.hilbert(x[i_env])
      x_env = np.abs(x_a)
''')],
     COMP + '''
from scipy import signal
f, axs = plots.beatsdrop_comparison(m, {"b": BeatRegression()}, x, track_i=i, fig=Figure(), signal_hilbert_am=50)
v = axs[0][0].collections[0].get_paths()[0].vertices
e = np.abs(signal.hilbert(x))
print(v[:, 1].max(), e[::50].max())
assert abs(v[:, 1].max() - e[::50].max()) < 1e-6
''')

seed("c30-prefix-name", "C30",
     "a model with a parameter whose name begins the name of another",
     "the documentation of a parameter is shown also for parameters whose name is a prefix of its own",
     [(I, '''      rk = re.compile("^" + k + r"\\W")
''', '''      rk = re.compile("^" + k)
''')],
     '''
from sklearn import base
from sample import ipython
class M(base.BaseEstimator):
  """A model

  Args:
    f (float): The first
    fs (float): The second"""
  def __init__(self, f=1, fs=2):
    self.f = f
    self.fs = fs
h = ipython.CollapsibleModelParams(M()).data
assert h.count("The second") == 1, h.count("The second")
''')

seed("c30-clip-normalised", "C30",
     "a list of players with normalisation of a sound beyond full scale",
     "sounds are clipped also when they are to be normalised",
     [(I, '''    if not self._audio_kws["normalize"]:
      y = np.clip(y, -1, 1)
''', '''    y = np.clip(y, -1, 1)
''')],
     '''
import io, numpy as np
from unittest import mock
from IPython import display as ipd
from sample import ipython
from scipy.io import wavfile
out = []
with mock.patch.object(ipython.ipd, "display", lambda *a, **k: out.extend(a)):
  y = 4 * np.sin(np.arange(8000) * .05)
  ipython.LabelAndPlayForeach(audio_kws={"rate": 8000, "normalize": True})(0, "a", y)
a = [o for o in out if isinstance(o, ipd.Audio)][0]
_, w = wavfile.read(io.BytesIO(a.data))
assert np.abs(w / 32767 - y / np.abs(y).max()).max() < 1e-3
''')

seed("c30-options-shared", "C30",
     "the same audio options given to a list of players and used elsewhere",
     "the options given by the caller are modified",
     [(I, "    self._audio_kws = utils.default_kws(audio_kws)\n", "    self._audio_kws = {} if audio_kws is None else audio_kws\n")],
     '''
from sample import ipython
kw = {"rate": 8000}
ipython.LabelAndPlayForeach(audio_kws=kw)
assert kw == {"rate": 8000}, kw
''')

seed("c30-nested-section", "C30",
     "a model whose parameter documentation spans several lines with deeper indentation that decreases",
     "a continuation line less indented than the previous one begins a new entry, so that the text of the parameter is cut",
     [(I, '''      if current_indent <= indent:
        indent = current_indent
        if s:
''', '''      if current_indent <= indent:
        if s:
'''), (I, '''      s.append(d)
    docs_.append(s)
''', '''      indent = current_indent
      s.append(d)
    docs_.append(s)
''')],
     '''
from sklearn import base
from sample import ipython
class M(base.BaseEstimator):
  """A model

  Args:
    f (float): The first
      of many
      lines"""
  def __init__(self, f=1):
    self.f = f
h = ipython.CollapsibleModelParams(M()).data
assert "f (float): The first of many lines" in h
''')

SCR = '''
import os, subprocess, sys, tempfile, json
d = tempfile.mkdtemp()
def run(script, *args, ok=True):
  p = subprocess.run([sys.executable, f"scripts/utils/{script}.py", *args], stdout=subprocess.PIPE, text=True)
  assert p.returncode == 0 or not ok
  return p.stdout
'''

seed("c31-prefix-version", "C31",
     "a version number that begins another one",
     "versions are compared only up to the shorter number, so that the order of a version and of its revisions is that of the directory",
     [("scripts/utils/make_changelog.py", '''    if j is None:
      return 1
''', '''    if j is None:
      return 0
'''), ("scripts/utils/make_changelog.py", '''    if i is None:
      return -1
''', '''    if i is None:
      return 0
''')],
     SCR + '''
i = os.path.join(d, "in"); os.mkdir(i)
import itertools
sys.path.insert(0, "scripts/utils")
from unittest import mock
import make_changelog
for o in itertools.permutations(["v1_2.md", "v1_2_1.md", "v1_2_1_3.md"]):
  out = os.path.join(d, "o.rst")
  with mock.patch.object(os, "listdir", lambda p: list(o)):
    make_changelog.main("-I", i, "-O", out)
  l = [os.path.basename(r) for r in open(out).read().splitlines() if "mdinclude" in r]
  assert l == ["v1_2_1_3.md", "v1_2_1.md", "v1_2.md"], (o, l)
''')

seed("c31-tab-magic", "C31",
     "a magic or shell line indented with tabs",
     "the indentation of magics is recognised only if made of spaces, so that an escaped line remains in the notebook",
     [("scripts/utils/yapf_nbformat.py", '''  indent = "".join(itertools.takewhile(lambda c: c.isspace(), s))
''', '''  indent = "".join(itertools.takewhile(lambda c: c == " ", s))
''')],
     SCR + '''
p = os.path.join(d, "a.ipynb")
src = "if  True:\\n\\t!ls"
json.dump({"cells": [{"cell_type": "code", "execution_count": None, "metadata": {}, "outputs": [], "source": src}],
           "metadata": {}, "nbformat": 4, "nbformat_minor": 4}, open(p, "w"))
run("yapf_nbformat", p, "--style", "google")
c = "".join(json.load(open(p))["cells"][0]["source"])
print(c)
assert "escaped" not in c and "pass" not in c and "!ls" in c
''')

seed("c31-ignore-prefix", "C31",
     "a cell whose first line has code before the mark that asks to be ignored",
     "only cells that begin with the mark are ignored",
     [("scripts/utils/yapf_nbformat.py", '''      lambda c: "# yapf: ignore" not in c[1]["source"].split("\\n", 1)[0], cells)
''', '''      lambda c: not c[1]["source"].startswith("# yapf: ignore"), cells)
''')],
     SCR + '''
p = os.path.join(d, "a.ipynb")
src = "x = [1,\\n  2]"
src = "x  =  1  # yapf: ignore\\ny  =  2"
json.dump({"cells": [{"cell_type": "code", "execution_count": None, "metadata": {}, "outputs": [], "source": src}],
           "metadata": {}, "nbformat": 4, "nbformat_minor": 4}, open(p, "w"))
run("yapf_nbformat", p, "--style", "google")
c = "".join(json.load(open(p))["cells"][0]["source"])
assert c == src, c
''')

seed("c31-blank-lines", "C31",
     "a changelog with lines made only of white space, written to a file",
     "lines made of white space lose it when extracted to a file",
     [("scripts/utils/extract_changelog.py", "            fout.write(r)\n",
       "            fout.write(r if r.strip() else \"\\n\")\n")],
     SCR + '''
open(os.path.join(d, "v1_0.md"), "w").write("# T\\n\\n    code\\n    \\n    more\\n")
o = os.path.join(d, "o")
run("extract_changelog", "--version", "1.0", "--dir", d, "--output", o)
assert open(o).read() == "\\n    code\\n    \\n    more\\n"
''')
