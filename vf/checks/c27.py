"""C27: audio loaded, trimmed and exported in the GUI is preserved"""
import contextlib
import io
import json
import os
import shutil
import struct
import tempfile
import wave
from unittest import mock

import numpy as np
import pygame
from matplotlib import backend_bases
from scipy.io import wavfile

from sample.utils import dsp
from sample.widgets import audio
from vf import headless
from vf.checks import c26
from vf.core import Check

CHECK = Check(
    "C27",
    rule="the real loading tab on a Tcl interpreter whose drawing commands "
    "are stand-ins and a recording pygame: sound files of every supported "
    "sample type and channel count (also silent, empty, without onsets, "
    "damaged) are loaded, trimmed by every route (automatic, typed texts, "
    "mouse events through matplotlib, calls), played, exported, cached and "
    "loaded again. Monitors check the samples, the selection after every "
    "step against a reference, the entries and what is played. Non-trivial: "
    "every case.",
    require={"loaded": 60, "types": 5, "onset-free": 8, "with-onsets": 8,
             "rejected": 8, "typed": 45, "mouse": 30, "mouse-outside": 5,
             "played": 40, "moved": 12, "exported": 10, "cached": 8, "toolbar": 5},
    assumptions=["samples in floating point files are finite",
                 "the sound device is a stand-in that records what it is "
                 "given"],
)


class Player:
  """Records what pygame is asked to play"""

  def __init__(self):
    self.played = []
    self.rates = []
    self.current = None
    self.ready = False

  def init(self, frequency=44100, channels=2, **kw):
    self.ready = True
    self.rates.append((frequency, channels))

  def quit(self):
    self.ready = False
    self.current = None

  def load(self, buf, *a):
    assert self.ready, "mixer not initialised"
    pos = buf.tell()
    self.current = buf.read()
    buf.seek(pos)

  def play(self, *a, **k):
    assert self.current is not None, "nothing loaded"
    self.played.append(self.current)

  def unload(self):
    if not self.ready:
      raise pygame.error("mixer not initialized")

  @contextlib.contextmanager
  def patched(self):
    with contextlib.ExitStack() as st:
      p = lambda o, n, f: st.enter_context(mock.patch.object(o, n, f))
      p(pygame, "init", lambda: None)
      p(pygame, "quit", lambda: None)
      p(pygame.mixer, "init", self.init)
      p(pygame.mixer, "quit", self.quit)
      music = mock.Mock()
      music.load, music.play, music.unload = self.load, self.play, self.unload
      p(pygame.mixer, "music", music)
      yield self


TYPES = ("int16", "int32", "uint8", "float32", "float64", "int24")


def sound(rng, what):
  """Samples in [-1, 1)"""
  n = int(rng.integers(600, 9000))
  if what == "short":
    return rng.uniform(-1, 1, int(rng.integers(1, 300)))
  if what == "silence":
    return np.zeros(n)
  if what == "noise":
    return rng.uniform(-1, 1, n)
  # hits
  n = int(rng.integers(6000, 14000))
  x = rng.uniform(-1, 1, n) * 1e-3
  k = int(rng.integers(1, 4))
  for p in rng.choice(np.arange(1, 8), k, replace=False):
    i = int(p * n / 8)
    t = np.arange(n - i)
    x[i:] += np.exp(-t / 300) * np.sin(t * rng.uniform(.1, 1))
  return x / np.max(np.abs(x)) * float(rng.uniform(.3, .999))


def write(path, x, sr, dtype):
  """Write a (samples, channels) sound, returns what it contains"""
  if dtype == "int24":
    q = np.round(x * (2**23 - 1)).astype(np.int64)
    b = b"".join(struct.pack("<i", int(v))[:3] for v in q.ravel())
    with wave.open(path, "wb") as w:
      w.setnchannels(x.shape[1])
      w.setsampwidth(3)
      w.setframerate(sr)
      w.writeframes(b)
    return q / 2**23
  if dtype.startswith("float"):
    q = x.astype(dtype)
    wavfile.write(path, sr, q if x.shape[1] > 1 else q[:, 0])
    return q.astype(float)
  if dtype == "uint8":
    q = np.clip(np.round(x * 127) + 128, 0, 255).astype(np.uint8)
    wavfile.write(path, sr, q if x.shape[1] > 1 else q[:, 0])
    return (q.astype(float) - 128) / 128
  h = 2**(np.iinfo(dtype).bits - 1)
  q = np.clip(np.round(x * h), -h, h - 1).astype(dtype)
  wavfile.write(path, sr, q if x.shape[1] > 1 else q[:, 0])
  return q.astype(float) / h


def decode(data):
  return wavfile.read(io.BytesIO(data))


def state(g):
  m = g.master
  return tuple(getattr(m, k, None) for k in
               ("audio_x", "audio_sr", "audio_trim_start", "audio_trim_stop"))


def same_state(a, b):
  return all((u is None and v is None) or
             (u is not None and v is not None and np.array_equal(u, v))
             for u, v in zip(a, b))


def invariant(mon, g, det):
  """0 <= start < stop <= size, entries show it. Returns the selection"""
  x, sr, a, b = state(g)
  g.no_errors(mon, det)
  ok = a is not None and b is not None and int(a) == a and int(b) == b and (
      0 <= a < b <= x.size)
  mon.check("selection-inside", ok, f"{a}, {b} of {x.size}: {det}")
  return (int(a), int(b)) if ok else (0, x.size)


def entries_agree(mon, g, det):
  x, sr, a, b = state(g)
  for v, w in ((g.load.trim_start_input_var, a),
               (g.load.trim_stop_input_var, b)):
    t = v.get()
    mon.check("entries-show-selection",
              abs(float(t or "nan") - w / sr) < .5 / sr,
              f"{t} instead of {w / sr} ({w} at {sr}): {det}")


def longest_gap(x):
  """Ends of the longest segments between onsets"""
  on = np.flatnonzero(dsp.onset_detection(x))
  if on.size == 0:
    return None
  on = [*on.tolist(), x.size]
  d = np.diff(on)
  return [(on[i], on[i + 1]) for i in np.flatnonzero(d == d.max())]


def load(rng, mon, g, d, player, det=""):
  """Load a new file through the dialog and check everything"""
  what = str(rng.choice(["hits", "hits", "noise", "silence", "short"]))
  dtype = str(rng.choice(TYPES))
  ch = int(rng.choice([1, 1, 2, 3]))
  sr = int(rng.choice([8000, 11025, 22050, 44100, 48000, 96000, 12345]))
  x = sound(rng, what)
  y = np.stack([x * float(rng.uniform(.2, 1)) for _ in range(ch)], -1)
  path = os.path.join(d, f"s{int(rng.integers(1 << 30))}.wav")
  q = write(path, y, sr, dtype)
  g.answers["askopenfilename"] = path
  det = f"{det} {what} {dtype} {ch} channels {sr} Hz {x.size} samples"
  with mon.no_exception("load", det):
    g.load.load_cbk()
  mon.event("loaded")
  mon.event("types")
  m = g.master
  ok = getattr(m, "audio_x", None) is not None
  mon.require("loaded", ok and not any(n == "showerror"
                                       for n, _, _ in g.dialogs),
              f"{det} {g.dialogs}")
  mon.check("rate", m.audio_sr == sr, f"{m.audio_sr} {det}")
  ax = np.asarray(m.audio_x)
  mon.check("mono", ax.shape == (x.size,), f"{ax.shape} {det}")
  mon.check("floating", np.issubdtype(ax.dtype, np.floating), det)
  if ax.shape == (x.size,):
    mon.close("samples", ax, q.mean(-1), 1e-6, 1e-7, det)
    mon.check("nominal-range", np.all(np.abs(ax) <= 1 + 1e-9), det)
  a, b = invariant(mon, g, det)
  gaps = longest_gap(ax)
  mon.event("onset-free" if gaps is None else "with-onsets")
  mon.check("auto-trim", (a, b) in (gaps or [(0, ax.size)]),
            f"{(a, b)} instead of {gaps}: {det}")
  entries_agree(mon, g, det)
  return det


def play(mon, g, player, det):
  """What is played is the selection"""
  x, sr, a, b = state(g)
  n = len(player.played)
  with mon.no_exception("play", det):
    g.load.play_cbk()
  if mon.check("played-once", len(player.played) == n + 1, det):
    r, y = decode(player.played[-1])
    mon.check("played-rate", r == sr and player.rates[-1][0] == sr,
              f"{r} {player.rates[-1]} {det}")
    mon.check("played-selection",
              y.shape == (b - a,) and np.allclose(y, x[a:b], 0, 1e-4),
              f"{y.shape} {y.dtype} {a}:{b} {det}")
    mon.event("played")


TEXTS = ("", "abc", "nan", "inf", "-inf", "-1", "1e300", "1e308", "0", "-0.0",
         "1e-9", "None", "0,5", " ", "1e400", "-1e308")


def clamp(start, v, a, b, n):
  """Allowed selections after asking for v samples"""
  out = []
  for w in {int(np.floor(min(max(v, -1e9), 1e9))),
            int(np.round(min(max(v, -1e9), 1e9))),
            int(min(max(v, -1e9), 1e9))}:
    if start:
      out.append((min(b - 1, max(0, w)), b))
    else:
      out.append((a, max(a + 1, min(n, w))))
  return out


def toolbar_var(g, name):
  """Name of the Tcl variable of a toggle of the toolbar"""
  return str(g.load.plt.toolbar._buttons[name].cget("variable"))


def pixel(ax, t):
  return ax.transData.transform((t, np.mean(ax.get_ylim())))


def mouse(g, kind, xy):
  """A mouse event on the canvas, as the window system would send it"""
  c = g.load.plt.canvas
  e = backend_bases.MouseEvent(f"button_{kind}_event", c, *xy, button=1)
  c.callbacks.process(e.name, e)
  return e.xdata


@CHECK.kind("trim", quick=48, thorough=900)
def trim(rng, mon, spec):
  """Load sounds and select segments in every way"""
  d = tempfile.mkdtemp(prefix="c27-")
  player = Player()
  try:
    with headless.Gui(d, tabs=("load",)) as g, player.patched():
      g.load.plt.canvas.callbacks.exception_handler = _raise
      for k in range(int(rng.integers(1, 3))):
        g.dialogs.clear()
        det = load(rng, mon, g, d, player)
        mon.case(f"{spec['i']}:{k}")
        if rng.random() < .5:
          play(mon, g, player, det)
        for step in range(int(rng.integers(3, 9))):
          x, sr, _, _ = state(g)
          a, b = invariant(mon, g, det)
          how = str(rng.choice(["typed", "mouse", "call", "exact", "play",
                                "toolbar", "auto"]))
          ds = f"{det} step {step} {how} from {(a, b)}"
          start = bool(rng.random() < .5)
          var = (g.load.trim_start_input_var if start
                 else g.load.trim_stop_input_var)
          if how == "typed":
            t = str(rng.choice(TEXTS)) if rng.random() < .4 else repr(
                float(rng.uniform(-.1, 1.1) * x.size / sr))
            with mon.no_exception("type", f"{t!r} {ds}"):
              var.set(t)
            mon.event("typed")
            got = invariant(mon, g, f"{t!r} {ds}")
            try:
              v = float(t)
            except ValueError:
              v = 0.
            if np.isfinite(v):
              want = clamp(start, v * sr, a, b, x.size)
              mon.check("typed-selection", got in want,
                        f"{t!r} start={start} {got} not in {want}: {ds}")
            else:
              other = got[1] == b if start else got[0] == a
              mon.check("typed-other-side", other, f"{t!r} {got} {ds}")
          elif how == "exact":
            w = int(rng.integers(0, x.size + 1))
            with mon.no_exception("type", f"{w} {ds}"):
              var.set(str(w / sr))
            want = clamp(start, w, a, b, x.size)[-1:]
            got = invariant(mon, g, ds)
            mon.check("typed-to-the-sample", got in want,
                      f"{w} start={start} {got} not in {want}: {ds}")
            mon.event("typed")
          elif how == "call":
            w = int(rng.integers(-5, x.size + 6))
            up = bool(rng.random() < .5)
            with mon.no_exception("set", f"{w} {ds}"):
              g.load.set_trim(w, start=start, samples=True, update=up,
                              update_vars=up)
            got = invariant(mon, g, ds)
            want = clamp(start, w, a, b, x.size)[-1:]
            mon.check("set-selection", got in want,
                      f"{w} start={start} {got} not in {want}: {ds}")
            if up:
              entries_agree(mon, g, f"{w} {ds}")
          elif how == "auto":
            with mon.no_exception("auto", ds):
              g.load.auto_trim()
              g.load.update_plot()
            got = invariant(mon, g, ds)
            gaps = longest_gap(np.asarray(x))
            mon.check("auto-trim", got in (gaps or [(0, x.size)]),
                      f"{got} instead of {gaps}: {ds}")
            entries_agree(mon, g, ds)
          elif how == "play":
            play(mon, g, player, ds)
            mon.check("play-keeps-selection",
                      invariant(mon, g, ds) == (a, b), ds)
            n = min(b - a, x.size - 1)
            if n and rng.random() < .6:
              # Another selection of the same size
              c = int(rng.integers(0, x.size - n + 1))
              with mon.no_exception("set", f"{c} {n} {ds}"):
                g.load.set_trim(0, start=True, samples=True)
                g.load.set_trim(c + n, start=False, samples=True)
                g.load.set_trim(c, start=True, samples=True)
              mon.check("set-selection", invariant(mon, g, ds) == (c, c + n),
                        f"{c} {n} {state(g)[2:]} {ds}")
              play(mon, g, player, f"moved to {c} {ds}")
              mon.event("moved")
          else:
            mouse_step(rng, mon, g, ds, how == "toolbar", (a, b))
  finally:
    shutil.rmtree(d)


def _raise(e):
  raise e


def mouse_step(rng, mon, g, ds, toolbar, old):
  """Press and release, in the axes or outside, with the toolbar or without"""
  x, sr, _, _ = state(g)
  a, b = old
  ax = g.load.ax
  lo, hi = ax.get_xlim()
  on = None
  if toolbar:
    on = toolbar_var(g, str(rng.choice(["Pan", "Zoom"])))
    mon.event("toolbar")
  points = []
  for _ in range(2):
    if rng.random() < .25:
      points.append((-30, -30))
    else:
      points.append(tuple(pixel(ax, float(rng.uniform(lo, hi)))))
  when = int(rng.integers(3))  # toolbar on: both, press only, release only
  sides = []
  det = f"{points} of {lo, hi} toolbar={toolbar}/{when} {ds}"
  with mon.no_exception("mouse", det):
    if toolbar:
      g.root.setvar(on, when != 2)
    p = mouse(g, "press", points[0])
    if toolbar:
      g.root.setvar(on, when != 1)
    r = mouse(g, "release", points[1])
    if toolbar:
      g.root.setvar(on, False)
  mon.event("mouse")
  if p is None or r is None:
    mon.event("mouse-outside")
  got = invariant(mon, g, det)
  want = [(a, b)]
  if not toolbar and p is not None and r is not None:
    w = p * sr
    da, db = abs(w - a), abs(w - b)
    sides = [True] if da < db - 2 else [False] if db < da - 2 else [True,
                                                                     False]
    want = [s for side in sides for s in clamp(side, r * sr, a, b, x.size)]
  mon.check("mouse-selection", got in want,
            f"{got} not in {want}, from {p} to {r}: {det}")
  if want != [(a, b)]:
    entries_agree(mon, g, det)


@CHECK.kind("bad-files", quick=32, thorough=500)
def bad_files(rng, mon, spec):
  """What cannot be loaded changes nothing and is reported"""
  d = tempfile.mkdtemp(prefix="c27-")
  player = Player()
  try:
    with headless.Gui(d, tabs=("load", "analysis")) as g, player.patched():
      with mon.no_exception("nothing-loaded"):
        g.load.play_cbk()
        g.load.set_trim(3, update=True)
        g.load.update_plot()
        g.load.trim_start_input_var.set("0.5")
        g.analysis.play_cbk(True)()
        g.analysis.wav_export_cbk()
        g.analysis.export_cbk()
      mon.check("nothing-played", not player.played)
      for first in (True, False):
        if not first:
          g.dialogs.clear()
          load(rng, mon, g, d, player)
        before = state(g)
        before = (None if before[0] is None else before[0].copy(), *before[1:])
        g.dialogs.clear()
        kind = str(rng.choice(["missing", "text", "truncated", "empty",
                               "no-samples", "cancel", "directory"]))
        path = os.path.join(d, "bad.wav")
        if kind == "text":
          with open(path, "w", encoding="utf-8") as f:
            f.write("not a sound " * 20)
        elif kind == "empty":
          open(path, "wb").close()
        elif kind == "truncated":
          wavfile.write(path, 8000, np.ones(100, np.int16))
          with open(path, "rb") as f:
            data = f.read()
          with open(path, "wb") as f:
            f.write(data[:int(rng.integers(1, 36))])
        elif kind == "no-samples":
          wavfile.write(path, 8000, np.ones(0, np.int16))
        elif kind == "cancel":
          path = ""
        elif kind == "directory":
          path = d
        elif os.path.exists(path):
          os.remove(path)
        g.answers["askopenfilename"] = path
        mon.case(f"{spec['i']}:{first}")
        with mon.no_exception("bad-load", kind):
          g.load.load_cbk()
        mon.event("rejected")
        names = [n for n, _, _ in g.dialogs]
        mon.check("reported", ("showerror" in names) == (kind != "cancel"),
                  f"{kind} {names}")
        mon.check("nothing-changed", same_state(before, state(g)), kind)
        if os.path.isfile(path):
          os.remove(path)
  finally:
    shutil.rmtree(d)


class Model:
  """An analysed model with known resynthesis and parameters"""

  def __init__(self, y, j):
    self.y, self.j = y, j
    self.times = None

  def predict(self, t):
    self.times = t
    return self.y[:t.size].copy()

  def sdt_params_(self):
    return self.j


@CHECK.kind("export", quick=24, thorough=400)
def export(rng, mon, spec):
  """Exported sounds and parameters can be loaded again"""
  d = tempfile.mkdtemp(prefix="c27-")
  player = Player()
  try:
    with headless.Gui(d, tabs=("load", "analysis")) as g, player.patched():
      g.dialogs.clear()
      det = load(rng, mon, g, d, player)
      m = g.master
      x, sr, _, _ = state(g)
      g.load.set_trim(int(rng.integers(0, x.size)), start=True)
      a, b = invariant(mon, g, det)
      mon.case(f"{spec['i']}")
      y = rng.normal(size=x.size) * float(rng.choice([.2, 1, 3]))
      j = {"modes": 2, "é": [1.5, 2e-9], "nested": {"x": [None, True]}}
      m.sample_object = Model(y, j)
      m.audio_resynth_x = None
      out = os.path.join(d, "out.wav")
      g.answers["asksaveasfilename"] = out
      with mon.no_exception("export", det):
        g.analysis.wav_export_cbk()
      mon.event("exported")
      ref = np.clip(y[:b - a], -1, 1)
      t = m.sample_object.times
      mon.check("resynthesis-times", t is not None and t.shape == (b - a,) and
                np.allclose(t, np.arange(b - a) / sr, 0, 1e-9), det)
      r, z = wavfile.read(out)
      mon.check("export-rate", r == sr, det)
      mon.check("export-samples", z.shape == ref.shape and
                np.allclose(z, ref, 0, 1e-6), f"{z.dtype} {det}")
      n = len(player.played)
      with mon.no_exception("play-both", det):
        g.analysis.play_cbk(True)()
        g.analysis.play_cbk(False)()
      if mon.check("both-played", len(player.played) == n + 2, det):
        for got, want in zip(player.played[n:], (x[a:b], ref)):
          r, z = decode(got)
          mon.check("played-right", r == sr and z.shape == want.shape and
                    np.allclose(z, want, 0, 1e-4), det)
        mon.event("played", 2)
      g.answers["asksaveasfilename"] = os.path.join(d, "out.json")
      with mon.no_exception("export-json", det):
        g.analysis.export_cbk()
      with open(os.path.join(d, "out.json"), encoding="utf-8") as f:
        mon.check("json-same", json.load(f) == j, det)
      # cancelled and failed exports
      g.answers["asksaveasfilename"] = ""
      files = sorted(os.listdir(d))
      with mon.no_exception("cancel", det):
        g.analysis.export_cbk()
        g.analysis.wav_export_cbk()
      mon.check("cancel-writes-nothing", sorted(os.listdir(d)) == files, det)
      g.dialogs.clear()
      g.answers["asksaveasfilename"] = os.path.join(d, "nowhere", "x")
      with mon.no_exception("failed-export", det):
        g.analysis.export_cbk()
        g.analysis.wav_export_cbk()
      mon.check("failure-reported", [n for n, _, _ in g.dialogs].count(
          "showerror") == 2 and not any(n == "showinfo"
                                        for n, _, _ in g.dialogs),
                f"{g.dialogs} {det}")
      # the exported sound comes back
      g.answers["askopenfilename"] = out
      g.dialogs.clear()
      with mon.no_exception("reload", det):
        g.load.load_cbk()
      mon.check("reload-accepted", not any(n == "showerror"
                                           for n, _, _ in g.dialogs), det)
      mon.check("reload-same", m.audio_sr == sr and
                m.audio_x.shape == ref.shape and
                np.allclose(m.audio_x, ref, 0, 1e-6), det)
      invariant(mon, g, det)
  finally:
    shutil.rmtree(d)


@CHECK.kind("cache", quick=24, thorough=400)
def cache(rng, mon, spec):
  """Reloading the program keeps the audio and the selection; a damaged
  cache does not keep it from starting"""
  d = tempfile.mkdtemp(prefix="c27-")
  player = Player()
  try:
    with headless.Gui(d, tabs=("load", "settings"),
                      answers={"askyesno": True}) as g, player.patched():
      det = load(rng, mon, g, d, player)
      x, sr, _, _ = state(g)
      for start in (True, False):
        g.load.set_trim([0, int(rng.integers(0, x.size)), x.size][
            rng.choice(3, p=[.5, .5, 0] if start else [0, .5, .5])],
                        start=start, update=True, update_vars=True)
      invariant(mon, g, det)
      before = state(g)
      before = (before[0].copy(), *before[1:])
      c26.write_entry(g.settings, "gui_theme", str(rng.choice(["arc",
                                                                "black"])))
      g.settings.apply_cbk()
      mon.check("reload-asked", g.quits == 1, det)
      mon.check("apply-keeps-audio", same_state(before, state(g)), det)
      c = g.master.audio_cache_file.path
    mon.case(f"{spec['i']}")
    mon.event("cached")
    mon.require("cache-written", os.path.isfile(c), det)
    with mon.no_exception("restart", det):
      with headless.Gui(d, tabs=("load",)) as g:
        mon.check("cache-restored", same_state(before, state(g)),
                  f"{before[1:]} {state(g)[1:]} {det}")
        entries_agree(mon, g, det)
    # damaged
    with open(c, "rb") as f:
      data = f.read()
    how = str(rng.choice(["truncated", "empty", "junk", "zeros"]))
    with open(c, "wb") as f:
      f.write({"truncated": data[:int(rng.integers(1, len(data)))],
               "empty": b"", "junk": bytes(rng.integers(0, 256, 99, np.uint8)),
               "zeros": bytes(50)}[how])
    with mon.no_exception("restart-damaged", f"{how} {det}"):
      with headless.Gui(d, tabs=("load",)) as g:
        mon.check("damaged-ignored", state(g)[0] is None, f"{how} {det}")
  finally:
    shutil.rmtree(d)


@CHECK.kind("temp-audio", quick=60, thorough=800)
def temp_audio(rng, mon, spec):
  """Temporary sounds hold what they were made from and are released"""
  player = Player()
  with player.patched():
    dt = str(rng.choice(["int16", "int32", "uint8", "float32", "float64"]))
    x = rng.uniform(-1, 1, int(rng.integers(1, 500)))
    x = (x if dt.startswith("float") else
         x * 2**(np.iinfo(dt).bits - 1) / 2 +
         (128 if dt == "uint8" else 0)).astype(dt)
    x0 = x.copy()
    sr = int(rng.integers(4000, 96000))
    mon.case(f"{spec['i']}:{dt}")
    with mon.no_exception("temp-audio", dt):
      a = audio.TempAudio(x, sr)
      k = int(rng.integers(1, 4))
      for _ in range(k):
        a.play()
    mon.check("temp-played", len(player.played) == k and
              all(f[0] == sr and f[1] == 1 for f in player.rates),
              f"{player.rates}")
    for p in player.played:
      r, y = decode(p)
      mon.check("temp-same", r == sr and y.dtype == x.dtype and
                np.array_equal(x0, y), dt)
    mon.same("temp-untouched", x, x0)
    buf = a.buf
    del a
    mon.check("temp-released", buf.closed)
