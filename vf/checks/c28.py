"""C28: GUI analysis never runs twice at once and always ends cleanly"""
import contextlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import tkinter
from unittest import mock

import numpy as np
from scipy.io import wavfile

import sample.sample as smp
from sample.beatsdrop import sample as bds
from vf import headless
from vf.checks import c26, c27
from vf.core import Check

CHECK = Check(
    "C28",
    rule="the real tabs on a Tcl interpreter whose drawing commands are "
    "stand-ins. While analyses of tonal, silent, noisy and very short sounds "
    "run, every refresh of the progress bar lets the user press buttons "
    "(analyse, play, export, load, trim, apply), and errors are injected "
    "before, during and after the fit; monitors count the fits under way, and "
    "compare the outcome with an independent fit of the same segment and "
    "parameters, the plots with it, and the progress with its protocol. The "
    "whole program is run by its launcher with sessions that close, reload, "
    "crash, are killed or fail to start. Non-trivial: every case.",
    require={"analyses": 30, "clicks-during": 60, "dropped-requests": 20,
             "failures": 8, "recovered": 7, "tracks": 30, "no-frames": 3,
             "sessions": 17, "reloads": 5, "crashes": 5, "closes": 2,
             "images": 5, "aftermaths": 60,
             "failed-aftermaths": 15},
    case_timeout=240,
    assumptions=["callbacks of widgets run in the main thread, as Tk "
                 "requires: concurrency is what happens during a refresh"],
)


def tone(rng, n, sr):
  t = np.arange(n) / sr
  x = np.zeros(n)
  for _ in range(int(rng.integers(1, 4))):
    x += np.exp(-t / rng.uniform(.05, .4)) * np.sin(
        2 * np.pi * rng.uniform(200, sr / 5) * t) * rng.uniform(.05, .3)
  return x


def sound(rng, sr):
  k = str(rng.choice(["tone", "tone", "tone", "silence", "noise", "short",
                      "late"]))
  n = int(rng.integers(5000, 12000))
  if k == "silence":
    return k, np.zeros(n)
  if k == "noise":
    return k, rng.uniform(-.1, .1, n // 3)
  if k == "short":
    return k, tone(rng, int(rng.integers(1, 200)), sr)
  if k == "late":
    x = np.zeros(n)
    i = n // 2
    x[i:] = tone(rng, n - i, sr)
    return k, x
  return k, tone(rng, n, sr)


def configure(rng, g, parallel=False):
  """Type settings that make an analysis quick"""
  w = lambda k, v: c26.write_entry(g.settings, k, v)
  n = int(rng.choice([512, 1024]))
  w("sinusoidal__n", str(n))
  w("wsize", str(int(rng.integers(n // 2, n + 1))))
  w("sinusoidal__tracker__h", str(int(rng.choice([128, 256]))))
  w("sinusoidal__tracker__max_n_sines", str(int(rng.integers(3, 12))))
  w("sinusoidal__tracker__min_sine_dur", "0.02")
  w("sinusoidal__tracker__strip_t", str(rng.choice(["0.5", "None"])))
  w("sinusoidal__tracker__reverse", bool(rng.random() < .5))
  w("sinusoidal__padded", bool(rng.random() < .3))
  w("max_n_modes", str(rng.choice(["None", "2"])))
  w("wtype", str(rng.choice(["hann", "blackman", "hamming"])))
  bd = parallel or bool(rng.random() < .2)
  w("beatsdrop", bd)
  w("parallel", parallel)
  w("n_jobs", "2")
  g.settings.apply_cbk()
  return bd


def reference(p, sr, x):
  """An independent fit of a segment with the parameters of the settings"""
  m = bds.SAMPLEBeatsDROP() if p.get("beatsdrop") else smp.SAMPLE()
  ok = m.get_params()
  m.set_params(**{k: v for k, v in p.items()
                  if k in ok and k not in ("beatsdrop", "n_jobs")})
  m.set_params(sinusoidal__tracker__fs=sr)
  return m.fit(np.array(x))


class Watch:
  """Counts fits, presses buttons during refreshes, records the progress"""

  def __init__(self, rng, mon, g, d, actions, fail=None):
    self.rng, self.mon, self.g, self.d = rng, mon, g, d
    self.actions = actions
    self.fail = fail
    self.active = set()
    self.most = 0
    self.fits = 0
    self.progress = []
    self.depth = 0
    self.errors = []
    self.updates = 0
    self.loaded = False

  @contextlib.contextmanager
  def patched(self):
    original = smp.SAMPLE.fit
    watch = self

    def fit(model, *args, **kwargs):
      new = id(model) not in watch.active
      if new:
        watch.active.add(id(model))
        watch.fits += 1
        watch.most = max(watch.most, len(watch.active))
      try:
        if watch.fail == "before":
          raise RuntimeError("injected before the fit")
        r = original(model, *args, **kwargs)
        if watch.fail == "after":
          raise MemoryError("injected after the fit")
        return r
      finally:
        if new:
          watch.active.discard(id(model))

    bar = self.g.analysis.progressbar
    bar.update = self.refresh
    with mock.patch.object(smp.SAMPLE, "fit", fit):
      try:
        yield self
      finally:
        del bar.update

  def refresh(self):
    """The window system handles pending events"""
    bar = self.g.analysis.progressbar
    f = lambda k: float(str(bar.cget(k)) or "nan")
    self.progress.append((f("maximum"), f("value")))
    self.updates += 1
    if self.fail == "during" and self.updates == self.fail_at:
      raise ValueError("injected during the fit")
    if self.depth > 1:
      return
    self.depth += 1
    try:
      for _ in range(int(self.rng.integers(0, 3)) if self.actions else 0):
        self.press(str(self.rng.choice(self.actions)))
    finally:
      self.depth -= 1

  fail_at = 2

  def press(self, a):
    g = self.g
    self.mon.event("clicks-during")
    n, so = self.fits, g.master.sample_object
    t = time.monotonic()
    try:
      if a == "analyse":
        g.analysis.analysis_cbk()
        self.mon.event("dropped-requests")
        self.mon.check("request-dropped", self.fits == n and
                       g.master.sample_object is so, a)
        self.mon.check("request-not-blocking", time.monotonic() - t < 30, a)
      elif a == "play":
        g.analysis.play_cbk(bool(self.rng.random() < .5))()
      elif a == "export":
        g.analysis.export_cbk()
      elif a == "wav":
        g.analysis.wav_export_cbk()
      elif a == "trim":
        g.load.set_trim(int(self.rng.integers(0, 4000)),
                        start=bool(self.rng.random() < .5), update=True,
                        update_vars=True)
        self.loaded = True
      elif a == "apply":
        g.settings.apply_cbk()
      elif a == "load":
        sr = int(self.rng.choice([16000, 22050]))
        f = os.path.join(self.d, "during.wav")
        wavfile.write(f, sr, sound(self.rng, sr)[1].astype(np.float32))
        g.answers["askopenfilename"] = f
        g.load.load_cbk()
        self.loaded = True
    except Exception as e:  # pylint: disable=W0718
      self.errors.append(f"{a}: {type(e).__name__}: {e}")


def check_progress(mon, seq, done, parallel, det):
  """Within a phase the progress grows; a phase starts after a full bar"""
  last = None
  for m, v in seq:
    ok = v >= 0 and (m > 0 or v == 0)
    if not parallel:
      ok = ok and v <= m
    part = v / m if m > 0 else 0
    if last is not None and part < last[2]:
      ok = ok and v == 0 and last[2] >= 1
    mon.check("progress-step", ok, f"{(m, v)} after {last} in {seq} {det}")
    last = (m, v, part)
  if done:
    mon.check("progress-complete", last is not None and last[0] == last[1] and
              last[0] > 0, f"{seq[-3:]} {det}")


def check_plots(mon, g, m, x, sr, resynth, kind, det):
  """What the tab shows belongs to this analysis"""
  ax = g.analysis.ax
  lines = {l.get_label(): l for l in ax[2].get_lines()}
  t = np.arange(x.size) / sr
  for k, y in (("original", x), ("resynthesis", resynth)):
    l = lines.get(k)
    if mon.check("plot-curve", l is not None, f"{k} {list(lines)} {det}"):
      mon.check("plot-curve-data",
                len(l.get_xdata()) == x.size and
                np.allclose(l.get_xdata(), t, 0, 1e-9) and
                np.allclose(l.get_ydata(), y, 0, 1e-12), f"{k} {det}")
  tr = m.sinusoidal.tracks_
  for i, k in ((0, "freq"), (1, "mag")):
    got = ax[i].get_lines()
    mon.check("plot-tracks", len(got) == len(tr) and all(
        np.array_equal(l.get_ydata(), u[k], equal_nan=True) for l, u in zip(got, tr)),
              f"{len(got)} lines of {len(tr)} tracks {k} {det}")
    mon.event("tracks", len(tr))
  im = ax[0].get_images()
  if kind == "late" and im:
    mon.event("images")
    a = np.asarray(im[0].get_array())
    lo, hi = im[0].get_extent()[:2]
    n = a.shape[1]
    e = a.max(axis=0)
    tt = lo + (np.arange(n) + .5) / n * (hi - lo)
    half = x.size / 2 / sr
    w = 1024 / sr
    early, late = e[tt < half - w], e[(tt > half + w) &
                                      (tt < half + x.size / 4 / sr)]
    if early.size and late.size:
      mon.check("image-in-time", early.max() < late.min(),
                f"{early.max()} {late.min()} {det}")
    for l in ax[0].get_lines():
      mon.check("tracks-in-time", np.all(l.get_xdata() > half - w),
                f"{l.get_xdata()[:3]} {det}")
  if im:
    a = np.asarray(im[0].get_array())
    mon.check("image-frequency", np.isclose(im[0].get_extent()[3], sr / 2) and
              im[0].get_extent()[2] == 0 and im[0].origin == "lower", det)


ACTIONS = ("analyse", "analyse", "play", "export", "wav", "apply")


@CHECK.kind("analysis", quick=60, thorough=1200)
def analysis(rng, mon, spec):
  """Analyses with a hurried user"""
  d = tempfile.mkdtemp(prefix="c28-")
  player = c27.Player()
  parallel = spec["i"] % 30 == 7
  try:
    with headless.Gui(d, tabs=("load", "settings", "analysis")) as g, \
        player.patched():
      m = g.master
      mon.case(f"{spec['i']}")
      g.dialogs.clear()
      with mon.no_exception("nothing-loaded"):
        g.analysis.analysis_cbk()
      mon.check("nothing-loaded-reported",
                [n for n, _, _ in g.dialogs] == ["showerror"] and
                m.sample_object is None
                if hasattr(m, "sample_object") else True, f"{g.dialogs}")
      fine = None
      for k in range(1 if parallel else int(rng.integers(2, 4))):
        sr = int(rng.choice([16000, 22050]))
        kind, x = sound(rng, sr)
        if parallel:
          kind, x = "tone", tone(rng, 5000, sr)
        f = os.path.join(d, f"{k}.wav")
        wavfile.write(f, sr, x)
        g.answers["askopenfilename"] = f
        g.load.load_cbk()
        m.audio_trim_start, m.audio_trim_stop = 0, x.size
        if x.size > 3000 and kind != "late":
          g.load.set_trim(int(rng.integers(0, 1000)), start=True)
        bd = configure(rng, g, parallel)
        seg = np.array(m.audio_x[m.audio_trim_start:m.audio_trim_stop])
        p = dict(m.sample_object_kwargs) if hasattr(
            m, "sample_object_kwargs") else dict(
                g.settings.sample_object_kwargs)
        fail = str(rng.choice(["before", "during", "after"])) if (
            rng.random() < .25) else None
        acts = list(ACTIONS)
        if rng.random() < .3:
          acts += ["load", "trim"]
        if rng.random() < .2:
          acts = []
        det = (f"{kind} {seg.size} samples at {sr} fail={fail} "
               f"beats={bd} parallel={parallel} actions={acts}")
        # beat regressions may declare that they cannot start
        ref = None
        try:
          ref = reference(p, sr, seg)
        except ValueError as e:
          if "unfeasible" not in str(e):
            raise
          fail = fail or "declared"
        wt = Watch(rng, mon, g, d, acts, fail)
        g.dialogs.clear()
        with wt.patched():
          with mon.no_exception("analysis", det):
            g.analysis.analysis_cbk()
        mon.event("analyses")
        g.no_errors(mon, det)
        mon.check("click-raised", not wt.errors, f"{wt.errors[:3]} {det}")
        mon.check("one-fit-at-a-time", wt.most <= 1, f"{wt.most} {det}")
        mon.check("one-fit-per-request", wt.fits == 1, f"{wt.fits} {det}")
        mon.check("none-left", not wt.active, det)
        failed = fail is not None
        check_progress(mon, wt.progress, not failed, parallel, det)
        names = [n for n, a, _ in g.dialogs
                 if not (a and a[0] == "Not analyzed")]
        mon.check("failure-reported-once",
                  names.count("showerror") == int(failed),
                  f"{g.dialogs} {det}")
        if failed:
          mon.event("failures")
          # nothing of another analysis is given for this one
          g.dialogs.clear()
          g.answers["asksaveasfilename"] = os.path.join(d, "failed.out")
          with mon.no_exception("after-failure", det):
            g.analysis.wav_export_cbk()
            if fail != "after":
              g.analysis.export_cbk()
          g.answers["asksaveasfilename"] = ""
          if fail != "after":
            mon.check("failed-has-no-result",
                      not os.path.exists(os.path.join(d, "failed.out")),
                      f"{g.dialogs} {det}")
          if os.path.exists(os.path.join(d, "failed.out")):
            os.remove(os.path.join(d, "failed.out"))
          fine = False
          continue
        if fine is False:
          mon.event("recovered")
        fine = True
        if kind == "short":
          mon.event("no-frames")
        so = m.sample_object
        mon.check("result-rate", so.sinusoidal.fs == sr, det)
        mon.close("result", so.param_matrix_, ref.param_matrix_, 1e-6, 1e-9,
                  det)
        if not wt.loaded:
          r = m.audio_resynth_x
          y = np.clip(so.predict(np.arange(seg.size) / sr), -1, 1)
          # phases are random: only what does not depend on them
          mon.check("resynthesis-shape", r is not None and
                    r.shape == seg.shape and np.all(np.abs(r) <= 1), det)
          if kind in ("silence", "short"):
            mon.close("resynthesis", r, y, 1e-6, 1e-9, det)
          check_plots(mon, g, so, seg, sr, r, kind, det)
          if kind != "short" and so.freqs_.size:
            a = np.abs(np.fft.rfft(r))
            b = np.abs(np.fft.rfft(y))
            mon.check("resynthesis-spectrum",
                      np.linalg.norm(a - b) <= .5 * np.linalg.norm(b) + 1e-9,
                      det)
        else:
          n = m.audio_trim_stop - m.audio_trim_start
          mon.check("resynthesis-of-selection", m.audio_resynth_x is None or
                    m.audio_resynth_x.ndim == 1, f"{n} {det}")
        with mon.no_exception("export-after", det):
          g.answers["asksaveasfilename"] = os.path.join(d, "out.json")
          g.analysis.export_cbk()
        g.answers["asksaveasfilename"] = ""
        with open(os.path.join(d, "out.json"), encoding="utf-8") as fh:
          j = json.load(fh)
        mon.check("exported-result", j == json.loads(
            json.dumps(so.sdt_params_())), det)
  finally:
    shutil.rmtree(d)


@CHECK.kind("aftermath", quick=24, thorough=400)
def aftermath(rng, mon, spec):
  """Histories of analyses of one sound, some of which fail, some of which
  cannot be drawn: the resynthesis is that of the last one"""
  d = tempfile.mkdtemp(prefix="c28-")
  player = c27.Player()
  try:
    with headless.Gui(d, tabs=("load", "settings", "analysis")) as g, \
        player.patched():
      m = g.master
      mon.case(f"{spec['i']}")
      sr = 16000
      f = os.path.join(d, "s.wav")
      wavfile.write(f, sr, tone(rng, 6000, sr))
      g.answers["askopenfilename"] = f
      g.load.load_cbk()
      m.audio_trim_start, m.audio_trim_stop = 0, 6000
      past = []
      out = os.path.join(d, "out.wav")
      for _ in range(int(rng.integers(3, 7))):
        configure(rng, g)
        c26.write_entry(g.settings, "beatsdrop", False)
        g.settings.apply_cbk()
        if rng.random() < .3:
          g.load.set_trim(int(rng.integers(0, 2000)), start=True)
        how = str(rng.choice(["fine", "fine", "before", "during", "drawing"]))
        past.append(how)
        det = f"{past}"
        wt = Watch(rng, mon, g, d, (), how)
        g.dialogs.clear()
        draw = g.analysis.plt.canvas.draw
        if how == "drawing":
          g.analysis.plt.canvas.draw = _no_drawing
        try:
          with wt.patched():
            g.analysis.analysis_cbk()
        except ArithmeticError:
          pass
        finally:
          g.analysis.plt.canvas.draw = draw
        mon.event("aftermaths")
        mon.check("runs-after-failure", wt.fits == 1, det)
        if how == "drawing":
          continue
        bad = how != "fine"
        mon.check("failure-reported-once", [n for n, _, _ in g.dialogs].count(
            "showerror") == int(bad), f"{g.dialogs} {det}")
        g.dialogs.clear()
        n = len(player.played)
        g.answers["asksaveasfilename"] = out
        first = rng.random() < .5
        with mon.no_exception("after-analysis", det):
          if first:
            g.analysis.wav_export_cbk()
          g.analysis.play_cbk(False)()
          if not first:
            g.analysis.wav_export_cbk()
        g.answers["asksaveasfilename"] = ""
        x = m.audio_x[m.audio_trim_start:m.audio_trim_stop]
        if bad:
          mon.check("failed-has-no-result", not os.path.exists(out) and
                    len(player.played) == n, det)
          mon.event("failed-aftermaths")
        elif mon.check("resynthesis-given", os.path.exists(out) and
                       len(player.played) == n + 1, det):
          y = np.clip(m.sample_object.predict(np.arange(x.size) / sr), -1, 1)
          for r, v in (wavfile.read(out), c27.decode(player.played[-1])):
            mon.check("resynthesis-rate", r == sr, det)
            v = v / (1 if v.dtype.kind == "f" else np.iinfo(v.dtype).max)
            if mon.check("resynthesis-shape", v.shape == x.shape,
                         f"{v.shape} {det}"):
              p, q = (np.abs(np.fft.rfft(u)) for u in (v, y))
              mon.check("resynthesis-spectrum", np.linalg.norm(p - q) <=
                        .5 * np.linalg.norm(q) + 1e-3, det)
        if os.path.exists(out):
          os.remove(out)
  finally:
    shutil.rmtree(d)


def _no_drawing():
  raise ArithmeticError("injected while drawing")


@CHECK.kind("export-rate", quick=16, thorough=200)
def export_rate(rng, mon, spec):
  """Sounds exported after loading another file are at the declared rate"""
  d = tempfile.mkdtemp(prefix="c28-")
  player = c27.Player()
  try:
    with headless.Gui(d, tabs=("load", "settings", "analysis")) as g, \
        player.patched():
      m = g.master
      configure(rng, g)
      c26.write_entry(g.settings, "beatsdrop", False)
      g.settings.apply_cbk()
      f0 = float(rng.uniform(500, 1500))
      srs = [int(v) for v in rng.permutation([8000, 16000, 32000])[:2]]
      mon.case(f"{spec['i']}")
      for k, sr in enumerate(srs):
        n = sr // 2
        t = np.arange(n) / sr
        f = os.path.join(d, f"{k}.wav")
        wavfile.write(f, sr, .5 * np.exp(-t * 6) * np.sin(2 * np.pi * f0 * t))
        g.answers["askopenfilename"] = f
        with mon.no_exception("load"):
          g.load.load_cbk()
        m.audio_trim_start, m.audio_trim_stop = 0, n
        if k == 0:
          with mon.no_exception("analysis"):
            g.analysis.analysis_cbk()
          mon.event("analyses")
          if not m.sample_object.freqs_.size:
            return
      out = os.path.join(d, "out.wav")
      g.answers["asksaveasfilename"] = out
      with mon.no_exception("export"):
        g.analysis.wav_export_cbk()
      r, y = wavfile.read(out)
      mon.check("exported-rate", r == srs[1], f"{r} {srs}")
      z = np.clip(m.sample_object.predict(np.arange(y.size) / r), -1, 1)
      u, v = (np.abs(np.fft.rfft(w * np.hanning(w.size))) for w in (y, z))
      c = u @ v / max(np.linalg.norm(u) * np.linalg.norm(v), 1e-12)
      mon.check("exported-pitch", c > .6 or not np.any(v > 1e-9),
                f"similarity {c} with the analysed modes "
                f"{m.sample_object.freqs_}: analysed at {srs[0]}, exported at "
                f"{r}")
  finally:
    shutil.rmtree(d)


SCRIPTS = ("close", "reload", "theme", "crash", "exit-code", "kill",
           "broken-start", "close-after-change")


def session(d, script, log):
  """Body of one session of the program, in its own process"""
  roots = None
  with contextlib.ExitStack() as st:
    roots = headless.stub_everything(st)
    import sample.gui
    from sample.widgets import main
    original_launch = session.launch

    def note(**kw):
      with open(log, "a", encoding="utf-8") as f:
        f.write(json.dumps(kw) + "\n")

    def mainloop(self, n=0):
      with contextlib.suppress(tkinter.TclError):
        self.splash_cbk()
      gui = roots[-1]
      with open(log, encoding="utf-8") as f:
        k = sum(json.loads(l)["what"] == "session" for l in f)
      step = script[k] if k < len(script) else "close"
      nb = gui.notebook
      tabs = {type(t).__name__: t for t in gui.tabs}
      x = getattr(nb, "audio_x", None)
      note(what="session", step=step, audio=None if x is None else x.tolist(),
           sr=getattr(nb, "audio_sr", None),
           trim=[int(getattr(nb, a)) if getattr(nb, a, None) is not None
                 else None for a in ("audio_trim_start", "audio_trim_stop")],
           theme=c26.read_entry(tabs["SettingsTab"], "gui_theme"),
           cache=nb.audio_cache_file.exists(), tabs=sorted(tabs))
      if step == "close":
        gui.on_closing()
      elif step == "close-after-change":
        session.answer = False
        c26.write_entry(tabs["SettingsTab"], "gui_theme", "black")
        tabs["SettingsTab"].apply_cbk()
        gui.on_closing()
      elif step == "reload":
        gui.should_reload = True
        gui.on_closing()
      elif step == "theme":
        session.answer = True
        nb.audio_x = np.linspace(-1, 1, 50)
        nb.audio_sr, nb.audio_trim_start, nb.audio_trim_stop = 8000, 5, 40
        now = c26.read_entry(tabs["SettingsTab"], "gui_theme")
        c26.write_entry(tabs["SettingsTab"], "gui_theme",
                        "blue" if now != "blue" else "arc")
        tabs["SettingsTab"].apply_cbk()
        return  # the main loop was quitted
      elif step == "crash":
        raise RuntimeError("injected in the main loop")
      elif step == "exit-code":
        os._exit(3)
      elif step == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
      note(what="survived")
      os._exit(4)

    def launch(args, reload_queue=None):
      with open(log, encoding="utf-8") as f:
        lines = [json.loads(l) for l in f]
      k = sum(l["what"] == "session" for l in lines)
      if len(lines) > 12:
        # the launcher does not stop: make it visible and stop it
        note(what="endless")
        os.kill(os.getppid(), signal.SIGKILL)
        os._exit(5)
      if k < len(script) and script[k] == "broken-start":
        note(what="session", step="broken-start")
        raise RuntimeError("injected at the start")
      return original_launch(args, reload_queue)

    st.enter_context(mock.patch.object(sample.gui, "launch", launch))
    st.enter_context(mock.patch.object(tkinter.Misc, "mainloop", mainloop))
    st.enter_context(mock.patch("tkinter.messagebox.askyesno",
                                lambda *a, **k: session.answer))
    st.enter_context(mock.patch("tkinter.messagebox.showwarning",
                                lambda *a, **k: "ok"))
    # the audio device is closed by stand-ins
    st.enter_context(c27.Player().patched())
    return sample.gui.run("--dir", d, "--splash-time", "0", "--log-level",
                          "CRITICAL")


session.answer = False


@CHECK.kind("launcher", quick=24, thorough=300)
def launcher(rng, mon, spec):
  """The launcher restarts exactly when asked to"""
  import sample.gui
  session.launch = sample.gui.launch
  d = tempfile.mkdtemp(prefix="c28-")
  try:
    script = [str(s) for s in rng.choice(SCRIPTS, int(rng.integers(1, 4)),
                                         p=(.1, .2, .25, .1, .1, .1, .1, .05))]
    log = os.path.join(d, "log")
    open(log, "w", encoding="utf-8").close()
    mon.case(f"{spec['i']}:{script}")
    pid = os.fork()
    if pid == 0:
      code = 9
      try:
        os.setpgid(0, 0)
        signal.alarm(120)
        null = os.open(os.devnull, os.O_RDWR)
        os.dup2(null, 2)
        os.dup2(null, 1)
        code = session(os.path.join(d, "user"), script, log)
      except BaseException:  # pylint: disable=W0718
        with open(os.path.join(d, "error"), "w", encoding="utf-8") as f:
          import traceback
          traceback.print_exc(file=f)
      finally:
        os._exit(code)
    _, st = os.waitpid(pid, 0)
    try:
      os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
      pass
    with open(log, encoding="utf-8") as f:
      lines = [json.loads(l) for l in f]
    err = ""
    if os.path.exists(os.path.join(d, "error")):
      with open(os.path.join(d, "error"), encoding="utf-8") as f:
        err = f.read()[-600:]
    got = [l["step"] for l in lines if l["what"] == "session"]
    # expected sessions
    want = []
    for s in [*script, "close"]:
      want.append(s)
      if s not in ("reload", "theme"):
        break
    mon.event("sessions", len(got))
    for s in want:
      mon.event({"reload": "reloads", "theme": "reloads", "close": "closes",
                 "close-after-change": "closes"}.get(s, "crashes"))
    det = f"{script}: {[{k: v for k, v in l.items() if k != 'audio'} for l in lines][:9]}"
    mon.check("restarts-exactly-when-asked", got == want,
              f"{got[:9]} instead of {want} {det} {err}")
    mon.check("launcher-stops", not any(l["what"] == "endless"
                                        for l in lines) and
              os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0,
              f"status {st} {det} {err}")
    mon.check("closing-ends-the-process",
              not any(l["what"] == "survived" for l in lines), det)
    prev = None
    for l in lines:
      if l["what"] != "session" or "theme" not in l:
        prev = None
        continue
      mon.check("tabs", l["tabs"] == ["AnalysisTab", "AudioLoadTab",
                                      "SettingsTab"], det)
      mon.check("cache-consumed", not l["cache"], det)
      if prev is not None and prev["step"] == "theme":
        mon.check("theme-changed", l["theme"] == (
            "blue" if prev["theme"] != "blue" else "arc"), det)
        mon.check("audio-kept", l["audio"] is not None and np.allclose(
            l["audio"], np.linspace(-1, 1, 50)) and l["sr"] == 8000 and
                  l["trim"] == [5, 40], det)
      else:
        mon.check("fresh-start", l["audio"] is None, det)
      prev = l
  finally:
    shutil.rmtree(d)
