"""C29: plots show the data they are given"""
import copy
import warnings

import matplotlib
import numpy as np
from matplotlib import figure as mfigure
from matplotlib import pyplot as plt
from scipy import signal
from sklearn import base

from sample import sample as sample_mod
from sample.beatsdrop import regression
from sample.beatsdrop import sample as bsample
from sample.sms import mm, sm
from vf import audio, beats
from vf.core import Check

matplotlib.use("Agg")

CHECK = Check(
    "C29",
    rule="random models (fitted on sounds and hand-made, with gaps, no "
    "tracks, one track, reversed), signals, matrices and options are plotted, "
    "on given and on new axes; the artists found on the axes afterwards are "
    "compared with the data computed independently, and the model and data "
    "with their copies. Non-trivial: something is drawn.",
    require={"tracks": 700, "gaps": 100, "reversed": 100, "3d": 100,
             "beats": 40, "no-tracks": 20, "one-track": 20, "images": 316,
             "waves": 236, "given-axes": 150, "comparisons": 60,
             "single-comparison": 15, "transposed": 15, "hilbert": 25},
    assumptions=["the artists held by the axes are what the user sees (the "
                 "rasterisation is matplotlib's)"],
)
EPS = dict(rtol=1e-9, atol=1e-9)


def close_all():
  plt.close("all")


def pick_axes(rng, r, c, projection=None):
  """Axes of a new figure, as an array, with something drawn on them"""
  fig = plt.figure()
  axs = fig.subplots(r, c, squeeze=False,
                     subplot_kw={"projection": projection})
  decoy = plt.figure()
  decoy.gca()
  return fig, axs, decoy


def hand_model(rng):
  """Sinusoidal model with hand-made tracks"""
  fs = float(rng.choice([1000, 8000, 44100, 22050.5]))
  h = int(rng.choice([16, 100, 500]))
  n = 256
  reverse = bool(rng.random() < .4)
  if rng.random() < .7:
    m = mm.ModalModel(n=n, w=np.hanning(n), tracker__h=h, tracker__fs=fs,
                      tracker__reverse=reverse)
  else:
    m = sm.SinusoidalModel(n=n, w=np.hanning(n), tracker__h=h, tracker__fs=fs)
    reverse = False
  k = int(rng.choice([0, 1, 1, 2, 3, 6]))
  m.tracker.reset()
  tr = []
  for _ in range(k):
    z = int(rng.integers(1, 40))
    f = rng.uniform(0, fs / 2, z)
    a = rng.uniform(-120, 20, z)
    if rng.random() < .5:
      gap = rng.random(z) < .3
      f[gap] = np.nan
      a[gap] = np.nan
    tr.append({"start_frame": int(rng.integers(0, 50)), "freq": f, "mag": a,
               "phase": rng.uniform(-3, 3, z)})
  m.tracker.tracks_ = tr
  return m, m, tr, [False] * k, reverse, None


def fitted(rng, save=None, beat=None):
  fs = float(rng.choice([4000, 8000]))
  n = int(rng.integers(1200, 5000))
  x = beats.sound(rng, fs, n)
  cfg = beats.config(rng, fs)
  cfg["sinusoidal__intermediate__save"] = bool(
      rng.random() < .5) if save is None else save
  beat = bool(rng.random() < .6) if beat is None else beat
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    if beat:
      store = bool(rng.random() < .7)
      s = bsample.SAMPLEBeatsDROP(
          beatsdrop=beats.StubBeat(),
          beat_decisor=beats.Odd() if rng.random() < .7 else beats.Always(),
          **cfg)
      s.set_params(beat_decisor__intermediate__save=store)
    else:
      store = False
      s = sample_mod.SAMPLE(**cfg)
    s.fit(x)
  tr = list(s.sinusoidal.tracks_)
  dec = [False] * len(tr)
  if store:
    dec = [isinstance(s.beat_decisor, beats.Always) or i % 2 == 1
           for i in range(len(tr))]
  if beat and rng.random() < .4:
    # as when the fits of the last tracks gave no valid modes
    k = int(rng.integers(0, len(tr) + 1))
    s.param_matrix_ = s.param_matrix_[:, :k]
  return s, tr, dec, x


def snapshot(m):
  return copy.deepcopy(m)


def same_tracks(mon, det, a, b):
  mon.check("model-untouched", len(a) == len(b), det)
  for t, u in zip(a, b):
    for k in u:
      mon.same("model-untouched", t[k], u[k], det)


@CHECK.kind("tracking", quick=500, thorough=4000)
def tracking(rng, mon, spec):
  try:
    if rng.random() < .6:
      s, m, tr, dec, reverse, x = hand_model(rng)
      pick = None
    else:
      s, tr, dec, x = fitted(rng)
      m = s.sinusoidal
      reverse = bool(m.tracker.reverse)
      pick = s
      if rng.random() < .3:
        s = m
        dec = [False] * len(tr)
    tr = copy.deepcopy(tr)
    if pick is not None:
      p0 = np.array(pick.param_matrix_)
    three = bool(rng.random() < .4)
    given = bool(rng.random() < .5)
    style = {} if three or rng.random() < .6 else {"alpha": .5, "c": "C3"}
    det = (f"{type(s).__name__} {len(tr)} tracks reverse={reverse} "
           f"3d={three} given={given}")
    mon.case((det, rng.integers(1 << 30)), nontrivial=bool(tr))
    import sample.plots as plots  # pylint: disable=C0415
    old = 0
    if given:
      fig, axs, decoy = pick_axes(rng, 1, 1 if three else 2,
                                  "3d" if three else None)
      axs = axs[0]
      nfig = len(plt.get_fignums())
      if rng.random() < .5:
        old = 1
        for a in axs:
          a.plot([0, 1], [0, 1])
      arg = axs[0] if three else (axs if rng.random() < .5 else list(axs))
    with mon.no_exception("plots", det):
      if three:
        out = plots.sine_tracking_3d(s, **({"ax": arg} if given else {}))
      else:
        out = plots.sine_tracking_2d(s, **({"ax": arg} if given else {}),
                                     **style)
    outs = [out] if three else list(out)
    if given:
      mon.event("given-axes")
      mon.check("on-given-axes", all(o is a for o, a in zip(outs, axs)), det)
      mon.check("no-other-figure",
                len(plt.get_fignums()) == nfig and
                len(decoy.axes) == 1 and not decoy.axes[0].lines and
                len(fig.axes) == len(outs), det)
    for o in outs:
      mon.require("one-curve-per-track", len(o.lines) == old + len(tr),
                  lambda: f"{det} {len(o.lines)} curves")
    step = m.h / m.fs
    shift = None
    for i, t in enumerate(tr):
      mon.event("tracks")
      base_t = (t["start_frame"] + np.arange(t["freq"].size)) * step
      d = f"{det} track {i}"
      if np.isnan(t["freq"]).any():
        mon.event("gaps")
      if three:
        mon.event("3d")
        xt, yf, zm = outs[0].lines[old + i].get_data_3d()
        xt2 = xt
        ls = [outs[0].lines[old + i].get_linestyle()]
      else:
        l0, l1 = (o.lines[old + i] for o in outs)
        xt, yf = l0.get_data(orig=True)
        xt2, zm = l1.get_data(orig=True)
        ls = [l0.get_linestyle(), l1.get_linestyle()]
        if style:
          mon.check("style", l0.get_alpha() == .5 and l0.get_color() == "C3" and
                    l1.get_alpha() == .5 and l1.get_color() == "C3", d)
      xt, xt2, yf, zm = map(np.asarray, (xt, xt2, yf, zm))
      mon.same("frequency-curve", np.ma.filled(yf, np.nan), t["freq"], d)
      mon.same("magnitude-curve", np.ma.filled(zm, np.nan), t["mag"], d)
      mon.same("one-time-axis", xt, xt2, d)
      if dec[i]:
        mon.event("beats")
      mon.check("beats-dashed", all(l == ("--" if dec[i] else "-")
                                    for l in ls), lambda: f"{d} {ls}")
      if reverse:
        mon.event("reversed")
        mon.require("time-axis", xt.shape == base_t.shape, d)
        tot = xt + base_t
        if shift is None:
          shift = tot[0]
        mon.close("reversed-time-axis", tot, np.full(xt.shape, shift),
                  detail=d, **EPS)
        mon.check("reversed-range", np.min(xt) >= -EPS["atol"],
                  lambda: f"{d} {np.min(xt)}")
        if x is not None:
          dur = len(x) / m.fs
          slack = (m.w.size + 2 * m.h) / m.fs
          mon.check("reversed-range", np.max(xt) <= dur + slack,
                    lambda: f"{d} {np.max(xt)} of {dur}")
          if m.intermediate.save:
            mon.check("reversed-origin", abs(shift - dur) <= slack,
                      lambda: f"{d} {shift} {dur}")
      else:
        mon.close("time-axis", xt, base_t, detail=d, **EPS)
    if not tr:
      mon.event("no-tracks")
    if len(tr) == 1:
      mon.event("one-track")
    o = outs[0]
    lab = [o.get_xlabel(), o.get_ylabel(), o.get_zlabel()] if three else [
        outs[0].get_xlabel(), outs[0].get_ylabel(), outs[1].get_ylabel(),
        outs[1].get_xlabel()]
    want = ("(s)", "Hz", "dB", "(s)")
    mon.check("units", all(w in l for w, l in zip(want, lab)),
              lambda: f"{det} {lab}")
    same_tracks(mon, det, m.tracks_, tr)
    if pick is not None:
      mon.same("model-untouched", pick.param_matrix_, p0, det)
  finally:
    close_all()


def image(mon, det, ax, data, tlim, flim, n_old=0, tol=None):
  mon.event("images")
  if not mon.check("one-image", len(ax.images) == n_old + 1, det):
    return None
  im = ax.images[-1]
  got = np.ma.filled(im.get_array(), np.nan)
  if tol is None:
    mon.same("image-data", got, data, det)
  else:
    mon.close("image-data", got, data, detail=det, **tol)
  mon.close("image-extent", im.get_extent(), (*tlim, *flim), detail=det, **EPS)
  mon.check("image-orientation", im.origin == "lower", det)
  return im


@CHECK.kind("tf", quick=160, thorough=4000)
def tf(rng, mon, spec):
  import sample.plots as plots  # pylint: disable=C0415
  try:
    shape = tuple(rng.integers(1, 30, 2))
    z = rng.normal(size=shape) * 10**rng.uniform(-3, 3)
    kw = {}
    if rng.random() < .2:
      z = (100 * z).astype(int)
    elif rng.random() < .2:
      z[rng.random(shape) < .2] = np.nan

    def lim():
      a = rng.uniform(-1, 1) * 10**rng.uniform(-2, 4)
      return a, a + 10**rng.uniform(-2, 4)

    for k in ("tlim", "flim", "xlim", "ylim"):
      if rng.random() < .6:
        kw[k] = lim()
        if rng.random() < .3:
          kw[k] = np.array(kw[k])
    if rng.random() < .5:
      kw["aspect_ratio"] = float(rng.uniform(.3, 4))
    if rng.random() < .5:
      kw["width"] = float(rng.uniform(1, 12))
    if rng.random() < .4:
      kw["cmap"] = "gray"
    if rng.random() < .3:
      kw["vmin"], kw["vmax"] = -1., 2.
    given = bool(rng.random() < .6)
    det = f"{shape} {kw} given={given}"
    mon.case((shape, sorted(kw), given, float(rng.random())))
    fig = plt.figure(figsize=(3, 5))
    ax = fig.gca()
    if given:
      mon.event("given-axes")
      decoy = plt.figure()
      decoy.gca()
    cur = plt.get_fignums()
    with mon.frozen("data-untouched", z, detail=det):
      with mon.no_exception("plots", det):
        with warnings.catch_warnings():
          warnings.simplefilter("ignore")
          out = plots.tf_plot(z, **({"ax": ax} if given else {}), **kw)
    mon.check("on-given-axes", out is ax, det)
    mon.check("no-other-figure", plt.get_fignums() == cur and
              (not given or not decoy.axes[0].images), det)
    t, f = kw.get("tlim", (0, 1)), kw.get("flim", (0, 1))
    im = image(mon, det, ax, z, t, f)
    if im is None:
      return
    xl, yl = kw.get("xlim", t), kw.get("ylim", f)
    mon.close("plot-limits", ax.get_xlim(), xl, detail=det, **EPS)
    mon.close("plot-limits", ax.get_ylim(), yl, detail=det, **EPS)
    ar = kw.get("aspect_ratio", 4 / 3)
    asp = float(np.squeeze(ax.get_aspect()))
    mon.close("aspect", (xl[1] - xl[0]) / (asp * (yl[1] - yl[0])), ar,
              rtol=1e-6, atol=0, detail=det)
    if given:
      mon.close("size-untouched", fig.get_size_inches(), (3, 5), detail=det,
                **EPS)
    else:
      w = kw.get("width", 8)
      s = fig.get_size_inches()
      mon.close("figure-size", s[0] / s[1], ar, rtol=1e-6, atol=0, detail=det)
      mon.close("figure-size", s[1], w, rtol=1e-6, atol=0, detail=det)
    if "cmap" in kw:
      mon.check("options-passed", im.get_cmap().name == "gray", det)
    if "vmin" in kw:
      mon.check("options-passed", im.get_clim() == (-1, 2), det)
  finally:
    close_all()


def modal_model(rng, fs):
  """Model with modes and no fit"""
  cls = bsample.SAMPLEBeatsDROP if rng.random() < .4 else sample_mod.SAMPLE
  s = cls(sinusoidal__tracker__fs=fs)
  k = int(rng.integers(0, 5))
  p = np.stack([rng.uniform(20, fs / 2, k), 10**rng.uniform(-2, 1, k),
                10**rng.uniform(-3, 0, k), rng.uniform(-3, 3, k)])
  s.param_matrix_ = p if cls is bsample.SAMPLEBeatsDROP else p[:3]
  return s


def squares(x, fs):
  """Time-frequency representation of our own, with odd limits"""
  n = x.size // 7 * 7
  return (fs * .01, fs * .37), np.square(np.reshape(x[:n], (7, -1)))


@CHECK.kind("resynthesis", quick=220, thorough=2500)
def resynthesis(rng, mon, spec):
  import sample.plots as plots  # pylint: disable=C0415
  try:
    fs = float(rng.choice([1000, 8000, 44100]))
    x = audio.hostile(rng, fs, n=int(rng.integers(1100, 3000)))[1]
    x = np.nan_to_num(np.asarray(x, dtype=float), posinf=1, neginf=-1)
    x = np.ravel(np.resize(x, max(x.size, 64)))
    names = list(rng.permutation(["SAMPLE", "b", "_private", "a & b", "Größe"]))
    rates = [fs * float(rng.choice([1, .5, .99])) for _ in names]
    nm = int(rng.integers(0, 4))
    models = {k: modal_model(rng, r) for k, r in zip(names[:nm], rates)}
    original = bool(rng.random() < .7) or nm == 0
    kw = {}
    if not original:
      kw["original"] = False
    elif rng.random() < .3:
      kw["original_k"] = "Recorded"
    want_fs = max([m.sinusoidal.fs for m in models.values()], default=44100)
    if rng.random() < .5:
      kw["fs"] = want_fs = fs
    if nm or rng.random() < .5:
      kw["models"] = models
    own = bool(rng.random() < .4)
    db = rng.choice(["default", "floor", "none"])
    if own:
      kw["tf_fun"] = squares
    elif db == "none":
      db = "default"
    floor = -90
    if db == "floor":
      floor = kw["db_floor"] = float(rng.uniform(-200, -10))
      if rng.random() < .25:
        floor = kw["db_floor"] = 0
    elif db == "none":
      kw["db_floor"] = None
    calls = []
    if rng.random() < .7:
      kw["foreach"] = lambda *a: calls.append(a)
    wav = bool(rng.random() < .3)
    if wav:
      kw["wav_kws"] = {"alpha": .25}
    tfk = bool(rng.random() < .3)
    if tfk:
      kw["tf_kws"] = {"cmap": "gray"}
    labels = ([kw.get("original_k", "Original")] if original else []) + list(
        models)
    where = rng.choice(["axs", "fig", "none"])
    det = (f"{nm} models original={original} {where} {db} own={own} "
           f"fs={kw.get('fs')}")
    mon.case((det, float(rng.random())), nontrivial=bool(labels))
    n_ax = 1 + len(labels)
    if where == "axs":
      fig, axs, decoy = pick_axes(rng, 1, n_ax)
      kw["axs"] = axs[0] if rng.random() < .5 else list(axs[0])
      given = list(axs[0])
      mon.event("given-axes")
    else:
      decoy = plt.figure()
      decoy.gca()
      fig = plt.figure()
      if where == "fig":
        kw["fig"] = fig
        plt.figure(decoy.number)
    t = np.arange(x.size) / want_fs
    waves = ([x] if original else []) + [m.predict(t) for m in models.values()]
    mats = [np.array(m.param_matrix_) for m in models.values()]
    dicts = {k: dict(kw[k]) for k in ("wav_kws", "tf_kws") if k in kw}
    cur = plt.get_fignums()
    with mon.frozen("data-untouched", x, detail=det):
      with mon.no_exception("plots", det):
        with warnings.catch_warnings():
          warnings.simplefilter("ignore")
          rfig, raxs = plots.resynthesis(x, **kw)
    mon.check("options-untouched", all(kw[k] == v for k, v in dicts.items()),
              det)
    for a, m in zip(mats, models.values()):
      mon.same("model-untouched", m.param_matrix_, a, det)
    mon.check("given-figure", rfig is fig, det)
    mon.check("no-other-figure", plt.get_fignums() == cur and
              not decoy.axes[0].lines and not decoy.axes[0].images, det)
    raxs = list(raxs)
    mon.require("axes", len(raxs) == n_ax, det)
    if where == "axs":
      mon.check("on-given-axes",
                all(a is b for a, b in zip(raxs, given)), det)
    mon.check("axes", all(a in fig.axes for a in raxs) and
              len(fig.axes) == n_ax, det)
    mon.require("one-wave-each", len(raxs[0].lines) == len(labels), det)
    for i, (l, w) in enumerate(zip(labels, waves)):
      mon.event("waves")
      line = raxs[0].lines[i]
      d = f"{det} wave {i} {l!r}"
      mon.close("wave-time", line.get_xdata(orig=True), t, detail=d, **EPS)
      mon.same("wave-data", line.get_ydata(orig=True), w, d)
      mon.check("wave-label", line.get_label() == l, d)
      mon.check("style", line.get_alpha() == (.25 if wav else .5), d)
      ax = raxs[i + 1]
      mon.check("image-title", ax.get_title() == l, d)
      if own:
        fl, z = squares(w, want_fs)
      else:
        f, _, z = signal.stft(w, fs=want_fs, nperseg=1024)
        fl = f[0], f[-1]
      if db != "none":
        with np.errstate(all="ignore"):
          z = np.maximum(20 * np.log10(np.abs(z)), floor)
      im = image(mon, d, ax, z, (t[0], t[-1]), fl,
                 tol={"rtol": 1e-6, "atol": 1e-6})
      if im is not None and tfk:
        mon.check("options-passed", im.get_cmap().name == "gray", d)
    if "foreach" in kw:
      mon.check("foreach-once-in-order",
                [c[:2] for c in calls] == list(enumerate(labels)),
                lambda: f"{det} {[c[:2] for c in calls]}")
      for c, w in zip(calls, waves):
        mon.same("foreach-signal", c[2], w, det)
  finally:
    close_all()


class Known(regression.BeatRegression):
  """Regression that remembers the data of its fit and predicts known curves"""

  def __init__(self, fs=100, salt=0, log=None):
    super().__init__(fs=fs)
    self.salt = salt
    self.log = log

  def fit(self, t, a, f, **kwargs):
    SEEN.append((self.salt, np.array(t), np.array(a), np.array(f)))
    self.params_ = tuple(np.random.default_rng(self.salt).uniform(1, 9, 8))
    return self

  def curve(self, t, k):
    j = ("am", "a0", "a1", "fm").index(k)
    r = np.random.default_rng([self.salt, j])
    c = np.abs(np.sin(np.squeeze(t) * r.uniform(1, 50) + r.uniform(0, 3)))
    return c**4 if k != "fm" else 9000 * c

  def predict(self, t, *args):
    return [self.curve(t, k) for k in args]


SEEN = []


@CHECK.kind("comparison", quick=200, thorough=1500)
def comparison(rng, mon, spec):
  import sample.plots as plots  # pylint: disable=C0415
  del SEEN[:]
  try:
    for _ in range(20):
      s, tr, _, x = fitted(rng)
      if tr:
        break
    if not tr:
      return
    m = s.sinusoidal
    j = int(rng.integers(len(tr)))
    nb = int(rng.integers(1, 4))
    bs = {f"model {q}": Known(salt=int(rng.integers(1 << 30)))
          for q in range(nb)}
    kw = {}
    fs = m.fs
    if rng.random() < .3:
      fs = kw["fs"] = float(rng.uniform(1000, 50000))
    if j or rng.random() < .5:
      kw["track_i"] = j
    hil = [False, False, True, 3, 7, 1][rng.integers(6)]
    if hil:
      kw["signal_hilbert_am"] = hil
    where = rng.choice(["axs", "fig", "none"])
    transpose = where != "axs" and bool(rng.random() < .5)
    if transpose:
      kw["transpose"] = True
      mon.event("transposed")
    det = f"{nb} models track {j} {where} {kw}"
    mon.case((det, float(rng.random())))
    if where == "axs":
      fig, axs, decoy = pick_axes(rng, 3, nb)
      kw["axs"] = axs if rng.random() < .6 else [list(r) for r in axs]
      mon.event("given-axes")
    else:
      decoy = plt.figure()
      decoy.gca()
      fig = plt.figure()
      if where == "fig":
        kw["fig"] = fig
        plt.figure(decoy.number)
    cur = plt.get_fignums()
    tr = copy.deepcopy(tr)
    p0 = np.array(s.param_matrix_)
    with mon.frozen("data-untouched", x, detail=det):
      with mon.no_exception("plots", det):
        with warnings.catch_warnings():
          warnings.simplefilter("ignore")
          rfig, raxs = plots.beatsdrop_comparison(s, bs, x, **kw)
    mon.event("comparisons")
    if nb == 1:
      mon.event("single-comparison")
    same_tracks(mon, det, m.tracks_, tr)
    mon.same("model-untouched", s.param_matrix_, p0, det)
    mon.check("model-untouched",
              all(not hasattr(b, "params_") for b in bs.values()), det)
    mon.check("given-figure", rfig is fig, det)
    mon.check("no-other-figure", plt.get_fignums() == cur and
              not decoy.axes[0].lines, det)
    raxs = np.asarray(raxs)
    mon.require("axes", raxs.shape == ((nb, 3) if transpose else (3, nb)),
                lambda: f"{det} {raxs.shape}")
    if where == "axs":
      mon.check("on-given-axes", all(
          a is b for a, b in zip(raxs.ravel(), axs.ravel())), det)
    # position of the axes on the figure
    pos = np.vectorize(lambda a: a.get_subplotspec().rowspan.start)(raxs)
    mon.check("layout", (pos == np.arange(raxs.shape[0])[:, None]).all(), det)
    if transpose:
      raxs = raxs.T
    u = tr[j]
    ok = ~np.isnan(u["mag"])
    tt = (np.arange(ok.size)[ok] + u["start_frame"]) * m.h / m.fs
    if not m.padded:
      tt = tt + .5 * m.w.size / m.fs
    if m.tracker.reverse:
      tt = x.size / m.fs - tt
    mag = u["mag"][ok] + 20 * np.log10(2)
    fr = u["freq"][ok]
    mon.check("fitted-once", sorted(q[0] for q in SEEN) == sorted(
        b.salt for b in bs.values()), det)
    seen = {q[0]: q[1:] for q in SEEN}
    tol = {"rtol": 1e-6, "atol": 1e-9}
    for i, (k, b) in enumerate(bs.items()):
      d = f"{det} {k}"
      if b.salt in seen:
        for c, (g, w) in enumerate(zip(seen[b.salt], (tt, mag, fr))):
          mon.close("fitted-on-track", np.squeeze(g), np.squeeze(w),
                    detail=f"{d} arg {c}", **tol)
      mon.check("title", raxs[0][i].get_title() == k, d)
      cu = [b.curve(tt, q) for q in ("am", "a0", "a1", "fm")]
      ta = 10**(mag / 20)
      prm = np.random.default_rng(b.salt).uniform(1, 9, 8)
      am = list(raxs[0][i].lines)
      if hil:
        mon.event("hilbert")
        st = 1 if hil is True else int(hil)
        idx = np.arange(x.size // st) * st
        env = np.abs(signal.hilbert(x))[idx]
        cols = raxs[0][i].collections
        if mon.check("envelope-drawn", len(cols) == 1, d):
          v = cols[0].get_paths()[0].vertices
          n = idx.size
          mon.require("envelope-drawn", v.shape == (2 * n + 3, 2), d)
          mon.close("envelope", np.abs(v[1:n + 1, 1]), env, detail=d, **tol)
          mon.close("envelope", v[n + 2:-1, 1], -v[1:n + 1, 1][::-1], detail=d,
                    **tol)
          mon.close("envelope-time", v[1:n + 1, 0], idx / fs, detail=d, **tol)
          mon.close("envelope-time", v[n + 2:-1, 0], idx[::-1] / fs, detail=d,
                    **tol)
      else:
        if not mon.check("signal-drawn", len(am) == 5, d):
          continue
        l = am.pop(0)
        mon.close("signal-time", l.get_xdata(orig=True), np.arange(x.size) / fs,
                  detail=d, **tol)
        mon.same("signal-data", l.get_ydata(orig=True), x, d)
      mon.require("curves", len(am) == 4 and len(raxs[1][i].lines) == 4 and
                  len(raxs[2][i].lines) == 4, d)
      for l, w in zip(am, (ta, *cu[:3])):
        mon.close("amplitude-curve", l.get_ydata(orig=True), w, detail=d, **tol)
        mon.close("curve-time", l.get_xdata(orig=True), tt, detail=d, **tol)
      for l, w in zip(raxs[1][i].lines, (ta, *cu[:3])):
        with np.errstate(all="ignore"):
          y = np.where(w <= 1e-3, np.nan, 20 * np.log10(w))
        g = np.asarray(l.get_ydata(orig=True))
        near = np.abs(w / 1e-3 - 1) < 1e-6
        mon.close("decibel-curve", g[~near], y[~near], detail=d, **tol)
        mon.close("curve-time", l.get_xdata(orig=True), tt, detail=d, **tol)
      for l, w in zip(raxs[2][i].lines,
                      (fr, cu[3] / (2 * np.pi), np.full(tt.shape, prm[2]),
                       np.full(tt.shape, prm[3]))):
        mon.close("frequency-curves", l.get_ydata(orig=True), w, detail=d,
                  **tol)
        mon.close("curve-time", l.get_xdata(orig=True), tt, detail=d, **tol)
      for a, w in ((raxs[0][i], am), (raxs[1][i], raxs[1][i].lines)):
        mon.check("same-names", [q.get_label() for q in w] == [
            q.get_label() for q in raxs[0][0].lines[-4:]], d)
    bottom = raxs[:, -1] if transpose else raxs[-1]
    mon.check("units", all("(s)" in a.get_xlabel() for a in bottom),
              lambda: f"{det} {[a.get_xlabel() for a in raxs.ravel()]}")
    first = raxs[:, 0]
    mon.check("units", "dB" in first[1].get_ylabel() and
              "Hz" in first[2].get_ylabel(), det)
  finally:
    close_all()


@CHECK.kind("comparison-real", quick=6, thorough=80)
def comparison_real(rng, mon, spec):
  """Regressions of the package: the curves are those of their own fits"""
  import sample.plots as plots  # pylint: disable=C0415
  try:
    s, tr, _, x = fitted(rng)
    if not tr:
      return
    fs = s.sinusoidal.fs
    bs = {"beat": regression.BeatRegression(fs=fs),
          "dual": beats.QuickBeat(fs=fs)}
    det = f"{len(tr)} tracks"
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      j = int(np.argmax([t["mag"].size for t in tr]))
      u = tr[j]
      ok = ~np.isnan(u["mag"])
      tt = (np.arange(ok.size)[ok] + u["start_frame"]) * s.sinusoidal.h / fs
      if not s.sinusoidal.padded:
        tt = tt + .5 * s.sinusoidal.w.size / fs
      if s.sinusoidal.tracker.reverse:
        tt = x.size / fs - tt
      try:
        own = {k: base.clone(b).fit(t=tt, a=u["mag"][ok] + 20 * np.log10(2),
                                    f=u["freq"][ok])
               for k, b in bs.items()}
      except ValueError:
        mon.event("regression-refused")
        return
      mon.case((det, x.size, j))
      with mon.no_exception("plots", det):
        _, axs = plots.beatsdrop_comparison(s, bs, x, track_i=j)
      for i, b in enumerate(own.values()):
        am, fm = b.predict(tt, "am", "fm")
        mon.close("amplitude-curve", axs[0][i].lines[2].get_ydata(orig=True),
                  am, rtol=1e-3, atol=1e-6, detail=det)
        mon.close("frequency-curves", axs[2][i].lines[1].get_ydata(orig=True),
                  fm / (2 * np.pi), rtol=1e-3, atol=1e-3, detail=det)
  finally:
    close_all()
