"""C02: learned modes are always physically meaningful"""
import warnings

import numpy as np

from sklearn import base

from sample import hinge
from sample import sample as smp
from vf import audio
from vf.core import Check

CHECK = Check(
    "C02",
    rule="22 families of finite audio (noise, silence, clicks, DC, clipped, "
    "short, quiet, loud, integer, repeated hits, bursts, ...) analysed under "
    "random configurations; monitors on the learned matrix, the resynthesis "
    "and an independent per-track refit with its own time axis. Non-trivial: "
    "at least one mode was learned.",
    require={"modes": 300, "fits": 300, "tracks-refitted": 300,
             "made-up-drops": 10, "made-up-fits": 30, "merged-tracks": 10, "empty-results": 10},
)


def time_axis(model, n_x, track, cfg):
  """Physical time of the frames of a track, from the configuration"""
  h, fs = cfg["sinusoidal__tracker__h"], cfg["sinusoidal__tracker__fs"]
  i = np.flatnonzero(~np.isnan(track["mag"])) + int(track["start_frame"])
  t = i * h / fs
  if not cfg["sinusoidal__padded"]:
    t = t + len(cfg["sinusoidal__w"]) / 2 / fs
  if cfg["sinusoidal__tracker__reverse"]:
    t = n_x / fs - t
  return t


def refit(track, t):
  ok = ~np.isnan(track["mag"])
  y = np.asarray(track["mag"])[ok] + 20 * np.log10(2)
  r = hinge.HingeRegression().fit(t[:, None], y)
  with np.errstate(all="ignore"):
    return (np.mean(np.asarray(track["freq"])[ok]),
            -40 * np.log10(np.e) / r.k_, 10**(r.q_ / 20))


def misfit(track, t, d, a):
  """Mean squared error of the best hinge with the given decay and amplitude"""
  ok = ~np.isnan(track["mag"])
  y = np.asarray(track["mag"])[ok] + 20 * np.log10(2)
  line = -40 * np.log10(np.e) / d * t + 20 * np.log10(a)
  i = np.argsort(t)
  line, y = line[i], y[i]
  knees = np.concatenate((line, (line[1:] + line[:-1]) / 2, np.linspace(
      line.min(), line.max(), 200), [line.min() - 1]))
  best = np.inf
  for k in knees:
    best = min(best, np.mean(np.square(np.maximum(line, k) - y)))
  return best


def meaningful(mon, m, cfg, det):
  if not mon.check("matrix-shape", np.ndim(m) == 2 and m.shape[0] == 3,
                   lambda: f"{det} {np.shape(m)}"):
    return False
  mon.check("finite", np.isfinite(m).all(), lambda: f"{det} {m}")
  mon.check("decaying", np.all(m[1] > 0), lambda: f"{det} decays {m[1]}")
  mon.check("audible-amplitude", np.all(m[2] > 0),
            lambda: f"{det} amplitudes {m[2]}")
  lo, hi = cfg["sinusoidal__tracker__frequency_bounds"]
  lo = 0 if lo is None else lo
  hi = cfg["sinusoidal__tracker__fs"] / 2 if hi is None else hi
  mon.check("frequency-bounds",
            np.all((m[0] >= lo - 1e-6) & (m[0] <= hi + 1e-6)),
            lambda: f"{det} frequencies {m[0]}")
  mon.event("modes", m.shape[1])
  mon.event("empty-results", m.shape[1] == 0)
  return True


@CHECK.kind("hostile", quick=352, thorough=12000)
def hostile(rng, mon, spec):
  fs = int(rng.choice([8000, 11025, 16000]))
  kind = audio.HOSTILE[spec["i"] % len(audio.HOSTILE)]
  kind, x = audio.hostile(rng, fs, kind)
  cfg = audio.config(rng, fs)
  det = f"{kind} n={x.size} {audio.brief(cfg)}"
  model = smp.SAMPLE(**cfg)
  with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    with mon.frozen("audio-untouched", x, detail=det):
      with mon.no_exception("fit-runs", det):
        out = model.fit(x)
  mon.check("fit-returns-model", out is model, det)
  mon.event("fits")
  m = model.param_matrix_
  if not meaningful(mon, m, cfg, det):
    return
  # resynthesis never grows
  if m.shape[1]:
    y = model.predict(np.arange(4000) / fs)
    env = np.sum(m[2])
    mon.check("resynthesis-bounded", np.all(np.isfinite(y)) and np.max(
        np.abs(y)) <= env * (1 + 1e-9), lambda: f"{det} {np.max(np.abs(y))}")
  # one mode per track, in order
  want, kept = [], []
  for t in model.sinusoidal.tracks_:
    mon.event("merged-tracks", np.isnan(t["mag"]).any())
    p = refit(t, time_axis(model, x.size, t, cfg))
    mon.event("tracks-refitted")
    # tracks without a decaying fit give no mode
    if np.isfinite(p).all() and p[1] > 0:
      want.append(p)
      kept.append(t)
    else:
      mon.event("tracks-without-mode")
  want = np.array(want).reshape(-1, 3).T
  if mon.check("one-mode-per-track", want.shape == m.shape,
               lambda: f"{det} {m.shape[1]} modes want {want.shape[1]}"):
    mon.close("mode-frequency", m[0], want[0], 1e-9, 1e-9, det)
    # the fits are iterative: compare the envelope they describe
    ok = np.isclose(m[1], want[1], 1e-2) & np.isclose(m[2], want[2], 1e-2)
    mon.event("mode-envelopes", ok.size)
    # they may end in different optima, of similar quality
    for j in np.flatnonzero(~ok):
      mon.event("other-optimum")
      t = kept[j]
      ax = time_axis(model, x.size, t, cfg)
      e, w = misfit(t, ax, *m[1:, j]), misfit(t, ax, *want[1:, j])
      mon.check("mode-envelope", e <= 1.2 * w + .05, lambda: f"{det} error {e}"
                f" want {w}")
  mon.case((det, m.shape), m.shape[1])


@CHECK.kind("reduction", quick=12, thorough=300)
def reduction(rng, mon, spec):
  """The user's frequency reduction and regressor attributes are used"""
  fs = 8000
  kind, x = audio.hostile(rng, fs, "noisy-modal")
  cfg = audio.config(rng, fs)
  seen = []

  def red(f):
    seen.append(np.array(f))
    return float(np.max(f))

  det = f"reduction {audio.brief(cfg)}"
  model = smp.SAMPLE(freq_reduce=red, **cfg).fit(x)
  tracks = model.sinusoidal.tracks_
  mon.check("called-once-per-track", len(seen) == len(tracks), det)
  for f, t in zip(seen, tracks):
    v = np.asarray(t["freq"])
    mon.same("reduces-the-track", f, v[~np.isnan(v)], det)
  if len(tracks) == model.freqs_.size:
    mon.same("reduction-used", model.freqs_, [np.nanmax(t["freq"])
                                              for t in tracks], det)

  class Swapped(hinge.HingeRegression):
    """Different attribute names"""
    slope_ = property(lambda s: s.coeffs_[1])
    level_ = property(lambda s: s.coeffs_[2])

  Swapped.__init__ = hinge.HingeRegression.__init__
  m2 = smp.SAMPLE(regressor=Swapped(), regressor_k="slope_",
                  regressor_q="level_", freq_reduce=red, **cfg).fit(x)
  mon.same("custom-regressor", m2.param_matrix_, model.param_matrix_, det)
  mon.case((det, len(tracks)), len(tracks))


class Given(base.BaseEstimator):
  """Regressor with made-up results, one per track"""
  table = ()

  def fit(self, x, y):
    i = int(np.abs(np.sum(np.asarray(y)) * 1e3)) % len(self.table)
    self.k_, self.q_ = self.table[i]
    return self


@CHECK.kind("any-regressor", quick=40, thorough=800)
def any_regressor(rng, mon, spec):
  """Only fits that are finite and decaying become modes, whatever the
  regressor gives"""
  fs = 8000
  _, x = audio.hostile(rng, fs, "noisy-modal")
  cfg = audio.config(rng, fs)
  cfg["sinusoidal__tracker__peak_threshold"] = -90
  ks = [-40., -3., 0., 5., np.nan, np.inf, -1e-3]
  qs = [0., -20., np.nan, np.inf, 7000., -50.]
  Given.table = [(ks[rng.integers(7)], qs[rng.integers(6)]) if rng.random() < .6
                 else (float(-rng.uniform(1, 90)), float(rng.uniform(-60, 0)))
                 for _ in range(int(rng.integers(1, 12)))]
  det = f"table={Given.table} {audio.brief(cfg)}"
  model = smp.SAMPLE(regressor=Given(), **cfg)
  with mon.no_exception("fit-runs", det):
    model.fit(x)
  want = []
  for t in model.sinusoidal.tracks_:
    v = np.asarray(t["mag"])
    ok = ~np.isnan(v)
    r = Given().fit(None, v[ok] + 20 * np.log10(2))
    with np.errstate(all="ignore"):
      p = (np.mean(np.asarray(t["freq"])[ok]),
           np.true_divide(-40 * np.log10(np.e), r.k_),
           np.power(10., r.q_ / 20))
    if np.isfinite(p).all() and p[1] > 0:
      want.append(p)
    else:
      mon.event("made-up-drops")
    mon.event("made-up-fits")
  want = np.array(want).reshape(-1, 3).T
  mon.check("finite", np.isfinite(model.param_matrix_).all(), det)
  if mon.check("one-mode-per-track", want.shape == model.param_matrix_.shape,
               lambda: f"{det} {model.param_matrix_.shape} want {want.shape}"):
    mon.close("mode-of-its-track", model.param_matrix_, want, 1e-9, 1e-12, det)
  mon.case((det, want.shape), want.shape[1])
