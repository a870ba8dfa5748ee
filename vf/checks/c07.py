"""C07: sinusoidal tracking obeys its continuation rules on every frame"""
import math

import numpy as np

from sample.sms import mm, sm
from vf import ref
from vf.core import Check

CHECK = Check(
    "C07",
    rule="random and adversarial histories of spectral peak lists (wandering, "
    "crossing, fragmented and crowded partials, empty frames, exact threshold "
    "hits) and peak lists recorded from real STFTs, fed frame by frame to the "
    "tracker; after every frame invariants and a reference tracker are "
    "compared. A history is non-trivial if it has continuations, births and "
    "endings.",
    require={"frame-state": 2000, "continued": 5000, "ended": 500,
             "refused-by-maximum": 50, "contested-peaks": 100,
             "tracks-at-end": 100, "real-frames": 300},
    assumptions=["peaks in a frame have distinct magnitudes (ties between "
                 "equally loud peaks are not specified)"],
)


def rnd_params(rng):
  fs = int(rng.choice([8000, 16000, 22050, 44100, 48000, 96000]))
  h = int(rng.choice([32, 64, 100, 128, 256, 441, 500, 1024]))
  while True:
    dur = float(rng.choice([0., .003, .01, .04, .1, rng.uniform(0, .2)]))
    v = dur * fs / h
    if v == 0 or abs(v - round(v)) > 1e-6:
      break
  return dict(fs=fs, h=h, max_n_sines=int(rng.choice([1, 2, 3, 5, 8, 20, 100])),
              min_sine_dur=dur,
              freq_dev_offset=float(rng.choice([0., 1., 10., 20., 60., 200.])),
              freq_dev_slope=float(rng.choice([0., .001, .01, .05, .2])))


def keys(tracks, start):
  return sorted(map(lambda t: ref.track_key(t, start), tracks))


def drive(mon, tracker, model, history, detail):
  """Run both trackers, monitoring every frame"""
  seen = 0
  hist = []
  for n, (f, m, p) in enumerate(history):
    hist.append((f, m, p))
    n_before = tracker.n_active_tracks
    with mon.frozen("peaks-untouched", f, m, p):
      with mon.no_exception("frame-accepted", detail):
        tracker(f, m, p)
    model(f.tolist(), m.tolist(), p.tolist())
    mon.check("frame-state", tracker.n_active_tracks == len(model.active),
              lambda: f"{detail} frame {n}: {tracker.n_active_tracks} active, "
              f"want {len(model.active)}")
    mon.check("active-bounded",
              tracker.n_active_tracks <= max(model.max_n, 0),
              lambda: f"{detail} frame {n}: {tracker.n_active_tracks} active")
    new = tracker.tracks_
    if len(new) != seen or n % 16 == 0 or n == len(history) - 1:
      mon.check("ended-tracks", keys(new, "start_frame") == keys(
          model.saved, "start"),
                lambda: f"{detail} frame {n}: kept tracks "
                f"{[(t['start_frame'], len(t['freq'])) for t in new][:20]} want "
                f"{[(t['start'], len(t['freq'])) for t in model.saved][:20]}")
      seen = len(new)
    if n % 16 == 7 or n == len(history) - 1:
      allt = list(tracker.all_tracks_)
      mon.check("reported-tracks", keys(allt, "start_frame") == keys(
          model.reported(), "start"),
                lambda: f"{detail} frame {n}: reported "
                f"{[(t['start_frame'], len(t['freq'])) for t in allt][:20]} "
                "want "
                f"{[(t['start'], len(t['freq'])) for t in model.reported()][:20]}")
      again = list(tracker.all_tracks_)
      mon.check("report-is-pure", keys(again, "start_frame") == keys(
          allt, "start_frame"), detail)
    del n_before
  return hist


def invariants(mon, tracks, history, p, detail):
  """Specification checked directly on the final tracks"""
  used = set()
  min_len = max(2, math.ceil(p["min_sine_dur"] * p["fs"] / p["h"]))
  for t in tracks:
    s = int(t["start_frame"])
    n = len(t["freq"])
    mon.check("minimum-duration", n >= min_len, lambda: f"{detail} len {n}")
    mon.check("track-shape",
              len(t["mag"]) == n and len(t["phase"]) == n and s >= 0 and
              s + n <= len(history),
              lambda: f"{detail} {s} {n} {len(t['mag'])} {len(t['phase'])}")
    for k in range(n):
      f, m, ph = history[s + k]
      hit = np.flatnonzero((f == t["freq"][k]) & (m == t["mag"][k]) &
                           (ph == t["phase"][k]))
      if not mon.check("value-is-a-peak", hit.size == 1,
                       lambda: f"{detail} track at {s}+{k}: not a peak"):
        break
      key = (s + k, int(hit[0]))
      mon.check("peak-used-once", key not in used, lambda: f"{detail} {key}")
      used.add(key)
      if k:
        d = abs(t["freq"][k] - t["freq"][k - 1])
        mon.check("deviation-bound",
                  d < p["freq_dev_offset"] + p["freq_dev_slope"] * t["freq"][k],
                  lambda: f"{detail} jump {d} to {t['freq'][k]}")


def account(mon, model, n_final):
  mon.event("continued", model.continued)
  mon.event("born", model.born)
  mon.event("ended", model.ended)
  mon.event("refused-by-maximum", model.refused)
  mon.event("contested-peaks", model.contested)
  mon.event("tracks-at-end", n_final)


@CHECK.kind("random-histories", quick=800, thorough=20000)
def random_histories(rng, mon, spec):
  p = rnd_params(rng)
  style = rng.integers(0, 5)
  n_frames = int(rng.integers(3, 70))
  n_part = int(rng.choice([1, 2, 3, 6, 15, 40]))
  hist = ref.peaks_history(
      rng, n_frames, n_part, dropout=float(rng.choice([0, .05, .3])),
      jitter=float(rng.choice([0, 1, 5, 15, 40])), noise=int(
          rng.choice([0, 1, 4, 12])), close=style == 1, decay=style != 2,
      fmax=float(rng.choice([500., 3000., 12000.])))
  if style == 3:  # peak lists in no particular order
    hist = [tuple(v[o] for v in fr) for fr in hist
            for o in (rng.permutation(fr[0].size),)]
  cls = sm.SineTracker
  tr = cls(**p)
  if rng.random() < .3:  # a used tracker is as good as new after reset
    tr.reset()
    for fr in hist[:int(rng.integers(1, 6))]:
      tr(*fr)
  tr.reset()
  model = ref.RefTracker(**p)
  d = f"{p} {n_part} partials {n_frames} frames"
  h = drive(mon, tr, model, hist, d)
  final = list(tr.all_tracks_)
  invariants(mon, final, h, p, d)
  account(mon, model, len(final))
  mon.case((p, n_frames, n_part, model.continued, model.born),
           model.continued and model.born and model.ended)


@CHECK.kind("boundaries", quick=60, thorough=800)
def boundaries(rng, mon, spec):
  """Deviations exactly at, one ulp below and above the threshold, and
  durations exactly at the minimum"""
  off = float(rng.integers(1, 64))
  f0 = float(rng.integers(100, 5000))
  p = dict(fs=1000, h=100, max_n_sines=10, freq_dev_offset=off,
           freq_dev_slope=0., min_sine_dur=float(rng.integers(1, 9)) / 8)
  v = p["min_sine_dur"] * 10
  if abs(v - round(v)) < 1e-9 and p["min_sine_dur"] not in (.5, 1.):
    p["min_sine_dur"] = .5
  min_len = max(2, math.ceil(p["min_sine_dur"] * 10))
  for delta in (off, np.nextafter(off, 0), off - 1e-9, -off, -off + 1e-9):
    for n in (min_len - 1, min_len, min_len + 1):
      tr = sm.SineTracker(**p).reset()
      model = ref.RefTracker(**p)
      hist = [(np.array([f0]), np.array([-10. - i]), np.array([float(i)]))
              for i in range(n)]
      hist += [(np.array([f0 + delta]), np.array([-10. - n - i]),
                np.array([float(n + i)])) for i in range(n + 2)]
      hist += [(np.empty(0), np.empty(0), np.empty(0))] * 2
      d = f"{p} jump {delta!r} after {n}"
      h = drive(mon, tr, model, hist, d)
      final = list(tr.all_tracks_)
      invariants(mon, final, h, p, d)
      account(mon, model, len(final))
      mon.case((off, f0, delta, n))


class RecTracker(sm.SineTracker):
  """Records the peaks it receives"""

  def reset(self):
    super().reset()
    self.log = []
    return self

  def __call__(self, pfreq, pmag, pph):
    self.log.append((np.array(pfreq), np.array(pmag), np.array(pph)))
    return super().__call__(pfreq, pmag, pph)


@CHECK.kind("real-audio", quick=60, thorough=1000)
def real_audio(rng, mon, spec):
  """Tracks coming out of the whole sinusoidal model, against the peaks that
  its tracker received"""
  fs = int(rng.choice([8000, 16000, 44100]))
  n = int(fs * rng.uniform(.2, .5))
  t = np.arange(n) / fs
  k = int(rng.integers(1, 8))
  x = sum(
      rng.uniform(.05, 1) * np.exp(-t / rng.uniform(.02, .5)) *
      np.cos(2 * np.pi * (rng.uniform(60, fs * .4) + 0 * t) * t)
      for _ in range(k))
  x = x + float(rng.choice([0, 1e-4, 1e-2, .3])) * rng.normal(size=n)
  p = rnd_params(rng)
  p["fs"] = fs
  p["h"] = int(rng.choice([64, 128, 256, 500]))
  nfft = int(rng.choice([512, 1024, 2048]))
  w = np.hamming(int(rng.integers(nfft // 4, nfft)))
  model_ = sm.SinusoidalModel(
      w=w, n=nfft, t=float(rng.choice([-120, -90, -60])),
      tracker=RecTracker(**p), padded=bool(rng.random() < .5))
  with mon.frozen("audio-untouched", x):
    model_.fit(x)
  log = model_.tracker.log
  mon.event("real-frames", len(log))
  model = ref.RefTracker(**p)
  for f, m, ph in log:
    if np.unique(m).size != m.size:
      mon.event("skipped-tied-history")
      return
    model(f.tolist(), m.tolist(), ph.tolist())
  got = model_.tracks_
  d = f"{p} n={nfft} w={w.size}"
  mon.check("frame-count", len(log) == len(list(model_.time_frames(x))), d)
  mon.check("model-tracks", keys(got, "start_frame") == keys(
      model.reported(), "start"),
            lambda: f"{d} {len(got)} tracks want {len(model.reported())}")
  invariants(mon, got, log, p, d)
  account(mon, model, len(got))
  mon.case((p, nfft, w.size, len(got)), len(got) > 0)
