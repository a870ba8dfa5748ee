"""C08: modal track selection, merging and stripping are exact"""
import numpy as np

from sample.sms import mm
from vf import ref
from vf.checks import c07
from vf.core import Check

CHECK = Check(
    "C08",
    rule="random and directed histories of peak lists (fragmented partials, "
    "rising and decaying levels, levels and frequencies around the bounds, "
    "contested merges) fed to the modal tracker; its kept and reported tracks "
    "are compared with a reference tracker at the end of every history and "
    "along it. Histories with a decision closer than 1e-9 (relative) to its "
    "threshold are skipped. Non-trivial: at least one track ended and was "
    "judged.",
    require={"judged": 3000, "merged": 100, "rejected-by-modal-rules": 200,
             "stripped": 50, "aligned": 100, "reverse-histories": 30},
    assumptions=["peaks in a frame have distinct magnitudes"],
)


def modal_params(rng):
  p = c07.rnd_params(rng)
  m = dict(
      reverse=bool(rng.random() < .5),
      frequency_bounds=tuple(
          [(20., 16000.), (None, None), (500., None), (None, 2000.),
           (300., 3000.), (float(rng.uniform(20, 1000)),
                           float(rng.uniform(1000, 12000)))][rng.integers(6)]),
      peak_threshold=float(rng.choice([-90., -60., -45., -30., -20.])),
      merge_strategy=str(rng.choice(["average", "single"])),
      strip_t=None)
  if rng.random() < .5:
    p["min_sine_dur"] = 0.
  return p, m


def set_strip(rng, p, m, n_frames):
  if rng.random() < .6:
    # never on a frame boundary (floating-point rounding would decide)
    k = int(rng.integers(0, max(1, n_frames)))
    m["strip_t"] = float((k + rng.uniform(.1, .9)) * p["h"] / p["fs"])
    if rng.random() < .15:
      m["strip_t"] = 0.


def aligned(mon, tracks, history, detail):
  """Whatever was merged, every value must sit on the frame it came from"""
  used = set()
  for t in tracks:
    s = int(t["start_frame"])
    f = np.asarray(t["freq"])
    nan = np.isnan(f)
    ok = (np.array_equal(nan, np.isnan(t["mag"])) and
          np.array_equal(nan, np.isnan(t["phase"])) and f.ndim == 1)
    ok = ok and not nan[0] and not nan[-1]
    mon.check("aligned", ok, lambda: f"{detail} gap marks differ")
    if not ok or s + f.size > len(history):
      mon.check("aligned", ok and s + f.size <= len(history), detail)
      continue
    mon.event("gap-frames", np.sum(nan))
    for k in np.flatnonzero(~nan):
      hf, hm, hp = history[s + k]
      hit = np.flatnonzero((hf == f[k]) & (hm == t["mag"][k]) &
                           (hp == t["phase"][k]))
      if not mon.check("merged-value-in-place", hit.size == 1,
                       lambda: f"{detail} track {s} offset {k}"):
        break
      key = (s + int(k), int(hit[0]))
      mon.check("value-not-duplicated", key not in used,
                lambda: f"{detail} {key}")
      used.add(key)


def run(mon, p, m, hist, detail, chunks=None):
  tr = mm.ModalTracker(**p, **m).reset()
  model = ref.RefTracker(**p, modal=m)
  n_checked = 0
  for n, (f, g, ph) in enumerate(hist):
    with mon.no_exception("frame-accepted", detail):
      tr(f, g, ph)
    model(f.tolist(), g.tolist(), ph.tolist())
    last = n == len(hist) - 1
    if last or (chunks and n in chunks):
      want = model.reported()
      if model.margin < 1:
        mon.event("skipped-near-tie")
        return None
      got = list(tr.all_tracks_)
      mon.check("kept-tracks", c07.keys(tr.tracks_, "start_frame") == c07.keys(
          model.saved, "start"),
                lambda: f"{detail} frame {n}: kept "
                f"{[(t['start_frame'], len(t['freq'])) for t in tr.tracks_]} "
                f"want {[(t['start'], len(t['freq'])) for t in model.saved]}")
      mon.check("reported-tracks", c07.keys(got, "start_frame") == c07.keys(
          want, "start"),
                lambda: f"{detail} frame {n}: reported "
                f"{[(t['start_frame'], len(t['freq'])) for t in got]} want "
                f"{[(t['start'], len(t['freq'])) for t in want]}")
      n_checked += 1
  aligned(mon, tr.tracks_, hist, detail)
  mon.event("judged", model.ended)
  mon.event("merged", model.merged)
  mon.event("rejected-by-modal-rules", model.rejected)
  mon.event("reverse-histories", m["reverse"])
  everything = model.saved + [t for t in model.active if model.ok(t)]
  mon.event("stripped", len(everything) - len(model.reported()))
  return tr, model


@CHECK.kind("random-histories", quick=1500, thorough=30000)
def random_histories(rng, mon, spec):
  p, m = modal_params(rng)
  n_frames = int(rng.integers(5, 90))
  n_part = int(rng.choice([1, 2, 3, 6, 12]))
  set_strip(rng, p, m, n_frames)
  hist = ref.peaks_history(
      rng, n_frames, n_part, dropout=float(rng.choice([0, .05, .2])),
      jitter=float(rng.choice([0.1, 1, 5])), noise=int(rng.choice([0, 1, 5])),
      close=rng.random() < .4, decay=rng.random() < .7,
      fmax=float(rng.choice([800., 4000., 14000.])))
  if m["reverse"] and rng.random() < .8:
    hist = hist[::-1]
  d = f"{p} {m}"
  r = run(mon, p, m, hist, d,
          chunks=set(rng.integers(0, n_frames, 3).tolist()))
  if r is not None:
    mon.case((p["h"], m, n_frames, n_part), r[1].ended > 0)


@CHECK.kind("fragments", quick=1200, thorough=20000)
def fragments(rng, mon, spec):
  """A few decaying partials cut into pieces by gaps of known lengths, with
  frequency offsets around the merging threshold"""
  p, m = modal_params(rng)
  p["freq_dev_offset"] = float(rng.choice([5., 20., 50.]))
  p["freq_dev_slope"] = float(rng.choice([0., .01, .03]))
  p["max_n_sines"] = 100
  p["min_sine_dur"] = 0.
  m["frequency_bounds"] = (20., 16000.)
  m["peak_threshold"] = -150.
  k = int(rng.integers(1, 4))
  f0 = rng.uniform(200, 4000)
  n_frames = 80
  frames = [[] for _ in range(n_frames)]
  for _ in range(k):
    t = int(rng.integers(0, 4))
    f = f0 + rng.uniform(-1, 1) * 3 * p["freq_dev_offset"]
    lvl = rng.uniform(-30, 0)
    sl = rng.uniform(-.6, -.2)
    while t < n_frames - 3:
      n = int(rng.integers(2, 9))
      drift = rng.uniform(-.5, .5) * p["freq_dev_offset"] / n
      dev = p["freq_dev_offset"] + p["freq_dev_slope"] * f
      for j in range(min(n, n_frames - t)):
        frames[t + j].append((f + drift * j, lvl + sl * (t + j) + rng.normal(
            0, .02), rng.uniform(-9, 9)))
      t += n + int(rng.choice([1, 1, 2, 3, 6]))
      f = f + drift * n + dev * float(
          rng.choice([0, .5, .9, 1.1, -.5, -.9, -1.1, 2])) + rng.normal(0, 1e-3)
  # a trailing silence ends all of them, sometimes
  if rng.random() < .7:
    frames += [[]] * 2
  hist = []
  for fr in frames:
    fr = sorted(fr)
    hist.append(tuple(np.array([q[i] for q in fr], float) for i in range(3)))
  if m["reverse"]:
    hist = hist[::-1]
  set_strip(rng, p, m, n_frames)
  r = run(mon, p, m, hist, f"{p} {m}")
  if r is not None:
    mon.case((m, k, f0), r[1].ended > 0)


@CHECK.kind("single-track-rules", quick=600, thorough=8000)
def single_rules(rng, mon, spec):
  """One track at a time, just inside and outside every rule, with the verdict
  stated directly"""
  reverse = bool(rng.random() < .5)
  zero = rng.random() < .2  # Nothing is special about zero
  lo, hi = sorted(rng.uniform(50, 5000, 2))
  hi = hi + 100
  thr = 0. if zero else float(rng.uniform(-90, -20))
  n = int(rng.integers(2, 30))
  eps = float(rng.choice([1e-3, 1., 10.]))
  rule = ["f-lo", "f-hi", "slope", "level", "flat"][rng.integers(5)]
  inside = bool(rng.random() < .5)
  if rule == "flat":  # Neither rising nor decaying
    inside = bool(rng.random() < .7)
    thr = float(np.round(thr))
  edge = rule[0] == "f" and rng.random() < .3
  if edge:  # Bounds belong to the range
    lo, hi, inside = float(round(lo)), float(round(hi)), True
  s = 1 if inside else -1
  if zero and rule == "f-hi":
    lo, hi = -1000., 0.
  elif zero and rule == "f-lo":
    lo = 0.
  fm = (lo + hi) / 2
  if rule == "f-lo":
    fm = lo + s * min(eps, 40)
  elif rule == "f-hi":
    fm = hi - s * min(eps, 40)
  k = -rng.uniform(.1, 2)  # dB per frame in physical time
  if rule == "slope":
    k = -s * min(eps, 1)
  # fitted level at the physical start of the track
  q = thr + 15
  if rule == "level":
    q = thr + s * eps
  if rule == "flat":
    k = 0.
    q = thr + (float(rng.choice([0, 0, 1, 7])) if inside else -1.)
    mon.event("flat-levels")
  wob = rng.normal(0, 5, n)
  wob -= wob.mean()
  if edge:
    fm = lo if rule == "f-lo" else hi
    wob *= 0
    mon.event("on-the-bound")
  y = q + k * np.arange(n)
  # noise orthogonal to the line keeps the fit exact
  if n > 3 and rule != "flat":
    e = rng.normal(0, 1, n)
    a = np.stack((np.ones(n), np.arange(n)), 1)
    y = y + e - a @ np.linalg.lstsq(a, e, rcond=None)[0]
  if reverse:
    y = y[::-1]
  tr = mm.ModalTracker(fs=1000, h=100, min_sine_dur=0, freq_dev_offset=100.,
                       freq_dev_slope=0, reverse=reverse,
                       frequency_bounds=(lo, hi), peak_threshold=thr).reset()
  for i in range(n):
    tr(np.array([fm + wob[i]]), np.array([y[i]]), np.array([0.]))
  rep = len(list(tr.all_tracks_))
  d = f"{rule} inside={inside} reverse={reverse} n={n} eps={eps}"
  mon.check("active-verdict", rep == inside, lambda: f"{d}: {rep}")
  tr(np.empty(0), np.empty(0), np.empty(0))
  mon.check("ended-verdict", len(tr.tracks_) == inside,
            lambda: f"{d}: {len(tr.tracks_)}")
  mon.event("judged")
  mon.case((rule, inside, reverse, n, eps))


@CHECK.kind("strategy-name", quick=1, thorough=1)
def strategy_name(rng, mon, spec):
  """An unknown merge strategy is refused, not silently replaced"""
  tr = mm.ModalTracker(merge_strategy="nearest", fs=1000, h=100,
                       min_sine_dur=0).reset()
  e = np.empty(0)
  raised = False
  try:
    for _ in range(2):
      for i in range(4):
        tr(np.array([100.]), np.array([-float(i)]), np.array([0.]))
      tr(e, e, e)
      tr(e, e, e)
  except (KeyError, ValueError):
    raised = True
  mon.check("unknown-strategy-refused", raised)
  mon.case("unknown strategy")
