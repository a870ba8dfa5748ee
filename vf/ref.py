"""Reference models, written from the documentation, independent of /repo"""
import math

import numpy as np


class RefTracker:
  """Greedy loudest-first partial tracking on lists"""

  def __init__(self, fs, h, max_n_sines, min_sine_dur, freq_dev_offset,
               freq_dev_slope, modal=None):
    self.rate = fs / h
    self.max_n = max_n_sines
    self.min_len = max(2, math.ceil(min_sine_dur * self.rate))
    self.off = freq_dev_offset
    self.slope = freq_dev_slope
    self.modal = modal
    self.active = []
    self.saved = []
    self.frame = 0
    self.continued = self.born = self.ended = self.refused = self.contested = 0
    self.merged = self.rejected = 0
    self.margin = np.inf  # distance of the closest decision from its threshold

  def dev(self, f):
    return self.off + self.slope * f

  def _long(self, t):
    return len(t["freq"]) >= self.min_len

  def ok(self, t):
    if not self._long(t):
      return False
    if self.modal is None:
      return True
    m = self.modal
    lo, hi = m["frequency_bounds"]
    mean = sum(t["freq"]) / len(t["freq"])
    for b, sgn in ((lo, 1), (hi, -1)):
      if b is not None:
        self._near(sgn * (mean - b), 1e-9 * (1 + abs(b)))
    if lo is not None and mean < lo or hi is not None and mean > hi:
      return False
    y = np.asarray(t["mag"], float)
    n = y.size
    x = np.arange(n, dtype=float)
    if m["reverse"]:
      x = x[::-1]
    xm, ym = x.mean(), y.mean()
    k = np.sum((x - xm) * (y - ym)) / np.sum((x - xm)**2)
    q = ym - k * xm
    scale = 1e-9 * (1 + np.max(np.abs(y)))
    self._near(k, scale)
    self._near(q - m["peak_threshold"], scale)
    return not (k > 0 or q < m["peak_threshold"])

  def _near(self, d, tol):
    self.margin = min(self.margin, abs(d) / tol)

  def _end(self, t):
    self.ended += 1
    if not self.ok(t):
      self.rejected += 1
      return
    if self.modal is not None:
      best, bd = None, None
      for u in self.saved:
        if u["start"] + len(u["freq"]) < t["start"]:
          if self.modal["merge_strategy"] == "average":
            d = abs(
                np.nanmean(np.array(u["freq"])) -
                np.nanmean(np.array(t["freq"])))
          else:
            d = abs(u["freq"][-1] - t["freq"][0])
          if bd is not None:
            self._near(d - bd, 1e-9 * (1 + abs(t["freq"][0])))
          if bd is None or d < bd:
            best, bd = u, d
      if best is not None:
        thr = self.dev(t["freq"][0])
        self._near(bd - thr, 1e-9 * (1 + thr))
        if bd < thr:
          gap = t["start"] - best["start"] - len(best["freq"])
          for k in ("freq", "mag", "phase"):
            best[k] = best[k] + [float("nan")] * gap + t[k]
          self.merged += 1
          return
    self.saved.append(t)

  def __call__(self, f, m, p):
    n_act = len(self.active)
    free_t = [True] * n_act
    free_p = [True] * len(f)
    for i in sorted(range(len(f)), key=lambda i: -m[i]):
      cand = [(abs(self.active[j]["freq"][-1] - f[i]), j)
              for j in range(n_act) if free_t[j]]
      if not cand:
        break
      d, j = min(cand)
      thr = self.dev(f[i])
      if len([c for c in cand if c[0] < thr]) > 1:
        self.contested += 1
      if d < thr:
        t = self.active[j]
        t["freq"].append(f[i])
        t["mag"].append(m[i])
        t["phase"].append(p[i])
        free_t[j] = free_p[i] = False
        self.continued += 1
    # ended tracks leave in reverse order of activity
    for j in reversed(range(n_act)):
      if free_t[j]:
        self._end(self.active.pop(j))
    for i in range(len(f)):
      if free_p[i]:
        if len(self.active) >= self.max_n:
          self.refused += 1
          continue
        self.active.append({
            "start": self.frame,
            "freq": [f[i]],
            "mag": [m[i]],
            "phase": [p[i]]
        })
        self.born += 1
    self.frame += 1

  def reported(self):
    out = self.saved + [t for t in self.active if self.ok(t)]
    if self.modal is not None and self.modal.get("strip_t") is not None:
      # whole frames, rounded up
      v = self.modal["strip_t"] * self.rate
      s = math.ceil(v)
      res = []
      for t in out:
        o = t["start"]
        if self.modal["reverse"]:
          o = self.frame - (o + len(t["freq"]))
        if o <= s:
          res.append(t)
      return res
    return out


def track_key(t, start="start"):
  return (int(t[start]),) + tuple(
      tuple("nan" if v != v else float(v) for v in np.asarray(t[k]).tolist())
      for k in ("freq", "mag", "phase"))


def peaks_history(rng, n_frames, n_partials, dropout=.1, jitter=5., noise=2,
                  fmax=8000., decay=True, close=False, fade=True):
  """A history of spectral peak lists from wandering partials and noise.

  Frequencies increase inside each frame, as for real spectra"""
  base = rng.uniform(30, fmax, n_partials)
  if close and n_partials > 1:
    base[1:] = base[0] + np.cumsum(rng.uniform(1, 60, n_partials - 1))
  f = base.copy()
  level = rng.uniform(-60, 0, n_partials)
  slope = rng.uniform(-1.5, .4 if not decay else -.01, n_partials)
  born = rng.integers(0, max(1, n_frames // 2), n_partials)
  born[rng.random(n_partials) < .5] = 0
  died = np.where(rng.random(n_partials) < .5, n_frames,
                  rng.integers(1, n_frames + 1, n_partials))
  if not fade:
    died[:] = n_frames
  # long gaps make fragmented partials
  gap0 = rng.integers(0, n_frames, n_partials)
  gapn = np.where(rng.random(n_partials) < .5,
                  rng.integers(0, max(2, n_frames // 3), n_partials), 0)
  out = []
  for t in range(n_frames):
    f = f + rng.normal(0, jitter, n_partials)
    on = (t >= born) & (t < died) & (rng.random(n_partials) >= dropout)
    on &= ~((t >= gap0) & (t < gap0 + gapn))
    if rng.random() < .03:
      on[:] = False
    pf = np.abs(f[on]) + 1
    pm = (level + slope * t)[on] + rng.normal(0, .3, np.sum(on))
    k = rng.integers(0, noise + 1)
    pf = np.concatenate((pf, rng.uniform(1, fmax * 1.2, k)))
    pm = np.concatenate((pm, rng.uniform(-90, -20, k)))
    o = np.argsort(pf)
    pf, pm = pf[o], pm[o]
    out.append((pf, pm, rng.uniform(-50, 50, pf.size)))
  return out
