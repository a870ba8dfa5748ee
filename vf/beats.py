"""Beat-aware models for workloads: bounded regressors and decision-makers"""
import os
import time

import numpy as np

from sample import hinge
from sample.beatsdrop import decision, regression


class QuickBeat(regression.DualBeatRegression):
  """Dual regression with a bounded number of evaluations"""

  def fit(self, t, a, f, **kwargs):
    return super().fit(t, a, f, max_nfev=6, **kwargs)


class Always(decision.BeatDecisor):

  def decide_beat(self, i, t, track, beatsdrop, params):
    return True


class Odd(decision.BeatDecisor):

  def decide_beat(self, i, t, track, beatsdrop, params):
    return i % 2 == 1


class Seen(decision.BeatDecisor):
  """Decides on the data and stores what it saw"""

  def decide_beat(self, i, t, track, beatsdrop, params):
    self.intermediate.append("seen", (i, float(t[0]), len(t)), index=i)
    return bool(np.round(np.mean(track["freq"])) % 2)


def delay(key, scale):
  """Deterministic pseudo-random delay"""
  s = float(os.environ.get("VF_DELAY", "0"))
  if s:
    u = np.random.default_rng([int(s * 1e6) % 99991, key]).random()
    time.sleep(scale * s * u)


class Sleepy(decision.AlmostNotABeatDecisor):
  """Default strategy, with a delay that scrambles the completion order"""

  def decide_beat(self, i, t, track, beatsdrop, params):
    delay(i, 1)
    return super().decide_beat(i, t, track, beatsdrop, params)


class Faulty(decision.AlmostNotABeatDecisor):
  """Fails on one track"""

  def __init__(self, th=1, intermediate=None, bad=0, **kwargs):
    self.bad = bad
    super().__init__(th=th, intermediate=intermediate, **kwargs)

  def decide_beat(self, i, t, track, beatsdrop, params):
    delay(i, 1)
    if i == self.bad:
      raise ZeroDivisionError(f"injected {i}")
    return super().decide_beat(i, t, track, beatsdrop, params)


def sound(rng, fs, n, k=None, beating=.5):
  """Well separated decaying partials, some in beating pairs"""
  t = np.arange(n) / fs
  k = int(rng.integers(2, 6)) if k is None else k
  grid = np.linspace(.05, .42, k + 1)[:k] * fs
  y = np.zeros(n)
  for f in grid + rng.uniform(0, .02 * fs, k):
    d = 10**rng.uniform(-.9, -.1)
    a = 10**rng.uniform(-1, 0)
    y += a * np.exp(-2 * t / d) * np.cos(2 * np.pi * f * t)
    if rng.random() < beating:
      f2 = f + rng.uniform(5, 25)
      y += a * rng.uniform(.3, 1) * np.exp(-2 * t / (d * rng.uniform(
          .7, 1.4))) * np.cos(2 * np.pi * f2 * t + rng.uniform(0, 6))
  return y + 1e-7 * rng.normal(size=n)


def config(rng, fs, max_n_sines=None):
  n = 512
  k = int(rng.integers(300, n + 1))
  return {
      "sinusoidal__n": n,
      "sinusoidal__w": np.hamming(k),
      "sinusoidal__t": -80.,
      "sinusoidal__padded": bool(rng.random() < .5),
      "sinusoidal__tracker__fs": fs,
      "sinusoidal__tracker__h": int(rng.choice([64, 100, 128])),
      "sinusoidal__tracker__max_n_sines":
          int(rng.choice([4, 12])) if max_n_sines is None else max_n_sines,
      "sinusoidal__tracker__min_sine_dur": .06,
      "sinusoidal__tracker__reverse": bool(rng.random() < .6),
      "sinusoidal__tracker__strip_t": [None, .2][rng.integers(2)],
  }


class StubBeat(regression.BeatRegression):
  """Instantaneous beat regression: parameters are a function of the data,
  and some of them are not acceptable"""

  def __init__(self, fs=100, invalid=.2, salt=0):
    super().__init__(fs=fs)
    self.invalid = invalid
    self.salt = salt

  def fit(self, t, a, f, **kwargs):
    self.params_ = stub_params(t, a, f, self.fs, self.invalid, self.salt)
    return self


def stub_params(t, a, f, fs, invalid, salt):
  rng = np.random.default_rng([
      salt, len(t), int(abs(t[0]) * 1e6), int(abs(a[0]) * 1e6),
      int(abs(f[-1]) * 1e3), int(fs)])
  p = np.concatenate((10**rng.uniform(-2, 0, 2), rng.uniform(50, 3000, 2),
                      10**rng.uniform(-2, 1, 2), rng.uniform(-3, 3, 2)))
  if rng.random() < .15:
    p[3] = p[2]
  if rng.random() < .15:
    p[int(rng.integers(2))] *= [0., -1., 1e-17][rng.integers(3)]
  if rng.random() < invalid:
    p[int(rng.integers(8))] = [np.nan, np.inf, -1.][rng.integers(3)]
  return tuple(p)


class Threshold(decision.BeatDecisor):
  """Decides on frequency, decay and amplitude of the linear fit"""

  def __init__(self, mod=2, intermediate=None, **kwargs):
    self.mod = mod
    super().__init__(intermediate=intermediate, **kwargs)

  def decide_beat(self, i, t, track, beatsdrop, params):
    f, d, a = params
    return bool(np.isfinite(d + a) and int(1000 * f) % self.mod == 0)


class HalfHinge(hinge.HingeRegression):
  """Some of the tracks have no acceptable parameters"""

  def fit(self, x, y, **kwargs):
    super().fit(x, y, **kwargs)
    h = int(abs(np.ravel(y)[0]) * 1e6) % 9
    if h < 3:
      self.coeffs_ = np.array(self.coeffs_, dtype=float)
      self.coeffs_[1] = [0., 3., np.nan][h]
    return self
