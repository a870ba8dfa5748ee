"""C01: known modes are recovered from audio, whatever the analysis settings"""
import warnings

import numpy as np

from sample import sample as smp
from vf import audio
from vf.core import Check

CHECK = Check(
    "C01",
    rule="synthetic sounds of 1-4 separated damped partials with known "
    "parameters, under random sampling rate, window, FFT size and hop, for "
    "each combination of padding, direction and window parity. Recovery is "
    "judged on batches of sounds of one combination: at least 95% of the "
    "partials must be found once within 0.03-0.06 bins, 1-12% of decay and 6-10% of "
    "amplitude (the clean code recovers all). Non-trivial: every "
    "sound.",
    require={"partials": 300, "recovered": 250, "batches": 16, "scaled": 20,
             "default-settings": 6},
    assumptions=["partials at least 12 window bandwidths apart, decays from 6 "
                 "to 30 windows, amplitudes within 12 dB",
                 "resolution tolerances calibrated on the clean tree with "
                 "a factor of two or more of margin"],
)


def sound(rng, w, fs, k=None):
  k = k or int(rng.integers(1, 5))
  wd = w / fs
  sep = 12 * fs / w
  f = []
  top = min(.42 * fs, 15000)
  for _ in range(200):
    c = rng.uniform(max(60, 6 * fs / w), top)
    if all(abs(c - g) > sep for g in f):
      f.append(c)
    if len(f) == k:
      break
  k = len(f)
  f = np.array(f)
  d = 10**rng.uniform(np.log10(6 * wd), np.log10(30 * wd), k)
  a = 10**rng.uniform(-.6, 0, k) * 10**rng.uniform(-1, .5)
  n = int(fs * max(.4 * d.max() + 4 * wd, 12 * wd)) + int(rng.integers(0, 50))
  t = np.arange(n) / fs
  return t, f, d, a, audio.modal(t, f, d, a, rng.uniform(0, 2 * np.pi, k))


def settings(rng, padded, reverse, odd):
  fs = [8000, 16000, 22050., 44100, 48000][rng.integers(5)]
  n = int(2**np.round(np.log2(fs * .046 * 2**rng.uniform(-.7, .7))))
  if rng.random() < .3:
    n = 2 * int(n * rng.uniform(.5, .9))
  w = int(rng.uniform(.75, 1) * n) // 2 * 2 - int(odd)
  if rng.random() < .3:
    n *= int(rng.choice([2, 4, 8]))
  win = [np.hanning, np.blackman][rng.integers(2)](w)
  if rng.random() < .5:
    win = win * rng.uniform(.1, 10)
  h = max(1, int(w * rng.uniform(.05, .3)))
  return fs, {
      "sinusoidal__n": n,
      "sinusoidal__w": win,
      "sinusoidal__padded": padded,
      "sinusoidal__t": -90,
      "sinusoidal__tracker__fs": fs,
      "sinusoidal__tracker__h": h,
      "sinusoidal__tracker__reverse": reverse
  }


def clip_energy(m, dur):
  return m[2]**2 * m[1] / 4 * (1 - np.exp(-4 * dur / m[1]))


def judge(mon, m, f, d, a, bw, binw, padded):
  """How many true partials were recovered within the resolution"""
  good = 0
  why = []
  e = a * a * d / 4
  tol_d, tol_a = (.12, .1) if padded else (.01, .06)
  for i in range(f.size):
    j = np.flatnonzero((np.abs(m[0] - f[i]) < 3 * bw) &
                       (m[2]**2 * m[1] / 4 > .1 * e[i]))
    mon.event("partials")
    if j.size != 1:
      why.append(f"{f[i]:.1f} Hz found {j.size} times")
      continue
    j = j[0]
    if abs(m[0, j] - f[i]) > (.06 if padded else .03) * bw:
      why.append(f"frequency {m[0, j]} want {f[i]}")
    elif abs(m[1, j] / d[i] - 1) > tol_d:
      why.append(f"decay {m[1, j]} want {d[i]}")
    elif abs(m[2, j] / a[i] - 1) > tol_a:
      why.append(f"amplitude {m[2, j]} want {a[i]}")
    else:
      good += 1
      mon.event("recovered")
  return good, why


def envelope_db(x, k=6):
  n = x.size // k
  return 10 * np.log10(np.array(
      [np.mean(x[i * n:(i + 1) * n]**2) for i in range(k)]) + 1e-30)


@CHECK.kind("batch", quick=64, thorough=800)
def batch(rng, mon, spec):
  i = spec["i"]
  padded, reverse, odd = bool(i & 1), bool(i & 2), bool(i & 4)
  good = tot = extra = env = sounds = 0
  why = []
  for _ in range(10):
    fs, cfg = settings(rng, padded, reverse, odd)
    w = cfg["sinusoidal__w"].size
    t, f, d, a, x = sound(rng, w, fs)
    # noise floor of the analysis 45 dB below the weakest partial
    cfg["sinusoidal__t"] = 20 * np.log10(a.min()) - 6 - 45
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      model = smp.SAMPLE(**cfg)
      if rng.random() < .5:
        model.fit(x)
      else:
        model = smp.SAMPLE().fit(x, **cfg)
    m = model.param_matrix_
    g, y = judge(mon, m, f, d, a, fs / w, fs / cfg["sinusoidal__n"], padded)
    good += g
    tot += f.size
    why += y
    # other modes
    near = np.zeros(m.shape[1], bool)
    for v in f:
      near |= np.abs(m[0] - v) < 3 * fs / w
    dur = x.size / fs
    others = clip_energy(m[:, ~near], dur)
    extra += bool(others.size) and others.max() > .3 * clip_energy(
        np.array([f, d, a]), dur).min()
    r = model.predict(t)
    err = np.abs(envelope_db(r) - envelope_db(x))
    loud = envelope_db(x) > envelope_db(x).max() - 30
    env += np.max(err[loud]) < 2
    sounds += 1
    mon.case((fs, w, cfg["sinusoidal__n"], cfg["sinusoidal__tracker__h"],
              f.tolist()))
  mon.event("batches")
  det = f"padded={padded} reverse={reverse} odd={odd}"
  mon.check("partials-recovered", good >= .95 * tot - 1,
            lambda: f"{det}: {good}/{tot}; {why[:6]}")
  mon.check("no-spurious-mode", extra <= .1 * sounds,
            lambda: f"{det}: spurious modes in {extra}/{sounds} sounds")
  mon.check("energy-envelope", env >= .9 * sounds,
            lambda: f"{det}: envelope within 2 dB in {env}/{sounds} sounds")


@CHECK.kind("scaling", quick=32, thorough=400)
def scaling(rng, mon, spec):
  fs, cfg = settings(rng, *(rng.random(3) < .5))
  t, f, d, a, x = sound(rng, cfg["sinusoidal__w"].size, fs, 2)
  thr = 20 * np.log10(a.min()) - 40
  c = float(10**(rng.uniform(-4, 3) if rng.random() < .6 else
                 rng.uniform(-9, -4)))
  ms = []
  for g in (1., c):
    ms.append(
        smp.SAMPLE(**{
            **cfg, "sinusoidal__t": thr + 20 * np.log10(g),
            "sinusoidal__tracker__peak_threshold": thr + 20 * np.log10(g)
        }).fit(g * x).param_matrix_)
  mon.event("scaled")
  det = f"scale {c} {audio.brief(cfg)}"
  # modes next to the thresholds may come and go with rounding
  for v in f:
    j, k = (np.flatnonzero(np.abs(m[0] - v) < 2 * fs / cfg["sinusoidal__w"].size)
            for m in ms)
    if j.size == 1 and k.size == 1:
      p, q = ms[0][:, j[0]], ms[1][:, k[0]]
      mon.close("frequency-invariant", q[0], p[0], 1e-6, 0, det)
      mon.close("decay-invariant", q[1], p[1], 5e-3, 0, det)
      mon.close("amplitude-scales", q[2], c * p[2], 5e-3, 0, det)
    else:
      mon.check("same-modes", abs(j.size - k.size) <= 1, det)
  mon.case((c, f.tolist()))


@CHECK.kind("defaults", quick=8, thorough=80)
def defaults(rng, mon, spec):
  """The default settings, at 44.1 kHz"""
  reverse = spec["i"] % 2 == 1
  t, f, d, a, x = sound(rng, 2001, 44100, 3)
  model = smp.SAMPLE(sinusoidal__tracker__reverse=reverse).fit(x)
  g, why = judge(mon, model.param_matrix_, f, d, a, 44100 / 2001, 44100 / 2048,
                 False)
  mon.event("default-settings")
  mon.check("default-recovery", g >= f.size - 1,
            lambda: f"reverse={reverse}: {g}/{f.size} {why}")
  mon.case(f.tolist())
