"""Workload audio"""
import numpy as np

HOSTILE = ("noise", "silence", "clicks", "dc", "step", "clipped", "short",
           "quiet", "loud", "int16", "float32", "chirp", "two-hits", "steady",
           "crescendo", "modal", "noisy-modal", "bursts", "alternating",
           "beating", "almost-silence", "modal-silence")


def modal(t, f, d, a, p=None):
  y = np.zeros(t.size)
  for i in range(len(f)):
    ph = 0. if p is None else p[i]
    y += a[i] * np.exp(-2 * t / d[i]) * np.cos(2 * np.pi * f[i] * t + ph)
  return y


def rnd_modes(rng, k, fs, dmin=.03, dmax=1.5):
  return (np.sort(rng.uniform(60, .42 * fs, k)),
          10**rng.uniform(np.log10(dmin), np.log10(dmax), k),
          10**rng.uniform(-1.5, 0, k), rng.uniform(0, 2 * np.pi, k))


def hostile(rng, fs, kind=None, n=None):
  """One finite signal of a hostile family"""
  kind = kind or str(rng.choice(HOSTILE))
  n = n or int(fs * rng.uniform(.15, .8))
  if kind == "short":
    n = int(rng.choice([1, 2, 10, 100, rng.integers(1, 1500)]))
  t = np.arange(n) / fs
  k = int(rng.integers(1, 6))
  f, d, a, p = rnd_modes(rng, k, fs)
  x = modal(t, f, d, a, p)
  if kind == "noise":
    x = rng.normal(size=n)
  elif kind == "silence":
    x = np.zeros(n)
  elif kind == "clicks":
    x = np.zeros(n)
    x[rng.integers(0, n, 5)] = rng.normal(size=5)
  elif kind == "dc":
    x = np.full(n, rng.normal())
  elif kind == "step":
    x = (t > rng.uniform(0, t[-1])).astype(float)
  elif kind == "clipped":
    x = np.clip(8 * x, -1, 1)
  elif kind == "quiet":
    x = x * 10.**rng.integers(-13, -3)
  elif kind == "loud":
    x = x * 1e7
  elif kind == "int16":
    x = np.round(x / (np.max(np.abs(x)) + 1e-9) * 32767).astype(np.int16)
  elif kind == "float32":
    x = x.astype(np.float32)
  elif kind == "chirp":
    x = np.exp(-t) * np.sin(2 * np.pi *
                            (100 * t + rng.uniform(-1, 1) * fs / 4 * t * t))
  elif kind == "two-hits":
    x = np.zeros(n)
    t0s = np.sort(rng.uniform(0, t[-1], int(rng.integers(2, 5))))
    for t0 in t0s:
      u = np.maximum(t - t0, 0)
      x += (t >= t0) * 10**rng.uniform(-2, 1) * modal(u, f, d * .2, a, p)
      if rng.random() < .5:
        c = int((t0 + rng.uniform(.05, .2)) * fs)
        x[c:] = 0
  elif kind == "steady":
    x = modal(t, f, np.full(k, 1e9), a, p)
  elif kind == "crescendo":
    x = x[::-1].copy()
  elif kind == "noisy-modal":
    x = x + 10**rng.uniform(-4, -1) * rng.normal(size=n)
  elif kind == "bursts":
    x = np.zeros(n)
    i = 0
    g = 10**rng.uniform(-2, 0)
    r = 10**rng.uniform(-.2, .6)
    while i < n:
      m = int(fs * rng.uniform(.03, .15))
      u = np.arange(min(m, n - i)) / fs
      x[i:i + u.size] = g * modal(u, f, np.full(k, rng.uniform(.02, .3)), a, p)
      g *= r
      i += m + int(fs * rng.uniform(.01, .15))
  elif kind == "alternating":
    x = np.where(np.arange(n) % 2, 1., -1.)
  elif kind == "beating":
    f2 = f[0] + rng.uniform(2, 15)
    x = modal(t, [f[0], f2], [1., rng.uniform(.5, 2)], [1, rng.uniform(.3, 1)])
  elif kind == "almost-silence":
    x = 1e-16 * rng.normal(size=n)
  elif kind == "modal-silence":
    x[n // 3:] = 0
  return kind, x


def config(rng, fs, small=True):
  """Random valid analysis configuration, as keyword arguments of SAMPLE"""
  n = int(rng.choice([256, 512, 1024, 2048] if small else [1024, 2048, 4096]))
  k = int(rng.integers(n // 3, n + 1))
  w = [np.hamming, np.hanning, np.blackman][rng.integers(3)](k)
  return {
      "sinusoidal__n": n,
      "sinusoidal__w": w,
      "sinusoidal__t": float(rng.choice([-120, -90, -60])),
      "sinusoidal__padded": bool(rng.random() < .5),
      "sinusoidal__tracker__fs": fs,
      "sinusoidal__tracker__h": int(rng.choice([32, 64, 100, 128, 256])),
      "sinusoidal__tracker__max_n_sines": int(rng.choice([3, 20, 100])),
      "sinusoidal__tracker__min_sine_dur": float(rng.choice([0, .01, .04])),
      "sinusoidal__tracker__reverse": bool(rng.random() < .5),
      "sinusoidal__tracker__frequency_bounds": [
          (20, 16000), (None, None), (200., 2000.)][rng.integers(3)],
      "sinusoidal__tracker__peak_threshold": float(rng.choice([-90, -60])),
      "sinusoidal__tracker__merge_strategy": str(
          rng.choice(["average", "single"])),
      "sinusoidal__tracker__strip_t": [None, .1, .5][rng.integers(3)],
  }


def brief(cfg):
  return {k.rsplit("__", 1)[-1]: (len(v) if k.endswith("__w") else v)
          for k, v in cfg.items()}
