"""C19: random sounds with beats"""
import random

import numpy as np
from scipy import stats

from sample import psycho
from sample.evaluation.random import BeatsGenerator
from vf.core import Check

CHECK = Check(
    "C19",
    rule="generators with random declared ranges and seeds, called in bulk, "
    "one at a time and interleaved: every sample is checked against its "
    "declared ranges, every sound against an independent rendering of its "
    "returned parameters, every stream against a second generator with the "
    "same seed, and large samples against the declared distributions. "
    "Non-trivial: every generator.",
    require={"generators": 65, "triplets": 3000, "sounds": 65,
             "clean-sounds": 29, "streams": 65, "distributions": 7,
             "beta-samples": 300, "negative-beats": 200, "only-beats": 10},
    assumptions=["the frequency range is wider than the largest declared "
                 "distances between partials",
                 "distributions are judged on samples of 4000 by "
                 "Kolmogorov-Smirnov tests at a significance of 1e-9"],
)


def options(rng):
  o = {}
  if rng.random() < .7:
    o["f_min"] = float(rng.uniform(100, 400))
    o["f_max"] = float(o["f_min"] * rng.uniform(4, 20) + 400)
  if rng.random() < .5:
    o["beat_min"] = float(rng.uniform(.5, 5))
    o["beat_max"] = float(o["beat_min"] + rng.uniform(1, 20))
  if rng.random() < .5:
    o["delta_min"] = float(rng.uniform(.2, 1.5))
    o["delta_max"] = float(o["delta_min"] + rng.uniform(.1, 2))
  if rng.random() < .5:
    o["decay_min"] = float(rng.uniform(.05, 1))
    o["decay"] = float(o["decay_min"] + rng.uniform(.05, 2))
  if rng.random() < .5:
    o["amp_min"] = float(rng.uniform(-40, -1))
  if rng.random() < .5:
    o["snr"] = float(rng.choice([0, 20, 300, rng.uniform(-10, 80)]))
  if rng.random() < .3:
    o["onlybeat"] = True
  if rng.random() < .3:
    # A range that beats fill
    w = float(rng.uniform(40, 200))
    o["f_min"] = float(rng.uniform(100, 400))
    o["f_max"] = o["f_min"] + w
    o["beat_max"] = w * float(rng.uniform(.3, .8))
    o["beat_min"] = o["beat_max"] * float(rng.uniform(.2, .9))
    o["delta_max"] = float(rng.uniform(.005, .03))
    o["delta_min"] = o["delta_max"] * float(rng.uniform(.2, .9))
    if rng.random() < .5:
      o["f_a"], o["f_b"] = (4., .5)[::1 if rng.random() < .5 else -1]
  for k in ("f", "beat", "delta"):
    if rng.random() < .3:
      o[k + "_a"], o[k + "_b"] = (float(v) for v in rng.uniform(.7, 6, 2))
  return o


DEF = dict(f_min=200, f_max=2000, f_a=2, f_b=2, amp_min=-10, decay_min=.5,
           decay=1, onlybeat=False, beat_min=1.8, beat_max=18, beat_a=2,
           beat_b=2, delta_min=1.5, delta_max=4, delta_a=2, delta_b=4, snr=45)


def flat(v):
  """Numbers of a nested result, in order"""
  if isinstance(v, (tuple, list)):
    return np.concatenate([flat(i) for i in v]) if v else np.empty(0)
  return np.ravel(v).astype(float)


def triplets(mon, c, f, d, a, what):
  """Declared ranges of three arrays of triplets"""
  e = 1e-6
  f, d, a = (np.reshape(v, (-1, 3)) for v in (f, d, a))
  mon.event("triplets", len(f))
  mon.check("frequencies-in-range",
            bool(np.all(f >= c["f_min"] * (1 - e)) and
                 np.all(f <= c["f_max"] * (1 + e))),
            {**what, "min": f.min(), "max": f.max()})
  beat = np.abs(f[:, 1] - f[:, 0])
  mon.event("negative-beats", int(np.sum(f[:, 1] < f[:, 0])))
  mon.check("beats-in-range",
            bool(np.all(beat >= c["beat_min"] * (1 - e)) and
                 np.all(beat <= c["beat_max"] * (1 + e))),
            {**what, "min": beat.min(), "max": beat.max()})
  b = psycho.hz2bark(f)
  delta = np.abs(b[:, 2] - b[:, 0])
  mon.check("distance-in-range",
            bool(np.all(delta >= c["delta_min"] - 1e-5) and
                 np.all(delta <= c["delta_max"] + 1e-5)),
            {**what, "min": delta.min(), "max": delta.max()})
  mon.check("decays-in-range",
            bool(np.all(d >= c["decay_min"])) and bool(np.all(np.isfinite(d))),
            {**what, "min": d.min()})
  sine = 10**(c["snr"] / 20)
  sine /= 1 + sine
  mon.close("amplitudes-total", np.sum(a, 1), np.full(len(a), sine),
            rtol=1e-9, atol=0, detail=what)
  if c["onlybeat"]:
    mon.event("only-beats", len(a))
    mon.check("only-beat", not np.any(a[:, 2]), what)
    a = a[:, :2]
  mon.check("amplitudes-in-range", bool(
      np.all(a > 0) and np.all(a.min(1) / a.max(1) >=
                               10**(c["amp_min"] / 20) * (1 - 1e-9))),
            {**what, "min": a.min()})


def render(n, fs, f, d, a, p):
  t = np.arange(n) / fs
  return sum(a[i] * np.exp(-2 * t / d[i]) * np.cos(2 * np.pi * f[i] * t + p[i])
             for i in range(3)) if n else np.zeros(0)


def state():
  s = np.random.get_state()
  return repr(s[0]), s[1].tobytes(), s[2:], random.getstate()


@CHECK.kind("generator", quick=130, thorough=2500)
def generator(rng, mon, spec):
  o = options(rng)
  c = {**DEF, **o}
  seed = int(rng.integers(2**32))
  what = {"options": o, "seed": seed}
  mon.case(("gen", tuple(sorted(o))))
  before = state()
  byrng = rng.random() < .4

  def make():
    return BeatsGenerator(
        **o, **({"rng": np.random.default_rng(seed)} if byrng else
                {"seed": seed}))

  g = make()
  mon.event("generators")
  mon.check("options-kept", all(getattr(g, k) == v for k, v in c.items()),
            what)
  n = int(rng.integers(1, 40))
  f, d, a = g.freqs(size=n), g.decays(size=n), g.amps(size=n)
  mon.check("bulk-size", len(f) == len(d) == len(a) == n, what)
  triplets(mon, c, f, d, a, what)
  # Streams: one history, differently grouped calls, interleaved generators
  g1, g2 = make(), make()
  names = rng.choice(["freqs", "decays", "amps", "noise", "audio"], 8)
  fs = float(rng.choice([8000, 11025, 44100]))
  dur = float(rng.uniform(0, .05))
  kws = {"noise": {"nsamples": 7}, "audio": {"dur": dur, "fs": fs}}
  r1, r2 = [], []
  for m in names:
    k = int(rng.integers(0, 4))
    kw = kws.get(m, {})
    bulk = getattr(g1, m)(size=k, **kw)
    mon.check("bulk-size", len(bulk) == k, {**what, "method": m, "size": k})
    one = [getattr(g2, m)(**kw) for _ in range(k)]
    r1.append(flat(list(bulk)))
    r2.append(flat(one))
    mon.check("bulk-is-repeated-single", np.array_equal(r1[-1], r2[-1]),
              {**what, "method": m, "size": k})
  mon.event("streams")
  g3 = make()
  seq = [len(r) for r in r1]
  again = [getattr(g3, m)(**kws.get(m, {})) for m in names]
  g3, g4 = make(), make()
  other = BeatsGenerator(seed=seed + 1)
  a3, a4 = [], []
  for m in names:
    a3.append(getattr(g3, m)(**kws.get(m, {})))
    other.audio(dur=.001)
    np.random.random()  # Somebody else's randomness
    a4.append(getattr(g4, m)(**kws.get(m, {})))
  mon.check("seed-decides", np.array_equal(flat(again), flat(a3)) and
            np.array_equal(flat(a3), flat(a4)), {**what, "calls": names, "n": seq})
  if not np.array_equal(flat(again), np.zeros(0)):
    mon.check("streams-advance", not np.array_equal(
        flat(g3.freqs()), flat(g3.freqs())), what)
  np.random.set_state((before[0].strip("'"), np.frombuffer(
      before[1], np.uint32), *before[2]))
  v = make()
  v.audio(dur=dur, fs=fs, size=2)
  mon.check("global-state-untouched", state() == before, what)


@CHECK.kind("sound", quick=130, thorough=2500)
def sound(rng, mon, spec):
  o = options(rng)
  clean = rng.random() < .5
  if clean:
    o["snr"] = float(rng.choice([250., 300.]))
  c = {**DEF, **o}
  seed = int(rng.integers(2**32))
  g = BeatsGenerator(seed=seed, **o)
  fs = float(rng.choice([8000, 11025, 22050, 44100, 777.5]))
  dur = float(rng.choice([0., rng.uniform(0, .1), rng.uniform(0, 1.)]))
  kw = {"fs": fs, "dur": dur}
  if rng.random() < .15:
    dur = 3 * c["decay"]
    del kw["dur"]
    if fs == 44100 and rng.random() < .7:
      del kw["fs"]
  what = {"options": o, "seed": seed, "kw": kw}
  mon.case(("sound", tuple(sorted(o)), fs), nontrivial=dur > 0)
  x, r, (f, d, a, p) = g.audio(**kw)
  mon.event("sounds")
  n = int(dur * fs)
  mon.check("sampling-rate", r == fs, what)
  mon.check("length", np.shape(x) == (n,), {**what, "got": np.shape(x)})
  triplets(mon, c, f, d, a, what)
  mon.check("phases-in-range", np.shape(p) == (3,) and bool(
      np.all(np.asarray(p) >= 0) and np.all(np.asarray(p) < 2 * np.pi)), what)
  if np.shape(x) != (n,):
    return
  e = x - render(n, fs, f, d, a, p)
  noise = 1 / (1 + 10**(c["snr"] / 20))
  if clean:
    mon.event("clean-sounds")
    mon.check("sound-is-described", bool(np.all(np.abs(e) < 1e-9)),
              {**what, "err": np.max(np.abs(e), initial=0)})
  elif n > 200 and c["snr"] < 150:
    # Gaussian noise of the declared level
    s = np.sqrt(np.mean(e**2)) / noise
    k = 7 / np.sqrt(2 * n)
    mon.check("noise-level", 1 - k < s < 1 + k, {**what, "ratio": s, "n": n})
    mon.check("noise-tails", np.max(np.abs(e)) < 8 * noise, what)
    rho = np.sum(e[1:] * e[:-1]) / np.sum(e**2)
    mon.check("noise-white", abs(rho) < 7 / np.sqrt(n), {**what, "rho": rho})


@CHECK.kind("beta", quick=40, thorough=400)
def beta(rng, mon, spec):
  seed = int(rng.integers(2**32))
  g = BeatsGenerator(seed=seed)
  left = float(rng.uniform(-2, 2))
  right = left + float(rng.uniform(.01, 5))
  pos = float(rng.choice([0, .5, 1]))
  a, b = rng.uniform(.5, 6, 2)
  mon.case(("beta", pos))
  what = {"a": a, "b": b, "left": left, "right": right, "positive": pos}
  x = np.array(g.beta_twosides(a=a, b=b, left=left, right=right, positive=pos,
                               size=20))
  mon.event("beta-samples", x.size)
  y = x if pos == 1 else -x
  e = 1e-12
  ok = (y >= left - e) & (y <= right + e)
  if pos == .5:
    ok |= (-y >= left - e) & (-y <= right + e)
  mon.check("beta-range", bool(np.all(ok)), {**what, "x": x})
  mon.check("beta-size", x.shape == (20,), what)
  y = g.beta_twosides(a, b)
  mon.check("beta-defaults", -1 <= y <= 1 and np.ndim(y) == 0, what)


def ks(mon, clause, x, cdf, what):
  r = stats.kstest(x, cdf)
  mon.check(clause, r.pvalue > 1e-9, {**what, "p": r.pvalue,
                                      "statistic": r.statistic})


@CHECK.kind("distributions", quick=14, thorough=120)
def distributions(rng, mon, spec):
  o = options(rng) if rng.random() < .7 else {}
  # Total amplitude hides the distribution of each: judged on ratios
  c = {**DEF, **o}
  seed = int(rng.integers(2**32))
  g = BeatsGenerator(seed=seed, **o)
  what = {"options": o, "seed": seed}
  n = 4000
  mon.case(("dist", tuple(sorted(o))))
  mon.event("distributions")
  f = np.array(g.freqs(size=n))
  d = np.array(g.decays(size=n))
  a = np.array(g.amps(size=n))
  triplets(mon, c, f, d, a, what)
  for i in range(3):
    ks(mon, "decay-distribution", d[:, i],
       stats.expon(c["decay_min"], c["decay"] - c["decay_min"]).cdf, what)
  q = 20 * np.log10(a[:, :2])
  # Difference of two uniform levels: triangular
  ks(mon, "level-distribution", (q[:, 0] - q[:, 1]) / -c["amp_min"],
     stats.triang(.5, -1, 2).cdf, what)
  beat = f[:, 1] - f[:, 0]
  b = psycho.hz2bark(f[:, 0])
  delta = psycho.hz2bark(f[:, 2]) - b
  for name, v in (("beat", beat), ("delta", delta)):
    k = np.sum(v > 0)
    mon.check("either-side", abs(k - n / 2) < 3.2 * np.sqrt(n),
              {**what, "which": name, "positive": k})
  ks(mon, "beat-distribution",
     (1 / np.abs(beat) - 1 / c["beat_max"]) /
     (1 / c["beat_min"] - 1 / c["beat_max"]),
     stats.beta(c["beat_a"], c["beat_b"]).cdf, what)
  ks(mon, "delta-distribution",
     (np.abs(delta) - c["delta_min"]) / (c["delta_max"] - c["delta_min"]),
     stats.beta(c["delta_a"], c["delta_b"]).cdf, what)
  # Range left to the first partial by the two others
  lo = np.maximum(psycho.hz2bark(c["f_min"] - np.minimum(beat, 0)),
                  psycho.hz2bark(c["f_min"]) - np.minimum(delta, 0))
  hi = np.minimum(psycho.hz2bark(c["f_max"] - np.maximum(beat, 0)),
                  psycho.hz2bark(c["f_max"]) - np.maximum(delta, 0))
  ks(mon, "frequency-distribution", (b - lo) / (hi - lo),
     stats.beta(c["f_a"], c["f_b"]).cdf, what)
  p = np.array([g.audio(dur=0)[-1][-1] for _ in range(800)])
  for i in range(3):
    ks(mon, "phase-distribution", p[:, i] / (2 * np.pi),
       stats.uniform.cdf, what)
  v = np.asarray(g.noise(nsamples=n))
  ks(mon, "noise-distribution", v * (1 + 10**(c["snr"] / 20)),
     stats.norm.cdf, what)
