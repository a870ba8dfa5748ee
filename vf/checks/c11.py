"""C11: the beat model is the two-partial sum it claims to be"""
import copy
import pickle

import numpy as np

from sample.beatsdrop import Beat, ExponentialDecay, ModalBeat
from vf.core import Check

CHECK = Check(
    "C11",
    rule="random amplitudes, frequencies, decays and phases (equal, swapped, "
    "zero, negative and extreme ones included), constant or functions of "
    "time, on fine time axes; each quantity is compared with the direct "
    "complex sum of the two partials and its derivatives. Non-trivial: more "
    "than one time step.",
    require={"uneven-axes": 20, "samples": 50000, "models": 250, "waveforms": 60,
             "derivatives": 120, "callable-parameters": 60, "copies": 60,
             "scalar-times": 40, "multi-outputs": 250},
)


def rnd(rng):
  a0, a1 = 10**rng.uniform(-2, 1, 2)
  f0 = rng.uniform(20, 4000)
  f1 = f0 + rng.uniform(-30, 30) if rng.random() < .8 else rng.uniform(20, 4000)
  d0, d1 = 10**rng.uniform(-1.3, 1.3, 2)
  p0, p1 = rng.uniform(-7, 7, 2)
  z = rng.integers(0, 14)
  if z == 0:
    a1 = a0
  elif z == 1:
    a1 = 0.
  elif z == 2:
    f1 = f0
  elif z == 3:
    d1 = d0
  elif z == 4:
    p1 = p0
  elif z == 5:
    a0, a1 = int(np.ceil(a0)), int(np.ceil(a1)) + 1
  elif z == 6:
    a0 = 0.
  return a0, a1, f0, f1, d0, d1, p0, p1


class Decay:
  """A user's own amplitude function"""

  def __init__(self, a, d):
    self.a, self.d = a, d

  def __call__(self, t):
    return self.a * np.exp(-2 * np.asarray(t) / self.d)

  def dt(self, t):
    return -2 / self.d * self(t)


@CHECK.kind("model", quick=300, thorough=8000)
def model(rng, mon, spec):
  p = rnd(rng)
  a0, a1, f0, f1, d0, d1, p0, p1 = p
  style = ["modal", "modal", "constant", "callable", "functions"][
      rng.integers(5)]
  if style == "modal":
    b = ModalBeat(*p)
  elif style == "constant":
    b = Beat(a0, a1, f0, f1, p0, p1)
    d0 = d1 = np.inf
  elif style == "callable":
    b = Beat(Decay(a0, d0), Decay(a1, d1), f0, f1, p0, p1)
  else:
    mon.event("callable-parameters")
    b = Beat(ExponentialDecay(a0, d0), ExponentialDecay(a1, d1),
             lambda t: np.full(np.shape(t), f0), f1, p0,
             lambda t: np.full(np.shape(t), float(p1)))
  if style == "callable":
    mon.event("callable-parameters")
  mon.event("models")
  T = float(rng.choice([.02, .2, 1.]))
  n = int(rng.choice([2, 50, 1500, 3000]))
  t = np.arange(n) * (T / n)
  det = f"{style} {p} n={n} T={T}"
  A0 = a0 * np.exp(-2 * t / d0)
  A1 = a1 * np.exp(-2 * t / d1)
  th0 = 2 * np.pi * f0 * t + p0
  th1 = 2 * np.pi * f1 * t + p1
  z0, z1 = A0 * np.exp(1j * th0), A1 * np.exp(1j * th1)
  s = z0 + z1
  top = np.abs(A0) + np.abs(A1)
  with np.errstate(all="ignore"), mon.frozen("time-untouched", t, detail=det):
    out = {k: np.asarray(getattr(b, k)(t)) for k in b.variables}
    mon.event("samples", n)
    # envelope
    am = np.broadcast_to(out["am"], n)
    mon.check("envelope", np.all(
        np.abs(am**2 - np.abs(s)**2) <= 1e-9 * top**2),
              lambda: f"{det}: {np.max(np.abs(am - np.abs(s)))}")
    mon.check("envelope-range", np.all(am >= np.abs(A0 - A1) * (1 - 1e-9) -
                                       1e-7 * top) and
              np.all(am <= top * (1 + 1e-9)), det)
    mon.close("squared-semi-envelope", np.broadcast_to(out["alpha2"], n),
              np.abs(s)**2 / 4, rtol=0, atol=1e-9 * top[0]**2 + 1e-300,
              detail=det)
    # instantaneous frequency of the sum, exactly, where it is defined
    w0 = 2 * np.pi * f0
    w1 = 2 * np.pi * f1
    ds = z0 * (-2 / d0 + 1j * w0) + z1 * (-2 / d1 + 1j * w1)
    ok = np.abs(s) > 1e-3 * top
    if ok.any() and n > 1:
      inst = np.imag(ds[ok] * np.conj(s[ok])) / np.abs(s[ok])**2
      fm = np.broadcast_to(out["fm"], n)[ok]
      mon.event("derivatives")
      bw = abs(w0 - w1) + 2 / d0 + 2 / d1
      mon.check("instantaneous-frequency", np.all(
          np.abs(fm - inst) <= 1e-7 * (w0 + w1) + 1e-6 * bw *
          (top[ok] / np.abs(s[ok]))**2), lambda: f"{det}: "
                f"{np.max(np.abs(fm - inst))} fm {fm[0]} want {inst[0]}")
    # parts
    for k, want in (("a0", A0), ("a1", A1), ("f0", f0), ("f1", f1), ("p0", p0),
                    ("p1", p1), ("a_oln", (A0 + A1) / 2),
                    ("a_hat", (A0 - A1) / 2), ("f_oln", (f0 + f1) / 2),
                    ("f_hat", (f0 - f1) / 2), ("p_oln", (p0 + p1) / 2),
                    ("p_hat", (p0 - p1) / 2), ("w_hat", (w0 - w1) / 2),
                    ("w_oln", (w0 + w1) / 2), ("t", t),
                    ("da0_dt", -2 / d0 * A0), ("da1_dt", -2 / d1 * A1),
                    ("a_oln2", (A0 + A1)**2 / 4), ("a_hat2", (A0 - A1)**2 / 4)):
      mon.close(f"quantity-{k}", np.broadcast_to(out[k], n),
                np.broadcast_to(np.asarray(want, float), n), rtol=1e-9,
                atol=1e-9 * max(1, np.max(np.abs(want))), detail=det)
    # carrier and waveform
    # (not where the partials cancel out between two time steps)
    if (np.all(np.isfinite(out["fm"])) and n >= 1000 and
        np.all(np.abs(A0 - A1) > .05 * top) and abs(w0 - w1) * t[1] < .2):
      fm = np.broadcast_to(out["fm"], n)
      h = t[1]
      d2 = np.abs(np.diff(fm, 2))
      err = h / 12 * np.concatenate(([0], np.cumsum(np.concatenate(
          (d2[:1] + d2[1:2], d2))) + np.max(d2)))
      tol = top * (6 * err + 1e-6 * (1 + np.abs(out["pm"])))
      x = np.broadcast_to(out["x"], n)
      if np.max(err) < .05:
        mon.event("waveforms")
        mon.check("waveform-is-the-sum", np.all(
            np.abs(x - s.real) <= tol), lambda: f"{det}: "
                  f"{np.max(np.abs(x - s.real) - tol)}")
        mon.check("phase-is-the-phase-of-the-sum", np.all(
            np.abs(np.exp(1j * out["pm"]) - s / np.abs(s)) <=
            6 * err + 1e-6 * (1 + np.abs(out["pm"]))), det)
    mon.close("waveform-from-envelope-and-carrier", out["x"],
              out["am"] * np.cos(out["pm"]), rtol=1e-12, detail=det)
    # several quantities at once
    ks = list(rng.choice(b.variables, int(rng.integers(1, 6))))
    many = b.compute(t, output=[str(k) for k in ks])
    mon.event("multi-outputs")
    mon.check("one-array-per-output", len(many) == len(ks), det)
    for k, v in zip(ks, many):
      mon.same("together-as-alone", v, out[k], lambda k=k: f"{det} {k}")
    k = str(rng.choice(b.variables))
    mon.same("compute-by-name", b.compute(t, k), out[k], f"{det} {k}")
    mon.same("again", getattr(b, k)(t), out[k], f"{det} {k}")
    # other times between the same ends, and results that are overwritten
    for v in many:
      if isinstance(v, np.ndarray) and v is not t and v.flags.writeable and \
          not np.shares_memory(v, t):
        v[...] = 0
    mon.same("overwritten-results", b.compute(t, k), out[k], f"{det} {k}")
    if n > 2:
      t2 = np.concatenate((t[:1], np.sort(rng.uniform(0, t[-1], n - 2)), t[-1:]))
      s2 = a0 * np.exp(t2 * (-2 / d0 + 2j * np.pi * f0) + 1j * p0) + a1 * np.exp(
          t2 * (-2 / d1 + 2j * np.pi * f1) + 1j * p1)
      mon.check("other-times", np.all(
          np.abs(b.am(t2)**2 - np.abs(s2)**2) <= 1e-9 * top[0]**2), det)
    # the carrier on a time axis that is not evenly spaced
    if n >= 1000 and np.all(np.abs(A0 - A1) > .05 * top):
      g = np.concatenate(([0.], rng.uniform(.2, 1.8, n - 1))) if \
          rng.random() < .5 else np.concatenate(([0.], np.linspace(.2, 1.8, n - 1)))
      t3 = np.cumsum(g) * (t[-1] / np.sum(g))
      s3 = a0 * np.exp(t3 * (-2 / d0 + 2j * np.pi * f0) + 1j * p0) + a1 * np.exp(
          t3 * (-2 / d1 + 2j * np.pi * f1) + 1j * p1)
      if abs(w0 - w1) * np.max(np.diff(t3)) < .2:
        fm3 = np.broadcast_to(b.fm(t3), n)
        pm3 = np.broadcast_to(b.pm(t3), n)
        acc = np.concatenate(([0.], np.cumsum((fm3[1:] + fm3[:-1]) / 2 *
                                              np.diff(t3))))
        # error of the integral of the modelled frequency
        e3 = np.max(np.abs(np.exp(1j * (acc + np.angle(s3[0]))) -
                           s3 / np.abs(s3)))
        if e3 < .02:
          mon.event("uneven-axes")
          mon.check("phase-on-uneven-axes", np.all(
              np.abs(np.exp(1j * pm3) - s3 / np.abs(s3)) <= 3 * e3 + 1e-6 *
              (1 + np.abs(pm3))), lambda: f"{det} {e3}")
    # swapping the partials
    c = ModalBeat(a1, a0, f1, f0, d1, d0, p1, p0) if style == "modal" else None
    if c is not None:
      mon.close("swap-envelope", c.am(t)**2, am**2, rtol=1e-9,
                atol=1e-9 * top[0]**2, detail=det)
      # overall phase and gain
      g = 10**rng.uniform(-3, 3)
      e = ModalBeat(g * a0, g * a1, f0, f1, d0, d1, p0, p1)
      mon.close("gain-scales-envelope", e.am(t), g * am, rtol=1e-9,
                atol=1e-7 * g * top[0], detail=det)
      mon.check("gain-keeps-frequency", np.all(
          (np.abs(e.fm(t) - out["fm"]) <= 1e-6 * (w0 + w1) * (
              top / np.maximum(np.abs(s), 1e-30)))[ok]), det)
    # at one instant
    i = int(rng.integers(n))
    u = float(t[i])
    mon.event("scalar-times")
    mon.check("scalar-time", abs(float(b.am(u))**2 - np.abs(s[i])**2) <=
              1e-9 * top[i]**2 + 1e-300, lambda: f"{det} t={u}")
    # copies
    if style != "functions" and rng.random() < .4:
      mon.event("copies")
      with mon.no_exception("copyable", det):
        for cp in (copy.copy(b), copy.deepcopy(b),
                   pickle.loads(pickle.dumps(b))):
          mon.same("copies-compute-the-same", cp.x(t), out["x"], det)
  mon.case((style, p, n, T), nontrivial=n > 1)


@CHECK.kind("decay", quick=80, thorough=2000)
def decay(rng, mon, spec):
  a, d = 10**rng.uniform(-4, 3) * rng.choice([-1, 1]), 10**rng.uniform(-2, 2)
  e = ExponentialDecay(a, d)
  n = int(rng.integers(1, 400))
  t = rng.uniform(-.5, 3, n).reshape([(n,), (1, n), (n, 1)][rng.integers(3)])
  want = a * np.exp(-2 * t / d)
  det = f"{a} {d} {t.shape}"
  mon.event("samples", n)
  with mon.frozen("time-untouched", t, detail=det):
    mon.close("decay", e(t), want, rtol=1e-12, detail=det)
    mon.close("decay-derivative", e.dt(t), -2 / d * want, rtol=1e-12,
              detail=det)
    h = 1e-6 * d
    mon.close("decay-derivative-numeric", e.dt(t), (e(t + h) - e(t - h)) /
              (2 * h), rtol=1e-5, detail=det)
    buf = np.empty(t.shape)
    r = e(t, out=buf)
    mon.check("decay-out", r is buf, det)
    mon.same("decay-out", buf, e(t), det)
    r = e.dt(t, out=buf)
    mon.same("decay-out", buf, e.dt(t), det)
  mon.close("decay-scalar", e(float(t.flat[0])), want.flat[0], rtol=1e-12,
            detail=det)
  mon.case((a, d, t.shape))


@CHECK.kind("errors", quick=1, thorough=1)
def errors(rng, mon, spec):
  """Wrong requests are rejected"""
  b = ModalBeat()
  for f in (lambda: b.nonsense, lambda: b.compute(np.arange(3), ["nope"]),
            lambda: Beat(a0=lambda t: t)):
    try:
      f()
      mon.fail("wrong-request-rejected", repr(f))
    except (AttributeError, KeyError):
      pass
    mon.clauses["wrong-request-rejected"] += 1
  mon.case("errors")
