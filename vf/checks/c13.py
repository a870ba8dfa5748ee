"""C13: beat decisions, columns, phases and intermediates stay consistent"""
import numpy as np

from sample import sample as smp
from sample.beatsdrop import decision
from sample.beatsdrop import regression as breg
from sample.beatsdrop import sample as bds
from vf import audio, beats
from vf.checks.c02 import time_axis
from vf.checks.c03 import oracle, tolerance
from vf.core import Check

EPS = np.finfo(float).eps

CHECK = Check(
    "C13",
    rule="beat-aware fits of sounds mixing single and beating partials (and "
    "hostile audio), with six decision strategies, regressions that return "
    "unacceptable values, serial and parallel; columns are rebuilt track by "
    "track from an ordinary fit, an independent beat regression on an "
    "independent time axis, and the recorded decisions. Non-trivial: at least "
    "one track.",
    require={"tracks": 400, "beat-tracks": 120, "single-tracks": 120,
             "dropped-modes": 40, "decisions-saved": 200, "real-regression": 4,
             "resyntheses": 30, "parallel": 1, "decisor-calls": 300},
)

STRATEGIES = ("default", "default-th", "never", "always", "odd", "threshold")


def make_decisor(rng, style):
  if style == "default":
    return decision.AlmostNotABeatDecisor()
  if style == "default-th":
    return decision.AlmostNotABeatDecisor(th=float(10**rng.uniform(2, 15)))
  if style == "never":
    return decision.BeatDecisor()
  if style == "always":
    return beats.Always()
  if style == "odd":
    return beats.Odd()
  return beats.Threshold(mod=int(rng.integers(2, 4)))


def decide(style, d, i, p, single):
  """What the strategy should say"""
  if style.startswith("default"):
    v = [abs(p[2] - p[3]), abs(p[0]), abs(p[1])]
    return all(a > d.th * EPS for a in v)  # NaN is not above
  if style == "threshold":
    return bool(np.isfinite(single[1] + single[2]) and
                int(1000 * single[0]) % d.mod == 0)
  return {"never": False, "always": True, "odd": i % 2 == 1}[style]


@CHECK.kind("columns", quick=96, thorough=2500)
def columns(rng, mon, spec):
  fs = int(rng.choice([8000, 11025]))
  real = rng.random() < .15
  if rng.random() < .7 or real:
    x = beats.sound(rng, fs, int(fs * rng.uniform(.15, .5)),
                    k=int(rng.integers(1, 5 if real else 12)))
    kind = "sound"
    cfg = beats.config(rng, fs, 5 if real else 20)
  else:
    kind, x = audio.hostile(rng, fs)
    cfg = audio.config(rng, fs)
    cfg["sinusoidal__tracker__min_sine_dur"] = .06
  for k, v in (("frequency_bounds", (None, None)), ("reverse", False),
               ("strip_t", None)):
    cfg.setdefault("sinusoidal__tracker__" + k, v)
  style = STRATEGIES[rng.integers(len(STRATEGIES))]
  d = make_decisor(rng, style)
  save = bool(rng.random() < .7)
  d.set_params(intermediate__save=save)
  salt = int(rng.integers(1000))
  invalid = float(rng.choice([0., .3]))
  beat = beats.QuickBeat() if real else beats.StubBeat(invalid=invalid,
                                                       salt=salt)
  reg = beats.HalfHinge() if rng.random() < .4 else None
  jobs = 2 if rng.random() < .06 else 0
  det = (f"{kind} {style} real={real} invalid={invalid} jobs={jobs} "
         f"reg={reg} {audio.brief(cfg)}")
  m = bds.SAMPLEBeatsDROP(beatsdrop=beat, beat_decisor=d, regressor=reg, **cfg)
  plain = smp.SAMPLE(regressor=None if reg is None else beats.HalfHinge(),
                     **cfg)
  try:
    m.fit(x, n_jobs=jobs)
  except ValueError as e:
    # the regression declares that it cannot start
    mon.check("declared-failure-only", real and "unfeasible" in str(e),
              lambda: f"{det}: {e}")
    mon.event("declared-failure")
    return
  mon.event("parallel", jobs > 0)
  mon.event("real-regression", real)
  tracks = m.sinusoidal.tracks_
  plain.fit(x)
  mon.check("same-tracks-as-plain-model",
            len(tracks) == len(plain.sinusoidal.tracks_), det)
  want = []
  singles = []
  decisions = []
  tests = []
  with np.errstate(all="ignore"):
    for i, t in enumerate(tracks):
      ax = time_axis(m, x.size, t, cfg)
      ok = ~np.isnan(t["mag"])
      a = np.asarray(t["mag"])[ok] + 20 * np.log10(2)
      f = np.asarray(t["freq"])[ok]
      h = (beats.HalfHinge() if reg is not None else
           type(plain.regressor)()).fit(ax[:, None], a)
      single = (np.mean(f), -40 * np.log10(np.e) / h.k_, 10**(h.q_ / 20))
      singles.append(single)
      if real:
        b = beats.QuickBeat(fs=fs).fit(t=ax, a=a, f=f)
        p = b.params_
      else:
        p = beats.stub_params(ax, a, f, fs, invalid, salt)
      dec = decide(style, d, i, p, single)
      decisions.append(dec)
      tests.append([abs(p[2] - p[3]), abs(p[0]), abs(p[1])])
      if dec:
        want += [(p[2], p[4], p[0], p[6]), (p[3], p[5], p[1], p[7])]
      else:
        want.append((*single, 0.))
  mon.event("tracks", len(tracks))
  mon.event("beat-tracks", sum(decisions))
  mon.event("single-tracks", len(tracks) - sum(decisions))
  want = np.array(want, dtype=float).reshape(-1, 4).T
  keep = np.isfinite(want).all(axis=0) & (want[1] > 0)
  mon.event("dropped-modes", np.sum(~keep))
  want = want[:, keep]
  got = m.param_matrix_
  if not mon.check("one-or-two-columns-per-track", got.shape == want.shape,
                   lambda: f"{det}: {got.shape} want {want.shape} decisions "
                   f"{decisions}"):
    return
  mon.close("columns-in-track-order", got, want, rtol=1e-6,
            atol=1e-9, detail=det)
  mon.same("phases-are-the-fourth-row", m.phases_, got[3], det)
  if style == "never":
    mon.close("never-beat-is-the-plain-model", got[:3], plain.param_matrix_,
              rtol=1e-12, detail=det)
    mon.same("no-phase-without-beat", got[3], np.zeros(got.shape[1]), det)
  state = d.intermediate.get_state()
  if m.beat_decisor is not d:
    mon.fail("decisor-is-the-users", det)
  if save and tracks:
    mon.event("decisions-saved", len(tracks))
    mon.check("one-decision-per-track",
              [bool(v) for v in state.get("decision", [])] == decisions,
              lambda: f"{det}: {state.get('decision')} want {decisions}")
    if style.startswith("default"):
      mon.close("tests-per-track", np.array(state["test"], dtype=float),
                np.array(tests, dtype=float), rtol=1e-6, atol=1e-9, detail=det)
  else:
    mon.check("nothing-saved-when-off", not state, lambda: f"{det}: {state}")
  # phases go with their modes in the resynthesis
  if got.shape[1] and np.all(np.abs(got) < 1e6):
    t = np.arange(60) / fs
    k = int(rng.integers(1, got.shape[1] + 2))
    e = got[2]**2 * got[1] / 4
    if len(set(e)) == e.size:
      o = np.argsort(-e)[:k]
      y = m.predict(t, n_modes=k)
      f, dd, a, p = got[:, o]
      tol = tolerance(t, f, dd, a)
      mon.event("resyntheses")
      mon.check("phase-belongs-to-its-mode", np.all(
          np.abs(y - oracle(t, f, dd, a, p, False)) <= tol), det)
      # the caller may ask for none
      y = m.predict(t, n_modes=k, phases=None)
      mon.check("no-phases-when-asked", np.all(
          np.abs(y - oracle(t, f, dd, a, 0 * p, False)) <= tol), det)
  mon.case((det, spec["i"]), nontrivial=len(tracks) > 0)


@CHECK.kind("decisor", quick=120, thorough=3000)
def decisor(rng, mon, spec):
  """Decision-makers on their own, with extreme parameters"""
  style = STRATEGIES[rng.integers(len(STRATEGIES))]
  d = make_decisor(rng, style)
  d.set_params(intermediate__save=True)
  n = int(rng.integers(1, 9))
  order = rng.permutation(n)
  want_dec = [None] * n
  for i in order:
    i = int(i)
    t = np.arange(int(rng.integers(2, 9))) * .01
    track = {"mag": rng.normal(size=t.size), "freq": 500 + t,
             "phase": t, "start_frame": 0}
    b = beats.StubBeat(fs=8000, invalid=.2, salt=int(rng.integers(1 << 20)))
    b.params_ = list(beats.stub_params(t, track["mag"], track["freq"], 8000,
                                       .2, b.salt))
    if rng.random() < .4:  # just about the threshold
      th = EPS * getattr(d, "th", 1.)
      j = int(rng.integers(3))
      v = th * rng.choice([.5, 1., 2., -2.])
      if j == 2:
        b.params_[2] = 0.
        b.params_[3] = v
      else:
        b.params_[j] = v
    single = tuple(10**rng.uniform(-2, 3, 3))
    fit = rng.random() < .3
    p = beats.stub_params(t, track["mag"], track["freq"], 8000, .2,
                          b.salt) if fit else b.params_
    got = d.track_params(i=i, t=t, track=track, beatsdrop=b, params=single,
                         fit=fit)
    det = f"{style} i={i} p={p} single={single} fit={fit}"
    dec = decide(style, d, i, p, single)
    want_dec[i] = dec
    want = [(p[2], p[4], p[0], p[6]),
            (p[3], p[5], p[1], p[7])] if dec else [(*single, 0.)]
    mon.event("decisor-calls")
    mon.same("decision-explains-output", np.array(list(got), dtype=float),
             np.array(want, dtype=float), det)
  state = d.intermediate.get_state()
  mon.check("decisions-at-their-index", [
      None if v is None else bool(v) for v in state["decision"]] == want_dec,
            lambda: f"{style} {order} {state['decision']} want {want_dec}")
  mon.case((style, tuple(order), spec["i"]))


@CHECK.kind("fs", quick=10, thorough=100)
def sampling(rng, mon, spec):
  """The beat regression works at the sampling frequency of the audio,
  whatever the frequency of the template"""
  fs = int(rng.choice([8000, 16000]))
  x = beats.sound(rng, fs, int(.4 * fs), k=3)
  seen = []

  class Spy(beats.StubBeat):

    def fit(self, t, a, f, **kwargs):
      seen.append(self.fs)
      return super().fit(t, a, f, **kwargs)

  cfg = beats.config(rng, fs)
  tmpl = Spy(fs=float(rng.choice([1, 100, 44100])))
  f0 = tmpl.fs
  m = bds.SAMPLEBeatsDROP(beatsdrop=tmpl, **cfg).fit(x)
  mon.check("regression-at-the-audio-rate", set(seen) <= {fs} and
            len(seen) == len(m.sinusoidal.tracks_), lambda: str(seen))
  mon.check("template-untouched", tmpl.fs == f0 and
            not hasattr(tmpl, "params_"), "")
  mon.case(("fs", fs, f0, spec["i"]), nontrivial=bool(seen))
