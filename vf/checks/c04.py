"""C04: SDT export is a faithful and portable description of the model"""
import collections
import json

import numpy as np

from sample import sample as smp
from sample.beatsdrop import sample as bds
from vf.checks.c03 import ORDERS, feature, matrix
from vf.core import Check

CHECK = Check(
    "C04",
    rule="random and fitted parameter matrices (0 to 80 modes, ties, extreme "
    "magnitudes), orderings, directions and mode limits; the exported "
    "dictionary is serialised, parsed back and compared with the matrix. "
    "Non-trivial: at least two modes.",
    require={"exports": 500, "no-modes": 20, "limits": 100, "fitted": 3},
)


def check_export(mon, model, m, limit, order, reverse, kw, det):
  n = m.shape[1]
  before = np.array(m)
  with mon.no_exception("export-runs", det):
    p = model.sdt_params_(**kw)
  mon.event("exports")
  mon.event("no-modes", n == 0)
  mon.event("limits", limit is not None)
  mon.same("model-untouched", model.param_matrix_, before, det)
  with mon.no_exception("json-serialisable", det):
    s = json.dumps(p, allow_nan=False)
  q = json.loads(s)
  mon.check("json-round-trip", q == p, lambda: f"{det} {p} became {q}")
  mon.check("mode-count", q["nModes"] == n and all(
      len(q[k]) == n for k in ("freqs", "decays", "weights")), det)
  mon.check("pickups", q["nPickups"] == len(q["gains"]) == 1 and
            len(q["gains"][0]) == n, det)
  want_active = n if limit is None else min(n, limit)
  mon.check("active-modes", q["activeModes"] == want_active and
            isinstance(q["activeModes"], int),
            lambda: f"{det} {q['activeModes']} want {want_active}")
  if n:
    mon.check("weights-sum-to-one", abs(sum(q["weights"]) - 1) < 1e-9 and
              min(q["weights"]) >= 0, lambda: f"{det} {q['weights']}")
  rows = list(zip(q["freqs"], q["decays"], q["gains"][0]))
  mon.check("every-mode-once", collections.Counter(rows) ==
            collections.Counter(zip(*before[:3].tolist())),
            lambda: f"{det} {rows[:4]} from {before[:3].tolist()}")
  k = feature(order, np.array(rows).reshape(-1, 3).T)
  d = np.diff(k)
  mon.check("sorted-as-requested",
            np.all((-d if reverse else d) >= -1e-12 * np.abs(k[1:])),
            lambda: f"{det} {k}")


@CHECK.kind("matrices", quick=900, thorough=20000)
def matrices(rng, mon, spec):
  beats = rng.random() < .3
  n = int(rng.choice([0, 0, 1, 2, 3, 10, 80]))
  m = matrix(rng, n, 4 if beats else 3)
  if rng.random() < .3:
    m[:3] = np.round(m[:3], 1) + .1
  if rng.random() < .2:
    m[2] *= 10.**rng.integers(-200, 100)
  limit = None
  if rng.random() < .6:
    limit = int(rng.integers(0, n + 4))
    if rng.random() < .2:
      limit = np.int64(limit)
  model = (bds.SAMPLEBeatsDROP if beats else smp.SAMPLE)(max_n_modes=limit)
  model.param_matrix_ = m
  kw = {}
  order, reverse = "energies", True
  if rng.random() < .7:
    kw["order"] = order = str(rng.choice(ORDERS))
  if rng.random() < .7:
    kw["reverse"] = reverse = bool(rng.random() < .5)
  det = f"n={n} limit={limit} beats={beats} {kw}"
  check_export(mon, model, m, limit, order, reverse, kw, det)
  mon.case((det, m.tolist()[:1]), n > 1)


@CHECK.kind("fitted", quick=8, thorough=60)
def fitted(rng, mon, spec):
  fs = 16000
  t = np.arange(fs // 2) / fs
  k = int(rng.integers(0, 5)) if spec["i"] else 0
  x = np.zeros(t.size)
  for _ in range(k):
    x += rng.uniform(.1, 1) * np.exp(-2 * t / rng.uniform(.1, 1)) * np.cos(
        2 * np.pi * rng.uniform(100, 6000) * t)
  model = smp.SAMPLE(sinusoidal__tracker__fs=fs, sinusoidal__tracker__h=128,
                     sinusoidal__w=np.hamming(512), sinusoidal__n=1024,
                     max_n_modes=[None, 2][int(rng.integers(2))]).fit(x)
  check_export(mon, model, model.param_matrix_, model.max_n_modes, "freqs",
               False, dict(order="freqs", reverse=False), f"fitted {k}")
  mon.event("fitted")
  mon.case((k, model.param_matrix_.tolist()), k)
