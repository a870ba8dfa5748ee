"""Monitoring core: counters, oracles' verdicts, fan-out over processes,
evidence and replay files"""
import collections
import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import signal
import sys
import tempfile
import time
import traceback
import types
import zlib

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
MAX_STORED = 40
# Set while looking for gaps (tools/mutate.py): stop at the first violation
FAIL_FAST = os.environ.get("VF_FAIL_FAST", "").split()


class Abort(Exception):
  """Raised by a monitor to stop a case after a violation"""


def _short(x, n=600):
  s = x if isinstance(x, str) else repr(x)
  return s if len(s) <= n else s[:n] + "..."


class Mon:
  """Records what monitors observed while one case (or many) executed"""

  def __init__(self, prop):
    self.prop = prop
    self.clauses = collections.Counter()
    self.events = collections.Counter()
    self.evaluations = 0
    self.keys = set()
    self.samples = []
    self.violations = []
    self.spec = None

  # --- observations
  def case(self, key, nontrivial=True):
    """One case evaluated; key identifies it for distinctness"""
    self.evaluations += 1
    if nontrivial:
      h = hashlib.blake2b(repr((self.spec or {}).get("kind")).encode() +
                          repr(key).encode(), digest_size=8).hexdigest()
      self.keys.add(h)
    if len(self.samples) < 2:
      self.samples.append(
          _short(f"{(self.spec or {}).get('kind')}: {key}", 300))

  def event(self, name, n=1):
    self.events[name] += int(n)

  # --- verdicts
  def fail(self, clause, detail="", key=None):
    if callable(detail):
      try:
        detail = detail()
      except Exception as e:  # e.g. the repr of a broken object
        detail = f"(no detail: {type(e).__name__})"
    self.violations.append({
        "clause": clause,
        "key": key or clause,
        "detail": _short(detail),
        "spec": self.spec
    })

  def check(self, clause, cond, detail="", key=None):
    self.clauses[clause] += 1
    if not bool(cond):
      self.fail(clause, detail, key)
      return False
    return True

  def require(self, clause, cond, detail="", key=None):
    if not self.check(clause, cond, detail, key):
      raise Abort()

  def same(self, clause, a, b, detail="", key=None):
    """Exact equality, NaN equal to NaN, same shape"""
    a = np.asarray(a)
    b = np.asarray(b)
    ok = a.shape == b.shape
    if ok and a.size:
      if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        ok = bool(np.all((a == b) | ((a != a) & (b != b))))
      else:
        ok = bool(np.all(a == b))
    return self.check(clause, ok,
                      lambda: f"{_call(detail)} got {a!r} want {b!r}", key)

  def close(self, clause, a, b, rtol=1e-9, atol=1e-12, detail="", key=None):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
      return self.check(
          clause, False,
          lambda: f"{_call(detail)} shape {a.shape} want {b.shape}", key)
    with np.errstate(all="ignore"):
      # same as allclose, with infinities of the same sign equal
      ok = (np.abs(a - b) <= atol + rtol * np.abs(b)) | (a == b) | (
          (a != a) & (b != b))

    def d():
      i = np.unravel_index(np.argmin(ok), a.shape) if a.size else ()
      return (f"{_call(detail)} at {tuple(map(int, i))}: got {a[i]!r} want"
              f" {b[i]!r} ({int(np.size(ok) - np.sum(ok))}/{np.size(ok)} off)")

    return self.check(clause, np.all(ok), d, key)

  @contextlib.contextmanager
  def no_exception(self, clause, detail="", key=None, allow=()):
    """The code inside must not raise (other than `allow`)"""
    self.clauses[clause] += 1
    try:
      yield
    except Abort:
      raise
    except allow:
      pass
    except Exception as e:  # pylint: disable=W0703
      self.fail(
          clause, f"{_call(detail)} raised {type(e).__name__}: {e} "
          f"{_where(e)}", key)
      raise Abort() from e

  @contextlib.contextmanager
  def frozen(self, clause, *arrays, detail="", key=None):
    """Arrays must not be modified by the code inside"""
    before = [np.array(a, copy=True) for a in arrays]
    yield
    for i, (a, b) in enumerate(zip(arrays, before)):
      self.same(clause, a, b, lambda i=i: f"{_call(detail)} input {i} changed",
                key)

  def dump(self):
    return {
        "clauses": self.clauses,
        "events": self.events,
        "evaluations": self.evaluations,
        "keys": self.keys,
        "samples": self.samples,
        "violations": self.violations
    }

  def absorb(self, d):
    self.clauses.update(d["clauses"])
    self.events.update(d["events"])
    self.evaluations += d["evaluations"]
    self.keys |= d["keys"]
    self.samples += d["samples"]
    self.violations += d["violations"]


def _call(d):
  return d() if callable(d) else d


def _where(e):
  tb = traceback.extract_tb(e.__traceback__)
  fr = [f for f in tb if f.filename.startswith(REPO + "/")]
  return "at " + ", ".join(
      f"{os.path.relpath(f.filename, REPO)}:{f.name}" for f in fr[-3:])


def in_repo(e):
  """Whether an exception passed through the code under test"""
  seen = set()
  while e is not None and id(e) not in seen:
    seen.add(id(e))
    for f in traceback.extract_tb(e.__traceback__):
      if f.filename.startswith(REPO + "/"):
        return True
    e = e.__cause__ or e.__context__
  return False


def malformed(e):
  """Whether an oracle failed because a result is not of the kind it should be
  (and not because of the harness or the machine, or a name that is gone)"""
  if isinstance(e, AttributeError):
    o = getattr(e, "obj", types)
    return not isinstance(o, (type, types.ModuleType)) and not str(
        type(o).__module__).startswith(("sample", "vf"))
  if isinstance(e, FileNotFoundError):  # A file that was not written
    return str(e.filename).startswith(tempfile.gettempdir() + os.sep)
  return isinstance(e, (TypeError, ValueError, LookupError, ArithmeticError,
                        AssertionError, StopIteration))


# --- registry of workloads
class Check:
  """A property's check: a set of workload kinds with monitors inside"""

  def __init__(self, prop, rule, require=None, assumptions=(), technique="",
               level="exploration", case_timeout=240, serial=False,
               level_note="", workers=None):
    self.prop = prop
    self.rule = rule
    self.require = dict(require or {})
    self.assumptions = list(assumptions)
    self.technique = technique
    self.level = level
    self.level_note = level_note
    self.case_timeout = case_timeout
    self.kinds = {}
    self.workers = 1 if serial else workers
    self.once = []

  def kind(self, name, quick, thorough=None):

    def deco(f):
      self.kinds[name] = (f, quick, 10 * quick if thorough is None else thorough)
      return f

    return deco

  def specs(self, tier, seed):
    out = []
    for name, (_, q, t) in self.kinds.items():
      n = q if tier == "quick" else t
      out += [{"kind": name, "i": i, "seed": seed, "tier": tier}
              for i in range(n)]
    # interleave the kinds, so that a truncated run still covers them all
    count = collections.Counter(s["kind"] for s in out)
    out.sort(key=lambda s: (s["i"] + .5) / count[s["kind"]])
    return out

  def run_spec(self, spec, mon):
    f = self.kinds[spec["kind"]][0]
    rng = np.random.default_rng(
        [spec["seed"], zlib.crc32(spec["kind"].encode()), spec["i"]])
    mon.spec = spec
    np.random.seed(12345)
    try:
      f(rng, mon, spec)
    except Abort:
      pass
    except Exception as e:  # pylint: disable=W0703
      if in_repo(e):
        mon.fail("unexpected-exception",
                 f"{type(e).__name__}: {e} {_where(e)}")
      elif malformed(e):
        mon.fail("malformed-result", f"{type(e).__name__}: {e} " +
                 traceback.format_exc()[-300:].replace("\n", " "))
      else:
        mon.event("harness-error")
        mon.violations.append({
            "clause": "HARNESS", "key": "HARNESS",
            "detail": traceback.format_exc()[-1500:], "spec": spec
        })


def _child(check, specs, nxt, cur, idx, conn):
  signal.signal(signal.SIGINT, signal.SIG_IGN)
  os.setpgid(0, 0)
  while True:
    with nxt.get_lock():
      i = nxt.value
      nxt.value += 1
    if i >= len(specs):
      break
    cur[idx] = i
    mon = Mon(check.prop)
    t0 = time.time()
    check.run_spec(specs[i], mon)
    mon.violations = mon.violations[:MAX_STORED]
    conn.send((i, time.time() - t0, mon.dump()))
    cur[idx] = -1
  conn.send(None)
  conn.close()
  sys.stdout.flush()
  os._exit(0)


def execute(check, specs, workers, soft_deadline):
  """Run all cases over forked workers, watching for deaths and hangs"""
  ctx = mp.get_context("fork")
  total = Mon(check.prop)
  nxt = ctx.Value("i", 0)
  cur = ctx.Array("i", [-1] * workers)
  slots = {}
  times = {}
  t_start = time.time()

  def spawn(k):
    r, w = ctx.Pipe(duplex=False)
    cur[k] = -1
    p = ctx.Process(target=_child, args=(check, specs, nxt, cur, k, w))
    p.start()
    w.close()
    slots[k] = [p, r, time.time(), -1]

  for k in range(workers):
    spawn(k)
  done = 0
  while slots:
    if time.time() - t_start > soft_deadline:
      with nxt.get_lock():
        nxt.value = max(nxt.value, len(specs))
    conns = {s[1]: k for k, s in slots.items()}
    for c in multiprocessing.connection.wait(list(conns), timeout=1):
      k = conns[c]
      p = slots[k][0]
      try:
        m = c.recv()
      except (EOFError, OSError):
        m = "dead"
      if m == "dead":
        i = cur[k]
        p.join(10)
        if i >= 0:
          mon = Mon(check.prop)
          mon.spec = specs[i]
          mon.fail("process-death", f"worker ended with code {p.exitcode}")
          total.absorb(mon.dump())
        _kill(p)
        del slots[k]
        if nxt.value < len(specs):
          spawn(k)
      elif m is None:
        p.join(20)
        _kill(p)
        del slots[k]
      else:
        i, dt, d = m
        if FAIL_FAST and any(v["clause"] != "HARNESS" and v["key"] not in
                             FAIL_FAST for v in d["violations"]):
          soft_deadline = 0
        times.setdefault(specs[i]["kind"], []).append(dt)
        total.absorb(d)
        done += 1
        slots[k][2] = time.time()
        slots[k][3] = -1
    now = time.time()
    for k in list(slots):
      p, c, t0, i0 = slots[k]
      i = cur[k]
      if i != i0:
        slots[k][2:] = [now, i]
      elif i >= 0 and now - t0 > check.case_timeout and not c.poll():
        mon = Mon(check.prop)
        mon.spec = specs[i]
        mon.fail("no-termination",
                 f"case still running after {check.case_timeout} s")
        total.absorb(mon.dump())
        _kill(p)
        del slots[k]
        if nxt.value < len(specs):
          spawn(k)
  return total, done, times


def _kill(p):
  with contextlib.suppress(ProcessLookupError, PermissionError, TypeError):
    if p.pid != os.getpid():
      os.killpg(p.pid, signal.SIGKILL)
  p.join(5)


def known_findings(prop):
  """Keys of the known findings listed for a property"""
  out = {}
  path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
  if os.path.exists(path):
    with open(path, encoding="utf-8") as f:
      for line in f:
        w = line.split()
        if len(w) > 3 and w[0] == "known:" and w[1] == f"property={prop}":
          out[w[2].split("=", 1)[1]] = " ".join(w[3:])
  return out


def main(argv):
  prop = argv[0]
  tier = os.environ.get("VERIF_TIER", "quick")
  seed = int(os.environ.get("VERIF_SEED", "1"))
  replay = None
  it = iter(argv[1:])
  for a in it:
    if a == "--tier":
      tier = next(it)
    elif a == "--seed":
      seed = int(next(it))
    elif a == "--replay":
      replay = next(it)
  t0 = time.time()
  import sample
  root = os.path.realpath(os.path.dirname(os.path.dirname(sample.__file__)))
  if root != os.path.realpath(REPO):
    print(f"ERROR: imported sample from {root}, not {REPO}")
    return 2
  mod = importlib.import_module(f"vf.checks.{prop.lower()}")
  check = mod.CHECK
  if replay is not None:
    with open(replay, encoding="utf-8") as f:
      spec = json.load(f)["spec"]
    mon = Mon(prop)
    check.run_spec(spec, mon)
    for v in mon.violations:
      print(json.dumps(v, indent=1))
    print(f"replayed {spec}: {len(mon.violations)} violation(s)")
    return 1 if mon.violations else 0
  specs = check.specs(tier, seed)
  only = os.environ.get("VF_KIND")
  if only:
    specs = [s for s in specs if s["kind"] == only]
  workers = check.workers or int(
      os.environ.get("VF_WORKERS", min(8, os.cpu_count() or 1)))
  workers = max(1, min(workers, len(specs)))
  total, done, times = execute(check, specs, workers,
                               400 if tier == "quick" else 3 * 3600)
  known = known_findings(prop)
  seen_known = {}
  viol, harness = [], []
  for v in total.violations:
    if v["clause"] == "HARNESS":
      harness.append(v)
    elif v["key"] in known:
      seen_known.setdefault(v["key"], v)
    else:
      viol.append(v)
  # thresholds: a run that observed too little is not a verdict
  missing = {}
  if not only:
    for k, n in check.require.items():
      got = total.clauses.get(k, 0) + total.events.get(k, 0)
      if got < n:
        missing[k] = f"{got}<{n}"
  wall = time.time() - t0
  ev = {
      "property": prop,
      "tier": tier,
      "seed": seed,
      "level": check.level,
      "coverage": {
          "evaluations": total.evaluations,
          "distinct_nontrivial": len(total.keys),
          "rule": check.rule,
          "samples": sorted(set(total.samples))[:24] or ["none"],
          "workload_cases_planned": len(specs),
          "workload_cases_done": done,
          "oracle_clauses_evaluated": dict(sorted(total.clauses.items())),
          "events_observed": dict(sorted(total.events.items())),
          "required_minimum_observations": check.require,
          "required_but_missing": missing,
          "seconds_per_kind": {
              k: round(float(np.sum(v)), 2) for k, v in times.items()
          },
          "known_findings_observed": sorted(seen_known),
      },
      "assumptions": check.assumptions,
      "wall_s": round(wall, 2),
      "violations": len(viol),
  }
  os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
  with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w",
            encoding="utf-8") as f:
    json.dump(ev, f, indent=1)
  for k in sorted(known):
    print(f"KNOWN-FINDING: property={prop} {known[k]}" +
          ("" if k in seen_known else " (listed; not reached in this run)"))
  by_clause = collections.Counter(v["clause"] for v in viol)
  shown = {}
  for v in viol:
    shown.setdefault(v["clause"], v)
  rdir = os.path.join(VERIF, "replays")
  for clause, v in list(shown.items())[:8]:
    os.makedirs(rdir, exist_ok=True)
    h = hashlib.blake2b(json.dumps(v, sort_keys=True, default=str).encode(),
                        digest_size=5).hexdigest()
    path = os.path.join(rdir, f"{prop}-{h}.json")
    with open(path, "w", encoding="utf-8") as f:
      json.dump(v, f, indent=1, default=str)
    print(f"  clause {clause} x{by_clause[clause]}: {v['detail']}")
    print(f"VIOLATION property={prop} replay={path}")
  for v in harness[:3]:
    print("HARNESS ERROR", v["spec"], v["detail"])
  print(f"{prop} {tier} seed={seed}: {done}/{len(specs)} cases, "
        f"{total.evaluations} evaluations, {len(total.keys)} distinct, "
        f"{sum(total.clauses.values())} verdicts, {len(viol)} violations, "
        f"{wall:.1f} s")
  if viol:
    return 1
  if harness or missing:
    print(f"INCONCLUSIVE: harness errors {len(harness)}, missing {missing}")
    return 2
  return 0
