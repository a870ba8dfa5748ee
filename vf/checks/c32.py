"""C32: evaluation campaigns are complete, resumable and safe from crashes"""
import argparse
import contextlib
import glob
import importlib.util
import io
import itertools
import json
import logging
import multiprocessing
import os
import re
import resource
import shutil
import signal as sig
import sys
import tempfile
import warnings
from unittest import mock

import numpy as np
from scipy.io import wavfile

from vf.core import REPO, Check

CHECK = Check(
    "C32",
    rule="the evaluation script is run as a whole, over histories of runs on "
    "the same output: with any number of cases, jobs, checkpoint period and "
    "completion order, resumed or not, with failing cases, killed after any "
    "number of results, before any file operation and inside any write. What "
    "is on disk after every run is compared with the results of the single "
    "cases; the cases computed again are counted. Other workloads run real "
    "cases in real processes against an independent computation, and compare "
    "the reports with the data they are about. Non-trivial: a case is done.",
    require={"runs": 200, "killed": 40, "killed-result": 10, "killed-op": 10,
             "killed-bytes": 8, "resumed": 60, "grown": 15, "recompute": 12,
             "failed-case": 10, "logged": 10, "checkpoints": 8, "wavs": 150,
             "mode:eval": 20, "mode:decision": 20, "mode:fft": 20,
             "real-cases": 3, "reports": 8, "frequentist": 2, "bayesian": 0,
             "importances": 1, "posteriors": 42, "printed": 3},
    assumptions=["a crash ends the process: what it wrote until then stays in "
                 "the file system",
                 "numbers in text files are compared to 12 significant digits"],
    case_timeout=600,
)
SCRIPT = os.path.join(REPO, "scripts", "beatsdrop", "evaluation.py")
NAMES = tuple(f"{k}{i}" for k in "afdp" for i in range(2))
MODES = {"eval": (), "decision": ("--test-decision",), "fft": ("--test-fft",
                                                             "13")}
_ev = []


def script():
  if not _ev:
    spec = importlib.util.spec_from_file_location("vf_evaluation", SCRIPT)
    m = importlib.util.module_from_spec(spec)
    sys.modules["vf_evaluation"] = m
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      spec.loader.exec_module(m)
    _ev.append(m)
  return _ev[0]


class Pool:
  """Stand-in for the pool of processes: it runs everything in this process,
  gives the results in a random order, and can be told to kill the process
  after some of them"""

  def __init__(self, rng, kill=None):
    self.rng, self.kill = rng, kill

  def __call__(self, processes=None, *a, **k):
    return self

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  close = join = terminate = lambda self: None

  def imap(self, func, seq, chunksize=1, order=None):
    seq = list(seq)
    for n, i in enumerate(range(len(seq)) if order is None else order(
        len(seq))):
      if n == self.kill:
        os._exit(9)
      yield func(seq[i])
    if self.kill is not None and self.kill >= len(seq):
      os._exit(9)

  def imap_unordered(self, func, seq, chunksize=1):
    return self.imap(func, seq, order=self.rng.permutation)

  def map(self, func, seq, chunksize=1):
    return list(self.imap(func, seq))

  def starmap(self, func, seq, chunksize=1):
    return list(self.imap(lambda a: func(*a), seq))


def truth(seed, onlybeat):
  """Audio and parameters of a case, from the generator"""
  from sample.evaluation import random
  x, fs, (f, d, a, p) = random.BeatsGenerator(seed=seed,
                                              onlybeat=onlybeat).audio(dur=.02)
  # the partial with the least energy comes first
  e = [a[i]**2 * d[i] for i in range(2)]
  o = (0, 1) if e[0] <= e[1] else (1, 0)
  g = {f"{k}{i}": float(v[j]) for k, v in zip("fdap", (f, d, a, p))
       for i, j in enumerate(o)}
  if not onlybeat:
    g.update({f"{k}2": float(v[2]) for k, v in zip("fdap", (f, d, a, p))})
  return x, fs, g


def estimates(mode, seed):
  """What the stand-in of the analysis finds"""
  r = np.random.default_rng([seed, 99])
  if mode == "eval":
    return {f"{m}_{k}": float(r.uniform(.01, 3)) for m in ("br", "dbr")
            for k in NAMES}
  if mode == "decision":
    return {"beat": bool(r.random() < .7), "single": bool(r.random() < .3)}
  return {"count": int(r.integers(0, 5)),
          **{f"{k}_hat": float(r.uniform(.01, 3)) for k in NAMES[:6]}}


def row(mode, seed):
  return {"seed": seed, **truth(seed, mode != "decision")[2],
          **estimates(mode, seed)}


@contextlib.contextmanager
def environment(mode, failing, log, pool, reports=False, est=estimates):
  """The script with its analysis replaced by a cheap one"""
  ev = script()
  from sample.evaluation import random
  cls = {"eval": ev.BeatsDROPEvalResult, "decision":
         ev.BeatsDROPDecisionResult, "fft": ev.BeatsDROPFFTResult}[mode]

  def case(seed, n=None, log_level=None, log_path=None, wav_path=None):
    with open(log, "a", encoding="utf-8") as f:
      f.write(f"{seed}\n")
    with ev.test_case_context(seed=seed, log_level=log_level,
                              log_path=log_path, wav_path=wav_path,
                              onlybeat=mode != "decision") as (_, gt):
      if seed in failing:
        raise RuntimeError(f"case {seed} fails")
      return cls(seed=seed, **gt, **est(mode, seed))

  audio = random.BeatsGenerator.audio
  level = logging.root.manager.disable
  logging.disable(logging.CRITICAL)
  handlers = list(logging.root.handlers)
  try:
    with contextlib.ExitStack() as st:
      p = lambda o, n, f: st.enter_context(mock.patch.object(o, n, f))
      p(random.BeatsGenerator, "audio",
        lambda self, *a, **k: audio(self, dur=.02))
      for n in ("test_case", "test_case_decision", "test_case_fft"):
        p(ev, n, case)
      p(multiprocessing, "Pool", pool)
      if not reports:
        p(ev, "statistical_tests", lambda args: args)
        p(ev, "decision_report", lambda args: args)
        p(ev, "fft_report", lambda args: args)
      st.enter_context(warnings.catch_warnings())
      warnings.simplefilter("ignore")
      st.enter_context(contextlib.redirect_stderr(io.StringIO()))
      yield ev
  finally:
    logging.captureWarnings(False)
    logging.disable(level)
    logging.root.handlers[:] = handlers


def crash(fn, nbytes=None, nops=None):
  """Run fn in a child, killed when it grows a file beyond ``nbytes`` or just
  before its ``nops``-th file-system operation. Returns the exit status"""
  pid = os.fork()
  if pid == 0:
    code = 8
    try:
      resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
      if nbytes is not None:
        sig.signal(sig.SIGXFSZ, sig.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_FSIZE, (nbytes, nbytes))
      if nops is not None:
        left = [nops]

        def hook(event, args):
          if event in ("open", "os.rename", "os.remove", "os.mkdir",
                       "shutil.move", "os.truncate"):
            if event == "open" and (
                not isinstance(args[2], int) or
                not args[2] & (os.O_WRONLY | os.O_RDWR) or
                str(args[0]).endswith("calls.log")):
              return
            left[0] -= 1
            if left[0] < 0:
              os._exit(9)

        sys.addaudithook(hook)
      fn()
      code = 0
    except BaseException:  # pylint: disable=W0718
      code = 8
    finally:
      os._exit(code)
  return os.waitpid(pid, 0)[1]


def read_csv(path):
  """Rows of a CSV file as dictionaries of texts; None if unreadable"""
  import csv
  with open(path, newline="", encoding="utf-8") as f:
    rows = list(csv.DictReader(f))
  return rows


def value(s):
  if s in ("True", "False"):
    return float(s == "True")
  return float(s)


def check_rows(mon, clause, mode, path, want, det, exact=True, est=estimates):
  """The file has the row of every wanted case, once, with its values"""
  mon.check(clause + "-there", os.path.exists(path), det)
  if not os.path.exists(path):
    return
  rows = read_csv(path)
  try:
    seeds = [int(value(r["seed"])) for r in rows]
  except (KeyError, ValueError, TypeError) as e:
    mon.fail(clause + "-readable", f"{e!r} {det}")
    return
  mon.check(clause + "-once", len(set(seeds)) == len(seeds),
            lambda: f"{seeds} {det}")
  mon.check(clause + "-seeds", set(seeds) == set(want) if exact else
            set(seeds) <= set(want), lambda: f"{sorted(seeds)} want"
            f" {sorted(want)} {det}")
  mon.check(clause + "-sorted", seeds == sorted(seeds),
            lambda: f"{seeds} {det}")
  for s, r in zip(seeds, rows):
    w = {"seed": s, **truth(s, mode != "decision")[2], **est(mode, s)}
    mon.check(clause + "-columns", set(w) <= set(r),
              lambda: f"missing {set(w) - set(r)} {det}")
    for k, v in w.items():
      try:
        got = value(r[k])
      except (KeyError, ValueError, TypeError):
        mon.fail(clause + "-values", f"seed {s} {k}: {r.get(k)!r} {det}")
        continue
      mon.check(clause + "-values", abs(got - v) <= 1e-12 * abs(v),
                lambda: f"seed {s} {k}: {got!r} want {v!r} {det}")


def stored(out):
  """Cases in the newest checkpoint that can be read or else in the table"""
  best = None
  for p in glob.glob(glob.escape(out) + ".ckpt-*"):
    m = re.fullmatch(r".*\.ckpt-(\d+)", p)
    if m:
      try:
        s = {int(value(r["seed"])) for r in read_csv(p)}
      except (KeyError, ValueError, TypeError):
        continue
      if best is None or int(m.group(1)) > best[0]:
        best = int(m.group(1)), s
  if best is not None:
    return best[1]
  if os.path.exists(out + ".csv"):
    try:
      return {int(value(r["seed"])) for r in read_csv(out + ".csv")}
    except (KeyError, ValueError, TypeError):
      pass
  return set()


def calls(log):
  if not os.path.exists(log):
    return []
  with open(log, encoding="utf-8") as f:
    return [int(r) for r in f.read().split()]


def check_wavs(mon, d, seeds, mode, det):
  for s in seeds:
    p = os.path.join(d, f"{s}.wav")
    mon.check("wav-there", os.path.exists(p), lambda: f"{s} {det}")
    if os.path.exists(p):
      x, fs, _ = truth(s, mode != "decision")
      try:
        r, y = wavfile.read(p)
      except Exception as e:  # pylint: disable=W0703
        mon.fail("wav-whole", f"{s}: {e!r} {det}")
        continue
      mon.event("wavs")
      mon.check("wav-rate", r == fs, lambda: f"{r} {det}")
      mon.close("wav-samples", y, x, rtol=1e-6, atol=1e-9, detail=det)


@CHECK.kind("history", quick=200, thorough=1200)
def history(rng, mon, spec):
  """Runs on the same output; all but the last may fail or be killed"""
  script()  # imported here, not in a process that is killed
  d = tempfile.mkdtemp(prefix="c32-")
  cwd = os.getcwd()
  os.chdir(d)
  try:
    mode = list(MODES)[spec["i"] % 3]
    mon.event("mode:" + mode)
    name = str(rng.choice(["o", "e/o", "e/f/o.p", "[a]/o", "e/o-2", "e/o*"],
                          p=[.2, .3, .15, .15, .1, .1]))
    if rng.random() < .3:
      name = os.path.join(d, name)
    wav = str(rng.choice(["", "w", "e/w"]))
    log_dir = str(rng.choice(["", "logs", "e/l/g"]))
    many = rng.random() < .25  # many checkpoints
    n_max = int(rng.integers(14, 25)) if many else int(rng.integers(2, 10))
    n_runs = int(rng.integers(1, 5))
    previous = None
    done_n = 0  # cases of the last complete run
    story = []
    for j in range(n_runs + 1):
      last = j == n_runs
      n = n_max if last or many else int(rng.integers(1, n_max + 1))
      period = int(rng.integers(1, n + 2)) if rng.random() < .7 else None
      if many:
        period = 1
      resume = rng.random() < .8
      failing = set() if last else set(
          int(i) for i in rng.integers(0, n, int(rng.integers(0, 3)))
          if rng.random() < .5)
      kill = None
      if not last and rng.random() < .6:
        kill = str(rng.choice(["result", "op", "bytes"]))
      argv = ["-n", str(n), "-O", name, "-l", "CRITICAL", *MODES[mode]]
      if period is not None:
        argv += ["--checkpoint", str(period)]
      if not resume:
        argv += ["--no-resume"]
      if wav:
        argv += ["--wav", wav]
      if log_dir:
        argv += ["--log-exception", log_dir]
      if rng.random() < .3:
        argv += ["--tqdm"]
      log = os.path.join(d, "calls.log")
      if os.path.exists(log):
        os.remove(log)
      kept = stored(name)
      wavs = {i for i in range(n)
              if not wav or os.path.exists(os.path.join(wav, f"{i}.wav"))}
      k = int(rng.integers(0, n + 2))
      pool = Pool(rng, k if kill == "result" else None)
      story.append(f"{' '.join(argv)} failing={sorted(failing)} kill={kill}"
                   f"{k if kill == 'result' else ''}")
      det = f"[{mode}] " + " / ".join(story[-3:])
      mon.case(f"{spec['i']}:{j}")
      mon.event("runs")
      if resume and kept:
        mon.event("resumed")
      if not resume and kept:
        mon.event("recompute")
      if n > done_n > 0 and resume:
        mon.event("grown")

      def go():
        with environment(mode, failing, log, pool) as ev:
          ev.main(*argv)

      died = False
      if kill is not None:
        at = {}
        if kill == "op":
          at["nops"] = int(rng.integers(0, 12))
        elif kill == "bytes":
          at["nbytes"] = int(rng.choice([0, 1, 50, 300, 800, 1500, 3000]))
        st = crash(go, **at)
        died = os.WIFSIGNALED(st) or os.WEXITSTATUS(st) == 9
        story[-1] += f" {at} -> {st}"
        if died:
          mon.event("killed")
          mon.event("killed-" + kill)
        else:
          fails = failing - (kept & wavs if resume else set())
          mon.check("exit-status", st == 0 or (fails and not log_dir),
                    lambda: f"status {st} {det}")
          died = st != 0
      else:
        will = failing - (kept & wavs if resume else set())
        try:
          go()
        except RuntimeError as e:
          mon.check("failure-told", re.fullmatch(r"case \d+ fails", str(e)) and
                    will and not log_dir, lambda: f"{e!r} {det}")
          died = True
        except Exception as e:  # pylint: disable=W0703
          mon.check("run-completes", False,
                    f"{type(e).__name__}: {str(e)[:200]} {det}")
          died = True
        else:
          mon.check("failure-not-hidden", log_dir or not will, det)
      ran = calls(log)
      mon.check("computed-once", len(ran) == len(set(ran)),
                lambda: f"{ran} {det}")
      mon.check("computed-in-range", all(0 <= i < n for i in ran),
                lambda: f"{ran} {det}")
      if resume:
        mon.check("not-computed-again", not set(ran) & kept & wavs,
                  lambda: f"{sorted(set(ran) & kept & wavs)} {det}")
      now = stored(name)
      if died:
        # what was there can still be resumed from; all that was done up to
        # the last checkpoint was saved
        if resume:
          mon.check("kept-after-crash", (kept & set(range(n))) <= now,
                    lambda: f"lost {sorted((kept & set(range(n))) - now)} {det}")
        if kill == "result" and period is not None and not failing:
          mon.event("checkpoints")
          m = min(len(ran), k)  # results delivered before the kill
          mon.check("checkpoint-saved", len(now & set(ran)) >=
                    (m // period) * period, lambda: f"{sorted(now)} of {ran}"
                    f" {det}")
        for p in [name + ".csv", *glob.glob(glob.escape(name) + ".ckpt-*")]:
          if os.path.exists(p):
            try:
              check_rows(mon, "interrupted", mode, p, range(n_max), det, False)
            except Exception as e:  # pylint: disable=W0703
              mon.fail("interrupted-readable", f"{p}: {e!r} {det}")
        continue
      fails = set(ran) & failing
      if fails and log_dir:
        mon.event("failed-case", len(fails))
        for i in fails:
          p = os.path.join(log_dir, f"{i}.log")
          mon.check("failure-logged", os.path.exists(p), lambda: f"{p} {det}")
          if os.path.exists(p):
            with open(p, encoding="utf-8") as f:
              t = f.read()
            mon.event("logged")
            mon.check("log-tells", f"case {i} fails" in t and
                      "Traceback" in t and str(i) in t.splitlines()[0] and
                      json.dumps(truth(i, mode != "decision")[2]["f0"]) in t,
                      lambda: f"{t[:300]} {det}")
      want = set(range(n)) - fails
      if not resume:
        mon.check("everything-again", set(ran) == set(range(n)),
                  lambda: f"{ran} {det}")
      have = now & set(range(n))
      mon.check("complete", want <= have, lambda: f"missing"
                f" {sorted(want - have)} {det}")
      # a smaller campaign may keep the cases beyond it
      check_rows(mon, "table", mode, name + ".csv",
                 want if now <= set(range(n)) else want | kept, det)
      left = glob.glob(glob.escape(name) + ".ckpt*")
      mon.check("checkpoints-removed", not left, lambda: f"{left} {det}")
      if wav:
        check_wavs(mon, wav, range(n), mode, det)
      done_n = n
      previous = want
    del previous
    # nothing but results is left around
    allowed = re.compile(r"(\.csv|\.wav|\.log)$")
    base = os.path.dirname(os.path.abspath(name))
    extra = [f for f in (os.listdir(base) if os.path.isdir(base) else ())
             if os.path.isfile(os.path.join(base, f)) and not allowed.search(f)
             and "c32" not in f]
    if not any("kill=None" not in s for s in story):
      mon.check("nothing-left", not extra, lambda: f"{extra} {story}")
  finally:
    os.chdir(cwd)
    shutil.rmtree(d)


def run_real(ev, argv):
  level = logging.root.manager.disable
  handlers = list(logging.root.handlers)
  logging.disable(logging.CRITICAL)
  try:
    with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
      warnings.simplefilter("ignore")
      ev.main(*argv)
  finally:
    logging.captureWarnings(False)
    logging.disable(level)
    logging.root.handlers[:] = handlers


@CHECK.kind("real", quick=3, thorough=24)
def real(rng, mon, spec):
  """Real cases in real processes"""
  import sample.beatsdrop.regression as reg
  import sample.beatsdrop.sample as bds
  from sample.evaluation import random
  from sample.sample import SAMPLE
  ev = script()
  mode = list(MODES)[spec["i"] % 3]
  d = tempfile.mkdtemp(prefix="c32-")
  n = 2 + int(rng.integers(0, 2))
  try:
    out = os.path.join(d, "o")
    argv = ["-n", str(n), "-j", "2", "-O", out, "-l", "CRITICAL", "--wav",
            os.path.join(d, "w"), *MODES[mode]]
    noop = lambda args: args
    pool = multiprocessing.Pool
    with contextlib.ExitStack() as st:
      for f in ("statistical_tests", "decision_report", "fft_report"):
        st.enter_context(mock.patch.object(ev, f, noop))
      st.enter_context(mock.patch.object(
          multiprocessing, "Pool",
          lambda processes=None: multiprocessing.get_context("fork").Pool(
              processes)))
      del pool
      with mon.no_exception("real-run", mode):
        run_real(ev, argv)
    rows = {int(value(r["seed"])): r for r in read_csv(out + ".csv")}
    mon.check("real-seeds", sorted(rows) == list(range(n)), str(sorted(rows)))
    for s, r in rows.items():
      mon.case(f"{mode}:{s}:{n}")
      mon.event("real-cases")
      det = f"real {mode} seed {s}"
      x, fs, (f, dd, a, p) = random.BeatsGenerator(
          seed=s, onlybeat=mode != "decision").audio()
      rate, y = wavfile.read(os.path.join(d, "w", f"{s}.wav"))
      mon.check("real-wav-rate", rate == fs, f"{rate} {det}")
      mon.close("real-wav", y, x, rtol=0, atol=1e-9, detail=det)
      e = [a[i]**2 * dd[i] for i in range(2)]
      o = (0, 1) if e[0] <= e[1] else (1, 0)
      for k, v in zip("fdap", (f, dd, a, p)):
        for i, j in enumerate(o):
          mon.close("real-truth", value(r[f"{k}{i}"]), float(v[j]),
                    rtol=1e-12, atol=0, detail=f"{k}{i} {det}")
        if mode == "decision":
          mon.close("real-truth", value(r[f"{k}2"]), float(v[2]), rtol=1e-12,
                    atol=0, detail=f"{k}2 {det}")
      kw = dict(sinusoidal__tracker__max_n_sines=32,
                sinusoidal__tracker__reverse=True, sinusoidal__t=-90,
                sinusoidal__intermediate__save=True,
                sinusoidal__tracker__peak_threshold=-45,
                sinusoidal__tracker__fs=fs)
      with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if mode == "decision":
          m = bds.SAMPLEBeatsDROP(**kw, beat_decisor__intermediate__save=True,
                                  beat_decisor__th=4).fit(x)
          med = np.array([np.median(t["freq"]) for t in m.sinusoidal.tracks_])
          dec = m.beat_decisor.intermediate["decision"]
          for k, v in (("beat", (f[0] + f[1]) / 2), ("single", f[2])):
            mon.check("real-decision", bool(value(r[k])) == bool(
                dec[int(np.argmin(np.abs(med - v)))]), f"{k} {r[k]} {det}")
        elif mode == "fft":
          m = SAMPLE(**kw, sinusoidal__n=1 << 13).fit(x)
          mon.check("real-count", value(r["count"]) == len(
              m.sinusoidal.tracks_), f"{r['count']} {det}")
          f_hat, a_hat, d_hat = m.freqs_, m.amps_, m.decays_
          if f_hat.size == 1:
            f_hat, a_hat, d_hat = [*f_hat] * 2, [*a_hat / 2] * 2, [*d_hat] * 2
          if len(f_hat) >= 2:
            e = [a_hat[i]**2 * d_hat[i] for i in range(2)]
            o = (0, 1) if e[0] <= e[1] else (1, 0)
            for k, v in zip("fda", (f_hat, d_hat, a_hat)):
              for i, j in enumerate(o):
                mon.close("real-fft", value(r[f"{k}{i}_hat"]), float(v[j]),
                          rtol=1e-9, atol=0, detail=f"{k}{i} {det}")
        else:
          m = SAMPLE(**kw).fit(x)
          t = m.sinusoidal.tracks_[int(np.argmax(m.energies_))]
          tt = np.arange(len(t["mag"])) / m.sinusoidal.frame_rate
          # tracks of a reversed analysis go backwards in time
          mag, fr = t["mag"][::-1] + 6, t["freq"][::-1]
          ok = np.isfinite(mag)
          for k, c in (("br", reg.BeatRegression), ("dbr",
                                                    reg.DualBeatRegression)):
            q = c().fit(t=tt[ok], a=mag[ok], f=fr[ok]).params_
            e = [q[i]**2 * q[4 + i] for i in range(2)]
            o = (0, 1) if e[0] <= e[1] else (1, 0)
            for z, name in enumerate("afdp"):
              for i, j in enumerate(o):
                mon.close("real-" + k, value(r[f"{k}_{name}{i}"]),
                          float(q[2 * z + j]), rtol=1e-6, atol=1e-9,
                          detail=f"{name}{i} {det}")
  finally:
    shutil.rmtree(d)


def mel(f):
  return 1127.01048 * np.log1p(f / 700)


@CHECK.kind("report", quick=10, thorough=100)
def report(rng, mon, spec):
  """The statistical report is about the table"""
  import autorank
  d = tempfile.mkdtemp(prefix="c32-")
  try:
    out = os.path.join(d, "e", "o")
    n0 = int(rng.integers(6, 30))
    frequentist = rng.random() < .5
    mon.event("frequentist" if frequentist else "bayesian")
    grow = int(rng.choice([0, 0, 5, 12]))
    again = rng.random() < .5
    scale = {(m, k): 10.**float(rng.choice([-2, 0])) for m in ("br", "dbr")
             for k in ("f", "a", "d")}
    normal = rng.random() < .3  # errors away from zero: a normal population
    version = [0]

    def est(mode, seed):
      r = np.random.default_rng([seed, 7, spec["i"], version[0]])
      g = truth(seed, True)[2]
      q = {}
      for m in ("br", "dbr"):
        for k in NAMES:
          if k[0] == "p":
            q[f"{m}_{k}"] = 0.
            continue
          e = scale[m, k[0]] * (r.normal(1, .05) if normal else
                                abs(r.normal()))
          if k[0] == "a":
            q[f"{m}_{k}"] = g[k] * 10**(e / 20)
          elif k[0] == "f":
            q[f"{m}_{k}"] = g[k] * (1 + .001 * e)
          else:
            q[f"{m}_{k}"] = g[k] + .1 * e
      return q

    seen = []
    orig = autorank.autorank

    def spy(data, *a, **k):
      seen.append((data.copy(), k))
      return orig(data, *a, **k)

    argv = ["-O", out, "-l", "CRITICAL", "--n-samples", "50"]
    if frequentist:
      argv += ["--frequentist"]
    runs = [(n0, True)]
    if grow or again:
      runs.append((n0 + grow, grow > 0 and rng.random() < .5))
    for j, (n, resume) in enumerate(runs):
      version[0] = 0 if resume else j
      seen.clear()
      det = f"report {runs[:j + 1]} frequentist={frequentist} normal={normal}"
      mon.case(f"{spec['i']}:{j}")
      with environment("eval", set(), os.path.join(d, "calls.log"),
                       Pool(rng), True, est) as ev:
        with mock.patch.object(autorank, "autorank", spy):
          with mon.no_exception("report-made", det):
            with contextlib.redirect_stdout(io.StringIO()):
              ev.main(*argv, "-n", str(n),
                      *(() if resume else ("--no-resume",)))
      check_rows(mon, "report-table", "eval", out + ".csv", range(n), det,
                 est=est)
      mon.event("reports")
      pops = {}
      for k in NAMES[:6]:
        for m in ("br", "dbr"):
          c = []
          for s in range(n):
            a, b = truth(s, True)[2][k], est("eval", s)[f"{m}_{k}"]
            if k[0] == "f":
              c.append(abs(mel(a) - mel(b)))
            elif k[0] == "a":
              c.append(abs(20 * np.log10(a / b)))
            else:
              c.append(abs(a - b))
          pops[k, m] = np.array(c)
      mon.check("report-tests-run", len(seen) == 1, f"{len(seen)} {det}")
      if len(seen) != 1:
        continue
      data, kw = seen[0]
      mon.check("report-approach", kw.get("approach") ==
                ("frequentist" if frequentist else "bayesian"), str(kw))
      for (k, m), c in pops.items():
        mon.close("report-errors", np.asarray(data[f"{k}_{m}_ar"]), c,
                  rtol=1e-3, atol=1e-9, detail=f"{k} {m} {det}")
      with open(out + "_report.tex", encoding="utf-8") as f:
        text = f.read()
      for k in NAMES[:6]:
        g = re.search(re.escape(f"% {k}\n") + r"& (\S+)\n& (.*)\n& (\S+)\n"
                      r"& (.*)\n", text)
        mon.check("report-table-row", g, f"{k} {det}")
        if not g:
          continue
        for m, v, ci in (("dbr", g[1], g[2]), ("br", g[3], g[4])):
          c = pops[k, m]
          mon.check("report-median", any(
              abs(float(v) - q) <= 1e-3 + 2e-3 * abs(q)
              for q in (np.median(c), np.mean(c))),
              lambda: f"{k} {m} {v} want {np.median(c)} {det}")
          lo, hi = map(float, re.findall(r"-?[\d.]+(?:e-?\d+)?|nan", ci))
          mon.check("report-interval", lo <= float(v) + 1e-3 and
                    float(v) <= hi + 1e-3, lambda: f"{k} {m} {v} {ci} {det}")
        g = re.search(r"\\item\{ " + k + r" \} median error of br is (\w+) wrt"
                      r" dbr", text)
        mon.check("report-statement", g, f"{k} {det}")
        a, b = pops[k, "br"], pops[k, "dbr"]
        if g and n >= 15:
          if a.min() > 2 * b.max():
            mon.check("report-verdict", g[1] != "smaller",
                      lambda: f"{k} {g[1]} {det}")
            mon.event("separated")
          elif b.min() > 2 * a.max():
            mon.check("report-verdict", g[1] != "larger",
                      lambda: f"{k} {g[1]} {det}")
            mon.event("separated")
      mon.check("report-document", text.count("\\begin{document}") == 1 and
                text.strip().endswith("\\end{document}"), det)
  finally:
    shutil.rmtree(d)


@CHECK.kind("decisions", quick=2, thorough=12)
def decisions(rng, mon, spec):
  """The report on the beat decisions is about the table"""
  import sklearn.metrics
  from matplotlib import pyplot as plt
  d = tempfile.mkdtemp(prefix="c32-")
  try:
    out = os.path.join(d, "o")
    n = int(rng.integers(20, 40))
    p = [.7, 1.][(spec["i"] // 2) % 2 if spec["tier"] != "quick" else
                 int(rng.integers(2))]
    tqdm_ = ["--tqdm"] if spec["i"] % 2 else []

    def est(mode, seed):
      r = np.random.default_rng([seed, 5, spec["i"]])
      return {"beat": bool(r.random() < p or seed == 0),
              "single": bool(r.random() > p and seed > 1)}

    det = f"decisions n={n} p={p} {tqdm_}"
    mon.case(f"{spec['i']}")
    posteriors = []
    hists = []

    def savefig(fname, *a, **k):
      fig = plt.gcf()
      if "histograms" in str(fname):
        axs = fig.axes
        hists.append((os.path.basename(fname),
                      [c.datavalues for c in axs[0].containers],
                      [c.datavalues for c in axs[1].containers]))
        posteriors.append(fname)

    with environment("decision", set(), os.path.join(d, "calls.log"),
                     Pool(rng), True, est) as ev:
      with mock.patch.object(plt, "savefig", savefig):
        with mon.no_exception("decisions-made", det):
          ev.main("-n", str(n), "-O", out, "-l", "CRITICAL",
                  "--test-decision", *tqdm_)
    plt.close("all")
    check_rows(mon, "decisions-table", "decision", out + ".csv", range(n), det,
               est=est)
    e = [est("decision", s) for s in range(n)]
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      want = sklearn.metrics.classification_report(
          [True] * n + [False] * n, [q["beat"] for q in e] +
          [q["single"] for q in e])
    with open(out + "_report.txt", encoding="utf-8") as f:
      mon.check("decisions-report", f.read().split() == want.split(), det)
    rows = read_csv(glob.glob(out + "_errors*.csv")[0])
    mon.event("importances")
    for t in ("beat", "single"):
      sel = [r for r in rows if r["target"] == t]
      mon.check("importances-there", len(sel) >= 100,
                lambda: f"{len(sel)} rows for {t} {det}")
      for r in sel[:50]:
        v = [value(x) for k, x in r.items() if k not in ("target", "")]
        mon.check("importances-sum", min(v) >= 0 and
                  min(abs(sum(v) - 1), abs(sum(v))) < 1e-6,
                  lambda: f"{sum(v)} {t} {det}")
    for name, counts, post in hists:
      mon.event("posteriors")
      total = np.sum([np.sum(c) for c in counts])
      mon.check("histogram-total", total == n, lambda: f"{name} {total} {det}")
      c = np.array(counts, dtype=float)
      q = np.array(post, dtype=float)
      mon.check("posterior-shape", c.shape == q.shape,
                lambda: f"{name} {c.shape} {q.shape} {det}")
      if c.shape == q.shape:
        some = c.sum(axis=0) > 0
        mon.close("posterior", q[:, some], (c / np.maximum(
            c.sum(axis=0), 1))[:, some], rtol=1e-9, atol=1e-12,
                  detail=f"{name} {det}")
  finally:
    shutil.rmtree(d)


@CHECK.kind("fft", quick=10, thorough=60)
def fft(rng, mon, spec):
  """The report on the resolution is about the table"""
  d = tempfile.mkdtemp(prefix="c32-")
  try:
    out = os.path.join(d, "o")
    n = int(rng.integers(1, 40))
    k = int(rng.integers(8, 18))
    det = f"fft n={n} 2^{k}"
    mon.case(str(spec["i"]))
    with environment("fft", set(), os.path.join(d, "calls.log"),
                     Pool(rng), True) as ev:
      with mon.no_exception("fft-made", det):
        ev.main("-n", str(n), "-O", out, "-l", "CRITICAL", "--test-fft",
                str(k))
    with open(out + "_report.txt", encoding="utf-8") as f:
      v = list(map(float, re.findall(r"\d+(?:\.\d+)?", f.read())))
    c = sum(estimates("fft", s)["count"] >= 2 for s in range(n))
    for w in (c, n, 1 << k):
      mon.check("fft-report", w in v, f"{w} not in {v} {det}")
    mon.check("fft-percent", any(abs(q - 100 * c / n) < .006 for q in v),
              f"{v} {det}")
  finally:
    shutil.rmtree(d)


@CHECK.kind("no-output", quick=6, thorough=30)
def no_output(rng, mon, spec):
  """Without an output path the report is printed and nothing is written"""
  d = tempfile.mkdtemp(prefix="c32-")
  logs = tempfile.mkdtemp(prefix="c32-")
  cwd = os.getcwd()
  os.chdir(d)
  try:
    n = int(rng.integers(1, 12))
    log = os.path.join(logs, "calls.log")
    argv = ["-n", str(n), "-l", "CRITICAL", "--test-fft", "13"]
    if rng.random() < .7:
      argv += ["--checkpoint", str(int(rng.integers(1, n + 1)))]
    det = " ".join(argv)
    mon.case(str(spec["i"]))
    text = io.StringIO()
    with environment("fft", set(), log, Pool(rng), True) as ev:
      with mon.no_exception("no-output", det), \
          contextlib.redirect_stdout(text):
        ev.main(*argv)
    mon.check("no-output-all", sorted(calls(log)) == list(range(n)),
              lambda: f"{calls(log)} {det}")
    c = sum(estimates("fft", s)["count"] >= 2 for s in range(n))
    v = list(map(float, re.findall(r"\d+(?:\.\d+)?", text.getvalue())))
    mon.event("printed")
    mon.check("no-output-report", c in v and n in v, lambda: f"{v} {det}")
    left = os.listdir(d)
    mon.check("no-output-files", not left, lambda: f"{left} {det}")
  finally:
    os.chdir(cwd)
    shutil.rmtree(d)
    shutil.rmtree(logs)
