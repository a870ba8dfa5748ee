"""C33: the example and benchmark scripts treat their data faithfully"""
import contextlib
import importlib.util
import io
import itertools
import logging
import os
import shutil
import struct
import sys
import tempfile
import warnings
import zlib
from unittest import mock

import numpy as np
from scipy import signal
from scipy.io import wavfile

from vf import audio
from vf.core import REPO, Check

CHECK = Check(
    "C33",
    rule="the scripts are run as a whole: the example on sound files of every "
    "type and shape, with every choice of crop, names and options, on a local "
    "file or a stand-in of the network, with the real analysis or with one "
    "whose resynthesis is known; the benchmark with timers whose results are "
    "known, over histories of runs which are interrupted or killed, and with "
    "real timers on its real statements. The files written, the progress and "
    "the figures are compared with independent computations.",
    require={"examples": 40, "cropped": 20, "onsets": 8, "no-crop": 4,
             "downloaded": 5, "loud": 6, "fitted": 2, "types:u1": 4, "types:i2": 4, "types:i3": 4, "types:f4": 4,
             "benchmarks": 20, "bench-resumed": 8, "bench-killed": 1,
             "bench-ctrl-c": 4, "image": 10, "statements": 4, "progress": 8},
    assumptions=["floating point files have finite samples"],
    case_timeout=300,
)
_mods = {}


def load(name):
  if name not in _mods:
    p = os.path.join(REPO, "scripts", *name.split("/"))
    n = "vf_script_" + os.path.splitext(os.path.basename(p))[0]
    spec = importlib.util.spec_from_file_location(n, p)
    m = importlib.util.module_from_spec(spec)
    sys.modules[n] = m
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      spec.loader.exec_module(m)
    _mods[name] = m
  return _mods[name]


@contextlib.contextmanager
def quiet():
  level, handlers = logging.root.manager.disable, list(logging.root.handlers)
  logging.disable(logging.CRITICAL)
  try:
    with warnings.catch_warnings(), \
        contextlib.redirect_stderr(io.StringIO()), \
        contextlib.redirect_stdout(io.StringIO()) as out:
      warnings.simplefilter("ignore")
      yield out
  finally:
    logging.captureWarnings(False)
    logging.disable(level)
    logging.root.handlers[:] = handlers


def write24(path, fs, x):
  """24-bit file"""
  x = x.reshape(len(x), -1)
  data = b"".join(struct.pack("<i", int(v))[:3] for v in x.ravel())
  ch = x.shape[1]
  with open(path, "wb") as f:
    f.write(b"RIFF" + struct.pack("<I", 36 + len(data)) + b"WAVEfmt " +
            struct.pack("<IHHIIHH", 16, 1, ch, fs, fs * 3 * ch, 3 * ch, 24) +
            b"data" + struct.pack("<I", len(data)) + data)


def sound(rng, fs, n):
  """Modal hits at random times"""
  x = np.zeros(n)
  for _ in range(int(rng.integers(0, 4))):
    i = int(rng.integers(0, n))
    t = np.arange(n - i) / fs
    x[i:] += rng.uniform(.1, .5) * np.exp(-t * rng.uniform(
        10, 80)) * np.cos(2 * np.pi * rng.uniform(200, 4000) * t)
  p = np.abs(x).max()
  return x / p * rng.uniform(.1, .95) if p > 0 else x


def write(rng, path, fs, x):
  """Write the sound in one of the types. Returns the samples that are meant"""
  kind = str(rng.choice(["u1", "i2", "i3", "i4", "f4", "f8"]))
  ch = int(rng.choice([0, 0, 1, 2, 3]))
  if ch:
    x = np.stack([x * rng.uniform(-1, 1) for _ in range(ch)], axis=-1)
  if kind == "u1":
    q = np.clip(np.round(x * 128), -128, 127)
    wavfile.write(path, fs, (q + 128).astype(np.uint8))
    y = q / 128
  elif kind == "i3":
    q = np.clip(np.round(x * (1 << 23)), -(1 << 23), (1 << 23) - 1)
    write24(path, fs, q.astype(int))
    y = q / (1 << 23)
  elif kind[0] == "i":
    b = 8 * int(kind[1]) - 1
    q = np.clip(np.round(x * 2.**b), -2.**b, 2.**b - 1).astype("<" + kind)
    wavfile.write(path, fs, q)
    y = q / 2.**b
  else:
    y = x.astype("<" + kind)
    wavfile.write(path, fs, y)
    y = y.astype(float)
  if y.ndim > 1:
    y = y.mean(axis=1)
  return kind, y


def resynthesis(gain, t):
  """The greatest absolute value is ``abs(gain)``, its sign that of ``gain``"""
  return gain * np.exp(-3 * t) * np.cos(40 * t)


class Model:
  """Stand-in of the analysis with a known resynthesis"""
  made = []

  def __init__(self, gain, progress=0, **kw):
    self.gain, self.kw = gain, kw
    self.steps = progress
    self.freqs_ = np.zeros(3)

  def fit(self, x, **kw):
    self.x = np.array(x)
    self.fit_kw = kw
    a = kw.get("_fit_args")
    if a is not None:
      a.progress_start(self.steps)
      for _ in range(self.steps):
        a.progress_update()
      a.progress_stop()
    return self

  def predict(self, t, n_modes=None, **kw):
    self.t = np.array(t)
    return resynthesis(self.gain, self.t)


def bars(bar):
  """Records the states of the progress bar"""
  states = []
  real = bar.refresh

  def refresh(*a, **k):
    states.append((bar.n, bar.total))
    return real(*a, **k)

  bar.refresh = refresh
  return states


@CHECK.kind("example", quick=100, thorough=800)
def example(rng, mon, spec):
  """The example with an analysis whose result is known"""
  run_example(rng, mon, spec, False)


@CHECK.kind("fit", quick=4, thorough=30)
def fit(rng, mon, spec):
  """The example with the real analysis"""
  run_example(rng, mon, spec, True)


def run_example(rng, mon, spec, real):
  import requests
  import tqdm
  from sample.beatsdrop import sample as bds
  from sample.utils import dsp
  m = load("beatsdrop/example.py")
  d = tempfile.mkdtemp(prefix="c33-")
  cwd = os.getcwd()
  os.chdir(d)
  try:
    fs = 44100 if real else int(rng.choice([8000, 22050, 44100, 48000]))
    n = int(rng.integers(fs // 4, fs // 2))
    x = sound(rng, fs, n)
    if real:
      x = np.zeros(n)
      t = np.arange(n) / fs
      for _ in range(int(rng.integers(1, 4))):
        x += audio.modal(t, [rng.uniform(300, 6000)], [rng.uniform(.2, .5)],
                         [rng.uniform(.2, .4)])
      x *= rng.choice([.3, 2.5]) / max(1, np.abs(x).max())
      x = np.clip(x, -1, 1)
    name = str(rng.choice(["a.wav", "b b.v1.wav", "e/c.wav", "d"]))
    net = rng.random() < .25
    os.makedirs("e", exist_ok=True)
    os.makedirs("net", exist_ok=True)
    src = "net/x.wav" if net else name
    kind, y = write(rng, src, fs, x)
    with open(src, "rb") as f:
      content = f.read()
    mon.case(f"{spec['i']}:{kind}")
    mon.event("examples")
    mon.event("types:" + kind)
    argv = ["-l", "CRITICAL"]
    if net:
      name = os.path.basename(name)
      url = "http://example.invalid/some/" + name
      argv += ["-u", url]
      mon.event("downloaded")
    else:
      argv += ["-i", name]
    crop_name = out_name = None
    if rng.random() < .4:
      crop_name = str(rng.choice(["crop.wav", "e/crop.wav"]))
      argv += ["-c", crop_name]
    if rng.random() < .4:
      out_name = str(rng.choice(["out.wav", "e/out.wav"]))
      argv += ["-o", out_name]
    clip = rng.random() < .3
    if clip:
      argv += ["--clip"]
    bar = rng.random() < .6
    if not bar:
      argv += ["--no-tqdm"]
    dur = n / fs
    no_crop = rng.random() < .2 or real
    if no_crop:
      argv += ["--no-crop"]
    start = end = None
    if rng.random() < .6:
      start = float(np.round(rng.uniform(0, dur * .6), 4))
      if rng.random() < .25:
        start = 0.
      argv += ["-s", repr(start)]
    if rng.random() < .6:
      end = float(np.round(rng.uniform(dur * .7, dur * 1.3), 4))
      argv += [f"--crop-end={end!r}"]
    det = f"{kind} n={n} fs={fs} {' '.join(argv)}"
    model = None
    gain = float(rng.choice([0., .3, .95, .9661, 1.2, 30.])) * float(
        rng.choice([-1, 1]))
    steps = int(rng.integers(1, 400))
    states = []
    counted = []

    def make(**kw):
      nonlocal model
      model = Model(gain, steps, **kw)
      return model

    def trange(*a, **k):
      b = tqdm.tqdm(range(*a), **k)
      states.append(bars(b))
      return b

    class Response:
      status_code, ok = 200, True

      def __init__(self, data):
        self.content = data

      raise_for_status = lambda self: None

    def get(u, *a, **k):
      counted.append(u)
      return Response(content)

    with contextlib.ExitStack() as st:
      st.enter_context(mock.patch.object(requests, "get", get))
      st.enter_context(mock.patch.object(tqdm, "trange", trange))
      if not real:
        st.enter_context(mock.patch.object(bds, "SAMPLEBeatsDROP", make))
      fitted = []
      if real:
        cls = bds.SAMPLEBeatsDROP
        f0 = cls.fit

        def spy(self, x, *a, **k):
          r = f0(self, x, *a, **k)
          fitted.append((self, np.array(x), k))
          return r

        st.enter_context(mock.patch.object(cls, "fit", spy))
      st.enter_context(quiet())
      try:
        m.main(*argv)
      except SystemExit as e:
        mon.check("example-runs", not e.code, f"{e!r} {det}")
      except Exception as e:  # pylint: disable=W0703
        mon.fail("example-runs", f"{type(e).__name__}: {str(e)[:200]} {det}")
        return
    if net:
      mon.check("downloaded-once", counted == [url], f"{counted} {det}")
    with open(src, "rb") as f:
      mon.check("input-kept", f.read() == content, det)
    given = fitted[0][1] if real else model.x
    # which part was asked for
    exp = y
    if not no_crop:
      mon.event("cropped")
      ons = np.flatnonzero(dsp.onset_detection(y))
      tol = lambda v, w: abs(v - w) <= 1
      if start is not None and end is not None:
        lo, hi = [start * fs], [min(n, end * fs)]
      else:
        mon.event("onsets")
        if start is not None:
          lo = [start * fs]
          hi = [min([o for o in ons if o > q], default=n)
                for q in (int(start * fs), round(start * fs))]
        elif end is not None:
          hi = [min(n, end * fs)]
          lo = [max([o for o in ons if o < q], default=0)
                for q in (int(hi[0]), round(hi[0]))]
        elif len(ons):
          e = [*ons, n]
          w = np.diff(e)
          k = [i for i in range(len(w)) if w[i] == w.max()]
          lo, hi = [e[i] for i in k], [e[i + 1] for i in k]
        else:
          lo, hi = [0], [n]
      ok = False
      for a, b in itertools.product(lo, hi):
        for i in {int(np.floor(a)), int(np.ceil(a))}:
          for j in {int(np.floor(b)), int(np.ceil(b))}:
            if j - i == len(given) and np.array_equal(given, y[i:j]):
              ok = True
              exp = y[i:j]
      mon.check("crop-asked", ok or (len(given) > 0 and any(
          j - i == len(given) and np.allclose(given, y[i:j], rtol=0, atol=1e-7)
          for a, b in itertools.product(lo, hi)
          for i in {int(np.floor(a)), int(np.ceil(a))}
          for j in {int(np.floor(b)), int(np.ceil(b))})),
                lambda: f"got {len(given)} samples, asked {lo}-{hi} {det}")
      mon.check("crop-some", len(given) > 0, det)
      if not crop_name:
        b, e = os.path.splitext(name)
        crop_name = f"{b}-cropped{e}"
      mon.check("crop-there", os.path.exists(crop_name), f"{crop_name} {det}")
      if os.path.exists(crop_name):
        r, z = wavfile.read(crop_name)
        mon.check("crop-rate", r == fs, f"{r} {det}")
        mon.same("crop-samples", z, given.astype(z.dtype), detail=det)
    else:
      mon.event("no-crop")
    if len(given) == len(exp):
      mon.close("loaded", given, exp, rtol=0, atol=1e-7, detail=det)
    mon.check("loaded-shape", given.ndim == 1, f"{given.shape} {det}")
    # the resynthesis
    if not out_name:
      b, e = os.path.splitext(name)
      out_name = f"{b}-output{e}"
    mon.check("output-there", os.path.exists(out_name), f"{out_name} {det}")
    if os.path.exists(out_name):
      r, z = wavfile.read(out_name)
      mon.check("output-rate", r == fs, f"{r} {det}")
      mon.check("output-size", z.shape == given.shape, f"{z.shape} {det}")
      t = np.arange(len(given)) / fs
      if real:
        mod, _, kw = fitted[0]
        mon.event("fitted")
        want = mod.predict(t)
        keep = {k: v for k, v in kw.items() if k not in ("_fit_args", "n_jobs")}
        with quiet():
          other = bds.SAMPLEBeatsDROP(**{
              k: v for k, v in mod.get_params().items() if "__" in k and not
              hasattr(v, "get_params") and k != "sinusoidal__w"},
              sinusoidal__w=signal.blackmanharris(1024)).fit(given, **keep)
        mon.check("fit-rate", kw.get("sinusoidal__tracker__fs") == fs, det)
        mon.close("fit-independent", np.sort(mod.freqs_), np.sort(
            other.freqs_), rtol=1e-9, atol=0, detail=det)
        mon.close("fit-resynthesis", want, other.predict(t), rtol=1e-6,
                  atol=1e-7, detail=det)
      else:
        want = resynthesis(gain, t)
        mon.close("output-time", model.t, t, rtol=1e-12, atol=1e-12,
                  detail=det)
        mon.check("fit-rate", model.fit_kw.get("sinusoidal__tracker__fs") ==
                  fs, det)
      p, th = np.abs(want).max(), 10**(-.3 / 20)
      if p > th:
        mon.event("loud")
        if not clip:
          want = want * (th / p)
      mon.close("output-samples", z, want, rtol=1e-9, atol=1e-12, detail=det)
    if bar:
      mon.event("progress")
      mon.check("progress-bar", len(states) == 1, det)
      for s in states:
        mon.check("progress-ends", s and s[-1][0] == s[-1][1],
                  lambda: f"{s[-3:]} {det}")
        if not real:
          mon.check("progress-total", s and s[-1][1] == steps,
                    lambda: f"{s[-3:]} of {steps} {det}")
          v = [a for a, _ in s]
          mon.check("progress-grows", v == sorted(v), lambda: f"{v} {det}")
    else:
      mon.check("progress-none", not states, det)
  finally:
    os.chdir(cwd)
    shutil.rmtree(d)


class Timer:
  """Timer with known results"""

  def __init__(self, log, seed, stop):
    self.log, self.seed, self.stop = log, seed, stop
    self.count = 0

  def __call__(self, stmt="pass", setup="pass", *a, **k):
    me = self

    class T:

      def repeat(self, repeat=5, number=1):
        me.count += 1
        if me.stop is not None and me.count > me.stop[1]:
          if me.stop[0] == "kill":
            os._exit(9)
          raise {"ctrl-c": KeyboardInterrupt, "error": RuntimeError}[
              me.stop[0]]("stop")
        r = np.random.default_rng([me.seed, zlib.crc32(
            (stmt + setup).encode())])
        q = list(r.uniform(.001, 1, repeat) * number)
        me.log.append((stmt, setup, q))
        return q

      def timeit(self, number=1):
        return self.repeat(1, number)[0]

    return T()


@CHECK.kind("bench", quick=25, thorough=200)
def bench(rng, mon, spec):
  """Histories of benchmarks, interrupted and started again"""
  import timeit

  import pandas as pd
  from matplotlib import pyplot as plt
  m = load("cim22/performance.py")
  d = tempfile.mkdtemp(prefix="c33-")
  cwd = os.getcwd()
  os.chdir(d)
  try:
    n = int(rng.integers(1, 4))
    c = int(rng.integers(2, 5))
    lo, hi = .5, 5.
    slo, shi = 0., .01
    fs = int(rng.choice([44100, 8000]))
    base = ["-n", str(n), "-c", str(c), "--fs", str(fs), "--mpl-style",
            "classic", "-l", "CRITICAL", "--image-output", "i.png", "-O",
            "o.csv"]
    if rng.random() < .5:
      lo, hi = .1, float(rng.uniform(.2, 3))
      base += ["--duration-min", repr(lo), "--duration-max", repr(hi)]
    if rng.random() < .5:
      slo, shi = .001, float(rng.uniform(.002, .05))
      base += ["--stride-min", repr(slo), "--stride-max", repr(shi)]
    total = c * c * 5
    done = {}
    for run in range(int(rng.integers(1, 5)) + 1):
      stop = None
      if rng.random() < .7:
        stop = (str(rng.choice(["ctrl-c", "kill", "error"], p=[.5, .3, .2])),
                int(rng.integers(0, total)))
      argv = base + (["--tqdm"] if rng.random() < .3 else [])
      det = f"{' '.join(argv)} run {run} stop={stop} done={len(done)}"
      mon.case(f"{spec['i']}:{run}")
      mon.event("benchmarks")
      if done:
        mon.event("bench-resumed")
      log = []
      images = []
      timer = Timer(log, spec["i"] * 10 + run, stop)

      def go():
        real = plt.imshow

        def imshow(a, *args, **kw):
          images.append(np.array(a))
          return real(a, *args, **kw)

        plt.close("all")
        with mock.patch.object(timeit, "Timer", timer), \
            mock.patch.object(plt, "savefig", lambda *a, **k: None), \
            mock.patch.object(plt, "imshow", imshow), quiet(), \
            plt.rc_context():
          m.main(*argv)
        plt.close("all")

      if stop is not None and stop[0] == "kill" and stop[
          1] < total - len(done):
        mon.event("bench-killed")
        pid = os.fork()
        if pid == 0:
          try:
            go()
          finally:
            os._exit(9)
        os.waitpid(pid, 0)
      else:
        left = total - len(done)
        try:
          go()
          mon.check("bench-error-told", stop is None or stop[0] != "error" or
                    stop[1] >= left, det)
        except RuntimeError as e:
          mon.check("bench-runs", str(e) == "stop" and stop[1] < left,
                    f"{e!r} {det}")
        except Exception as e:  # pylint: disable=W0703
          mon.check("bench-runs", False, f"{type(e).__name__}:"
                    f" {str(e)[:200]} {det}")
          return
        if stop is not None and stop[0] == "ctrl-c" and stop[1] < left:
          mon.event("bench-ctrl-c")
        mon.check("bench-not-again", len(log) <= left, f"{len(log)} {det}")
        for i, (stmt, setup, q) in enumerate(log):
          done[len(done)] = (stmt, setup, q)
          del i
      if not os.path.exists("o.csv"):
        mon.check("bench-saved", not done, det)
        continue
      df = pd.read_csv("o.csv", float_precision="round_trip")
      mon.check("bench-rows", len(df) == len(done) * n,
                f"{len(df)} of {len(done)}x{n} {det}")
      if len(df) != len(done) * n:
        return
      ds = np.exp(np.linspace(np.log(lo), np.log(hi), c))
      ss = np.exp(np.linspace(np.log(slo + 1), np.log(shi + 1), c)) - 1
      seen = set()
      for i in range(len(done)):
        stmt, setup, q = done[i]
        g = df.iloc[i * n:(i + 1) * n]
        for k in ("method", "stride_i", "duration_i"):
          mon.check("bench-case", g[k].nunique() == 1, f"{k} {det}")
        r = g.iloc[0]
        key = (r["method"], r["duration_i"], r["stride_i"])
        mon.check("bench-once", key not in seen, f"{key} {det}")
        seen.add(key)
        mon.close("bench-duration", g["duration"].to_numpy(), np.full(
            n, ds[int(r["duration_i"])]), rtol=1e-9, atol=0, detail=det)
        mon.close("bench-stride", g["stride"].to_numpy(), np.full(
            n, ss[int(r["stride_i"])]), rtol=1e-9, atol=1e-12, detail=det)
        mon.close("bench-times", g["timeit"].to_numpy(), np.array(q),
                  rtol=1e-9, atol=0, detail=det)
        meth = r["method"]
        mon.check("bench-statement", ("stride=stride" in stmt) if
                  meth == "strided" else repr(meth) in stmt,
                  f"{meth}: {stmt} {det}")
        for v in (r["duration"], fs):
          mon.check("bench-setup", any(
              abs(z - v) <= 1e-9 * abs(v) for z in numbers(setup)),
                    lambda: f"{v} in {setup} {det}")
      if stop is None or (stop[0] == "ctrl-c"):
        mon.check("bench-image", len(images) == 1, det)
        if not images:
          continue
        mon.event("image")
        w = np.full((5, c, c), np.nan)
        names = sorted({k[0] for k in seen}, key=lambda k: k == "strided")
        for i in range(len(done)):
          r = df.iloc[i * n]
          w[names.index(r["method"]), int(r["duration_i"]), int(
              r["stride_i"])] = np.mean(done[i][2]) / r["duration"]
        if len(names) == 5:
          s = np.log2(np.min(w[:4], axis=0) / w[4])
          a = images[0]
          f = np.isfinite(s)
          mon.check("bench-image-where", a.shape == (c, c) and np.array_equal(
              np.isfinite(a), f), det)
          for z in (1, -1):
            q = f & (z * s > 0)
            if q.any() and a.shape == (c, c):
              mon.close("bench-image-values", a[q], s[q] / np.abs(s[q]).max(),
                        rtol=1e-9, atol=1e-12, detail=det)
      if stop is None:
        mon.check("bench-complete", len(done) == total, f"{len(done)} {det}")
        mon.check("bench-all", len(seen) == total, f"{len(seen)} {det}")
        break
  finally:
    os.chdir(cwd)
    shutil.rmtree(d)


def numbers(text):
  import ast
  for q in ast.walk(ast.parse(text)):
    if isinstance(q, ast.Constant) and isinstance(q.value, (int, float)):
      yield q.value


@CHECK.kind("statements", quick=4, thorough=20)
def statements(rng, mon, spec):
  """The statements which are timed compute the same thing"""
  import timeit
  m = load("cim22/performance.py")
  d = tempfile.mkdtemp(prefix="c33-")
  try:
    fs = int(rng.choice([44100, 16000]))
    dur, stride = float(rng.uniform(.02, .06)), float(rng.uniform(.0005, .004))
    log = []
    det = f"fs={fs} {dur} {stride}"
    mon.case(str(spec["i"]))
    with mock.patch.object(timeit, "Timer", Timer(log, 0, None)), \
        mock.patch.object(m.plt, "savefig", lambda *a, **k: None), quiet(), \
        m.plt.rc_context():
      m.main("-n", "1", "-c", "2", "--fs", str(fs), "--mpl-style", "classic",
             "-l", "CRITICAL", "--image-output", "i", "--duration-min",
             repr(dur), "--duration-max", repr(2 * dur), "--stride-min",
             repr(stride), "--stride-max", repr(2 * stride))
      m.plt.close("all")
    mon.check("statements-all", len(log) == 20, f"{len(log)} {det}")
    for setup in sorted({q[1] for q in log}):
      same = [q[0] for q in log if q[1] == setup]
      mon.check("statements-methods", len(set(same)) == 5, f"{same} {det}")
      mon.event("statements")
      ns = {}
      state = np.random.get_state()
      exec(setup, ns)  # pylint: disable=W0122
      np.random.set_state(state)
      out = [eval(s, ns) for s in same]  # pylint: disable=W0123
      x = ns["x"]
      mon.check("statements-size", any(abs(x.size - fs * v) <= 1 for v in (
          dur, 2 * dur)), f"{x.size} {det}")
      mon.check("statements-stride", any(abs(
          ns["stride"] - fs * v) <= 1 for v in (stride, 2 * stride)),
                f"{ns['stride']} {det}")
      for o in out:
        # boundaries aside
        k = min(q.shape[1] for q in out)
        mon.close("statements-agree", o[:, :k], out[0][:, :k], rtol=1e-6,
                  atol=1e-9 * np.abs(out[0]).max(), detail=det)
      # the bank is the one for the rate of the audio
      e = np.abs(out[0]).max()
      from sample import psycho
      ref = psycho.GammatoneFilterbank(normalize=True).precompute(
          fs=fs, analytic=True).convolve(x, stride=ns["stride"])
      mon.close("statements-bank", out[0], ref, rtol=1e-6, atol=1e-9 * e,
                detail=det)
  finally:
    shutil.rmtree(d)
