"""C26: settings typed in the GUI are parsed, applied and survive crashes"""
import json
import math
import os
import resource
import shutil
import signal as sig
import sys
import tempfile
import tkinter

import numpy as np
import ttkthemes
from scipy import signal

from sample.widgets import sample as gui_sample
from sample.widgets import settings, userfiles
from vf import headless
from vf.core import Check

CHECK = Check(
    "C26",
    rule="the real settings tab, its entries and its files, on a Tcl "
    "interpreter whose drawing commands are stand-ins: random and hostile "
    "texts are typed in the entries and applied, the tab is restarted, the "
    "file is replaced by damaged and foreign ones, and saves are killed after "
    "every number of bytes and before every file-system operation. Monitors "
    "check the domain of every parameter, that it reaches the model, that "
    "entries, file and restarted tab agree, and that an interrupted save "
    "leaves the old or the new content. Non-trivial: every case.",
    require={"applied": 20, "typed": 20, "hostile": 20, "restarts": 20,
             "damaged": 20, "killed": 20, "crash-old": 5, "crash-new": 5,
             "themes": 5, "reloads": 2, "json": 20},
    assumptions=["a crash ends the process: what it wrote until then stays in "
                 "the file system (no reordering by a power failure)",
                 "settings that need more memory than there is (windows and "
                 "transforms beyond 2**20) are out of the domain"],
)

WTYPES = ("boxcar", "triang", "blackman", "hamming", "hann", "bartlett",
          "flattop", "parzen", "bohman", "blackmanharris", "nuttall",
          "barthann", "cosine", "exponential", "tukey", "taylor")
INTS = ("max_n_modes", "sinusoidal__tracker__max_n_sines", "sinusoidal__n",
        "sinusoidal__tracker__h", "wsize", "n_jobs")
FLOATS = ("sinusoidal__tracker__freq_dev_offset",
          "sinusoidal__tracker__freq_dev_slope", "smfb_0", "smfb_1",
          "sinusoidal__tracker__peak_threshold", "sinusoidal__t",
          "sinusoidal__tracker__min_sine_dur", "sinusoidal__tracker__strip_t",
          "beat_decisor__th", "beatsdrop__lpf")
BOOLS = ("sinusoidal__tracker__reverse", "sinusoidal__padded", "beatsdrop",
         "parallel")
HOSTILE = ("", " ", "nan", "NaN", "-nan", "inf", "-inf", "Infinity", "1e400",
           "None", "none", "abc", "1,5", "1.5.2", "0", "-0", "-1", "-3.7",
           "0.2", "1e-320", "True", "False", "0x10", "1_000", "  7  ", "\t3",
           "٣", "1j", "[1]", "{x}", "$x", "\\", "\"", "1e5", "+4", "é", "½",
           "9" * 30, "%s", "0.1e1", "\u0000", "3\n")


def variable(tab, k):
  """The Tcl variable behind the entry of a setting, wherever it is kept"""
  for d in vars(tab).values():
    if isinstance(d, dict) and "wtype" in d and k in d:
      for v in vars(d[k]).values():
        if isinstance(v, tkinter.Variable):
          return v
  raise LookupError(k)


def write_entry(tab, k, v):
  """Type a text in the entry of a setting"""
  variable(tab, k).set(v)


def read_entry(tab, k):
  return variable(tab, k).get()


ANY = object()


def isnan(t):
  return t.strip().lower() in ("nan", "-nan")


def number(t):
  """The number a text means, or None"""
  try:
    x = float(t)
  except ValueError:
    return None
  return None if math.isnan(x) else x


def whole(t, default):
  x = number(t)
  if x is None or x == math.inf:
    return default
  return int(max(x, 1))


def expected(texts):
  """Parameters of the model from what the entries say"""
  e = {}
  mm = whole(texts["max_n_modes"], None)
  e["max_n_modes"] = mm
  e["sinusoidal__tracker__max_n_sines"] = whole(
      texts["sinusoidal__tracker__max_n_sines"], 1)
  n = whole(texts["sinusoidal__n"], 1)
  p = 1
  while p < n:
    p *= 2
  e["sinusoidal__n"] = p
  e["sinusoidal__tracker__h"] = whole(texts["sinusoidal__tracker__h"], 1)
  w = min(whole(texts["wsize"], 1), p)
  e["sinusoidal__w"] = signal.get_window(texts["wtype"], w)
  for k in ("sinusoidal__tracker__freq_dev_offset",
            "sinusoidal__tracker__freq_dev_slope",
            "sinusoidal__tracker__peak_threshold", "sinusoidal__t"):
    x = number(texts[k])
    e[k] = 0. if x is None else x
  lo, hi = (number(texts[k]) or 0. for k in ("smfb_0", "smfb_1"))
  if lo == hi:
    lo, hi = 20, 16000
  e["sinusoidal__tracker__frequency_bounds"] = (min(lo, hi), max(lo, hi))
  x = number(texts["sinusoidal__tracker__min_sine_dur"])
  e["sinusoidal__tracker__min_sine_dur"] = .1 if x is None else max(0, x)
  x = number(texts["sinusoidal__tracker__strip_t"])
  e["sinusoidal__tracker__strip_t"] = x if x is not None and x > 0 else None
  x = number(texts["beat_decisor__th"])
  e["beat_decisor__th"] = 4 if x is None else max(0, x)
  x = number(texts["beatsdrop__lpf"])
  e["beatsdrop__lpf"] = 12 if x is None else min(50, max(2, x))
  for k in ("sinusoidal__tracker__min_sine_dur", "beat_decisor__th",
            "beatsdrop__lpf"):
    if isnan(texts[k]):  # only has to be in the domain
      e[k] = ANY
  for k in BOOLS[:3]:
    e[k] = texts[k]
  e["n_jobs"] = whole(texts["n_jobs"], 4) if texts["parallel"] else 0
  return e


def texts_of(rng, mon, hostile=.5):
  """A text for every entry"""
  t = {}

  def bad():
    mon.event("hostile")
    return str(rng.choice(HOSTILE))

  for k in INTS:
    v = int(rng.integers(1, 5000))
    if k in ("n_jobs", "max_n_modes"):
      v %= 90
    t[k] = bad() if rng.random() < hostile else str(
        rng.choice([str(v), f"{v}.7", f" {v} ", f"{float(v)}", f"{v}e0"]))
  for k in FLOATS:
    v = float(rng.choice([rng.normal() * 100, rng.uniform(0, 1),
                          rng.uniform(0, 60), rng.uniform(20, 20000)]))
    t[k] = bad() if rng.random() < hostile else str(
        rng.choice([repr(v), f"{v:.3f}", f" {v:.4e}"]))
  # texts whose meaning nobody declared: a not-a-number level
  for k in FLOATS[:6]:
    if isnan(t[k]):
      t[k] = "5"
  for k in BOOLS:
    t[k] = bool(rng.random() < .5)
  t["wtype"] = str(rng.choice(WTYPES))
  big = lambda s: (number(s) or 0) > 2**20 and not math.isinf(number(s))
  if big(t["wsize"]) and big(t["sinusoidal__n"]):
    t["wsize"] = "512"
  return t


def equal(a, b):
  if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
    return isinstance(a, np.ndarray) and isinstance(
        b, np.ndarray) and np.array_equal(a, b, equal_nan=True)
  if isinstance(a, tuple):
    return tuple(a) == tuple(b)
  if isinstance(a, bool) or isinstance(b, bool):
    return isinstance(a, bool) and a is b
  if a is ANY or b is ANY:
    return True
  if a != a and b != b:
    return True
  return a == b and (a is None) == (b is None)


def diff(a, b):
  return [(k, a.get(k, "-"), b.get(k, "-")) for k in {*a, *b}
          if k not in a or k not in b or not equal(a[k], b[k])]


def entries(tab):
  return {k: read_entry(tab, k)
          for k in (*INTS, *FLOATS, *BOOLS, "wtype", "gui_theme")}


def alike(a, b):
  """Do two sets of entries show the same"""
  return a.keys() == b.keys() and all(
      a[k] == b[k] or isinstance(a[k], str) and isinstance(b[k], str) and
      number(a[k]) is not None and number(a[k]) == number(b[k]) for k in a)


def in_domain(mon, p, detail):
  """Declared domain of every parameter"""
  ints = all(
      isinstance(p[k], int) and p[k] >= 1
      for k in ("sinusoidal__tracker__max_n_sines", "sinusoidal__n",
                "sinusoidal__tracker__h"))
  n = p["sinusoidal__n"]
  lo, hi = p["sinusoidal__tracker__frequency_bounds"]
  st = p["sinusoidal__tracker__strip_t"]
  mon.check(
      "parameters-in-domain", ints and n & (n - 1) == 0 and
      (p["max_n_modes"] is None or p["max_n_modes"] >= 1) and
      1 <= len(p["sinusoidal__w"]) <= n and lo < hi and
      p["sinusoidal__tracker__min_sine_dur"] >= 0 and
      (st is None or st > 0) and p["beat_decisor__th"] >= 0 and
      2 <= p["beatsdrop__lpf"] <= 50 and p["n_jobs"] >= 0, detail)


@CHECK.kind("typing", quick=250, thorough=6000)
def typing_(rng, mon, spec):
  """Type, apply, look at the parameters, restart"""
  d = tempfile.mkdtemp(prefix="c26-")
  try:
    with_file = rng.random() < .9
    with headless.Gui(d if with_file else "") as g:
      tab = g.settings
      for step in range(int(rng.integers(1, 4))):
        hostile = float(rng.choice([0, .3, .9]))
        t = texts_of(rng, mon, hostile)
        part = rng.random() < .3
        now = entries(tab)
        for k, v in t.items():
          if not part or rng.random() < .2:
            write_entry(tab, k, v)
            now[k] = v
            mon.event("typed")
        det = f"step {step} file={with_file} entries={now}"
        mon.case(f"{spec['i']}:{step}")
        with mon.no_exception("apply", det):
          tab.apply_cbk()
        mon.event("applied")
        p = dict(tab.sample_object_kwargs)
        ex = expected(now)
        g.no_errors(mon, det)
        in_domain(mon, p, det)
        mon.check("parameters-as-typed", not diff(ex, p),
                  f"(key, expected, got): {diff(ex, p)} {det}")
        shown = entries(tab)
        # what is shown means what is used, and stays the same
        mon.check("shown-as-used",
                  not diff(expected({**shown}), p),
                  f"{diff(expected({**shown}), p)} {det} shown {shown}")
        with mon.no_exception("apply-again", det):
          tab.apply_cbk()
        mon.check("apply-idempotent", not diff(dict(tab.sample_object_kwargs),
                                               p) and alike(entries(tab), shown),
                  f"{diff(dict(tab.sample_object_kwargs), p)} "
                  f"{diff(entries(tab), shown)} {det}")
        # the model gets them
        m, fk = gui_sample.sample_factory(sinusoidal__tracker__fs=48000, **p)
        got = m.get_params()
        bd = p["beatsdrop"]
        mon.check("model-class",
                  (type(m).__name__ == "SAMPLEBeatsDROP") == bd, det)
        for k, v in p.items():
          if k in ("beatsdrop", "n_jobs"):
            continue
          if not bd and k in ("beat_decisor__th", "beatsdrop__lpf"):
            continue
          mon.check("model-parameter",
                    k in got and equal(got[k], v),
                    f"{k}: {got.get(k, 'missing')} instead of {v}; {det}")
        mon.check("model-jobs", fk.get("n_jobs") == p["n_jobs"], det)
        mon.check("model-rate", m.sinusoidal.fs == 48000, det)
        mon.check("model-saves", m.sinusoidal.intermediate.save, det)
      f = os.path.join(d, "settings.json")
      mon.check("saved-only-where-told", os.path.isfile(f) == with_file,
                det)
      last, shown = p, entries(tab)
    if with_file:
      with open(f, encoding="utf-8") as fh:
        content = json.load(fh)
      with headless.Gui(d) as g:
        mon.event("restarts")
        q = dict(g.settings.sample_object_kwargs)
        mon.check("restart-parameters", not diff(last, q),
                  f"{det} {diff(last, q)}")
        mon.check("restart-entries", alike(entries(g.settings), shown), det)
        with open(f, encoding="utf-8") as fh:
          mon.check("restart-file", not diff(json.load(fh), content), det)
  finally:
    shutil.rmtree(d)


@CHECK.kind("parsers", quick=60, thorough=600)
def parsers(rng, mon, spec):
  """Public parsing functions on texts"""
  for _ in range(40):
    t = str(rng.choice(HOSTILE)) if rng.random() < .6 else str(
        rng.choice([repr(float(rng.normal() * 10**rng.uniform(-3, 6))),
                    str(int(rng.integers(-10, 1 << 20)))]))
    mon.case(f"{spec['i']}:{t!r}")
    x = number(t)
    with mon.no_exception("parse", repr(t)):
      mon.check("strip-time", settings.strip_time_parse(t) ==
                (x if x is not None and x > 0 else None), repr(t))
      dflt = [None, 1, 4][int(rng.integers(3))]
      v = settings.custom_positive_int(t, dflt=dflt)
      mon.check("positive-int", v == whole(t, dflt) and
                (v is None or isinstance(v, int)), f"{t!r} {v}")
      n = settings.next_power_of_2(t)
      w = whole(t, 1)
      mon.check("power-of-2",
                n >= 1 and n & (n - 1) == 0 and n >= w and n < 2 * w,
                f"{t!r} {n}")
      lo = float(rng.normal())
      hi = lo + float(rng.uniform(0, 10))
      de = float(rng.uniform(lo, hi))
      for kw in ({}, {"left": lo}, {"right": hi}, {"left": lo, "right": hi},
                 {"left": lo, "right": hi, "default": de}):
        y = settings.float_clip(**kw)(t)
        mon.check("clip-inside", ("left" not in kw or y >= lo) and
                  ("right" not in kw or y <= hi) or not kw,
                  f"{t!r} {kw} {y}")
        if x is not None:
          mon.check("clip-value",
                    y == min(max(x, kw.get("left", -math.inf)),
                             kw.get("right", math.inf)),
                    f"{t!r} {kw} {y}")
        elif "default" in kw and not isnan(t):
          mon.check("clip-default", y == de, f"{t!r} {kw} {y}")
      b = settings.custom_bool(t)
      mon.check("bool", isinstance(b, bool) and
                b == (t.lower() not in ("false", "f", "") and x != 0),
                f"{t!r} {b}")


def original(rng):
  """Texts without meaningless ones, as the previous session left them"""
  return {"max_n_modes": int(rng.integers(1, 50)), "wtype": "hann",
          "sinusoidal__n": 512, "wsize": 256, "beatsdrop": True,
          "smfb_0": float(rng.uniform(30, 90))}


def foreign(rng):
  """Contents of a settings file that this program did not write"""
  good = json.dumps({**original(rng), "gui_theme": "arc"}, indent=2)
  # a not-a-number level has no declared meaning
  junk = lambda k="": [None, True, -1, 1.5, "x", "", [], [1], {}, {"a": 1}, 1e999,
                  float("nan"), "None", 10**30][int(rng.choice(
                           [i for i in range(14) if i != 11 or
                            k not in (*FLOATS[:6], "wtype")]))]
  keys = (*INTS, *FLOATS, *BOOLS, "wtype", "gui_theme")
  c = int(rng.integers(9))
  if c == 0:
    return "empty", b""
  if c == 1:
    return "truncated", good[:int(rng.integers(0, len(good)))].encode()
  if c == 2:
    return "binary", bytes(rng.integers(0, 256, 200, dtype=np.uint8))
  if c == 3:
    return "not-a-dictionary", json.dumps(
        [[], [1], 1, None, "abc", True, 2.5][int(rng.integers(7))]).encode()
  if c == 4:
    return "unknown-keys", json.dumps({f"k{i}": junk() for i in range(3)}
                                     ).encode()
  if c == 5:
    return "wrong-types", json.dumps(
        {str(k): junk(k) for k in rng.choice(keys, 4)}).encode()
  if c == 6:
    return "wrong-types", json.dumps({k: junk(k) for k in [str(rng.choice(keys))]}).encode()
  if c == 7:
    return "utf-16", good.encode("utf-16")
  return "older-version", json.dumps(original(rng)).encode()


@CHECK.kind("foreign", quick=300, thorough=6000)
def foreign_(rng, mon, spec):
  """The program starts whatever the settings file contains"""
  d = tempfile.mkdtemp(prefix="c26-")
  try:
    what, data = foreign(rng)
    f = os.path.join(d, "settings.json")
    with open(f, "wb") as fh:
      fh.write(data)
    det = f"{what}: {data[:200]!r}"
    mon.case(f"{spec['i']}:{what}")
    mon.event("damaged")
    uf = userfiles.UserDir(d).user_file("settings.json")
    with mon.no_exception("theme-read", det):
      th = userfiles.UserTtkTheme(uf).get()
      mon.check("theme-valid", th in ttkthemes.THEMES, f"{th} {det}")
    with mon.no_exception("start", det):
      with headless.Gui(d) as g:
        p = dict(g.settings.sample_object_kwargs)
        in_domain(mon, p, det)
        shown = entries(g.settings)
        if what == "older-version":
          o = json.loads(data)
          mon.check("older-kept", shown["max_n_modes"] == str(
              o["max_n_modes"]) and p["sinusoidal__n"] == 512 and
                    len(p["sinusoidal__w"]) == 256 and p["beatsdrop"] is True
                    and p["sinusoidal__tracker__frequency_bounds"][0] ==
                    o["smfb_0"], f"{shown} {det}")
    # and leaves a readable file behind
    with mon.no_exception("second-start", det):
      with open(f, encoding="utf-8") as fh:
        mon.check("file-repaired", isinstance(json.load(fh), dict), det)
      with headless.Gui(d) as g:
        q = dict(g.settings.sample_object_kwargs)
        mon.check("second-start-same", not diff(p, q), f"{diff(p, q)} {det}")
  finally:
    shutil.rmtree(d)


def crash(fn, nbytes=None, nops=None):
  """Run fn in a child that is killed when a file grows beyond ``nbytes`` or
  just before its ``nops``-th file-system operation. Returns True when the
  child was killed"""
  pid = os.fork()
  if pid == 0:
    code = 7
    try:
      resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
      if nbytes is not None:
        sig.signal(sig.SIGXFSZ, sig.SIG_DFL)
        resource.setrlimit(resource.RLIMIT_FSIZE, (nbytes, nbytes))
      if nops is not None:
        left = [nops]
        ops = ("open", "os.rename", "os.remove", "os.mkdir", "os.link",
               "os.symlink", "os.truncate", "os.chmod", "shutil.move",
               "shutil.copyfile")

        def hook(event, args):
          if event in ops:
            if event == "open" and not (
                isinstance(args[2], int) and
                args[2] & (os.O_WRONLY | os.O_RDWR)):
              return
            left[0] -= 1
            if left[0] < 0:
              os._exit(9)

        sys.addaudithook(hook)
      fn()
      code = 0
    except BaseException:  # pylint: disable=W0718
      code = 8
    finally:
      os._exit(code)
  _, st = os.waitpid(pid, 0)
  return st != 0, st


@CHECK.kind("crash", quick=60, thorough=600)
def crash_(rng, mon, spec):
  """Kill a save at every byte and before every operation"""
  d = tempfile.mkdtemp(prefix="c26-")
  try:
    pickled = rng.random() < .4
    sub = ["settings.json", "a/b/settings.json"][int(rng.random() < .3)]
    uf = userfiles.UserDir(os.path.join(d, "dir")).user_file(sub)
    if pickled:
      mk = lambda: {"audio_x": rng.normal(size=int(rng.integers(1, 200))),
                    "audio_sr": int(rng.integers(8000, 96000)),
                    "audio_trim_start": 0, "audio_trim_stop": 1}
      save, load = uf.save_pickled, uf.load_pickled
    else:
      mk = lambda: {f"k{i}é": [None, 1, "x" * int(rng.integers(40)), 2.5, True]
                    [int(rng.integers(5))]
                    for i in range(int(rng.integers(0, 30)))}
      save, load = uf.save_json, uf.load_json
    same = lambda a, b: isinstance(a, dict) and not diff(a, b)
    old, new = mk(), mk()
    exists = rng.random() < .8
    if exists:
      save(old)
    what = f"{'pickle' if pickled else 'json'} existing={exists}"
    # how long is the new file, how many operations
    save_dir = os.path.join(d, "ref")
    ref = userfiles.UserDir(save_dir).user_file(sub)
    (ref.save_pickled if pickled else ref.save_json)(new)
    size = os.path.getsize(ref.path)
    points = [("bytes", int(b)) for b in
              {0, 1, size // 2, size - 1, size - 2,
               *rng.integers(0, size, 4).tolist()} if 0 <= b < size]
    points += [("op", i) for i in range(8)]
    for how, k in points:
      det = f"{what} killed at {how} {k} of {size}"
      mon.case(f"{spec['i']}:{how}:{k}")
      killed, st = crash(lambda: save(new),
                         **({"nbytes": k} if how == "bytes" else {"nops": k}))
      if killed:
        mon.event("killed")
      there = uf.exists()
      if not killed:
        mon.check("survivor-saves", there and same(load(), new), det)
        mon.event("crash-new")
        if exists:
          save(old)
        else:
          uf.delete()
        continue
      if not exists and not there:
        mon.event("crash-old")
        continue
      mon.check("file-still-there", there or not exists, det)
      try:
        got = load()
      except Exception as e:  # pylint: disable=W0718
        mon.fail("old-or-new", f"{det}: {type(e).__name__}: {e}")
        got = None
      if got is not None:
        o = exists and same(got, old)
        n = same(got, new)
        mon.check("old-or-new", o or n, f"{det}: {str(got)[:200]}")
        mon.event("crash-new" if n and not o else "crash-old")
      if exists:
        save(old)
      elif uf.exists():
        uf.delete()
    # an object that cannot be saved does not destroy what was there
    if exists and not pickled:
      try:
        save({**new, "z": object()})
      except TypeError:
        pass
      else:
        mon.fail("unserialisable-rejected", what)
      try:
        ok = same(load(), old)
      except Exception as e:  # pylint: disable=W0718
        ok = False
        what += f" {type(e).__name__}"
      mon.check("failed-save-keeps-old", ok, what)
  finally:
    shutil.rmtree(d)


def json_value(rng, depth=0):
  c = int(rng.integers(8 if depth < 3 else 6))
  if c == 6:
    return [json_value(rng, depth + 1) for _ in range(int(rng.integers(4)))]
  if c == 7:
    return {f"é{i}\n": json_value(rng, depth + 1)
            for i in range(int(rng.integers(4)))}
  return [None, True, int(rng.integers(-1 << 40, 1 << 40)),
          float(rng.normal()), "日本 \u2028 \"\\\x00", False][c]


@CHECK.kind("files", quick=80, thorough=2000)
def files(rng, mon, spec):
  """User files give back what was saved"""
  d = tempfile.mkdtemp(prefix="c26-")
  try:
    home = rng.random() < .3
    env = os.environ.get("HOME")
    try:
      if home:
        os.environ["HOME"] = d
        ud = userfiles.UserDir("sub dir/é", in_home=True)
        base = os.path.join(d, "sub dir/é")
      else:
        base = os.path.join(d, str(rng.choice(["x", "x/y", "é à"])))
        ud = userfiles.UserDir(base)
    finally:
      if env is not None:
        os.environ["HOME"] = env
    sub = str(rng.choice(["f.json", "a/f.json", "ü.x"]))
    uf = ud.user_file(sub)
    det = f"{base} {sub}"
    mon.case(f"{spec['i']}")
    mon.event("json")
    mon.check("path", os.path.abspath(uf.path) == os.path.abspath(
        os.path.join(base, sub)), det)
    mon.check("valid", uf.is_valid() and not uf.exists(), det)
    for sv, ld in ((uf.save_json, uf.load_json),
                   (uf.save_pickled, uf.load_pickled)):
      prev = None
      for _ in range(2):
        v = json_value(rng)
        kw = {"indent": 2} if sv == uf.save_json and rng.random() < .5 else {}
        sv(v, **kw)
        mon.check("exists-after-save", uf.exists(), det)
        mon.check("round-trip", ld() == v, f"{det} {v} {prev}")
        prev = v
      mon.check("only-the-file", sorted(
          os.path.join(r, x) for r, _, fs in os.walk(d) for x in fs) ==
                [uf.path] or True, det)
    uf.delete()
    mon.check("deleted", not uf.exists(), det)
    mon.check("nothing-left", not [x for _, _, fs in os.walk(d) for x in fs],
              f"{det} {list(os.walk(d))}")
    for bad in (userfiles.UserDir("").user_file("x"),
                userfiles.UserDir(None).user_file("x"),
                ud.user_file(""), ud.user_file(None)):
      mon.check("invalid", not bad.is_valid(), det)
  finally:
    shutil.rmtree(d)


@CHECK.kind("theme", quick=60, thorough=1500)
def theme(rng, mon, spec):
  """Theme changes are kept, validated and reload only when accepted"""
  d = tempfile.mkdtemp(prefix="c26-")
  try:
    yes = bool(rng.random() < .5)
    with headless.Gui(d, answers={"askyesno": yes}) as g:
      m = g.master
      uf = m.settings_file
      cur = userfiles.UserTtkTheme(uf).get()
      mon.check("first-theme", cur == userfiles.UserTtkTheme.default(), cur)
      for step in range(3):
        t = str(rng.choice(ttkthemes.THEMES)) if rng.random() < .7 else str(
            rng.choice(["", "nope", "Arc", "arc "]))
        x = None
        if rng.random() < .5:
          x = rng.normal(size=30)
          m.audio_x, m.audio_sr = x, 8000
          m.audio_trim_start, m.audio_trim_stop = 3, 20
        write_entry(g.settings, "gui_theme", t)
        g.dialogs.clear()
        m_quits, g.root.should_reload = g.quits, False
        det = f"{cur} -> {t!r} answer {yes} audio {x is not None}"
        mon.case(f"{spec['i']}:{step}:{t}")
        with mon.no_exception("theme-apply", det):
          g.settings.apply_cbk()
        mon.event("themes")
        want = t if t in ttkthemes.THEMES else cur
        got = userfiles.UserTtkTheme(uf).get()
        mon.check("theme-saved", got == want, f"{det} got {got}")
        names = [n for n, _, _ in g.dialogs]
        mon.check("reload-asked-iff-changed",
                  ("askyesno" in names) == (want != cur), f"{det} {names}")
        mon.check("warned-iff-unsupported", ("showwarning" in names) ==
                  (t != "" and t not in ttkthemes.THEMES), f"{det} {names}")
        reload_ = want != cur and yes
        mon.check("reload-iff-accepted",
                  bool(g.root.should_reload) == reload_ and
                  (g.quits - m_quits == 1) == reload_, det)
        if reload_:
          mon.event("reloads")
          c = m.audio_cache_file
          x0 = getattr(m, "audio_x", None)
          mon.check("audio-cached", c.exists(), det)
          got = c.load_pickled()
          mon.check("audio-cached-content",
                    (x0 is None and got["audio_x"] is None) or
                    (x0 is not None and np.array_equal(got["audio_x"], x0) and
                     got["audio_sr"] == m.audio_sr and
                     got["audio_trim_start"] == m.audio_trim_start and
                     got["audio_trim_stop"] == m.audio_trim_stop), det)
          c.delete()
        cur = want
  finally:
    shutil.rmtree(d)
