"""C30: notebook widgets play and show the right data"""
import base64
import io
import json
import inspect
import re
import subprocess
import time
import wave
from html import parser

import numpy as np
from IPython.core import interactiveshell
from IPython.core.displaypub import CapturingDisplayPublisher
from sklearn import base, linear_model

from vf import audio
from vf.core import VERIF, Check

CHECK = Check(
    "C30",
    rule="random sounds, labels, models and options become widgets: the HTML "
    "is parsed and its scripts are run by a JavaScript engine over a recording "
    "audio output and a stand-in page with several widgets on it; what IPython "
    "publishes is captured and its audio decoded. Oracles: the given samples, "
    "docstrings generated together with their meaning, the sections clicked. "
    "Non-trivial: something is displayed.",
    require={"played": 263, "channels": 40, "widgets": 100, "parameters": 700,
             "roles": 200, "toggles": 200, "two-models": 15, "timings": 15,
             "labels": 150, "decoded": 150, "clipped": 15, "normalised": 20,
             "end-to-end": 10},
    assumptions=["node runs the scripts as a browser would; the page holds "
                 "all the widgets of a notebook"],
)


class Tree(parser.HTMLParser):
  """Elements, as nested dictionaries, and text of the scripts"""

  def __init__(self):
    super().__init__(convert_charrefs=True)
    self.root = {"tag": "root", "attrs": {}, "children": [], "text": ""}
    self.stack = [self.root]
    self.scripts = []
    self.balanced = True

  def handle_starttag(self, tag, attrs):
    e = {"tag": tag, "attrs": dict(attrs), "children": [], "text": ""}
    self.stack[-1]["children"].append(e)
    if tag not in ("br", "meta", "link", "hr", "img", "input"):
      self.stack.append(e)

  def handle_endtag(self, tag):
    if self.stack[-1]["tag"] != tag:
      self.balanced = False
      return
    e = self.stack.pop()
    if tag == "script":
      self.scripts.append(e["text"])

  def handle_data(self, data):
    self.stack[-1]["text"] += data

  @classmethod
  def of(cls, html):
    t = cls()
    t.feed(html)
    t.close()
    t.balanced &= len(t.stack) == 1
    return t


def run_page(trees, clicks):
  """Run the widgets of a page, then click on its buttons"""
  job = {"widgets": [{"scripts": t.scripts, "tree": t.root["children"]}
                     for t in trees], "clicks": [int(c) for c in clicks]}
  p = subprocess.run(["node", f"{VERIF}/vf/page.js"], input=json.dumps(job),
                     capture_output=True, text=True, timeout=100, check=False)
  if p.returncode:
    raise RuntimeError(p.stderr[-800:])
  return json.loads(p.stdout)


def sounds(rng):
  """A sound of any supported shape and type"""
  fs = [8000, 44100, 48000, 22050.5, 96000][rng.integers(5)]
  z = rng.integers(0, 6)
  n = int(rng.choice([1, 2, 3, 50, 400]))
  if z == 0:
    x = np.ravel(audio.hostile(rng, fs, n=n)[1])[:600]
  elif z == 1:
    x = rng.normal(size=(int(rng.integers(1, 5)), n))
  elif z == 2:
    x = rng.normal(size=(n, 2)).T
  elif z == 3:
    x = rng.normal(size=n)
  elif z == 4:
    x = (20 * rng.normal(size=(2, n)) if rng.random() < .5 else
         20 * rng.normal(size=n)).astype(int)
  else:
    x = np.zeros(n)
  x = x * 10**rng.uniform(-4, 1) if x.dtype.kind == "f" else x
  if x.dtype.kind == "f" and rng.random() < .3:
    x = x.astype("f4")
  if rng.random() < .2:
    x = np.ascontiguousarray(x)[..., ::-1]
  return x, fs


def number(v):
  return {"NaN": np.nan, "Infinity": np.inf, "-Infinity": -np.inf}[
      v] if isinstance(v, str) else v


@CHECK.kind("webaudio", quick=140, thorough=1200)
def webaudio(rng, mon, spec):
  """Several players on one page"""
  from sample import ipython  # pylint: disable=C0415
  k = int(rng.integers(1, 9))
  data, trees, labels = [], [], []
  for _ in range(k):
    x, fs = sounds(rng)
    lab = rng.choice(["Play", "Original", "Größe 1", "{x}", "100%"])
    lab = None if rng.random() < .3 else str(lab)
    arg = x.tolist() if rng.random() < .15 else x
    det = f"{x.dtype} {x.shape} {fs} {lab!r}"
    with mon.frozen("data-untouched", x, detail=det):
      with mon.no_exception("widget", det):
        if rng.random() < .5:
          w = ipython.WebAudio(arg, fs, **({"label": lab} if lab else {}))
        else:
          w = ipython.WebAudio(x=arg, rate=fs,
                               **({"label": lab} if lab else {}))
    t = Tree.of(w._repr_html_())
    mon.check("html", t.balanced, det)
    b = [e for e in t.root["children"] if e["tag"] == "button"]
    mon.require("one-button", len(b) == 1, det)
    mon.check("label", b[0]["text"] == (lab or "Play"),
              lambda: f"{det} {b[0]['text']!r}")
    data.append((x, fs))
    trees.append(t)
    labels.append(lab)
  det = f"{k} widgets"
  mon.case((k, [(d.shape, str(d.dtype), f) for d, f in data]))
  clicks = rng.integers(0, k, int(rng.integers(1, 8)))
  out = run_page(trees, clicks)
  mon.require("scripts-run", out["error"] is None,
              lambda: f"{det} {out['error']}")
  mon.require("plays-once", len(out["played"]) == len(clicks), det)
  for c, p in zip(clicks, out["played"]):
    x, fs = data[c]
    mon.event("played")
    d = f"{x.dtype} {x.shape} {fs}"
    mon.check("rate", p["sr"] == fs, lambda: f"{d} {p['sr']}")
    x = np.atleast_2d(np.asarray(x, dtype=float)).astype("f4")
    mon.require("channels", len(p["data"]) == len(x), d)
    if len(x) > 1:
      mon.event("channels")
    for i, (g, w) in enumerate(zip(p["data"], x)):
      mon.same("samples", np.array([number(v) for v in g], dtype="f4"), w,
               f"{d} channel {i}")


WORDS = ("decay of the", "array", "in dB (default)", "signal; if", "see", "and",
         "model, e.g. 3.5,", "a_true -> loss", "time: seconds", "None", "%d",
         "{braces}", "50%", "x[0]")
ROLES = ("data", "class", "func", "meth", "attr")
NAMES = ("a", "t", "t_c", "alpha", "w", "h", "x1", "fs", "returns", "model_k",
         "n", "n_x", "Args_", "b0")


def phrase(rng, mon):
  """Description, as written and as meant"""
  src, text = [], []
  for _ in range(int(rng.integers(1, 9))):
    if rng.random() < .35:
      v = str(rng.choice(["None", "sample.sms.sm.SinusoidalModel", "f(a, b)",
                          "True", "x.y", "-90"]))
      p = str(rng.choice(["", ".", ",", ")"]))
      src.append(f":{rng.choice(ROLES)}:`{v}`{p}")
      text.append(v + p)
      mon.event("roles")
    else:
      v = str(rng.choice(WORDS))
      src.append(v)
      text.append(v)
  return src, " ".join(text)


def make_model(rng, mon, depth=0):
  """Random model class with its documentation, and what should be shown"""
  names = [str(n) for n in rng.permutation(NAMES)[:int(rng.integers(1, 6))]]
  want = []
  lines = []
  values = {}
  for k in names:
    sub = None
    if depth < 2 and rng.random() < .35:
      values[k], sub = make_model(rng, mon, depth + 1)
    else:
      values[k] = [None, 1, "x", 3.5, np.arange(3)][rng.integers(5)]
    if rng.random() < .8:
      typ = str(rng.choice(["", " (int)", " (callable)", " (float, float)"]))
      src, text = phrase(rng, mon)
      head = f"{k}{typ}:"
      rows = [[head]]
      for s in src:
        if rng.random() < .25:
          rows.append([])
        rows[-1].append(s)
      rows = [r for r in rows if r]
      lines += ["    " + " ".join(rows[0])]
      lines += ["      " + " ".join(r) for r in rows[1:]]
      if rng.random() < .1:
        lines.append("")
      shown = f"{head} {text}"
    else:
      shown = k
    want.append((k, shown, sub))
  form = rng.integers(0, 4)
  cls_name = f"Model{int(rng.integers(100))}"
  doc = f"""{cls_name} of something

  Some text: with colons.

  Args:
""" + "\n".join(lines)
  if form == 1:
    doc += "\n\n  Returns:\n    Something of type :class:`float`"
  elif form == 2:
    doc += "\n\n  Example:\n    >>> a = 3\n    >>> t = a\n    3"
  elif form == 3:
    doc += "\n  "
  if not lines:
    doc = None if rng.random() < .5 else "No arguments here"
  src = f"def __init__(self, {', '.join(f'{k}=None' for k in names)}):\n"
  src += "\n".join(f"  self.{k} = {k}" for k in names)
  ns = {}
  exec(src, ns)  # pylint: disable=W0122
  cls = type(cls_name, (base.BaseEstimator,), {
      "__init__": ns["__init__"], "__doc__": doc})
  return cls(**values), sorted(want)


def meant(doc):
  """Descriptions of the arguments in a docstring"""
  lines = inspect.cleandoc(doc or "").split("\n")
  starts = [i for i, l in enumerate(lines) if "Args:" in l]
  out = {}
  if not starts:
    return out
  rows = lines[starts[0] + 1:]
  ind = None
  cur = None
  for l in rows:
    if not l.strip():
      continue
    n = len(l) - len(l.lstrip())
    if ind is None:
      ind = n
    if n < ind:
      break
    if n == ind:
      k = re.match(r"\w+", l.strip())
      cur = k.group(0) if k else None
      out[cur] = l.strip()
    else:
      out[cur] += " " + l.strip()
  for k, v in out.items():
    out[k] = re.sub(r":\w+:`([^`]*)`", r"\1", v)
  return out


def real_want(m):
  doc = meant(type(m).__doc__)
  return sorted((k, doc.get(k, k),
                 real_want(v) if hasattr(v, "get_params") else None)
                for k, v in m.get_params(deep=False).items())


def flat(s):
  return " ".join(s.split())


def compare(mon, det, elements, want):
  """Elements of a model against its parameters"""
  e = list(elements)
  got = []
  while e:
    x = e.pop(0)
    sub = None
    if x["tag"] == "button":
      mon.require("section-content", e and e[0]["tag"] == "div" and
                  "content" == e[0]["attrs"].get("class"), det)
      sub = e.pop(0)
    got.append((x, sub))
  mon.require("each-parameter-once", len(got) == len(want),
              lambda: f"{det} {len(got)} shown of {len(want)}: "
              f"{[flat(g[0]['text']) for g in got]}")
  for (x, sub), (k, text, inner) in zip(got, want):
    mon.event("parameters")
    mon.check("description", flat(x["text"]) == flat(text),
              lambda: f"{det} {k}: {flat(x['text'])!r} want {flat(text)!r}")
    if not mon.check("sections", (sub is not None) == (inner is not None),
                     f"{det} {k}"):
      continue
    if inner is not None:
      mon.check("collapsible", "collapsible" in x["attrs"].get(
          "class", "").split(), det)
      compare(mon, f"{det}/{k}", sub["children"], inner)


def find(t, tag):
  for e in t["children"]:
    if e["tag"] == tag:
      return e
    r = find(e, tag)
    if r is not None:
      return r
  return None


def preorder(t, cond):
  out = []
  for e in t["children"]:
    if cond(e):
      out.append(e)
    out += preorder(e, cond)
  return out


@CHECK.kind("params", quick=250, thorough=2000)
def params(rng, mon, spec):
  from sample import ipython  # pylint: disable=C0415
  k = int(rng.choice([1, 1, 2, 3]))
  trees = []
  for _ in range(k):
    if rng.random() < .2:
      m, want = real_model(rng)
    else:
      m, want = make_model(rng, mon)
    det = type(m).__name__
    before = repr(m)
    with mon.no_exception("widget", det):
      w = ipython.CollapsibleModelParams(m)
    mon.check("model-untouched", repr(m) == before, det)
    t = Tree.of(w._repr_html_())
    mon.event("widgets")
    mon.check("html", t.balanced, det)
    mon.case((det, [v[:2] for v in want]))
    body = find(t.root, "body") or t.root
    compare(mon, det, body["children"], [(det, det, want)])
    trees.append(t)
  # Buttons and the content that follows them, in order, in the page
  btn, cont, pair = [], [], {}

  def visit(e):
    for i, x in enumerate(e["children"]):
      if x["tag"] == "button":
        pair[len(btn)] = e["children"][i + 1]
        btn.append(x)
      if x["attrs"].get("class") == "content":
        cont.append(x)
      visit(x)

  for t in trees:
    visit(t.root)
  clicks = rng.integers(0, len(btn), int(rng.integers(1, 10)))
  out = run_page(trees, clicks)
  if out["error"] is not None:
    mon.check("scripts-run", out["error"]["name"] not in (
        "SyntaxError", "ReferenceError"), lambda: f"{out['error']}")
    mon.event("page-not-supported")
    return
  if k > 1:
    mon.event("two-models")
  state = [0] * len(cont)
  mon.same("closed-at-first", out["states"][0], state, f"{k} widgets")
  for c, s in zip(clicks, out["states"][1:]):
    mon.event("toggles")
    j = next(i for i, e in enumerate(cont) if e is pair[c])
    state[j] = 1 - state[j]
    mon.check("click-toggles-own-section", s == state,
              lambda: f"{k} widgets click {c}: {s} want {state}")


def real_model(rng):
  from sample.beatsdrop import sample as bsample  # pylint: disable=C0415
  from sample import sample as sample_mod  # pylint: disable=C0415
  from sample import hinge  # pylint: disable=C0415
  from sample.sms import mm, sm  # pylint: disable=C0415
  c = [sample_mod.SAMPLE, bsample.SAMPLEBeatsDROP, mm.ModalModel,
       sm.SinusoidalModel, hinge.HingeRegression,
       linear_model.LinearRegression][rng.integers(6)]
  m = c()
  if c is linear_model.LinearRegression:
    # documented in another style: names only
    return m, sorted((k, k, None) for k in m.get_params())
  return m, real_want(m)


def shell():
  s = interactiveshell.InteractiveShell.instance()
  s.display_pub = CapturingDisplayPublisher()
  return s.display_pub


@CHECK.kind("timing", quick=30, thorough=300)
def timing(rng, mon, spec):
  from sample import ipython  # pylint: disable=C0415
  pub = shell()
  kw = {}
  if rng.random() < .6:
    kw["title"] = str(rng.choice(["<h1>Test</h1>", "", "T{}: "]))
  if rng.random() < .6:
    kw["msg"] = str(rng.choice(["took {}", "{} elapsed", "Time: {}!"]))
  if rng.random() < .6:
    kw["unit"], kw["scale"] = [("s", 1), ("us", 1e6), ("min", 1 / 60)][
        rng.integers(3)]
  if rng.random() < .6:
    kw["ndigits"] = int(rng.integers(0, 7))
  det = f"{kw}"
  mon.case((det, float(rng.random())))
  s = float(rng.choice([0, .002, .02]))
  t0 = time.time()
  with mon.no_exception("timer", det):
    with ipython.time_this(**kw) as started:
      t1 = time.time()
      time.sleep(s)
      t2 = time.time()
  t3 = time.time()
  mon.event("timings")
  mon.check("start", t0 <= started <= t1, det)
  mon.require("one-message", len(pub.outputs) == 1, det)
  html = pub.outputs[0]["data"]["text/html"]
  a, b = (kw.get("title", "") + "\0" + kw.get(
      "msg", "Execution time: {}").replace("{}", "\1")).split("\1")
  a = a.replace("\0", "")
  mon.require("message", html.startswith(a) and html.endswith(b),
              lambda: f"{det} {html!r}")
  val, unit = html[len(a):len(html) - len(b) or None].split(" ")
  mon.check("unit", unit == kw.get("unit", "ms"), det)
  nd = kw.get("ndigits", 0)
  mon.check("digits", len(val.partition(".")[2]) == nd, f"{det} {val}")
  sc = kw.get("scale", 1000)
  slack = .5 * 10.**-nd * 1.001 + 1e-9
  mon.check("duration", (t2 - t1) * sc - slack <= float(val) <=
            (t3 - t0) * sc + slack,
            lambda: f"{det} {val} of {(t2 - t1) * sc}..{(t3 - t0) * sc}")


def decode(html):
  m = re.search(r'src="data:audio/(?:x-)?wav;base64,([^"]+)"', html)
  with wave.open(io.BytesIO(base64.b64decode(m.group(1)))) as w:
    d = np.frombuffer(w.readframes(w.getnframes()), "<i2")
    return d.reshape((-1, w.getnchannels())).T, w.getframerate()


def wav_check(mon, det, html, y, rate, normalize):
  mon.event("decoded")
  x, r = decode(html)
  mon.check("rate", r == rate, lambda: f"{det} {r}")
  y = np.atleast_2d(np.asarray(y, dtype=float))
  if normalize:
    mon.event("normalised")
    m = np.max(np.abs(y))
    y = y / (m or 1)
  else:
    if np.max(np.abs(y)) > 1:
      mon.event("clipped")
    y = np.clip(y, -1, 1)
  if len(y) > 1:
    mon.event("channels")
  mon.close("samples", x / 32767, y, rtol=0, atol=1.01 / 32767, detail=det)


@CHECK.kind("foreach", quick=150, thorough=1000)
def foreach(rng, mon, spec):
  from sample import ipython  # pylint: disable=C0415
  rate = int(rng.choice([8000, 44100, 48000]))
  au = {"rate": rate}
  norm = None
  if rng.random() < .5:
    norm = au["normalize"] = bool(rng.random() < .6)
  if rng.random() < .3:
    au["autoplay"] = True
  dk = {"metadata": {"k": 1}} if rng.random() < .3 else None
  hk = {"metadata": {"h": 2}} if rng.random() < .3 else None
  args = {"audio_kws": au, "html_kws": hk, "display_kws": dk}
  args = {k: v for k, v in args.items() if v is not None or rng.random() < .5}
  saved = repr(args)
  det = saved
  with mon.no_exception("player", det):
    f = ipython.LabelAndPlayForeach(**args)
  pub = shell()
  for _ in range(int(rng.integers(1, 8))):
    del pub.outputs[:]
    i = None if rng.random() < .3 else int(rng.integers(0, 30))
    k = None if rng.random() < .3 else str(rng.choice(
        ["", "Original", "a & b", "x - y", "3"]))
    y = None
    if rng.random() < .75:
      n = int(rng.integers(1, 300))
      y = rng.normal(size=(2, n) if rng.random() < .3 else n) * 10**rng.uniform(
          -3, 1)
      if rng.random() < .1 and not norm:
        y = y * 0
      if rng.random() < .2:
        y = y.astype("f4")
    d = f"{det} i={i} k={k!r} y={None if y is None else y.shape}"
    mon.case((i, k, None if y is None else (y.shape, norm)),
             nontrivial=not (i is None and k is None and y is None))
    with mon.frozen("data-untouched", *([] if y is None else [y]), detail=d):
      with mon.no_exception("player", d):
        f(i=i, k=k, y=y) if rng.random() < .5 else f(i, k, y)
    mon.check("options-untouched", repr(args) == saved, d)
    out = [o["data"]["text/html"] for o in pub.outputs]
    label = i is not None or k is not None
    mon.require("shown-once", len(out) == label + (y is not None),
                lambda: f"{d} {len(out)}")
    if label:
      mon.event("labels")
      t = Tree.of(out[0])
      want = (k if i is None else
              str(i + 1) if not k else f"{i + 1} - {k}")
      txt = "".join(e["text"] for e in preorder(t.root, lambda e: True)) or \
          t.root["text"]
      mon.check("label", txt == want, lambda: f"{d} {out[0]!r}")
    if y is not None:
      wav_check(mon, d, out[-1], y, rate, norm)
      mon.check("autoplay", ("autoplay" in out[-1]) == ("autoplay" in au), d)
    for o in pub.outputs:
      if dk:
        mon.check("options-passed", o["metadata"].get("k") == 1, d)
    if hk and label:
      m = pub.outputs[0]["metadata"]
      mon.check("options-passed", dk or m.get("h") == 2 or
                m.get("text/html", {}).get("h") == 2, lambda: f"{d} {m}")


@CHECK.kind("resynthesis", quick=40, thorough=200)
def resynthesis(rng, mon, spec):
  """The plot of a resynthesis plays all sounds, with their label, in order"""
  from matplotlib import figure  # pylint: disable=C0415
  from sample import ipython, plots  # pylint: disable=C0415
  from vf.checks import c29  # pylint: disable=C0415
  fs = int(rng.choice([8000, 44100]))
  x = rng.normal(size=2000) * .4
  models = {str(k): c29.modal_model(rng, fs)
            for k in rng.permutation(["b", "SAMPLE", "a", "Z"])[
                :int(rng.integers(1, 4))]}
  original = bool(rng.random() < .7)
  det = f"{list(models)} original={original}"
  mon.case((det, float(rng.random())))
  pub = shell()
  with mon.no_exception("player", det):
    plots.resynthesis(
        x, models, fs=fs, original=original, fig=figure.Figure(),
        foreach=ipython.LabelAndPlayForeach(audio_kws={"rate": fs}))
  t = np.arange(x.size) / fs
  want = ([("Original", x)] if original else []) + [
      (k, m.predict(t)) for k, m in models.items()]
  mon.event("end-to-end")
  out = [o["data"]["text/html"] for o in pub.outputs]
  mon.require("shown-once", len(out) == 2 * len(want), det)
  for i, (k, y) in enumerate(want):
    mon.check("label", out[2 * i] == f"<h1>{i + 1} - {k}</h1>",
              lambda i=i: f"{det} {out[2 * i]!r}")
    wav_check(mon, det, out[2 * i + 1], y, fs, False)
