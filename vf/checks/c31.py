"""C31: release tooling is lossless and in order"""
import ast
import contextlib
import copy
import io
import json
import os
import re
import runpy
import shutil
import sys
import tempfile
import warnings
from unittest import mock

import numpy as np
from IPython.core.inputtransformer2 import TransformerManager
from yapf.yapflib import yapf_api

from vf.core import REPO, Check

CHECK = Check(
    "C31",
    rule="random changelog folders and notebooks are given to the release "
    "scripts, run as programs in a scratch folder; what they write and print "
    "is compared with the files they read: includes resolved from the folder "
    "of the output, sections byte by byte, notebooks as JSON, code as syntax "
    "trees, commands as text. Non-trivial: there is a file to process.",
    require={"changelogs": 100, "includes": 500, "shared-prefix": 60,
             "multi-digit": 60, "extracted": 100, "notebooks": 90,
             "cells": 400, "magics": 200, "commands-in-blocks": 30,
             "reformatted": 80, "second-runs": 60, "dry-runs": 25,
             "broken-cells": 40, "tagged": 10},
    assumptions=["IPython's own translation of a cell gives its meaning"],
)
TAG = re.compile(r"^# yapf:\d+:\d+:", re.M)
UTILS = os.path.join(REPO, "scripts", "utils")


@contextlib.contextmanager
def scratch():
  d = tempfile.mkdtemp(prefix="vf-c31-")
  cwd = os.getcwd()
  os.chdir(d)
  try:
    yield d
  finally:
    os.chdir(cwd)
    shutil.rmtree(d, ignore_errors=True)


def program(name, *argv):
  """Run a script as a program; exit code and standard output"""
  out = io.StringIO()
  path = os.path.join(UTILS, name)
  with mock.patch.object(sys, "argv", [path, *argv]):
    with contextlib.redirect_stdout(out), warnings.catch_warnings():
      warnings.simplefilter("ignore")
      with open(os.devnull, "w", encoding="utf-8") as null:
        with contextlib.redirect_stderr(null):
          try:
            runpy.run_path(path, run_name="__main__")
            code = 0
          except SystemExit as e:
            code = e.code or 0
  return code, out.getvalue()


def read(p):
  with open(p, "r", encoding="utf-8", newline="") as f:
    return f.read()


def write(p, s):
  with open(p, "w", encoding="utf-8", newline="") as f:
    f.write(s)


def version_key(v):
  return v  # tuples compare as wanted: element-wise, shorter first


LINES = ("", "- Fixed `x`", "## Added", "  * indented  ", "`code` & <b>",
         "Größe → 3 µs", "v1.0.0", "===", "#hash", "\ttab", "100%", "\\n", "   ", "\t ")


def section(rng):
  k = int(rng.integers(0, 8))
  s = "\n".join(str(rng.choice(LINES)) for _ in range(k))
  return s + ("\n" if rng.random() < .7 else "")


def versions(rng, mon):
  out = set()
  for _ in range(int(rng.integers(1, 14))):
    n = int(rng.choice([1, 2, 3, 3, 3, 4]))
    v = tuple(int(q) for q in rng.choice(
        [0, 1, 2, 3, 9, 10, 11, 100], n, p=[.25, .2, .15, .1, .1, .1, .05,
                                            .05]))
    out.add(v)
    if rng.random() < .4:
      out.add(v + (int(rng.integers(0, 12)),))
      mon.event("shared-prefix")
    if max(v) > 9:
      mon.event("multi-digit")
  out = list(out)
  rng.shuffle(out)
  return [tuple(int(q) for q in v) for v in out]


@CHECK.kind("changelog", quick=300, thorough=2500)
def changelog(rng, mon, spec):
  with scratch() as d:
    sep = "_" if rng.random() < .7 else str(rng.choice(["-", "."]))
    vs = versions(rng, mon)
    idir = str(rng.choice(["changelog", "a/b c", "in/log"]))
    os.makedirs(idir)
    texts = {}
    for v in vs:
      p = os.path.join(idir, "v" + sep.join(map(str, v)) + ".md")
      texts[v] = "# title\n" + section(rng)
      write(p, texts[v])
    names = {v: os.path.join(d, idir, "v" + sep.join(map(str, v)) + ".md")
             for v in vs}
    junk = [n for n in ("README.md", ".keep", "template.md", "notes")
            if rng.random() < .25]
    for n in junk:
      write(os.path.join(idir, n), "x")
    odir = str(rng.choice(["docs/source", ".", "in", "a"]))
    os.makedirs(odir, exist_ok=True)
    ofile = os.path.join(odir, "changelog.rst")
    if odir == "." and rng.random() < .5:
      ofile = "changelog.rst"
    argv_in, argv_out = idir, ofile
    if rng.random() < .4:
      argv_in = os.path.join(d, idir)
    if rng.random() < .4:
      argv_out = os.path.join(d, ofile)
    argv = [rng.choice(["-I", "--input"]), argv_in,
            rng.choice(["-O", "--output"]), argv_out]
    if sep != "_":
      argv += ["-s", sep]
    dry = bool(rng.random() < .3)
    if dry:
      argv.append("--dry-run")
    old = rng.random() < .5
    if old:
      write(ofile, "old contents\n" * 50)
    argv = list(map(str, argv))
    det = f"{argv} {[names[v][len(d):] for v in vs]} {junk}"
    mon.case((sorted(vs), sep, dry, odir, idir, sorted(junk)))
    mon.event("changelogs")
    with mon.no_exception("changelog-made", det):
      code, out = program("make_changelog.py", *argv)
    mon.check("changelog-made", code == 0, lambda: f"{det} exit {code}")
    if dry:
      mon.event("dry-runs")
      mon.check("dry-run-writes-nothing", read(ofile) == "old contents\n" * 50
                if old else not os.path.exists(ofile), det)
      text = out
    else:
      mon.require("changelog-made", os.path.exists(ofile), det)
      text = read(ofile)
    inc = re.findall(r"^\.\. mdinclude:: (.*)$", text, re.M)
    got = [os.path.normpath(os.path.join(d, odir, i)) for i in inc]
    want = [os.path.normpath(names[v])
            for v in sorted(vs, key=version_key, reverse=True)]
    mon.event("includes", len(want))
    mon.check("each-version-once", sorted(got) == sorted(want),
              lambda: f"{det} {inc}")
    mon.check("version-order", got == want, lambda: f"{det} {inc}")
    rest = re.sub(r"^\.\. mdinclude:: .*\n?", "", text, flags=re.M)
    mon.check("title", rest.strip() == "Changelog\n=========",
              lambda: f"{det} {rest!r}")
    for v in vs:
      mon.check("inputs-untouched", read(names[v]) == texts[v], det)
    if not dry:
      code, _ = program("make_changelog.py", *argv)
      mon.check("same-again", read(ofile) == text, det)


@CHECK.kind("extract", quick=300, thorough=2500)
def extract(rng, mon, spec):
  with scratch() as d:
    vs = [v for v in versions(rng, mon)]
    idir = str(rng.choice(["changelog", "other dir"]))
    os.makedirs(idir)
    texts = {}
    for v in vs:
      texts[v] = section(rng)
      if not texts[v].strip():
        texts[v] = f"- {v}\n"
      first = str(rng.choice(["# Version", "", "v1", "# " + "x" * 100]))
      write(os.path.join(idir, "v" + "_".join(map(str, v)) + ".md"),
            first + "\n" + texts[v])
    v = vs[int(rng.integers(len(vs)))]
    tag = ".".join(map(str, v))
    if rng.random() < .4:
      tag += str(rng.choice(["rc1", "b2", "a0", "-beta", "+local", "-rc.1",
                             ".dev3", ".post1"]))
    argv = ["--version", tag]
    if idir != "changelog" or rng.random() < .3:
      argv += ["--dir", idir]
    to_file = bool(rng.random() < .6)
    if to_file:
      argv += ["--output", "change.log"]
      if rng.random() < .5:
        write("change.log", "previous\n" * 100)
    det = f"{argv} of {sorted(vs)}"
    mon.case((tag, sorted(vs), to_file, texts[v]))
    mon.event("extracted")
    with mon.no_exception("section-extracted", det):
      code, out = program("extract_changelog.py", *argv)
    mon.check("section-extracted", code == 0, lambda: f"{det} exit {code}")
    if to_file:
      mon.check("only-to-file", out == "", det)
      out = read("change.log")
    mon.check("section-exact", out == texts[v],
              lambda: f"{det} {out!r} want {texts[v]!r}")
    for u in vs:
      p = os.path.join(d, idir, "v" + "_".join(map(str, u)) + ".md")
      mon.check("inputs-untouched", read(p).split("\n", 1)[1] == texts[u], det)


@CHECK.kind("own-version", quick=1, thorough=1)
def own_version(rng, mon, spec):
  """Without options, the section of the installed version"""
  import sample  # pylint: disable=C0415
  p = os.path.join(REPO, "changelog",
                   f"v{sample.__version__.replace('.', '_')}.md")
  cwd = os.getcwd()
  os.chdir(REPO)
  try:
    mon.case("own")
    code, out = program("extract_changelog.py")
    mon.check("section-exact", code == 0 and out == read(p).split("\n", 1)[1],
              lambda: out)
    code, out = program("make_changelog.py", "--dry-run")
    mds = sorted(f for f in os.listdir("changelog") if f.endswith(".md"))
    mon.check("each-version-once", code == 0 and sorted(
        os.path.basename(i) for i in re.findall(r"mdinclude:: (.*)", out)) ==
              mds, lambda: out)
  finally:
    os.chdir(cwd)


# --- notebooks
CODE = (
    "x=1", "y  =  [1,2 ,3]", "print( 'a' , \"b\" )", "z = {'a':1,'b':(2,)}",
    "import numpy as np, os", "assert x==1,  'no'", "#comment", "w = x if x else\\\n  1",
    "s = '%d items' % 3", "s = '!'", "a=b=c = 2", "m = x@x", "q = x %2",
    "del x", "lambda v:v+1", "long_name = some_function(first_argument, "
    "second_argument=1, third_argument=[1, 2, 3], fourth='text')",
    "t = '''one\n  %d\n! two\n%%time\n'''", "u = \"\"\"\n%s\"\"\" % 2",
    "v = f\"{x!r} {x:>3}\"", "x = (1 +\n  2)", "pass  # a comment",
    "'''docstring\n    with lines\n'''", "n = -1;  m = 2", "x: int=3",
    "u2 = 'a\u2028b'", "ff = 'a\x0cb'",
)
BLOCKS = (
    ("if x>1:", "else:"), ("for i in range( 3 ):", None),
    ("def f(a,b = 2):", None), ("with open('f') as g:", None),
    ("try:", "except ValueError:"), ("class A( object ):", None),
    ("while  True:", None),
)
MAGICS = (
    "%matplotlib inline", "%timeit -n 3 f(x,  y)", "!ls -la  *.py", "%cd ..",
    "!pip install  'a[b]' # quiet", "%load_ext autoreload", "%env A=1",
    "!echo \"$HOME\" | grep 'x  y' > /dev/null", "%run  -i script.py",
    "!true", "%pylab", "!cmd  # yapf", "%time x  =  1", "!echo 1  #  2",
    "!!ls", "%alias_magic t  timeit", "!echo pass  # %x", "%config A.b='c'",
    "!echo trailing   ", "!echo tab\tend", "%%", "!",
)
BROKEN = ("x = (", "for", "a b c", "def f(:\n  pass", "'unclosed", "?print",
          "  print(1)", "x = !ls", "print?", "%%bash\nfor f in *; do\n  ls $f\n"
          "done", "%%latex\n$\\frac{1}{2}$", "if x:\n", "else:\n  pass",
          "x = (1\n     % 2)", "!echo a \\\n   b", "return 1 +", "é = $")


def block(rng, mon, depth):
  """Lines of random code"""
  out = []
  for _ in range(int(rng.integers(1, 5 if depth else 7))):
    z = rng.random()
    if z < .3:
      m = str(rng.choice(MAGICS[:-2]))
      mon.event("magics")
      if depth:
        mon.event("commands-in-blocks")
      out.append(m)
    elif z < .75 or depth > 1:
      c = str(rng.choice(CODE))
      if depth and "\n" in c:
        c = "g( x )"
      out.append(c)
    else:
      a, b = BLOCKS[int(rng.integers(len(BLOCKS)))]
      ind = str(rng.choice(["  ", "    ", "   "]))
      for h in (a, b):
        if h:
          out.append(h)
          out += [ind + l for l in block(rng, mon, depth + 1)]
    if rng.random() < .25:
      out.append("" if rng.random() < .8 else "\n\n")
  return "\n".join(out).split("\n") if depth else out


def source(rng, mon):
  z = rng.random()
  if z < .05:
    return ""
  if z < .08:
    return str(rng.choice([" ", "\n", " \n  "]))
  if z < .22:
    mon.event("broken-cells")
    return str(rng.choice(BROKEN)) + ("\n" if rng.random() < .2 else "")
  if z < .28:
    return str(rng.choice(["", "", "z=[ 1 ] ", "  ", "#  x=1 ",
                           "!ls ", "f( 'a')# b "])) + \
        "# yapf: ignore" + str(rng.choice(["", " please", "d"])) + \
        "\nx=1\ny  =2"
  s = "\n".join(block(rng, mon, 0))
  return s + ("\n" if rng.random() < .15 else "")


def notebook(rng, mon):
  cells = []
  minor = int(rng.choice([2, 4, 5]))
  for i in range(int(rng.integers(1, 9))):
    z = rng.random()
    c = {"metadata": {}}
    if rng.random() < .3:
      c["metadata"] = {"tags": ["a", "%b"], "x": {"y": [1, 2.5, None]}}
    if minor == 5:
      c["id"] = f"cell-{i}"
    if z < .7:
      c.update(cell_type="code", source=source(rng, mon),
               execution_count=[None, 3][rng.integers(2)], outputs=[])
      if rng.random() < .4:
        c["outputs"] = [
            {"output_type": "stream", "name": "stdout",
             "text": "%magic x=1\n!ls\nx  =  1\n"},
            {"output_type": "display_data", "metadata": {"k": 1},
             "data": {"image/png": "iVBORw0KGgo=\n",
                      "text/html": ["<b>x=1</b>\n", "%time"]}},
            {"output_type": "error", "ename": "E", "evalue": "v",
             "traceback": ["\x1b[0;31m x=1", "b"]},
            {"output_type": "execute_result", "execution_count": 3,
             "metadata": {}, "data": {"text/plain": "x=1  ",
                                      "application/json": {"a": [1]}}},
        ][:int(rng.integers(1, 5))]
    else:
      c.update(cell_type="markdown" if z < .9 else "raw",
               source=str(rng.choice(["# x=1", "%magic\n!ls\nx=1", "",
                                      "text  \nGröße\n", "```\nx=1\n```"])))
      if z < .8:
        c["attachments"] = {"a.png": {"image/png": "iVBORw0KGgo="}}
    if rng.random() < .5:
      c["source"] = c["source"].splitlines(keepends=True)
    cells.append(c)
  return {"cells": cells, "nbformat": 4, "nbformat_minor": minor,
          "metadata": {"kernelspec": {"display_name": "Python 3",
                                      "language": "python",
                                      "name": "python3"}, "z": [1, {"a": 2}]}}


def joined(x):
  """Multi-line fields of a notebook as strings"""
  x = copy.deepcopy(x)

  def text(v):
    return "".join(v) if isinstance(v, list) else v

  for c in x["cells"]:
    c["source"] = text(c["source"])
    for o in c.get("outputs", ()):
      if "text" in o:
        o["text"] = text(o["text"])
      for k in o.get("data", {}):
        if not k.endswith("json"):
          o["data"][k] = text(o["data"][k])
  return x


def meaning(src):
  """Syntax tree of a cell, None if it is not valid"""
  try:
    with warnings.catch_warnings():
      warnings.simplefilter("ignore")
      # IPython takes these for line ends
      src = src.replace("\u2028", "<2028>").replace("\x0c", "<0c>")
      return ast.dump(ast.parse(TransformerManager().transform_cell(src)))
  except (SyntaxError, ValueError):
    return None


def commands(src):
  """Lines that look like commands, without their indentation"""
  return [l.strip() if '"""' in l else l.lstrip() for l in src.split("\n")
          if l.lstrip().startswith(("%", "!"))]


def stable(src, style):
  """Whether formatting is idempotent for the formatter itself"""
  esc = "\n".join(
      re.sub(r"^(\s*)[%!].*$", r"\1pass  # c", l) for l in src.split("\n"))
  try:
    a = yapf_api.FormatCode(esc, style_config=style)[0]
    return yapf_api.FormatCode(a, style_config=style)[0] == a
  except Exception:  # pylint: disable=W0703
    return True


@CHECK.kind("notebook", quick=500, thorough=2500)
def notebooks(rng, mon, spec):
  with scratch():
    nb = notebook(rng, mon)
    style = None
    argv = []
    if rng.random() < .5:
      style = str(rng.choice(["pep8", "google", "facebook", "yapf",
                              "my.style"]))
      if style == "my.style":
        write("my.style", "[style]\nbased_on_style = pep8\n" + str(rng.choice(
            ["spaces_before_comment = 4\n", "column_limit = 40\n",
             "spaces_before_comment = 15, 30\n", "use_tabs = true\n"])))
      argv += ["--style", style]
    dry = bool(rng.random() < .2)
    tag = bool(rng.random() < .3)
    argv += ["--dry-run"] * dry + ["--tag-errors"] * tag + ["-l", "ERROR"]
    det = f"{argv}"
    raw = json.dumps(nb, indent=int(rng.integers(1, 3)),
                     ensure_ascii=bool(rng.random() < .5))
    write("a.ipynb", raw)
    files = ["a.ipynb"]
    if rng.random() < .3:
      other = notebook(rng, mon)
      write("b.ipynb", json.dumps(other))
      files.append("b.ipynb")
    before = joined(nb)
    mon.case((argv, [c["source"] for c in before["cells"]]))
    mon.event("notebooks")
    with mon.no_exception("formatted", det):
      code, _ = program("yapf_nbformat.py", *argv, *files)
    mon.check("formatted", code == 0, lambda: f"{det} exit {code}")
    text = read("a.ipynb")
    if dry:
      mon.event("dry-runs")
      mon.check("dry-run-writes-nothing", text == raw, det)
      return
    after = joined(json.loads(text))
    a, b = copy.deepcopy(before), copy.deepcopy(after)
    for x in (a, b):
      for c in x["cells"]:
        if c["cell_type"] == "code":
          c["source"] = ""
    mon.check("all-but-code-identical", a == b, lambda: f"{det} {a} -> {b}")
    changed = False
    settled = True
    for c, e in zip(before["cells"], after["cells"]):
      if c["cell_type"] != "code":
        continue
      mon.event("cells")
      s, u = c["source"], e["source"]
      d = f"{det} {s!r} -> {u!r}"
      changed |= s != u
      if "# yapf: ignore" in s.split("\n", 1)[0]:
        mon.event("ignored")
        mon.check("ignored-untouched", s == u, d)
        continue
      want = meaning(s)
      if s.startswith("%%") or want is None:
        kept = u
        if tag and TAG.search(u):
          mon.event("tagged")
          kept, _, note = u.rpartition("\n")
          mon.check("error-tag", TAG.match(note), d)
        mon.check("unparsable-untouched", kept == s or want is not None, d)
      elif tag and TAG.search(u):
        mon.event("tagged")
      else:
        mon.check("same-meaning", meaning(u) == want, d)
        if s != u:
          mon.event("reformatted")
      mon.check("commands-identical", commands(s) == commands(u), d)
      mon.check("no-escapes-left", "escaped-for-yapf" not in u, d)
      settled &= stable(s, style)
    if not changed:
      mon.check("unchanged-not-written", text == raw, det)
    if settled:
      mon.event("second-runs")
      with mon.no_exception("formatted", det):
        program("yapf_nbformat.py", *argv, *files)
      again = read("a.ipynb")
      mon.check("formatting-twice", again == text, lambda: det + str([
          (p["source"], q["source"]) for p, q in zip(
              json.loads(text)["cells"], json.loads(again)["cells"])
          if p != q]))
