"""python3 tools/refactor.py [CXX...]: runs checks on a copy of /repo whose
private names and local variables are renamed and whose files are re-printed
from their syntax trees; every check has to stay quiet"""
import ast
import builtins
import glob
import os
import re
import shutil
import subprocess
import sys

D = "/tmp/refactor"
KEEP = {"_fit_args", "_", "__", "_OptionalStorageManager", "_training"}
LIBS = '''
import tkinter, threading, multiprocessing.managers, unittest, io, collections
from sklearn.base import *
import numpy, matplotlib.figure, contextlib, enum, json, argparse, csv, logging
s = set()
for c in (tkinter.Frame, tkinter.Tk, tkinter.Canvas, tkinter.Toplevel, tkinter.ttk.Notebook if hasattr(tkinter, "ttk") else tkinter.Frame,
          threading.Thread, multiprocessing.managers.BaseManager, BaseEstimator,
          TransformerMixin, RegressorMixin, property, io.BytesIO, dict, enum.Enum,
          json.JSONEncoder, argparse.ArgumentParser, contextlib.ContextDecorator,
          matplotlib.figure.Figure, logging.Logger):
  s |= set(dir(c))
print("\\n".join(s))
'''


def files():
  return [f for p in ("sample", "scripts", "docs") for f in
          glob.glob(f"{D}/{p}/**/*.py", recursive=True)]


class Names(ast.NodeVisitor):

  def __init__(self):
    self.names = set()

  def add(self, n):
    if n.startswith("_") and not n.startswith("__") and n not in KEEP:
      self.names.add(n)

  def visit_FunctionDef(self, n):
    self.add(n.name)
    self.generic_visit(n)

  def visit_ClassDef(self, n):
    self.add(n.name)
    self.generic_visit(n)

  def visit_Attribute(self, n):
    if isinstance(n.ctx, ast.Store):
      self.add(n.attr)
    self.generic_visit(n)

  def visit_Name(self, n):
    if isinstance(n.ctx, ast.Store):
      self.add(n.id)


class Locals(ast.NodeTransformer):
  """Renames variables of functions without nested scopes"""

  def visit_FunctionDef(self, n):
    sub = [m for m in ast.walk(n) if m is not n and isinstance(
        m, (ast.FunctionDef, ast.Lambda, ast.ClassDef))]
    if sub or any(isinstance(m, (ast.Global, ast.Nonlocal)) for m in ast.walk(n)
                  ) or any(isinstance(m, ast.Name) and m.id in
                           ("locals", "eval", "exec", "vars")
                           for m in ast.walk(n)):
      self.generic_visit(n)
      return n
    a = n.args
    params = {p.arg for p in a.args + a.kwonlyargs + a.posonlyargs +
              [v for v in (a.vararg, a.kwarg) if v]}
    names = {m.id for s in n.body for m in ast.walk(s) if isinstance(
        m, ast.Name) and isinstance(m.ctx, ast.Store)} - params
    names |= {m.name for s in n.body for m in ast.walk(s)
              if isinstance(m, ast.ExceptHandler) and m.name}
    imported = {(x.asname or x.name).split(".")[0] for m in ast.walk(n)
                if isinstance(m, (ast.Import, ast.ImportFrom)) for x in m.names}
    names -= imported
    for s in n.body:
      for m in ast.walk(s):
        if isinstance(m, ast.Name) and m.id in names:
          m.id += "_local"
        elif isinstance(m, ast.ExceptHandler) and m.name in names:
          m.name += "_local"
    return n


def main():
  checks = [a.upper() for a in sys.argv[1:]] or [f"C{i:02d}" for i in range(1, 36)]
  shutil.rmtree(D, ignore_errors=True)
  subprocess.run(["cp", "-a", "/repo", D], check=True)
  libs = set(subprocess.run(["/opt/venv/bin/python", "-c", LIBS],
                            capture_output=True, text=True,
                            check=True).stdout.split())
  v = Names()
  src = {f: open(f).read() for f in files()}
  for s in src.values():
    v.visit(ast.parse(s))
  dyn = re.compile(r'f"(_[a-z_]*)\{')
  pref = tuple({m for s in src.values() for m in dyn.findall(s)})
  print("dynamic prefixes kept:", pref)
  strs = {m for s in src.values() for m in re.findall(r'["\'](_\w+)["\']', s)}
  tests = set(re.findall(r"\b_\w+", " ".join(
      open(f).read() for f in glob.glob(f"{D}/tests/*.py"))))
  names = {n for n in v.names - tests if n not in libs and n not in strs and
           not hasattr(builtins, n) and not (pref and re.match(
               r"_[afp][01]$|_default_", n))}
  print(len(names), "private names renamed")
  pat = re.compile(r"(?<![\w\"'])(" + "|".join(
      sorted(map(re.escape, names), key=len, reverse=True)) + r")\b")
  for f, s in src.items():
    s = pat.sub(lambda m: m.group(1) + "_renamed", s)
    t = Locals().visit(ast.parse(s))
    open(f, "w").write(ast.unparse(ast.fix_missing_locations(t)) + "\n")
  env = dict(os.environ, PYTHONPATH=D, VF_REPO=D)
  sys.path.insert(0, "/verif/tools")
  import seedlib
  print("stable tests that fail:", seedlib.stable(D))
  for c in checks:
    p = subprocess.run(["bash", "/verif/check.sh", c], env=env, cwd="/verif",
                       capture_output=True, text=True)
    if p.returncode:
      print(c, p.returncode, p.stdout[-1500:], p.stderr[-500:], flush=True)
    else:
      print(c, "quiet", flush=True)


main()
