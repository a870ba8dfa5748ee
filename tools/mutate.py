"""Looks for gaps: plants small changes all over the code, one at a time, and
lists those that no related check notices (to be judged by hand).

  python3 tools/mutate.py OUT.jsonl [--n=500] [--seed=1] [--jobs=7] [FILE-regex]

Works in scratch copies of /repo and /verif under /tmp."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

FILES = {
    "sample/sample.py": "C04 C03 C02 C05 C01 C24 C23 C13 C29 C34 C35",
    "sample/_training.py": "C06 C05 C34 C35",
    "sample/gui.py": "C28",
    "sample/hinge.py": "C10 C05 C02 C34 C35",
    "sample/ipython.py": "C30",
    "sample/optimize.py": "C25 C24 C34 C35",
    "sample/plots.py": "C29 C34 C35",
    "sample/psycho.py": "C14 C15 C16 C17 C22 C34 C35",
    "sample/vid.py": "",
    "sample/beatsdrop/__init__.py": "C11 C12 C22 C34 C35",
    "sample/beatsdrop/decision.py": "C13 C05",
    "sample/beatsdrop/regression.py": "C12 C13 C34 C35",
    "sample/beatsdrop/sample.py": "C13 C05 C03 C04 C34 C35",
    "sample/evaluation/metrics.py": "C18 C34 C35",
    "sample/evaluation/random.py": "C19 C34 C35",
    "sample/sms/dsp.py": "C09 C01 C34 C35",
    "sample/sms/mm.py": "C08 C07 C09 C02 C24 C23 C34 C35",
    "sample/sms/sm.py": "C07 C09 C08 C05 C23 C24 C34 C35",
    "sample/utils/__init__.py": "C22 C24 C05 C34 C35",
    "sample/utils/dsp.py": "C20 C21 C22 C09 C16 C34 C35",
    "sample/utils/learn.py": "C23 C05 C06 C34 C35",
    "sample/widgets/analysis.py": "C28",
    "sample/widgets/audio.py": "C27",
    "sample/widgets/audioload.py": "C27 C28",
    "sample/widgets/main.py": "C28 C27",
    "sample/widgets/pyplot.py": "C27 C28",
    "sample/widgets/sample.py": "C28",
    "sample/widgets/settings.py": "C26 C28",
    "sample/widgets/userfiles.py": "C26 C27",
    "sample/widgets/utils.py": "C26 C27 C28",
    "scripts/beatsdrop/evaluation.py": "C32",
    "scripts/beatsdrop/example.py": "C33",
    "scripts/cim22/performance.py": "C33",
    "scripts/utils/make_changelog.py": "C31",
    "scripts/utils/extract_changelog.py": "C31",
    "scripts/utils/yapf_nbformat.py": "C31",
}
CMP = {ast.Lt: ("<", "<="), ast.LtE: ("<=", "<"), ast.Gt: (">", ">="),
       ast.GtE: (">=", ">"), ast.Eq: ("==", "!="), ast.NotEq: ("!=", "=="),
       ast.Is: ("is", "is not"), ast.IsNot: ("is not", "is"),
       ast.In: ("in", "not in"), ast.NotIn: ("not in", "in")}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"),
       ast.Div: ("/", "*"), ast.FloorDiv: ("//", "/"), ast.Mod: ("%", "*"),
       ast.Pow: ("**", "*"), ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&")}
NAMES = {"floor": "ceil", "ceil": "floor", "min": "max", "max": "min",
         "minimum": "maximum", "maximum": "minimum", "less": "less_equal",
         "less_equal": "less", "greater": "greater_equal",
         "greater_equal": "greater", "zeros": "ones", "ones": "zeros",
         "all": "any", "any": "all", "argmin": "argmax", "argmax": "argmin",
         "sin": "cos", "cos": "sin", "append": "extend", "mean": "median",
         "round": "floor", "abs": "real", "copy": "asarray",
         "deepcopy": "copy", "real": "imag", "add": "subtract",
         "subtract": "add", "multiply": "divide", "divide": "multiply",
         "true_divide": "multiply", "logical_and": "logical_or",
         "logical_or": "logical_and", "sorted": "list", "flip": "asarray",
         "zeros_like": "ones_like", "empty_like": "zeros_like",
         "finally": "finally"}


def sites(src):
  """(start, end, replacement, description) of the possible changes"""
  tree = ast.parse(src)
  lines = src.split("\n")
  off = [0]
  for l in lines:
    off.append(off[-1] + len(l.encode()) + 1)
  raw = src.encode()

  def pos(n):
    return (off[n.lineno - 1] + n.col_offset,
            off[n.end_lineno - 1] + n.end_col_offset)

  def text(n):
    a, b = pos(n)
    return raw[a:b].decode()

  out = []

  def between(a, b, op, new):
    s, e = pos(a)[1], pos(b)[0]
    seg = raw[s:e].decode()
    i = seg.find(op)
    if i >= 0:
      out.append((s + i, s + i + len(op), new, f"{op} -> {new}"))

  skip = set()
  for n in ast.walk(tree):
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
      if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
          n.body[0].value, ast.Constant):
        skip.add(id(n.body[0]))
        skip.add(id(n.body[0].value))
    if isinstance(n, ast.FunctionDef):
      for a in (*n.args.args, *n.args.kwonlyargs, n.args.vararg, n.args.kwarg):
        if a is not None and a.annotation is not None:
          skip.update(id(m) for m in ast.walk(a.annotation))
      if n.returns is not None:
        skip.update(id(m) for m in ast.walk(n.returns))
    if isinstance(n, ast.AnnAssign):
      skip.update(id(m) for m in ast.walk(n.annotation))
  for n in ast.walk(tree):
    if id(n) in skip:
      continue
    if isinstance(n, ast.Compare):
      prev = n.left
      for o, c in zip(n.ops, n.comparators):
        if type(o) in CMP:
          between(prev, c, *CMP[type(o)])
        prev = c
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
      if not (isinstance(n.left, ast.Constant) and isinstance(
          n.left.value, str)):
        between(n.left, n.right, *BIN[type(n.op)])
    elif isinstance(n, ast.BoolOp):
      a, b = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
      between(n.values[0], n.values[1], a, b)
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
      s, e = pos(n)
      out.append((s, e, f"({text(n.operand)})", f"drop {text(n)[:4]}"))
    elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
      a, b = BIN[type(n.op)]
      between(n.target, n.value, a + "=", b + "=")
      s, e = pos(n)
      out.append((s, e, "pass", f"delete: {text(n)}"))
    elif isinstance(n, ast.Constant):
      v = n.value
      s, e = pos(n)
      if isinstance(v, bool):
        out.append((s, e, str(not v), f"{v} -> {not v}"))
      elif isinstance(v, int):
        for w in {v + 1, v - 1, 0} - {v}:
          out.append((s, e, f"({w})" if w < 0 else str(w), f"{v} -> {w}"))
      elif isinstance(v, float):
        out.append((s, e, str(v * 1.5 if v else 1.), f"{v} * 1.5"))
      elif v is None and False:
        pass
    elif isinstance(n, (ast.Expr, ast.Assign)) and not isinstance(
        getattr(n, "value", None), ast.Constant):
      s, e = pos(n)
      t = text(n)
      if isinstance(n, ast.Expr) and not isinstance(n.value, ast.Yield):
        out.append((s, e, "pass", f"delete: {t[:60]}"))
    elif isinstance(n, ast.If):
      s, e = pos(n.test)
      out.append((s, e, "True", f"if {text(n.test)[:50]} -> True"))
      out.append((s, e, "False", f"if {text(n.test)[:50]} -> False"))
    elif isinstance(n, ast.IfExp):
      s, e = pos(n.test)
      out.append((s, e, f"not ({text(n.test)})", f"negate {text(n.test)[:50]}"))
    elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
      pass
    if isinstance(n, ast.Call):
      f = n.func
      name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
      if name in NAMES and name != NAMES[name]:
        s, e = pos(f)
        t = text(f)
        out.append((s, e, t[:len(t) - len(name)] + NAMES[name],
                    f"{name} -> {NAMES[name]}"))
      if len(n.args) >= 2 and not any(isinstance(a, ast.Starred)
                                      for a in n.args):
        a, b = n.args[0], n.args[1]
        s, e = pos(a)[0], pos(b)[1]
        mid = raw[pos(a)[1]:pos(b)[0]].decode()
        if text(a) != text(b):
          out.append((s, e, text(b) + mid + text(a), f"swap in {name}"))
      for k in n.keywords:
        if k.arg is None:
          continue
        s, e = pos(k)
        seg = raw[e:e + 200].decode(errors="ignore")
        m = re.match(r"\s*,\s*", seg)
        if m:
          out.append((s, e + len(m.group(0)), "", f"drop {text(k)[:50]}"))
        elif n.args or len(n.keywords) > 1:
          pre = raw[:s].decode()
          m = re.search(r",\s*$", pre)
          if m:
            out.append((s - len(m.group(0)), e, "", f"drop {text(k)[:50]}"))
  res = []
  for s, e, new, d in out:
    m = raw[:s] + new.encode() + raw[e:]
    try:
      if ast.dump(ast.parse(m)) != ast.dump(tree):
        res.append((raw[:s].count(b"\n") + 1, d, m.decode()))
    except SyntaxError:
      pass
  return res


def subtle(src):
  """Changes that need something specific to show: falsy values for missing
  ones, aliasing, in-place computation, order of statements, lost clean-up"""
  tree = ast.parse(src)
  lines = src.split("\n")
  off = [0]
  for l in lines:
    off.append(off[-1] + len(l.encode()) + 1)
  raw = src.encode()

  def pos(n):
    return (off[n.lineno - 1] + n.col_offset,
            off[n.end_lineno - 1] + n.end_col_offset)

  def text(n):
    a, b = pos(n)
    return raw[a:b].decode()

  out = []
  ufuncs = {"abs", "square", "exp", "log", "log10", "multiply", "add", "power",
            "subtract", "true_divide", "maximum", "minimum", "floor", "sqrt",
            "clip", "logical_and", "logical_not", "cumsum"}
  for n in ast.walk(tree):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
        n.comparators[0], ast.Constant) and n.comparators[0].value is None:
      s, e = pos(n)
      neg = "not " if isinstance(n.ops[0], ast.Is) else ""
      out.append((s, e, f"({neg}{text(n.left)})", f"falsy: {text(n)}"))
    if isinstance(n, ast.Call):
      f = n.func
      name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
      s, e = pos(n)
      if name == "copy" and isinstance(f, ast.Attribute) and not n.args:
        out.append((s, e, text(f.value), f"alias: {text(n)[:50]}"))
      elif name in ("copy", "array", "list", "tuple", "dict", "deepcopy", "clone",
                    "sorted", "set") and len(n.args) == 1 and not n.keywords:
        out.append((s, e, f"({text(n.args[0])})", f"alias: {text(n)[:50]}"))
      if isinstance(f, ast.Attribute) and name in ufuncs and n.args and not any(
          k.arg == "out" for k in n.keywords) and text(f.value) == "np":
        out.append((s, e, text(n)[:-1] + f", out={text(n.args[0])})",
                    f"in place: {text(n)[:50]}"))
    for field in ("body", "orelse", "finalbody"):
      b = getattr(n, field, None)
      if not isinstance(b, list):
        continue
      for p, q in zip(b, b[1:]):
        if all(isinstance(z, (ast.Expr, ast.Assign, ast.AugAssign)) and
               not isinstance(getattr(z, "value", None), ast.Constant)
               for z in (p, q)):
          (s, e), (u, v) = pos(p), pos(q)
          out.append((s, v, text(q) + raw[e:u].decode() + text(p),
                      f"reorder: {text(p)[:30]} | {text(q)[:30]}"))
    if isinstance(n, ast.With) and not any(i.optional_vars for i in n.items):
      s = pos(n)[0]
      e = pos(n.body[0])[0]
      ind = raw[:e].decode().rsplit("\n", 1)[-1]
      if not ind.strip():
        out.append((s, e, "if True:\n" + ind,
                    f"no with: {text(n.items[0].context_expr)[:50]}"))
    if isinstance(n, ast.Try) and n.finalbody and not n.handlers:
      for z in n.finalbody:
        s, e = pos(z)
        out.append((s, e, "pass", f"no finally: {text(z)[:50]}"))
    if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
      for z in n.type.elts:
        s, e = pos(n.type)
        out.append((s, e, "(" + ", ".join(text(y) for y in n.type.elts
                                          if y is not z) + ",)",
                    f"not handled: {text(z)}"))
    if isinstance(n, ast.keyword) and text(n.value) == "float":
      n = n.value
      s, e = pos(n)
      out.append((s, e, "np.float32", "float -> float32"))
    if isinstance(n, ast.BoolOp) and len(n.values) > 1:
      for z in n.values:
        s, e = pos(n)
        op = " and " if isinstance(n.op, ast.And) else " or "
        out.append((s, e, "(" + op.join(text(y) for y in n.values
                                        if y is not z) + ")",
                    f"without: {text(z)[:50]}"))
    if isinstance(n, ast.FunctionDef):
      for z in n.decorator_list:
        if "wraps" in text(z) or "overload" in text(z) or "prop" in text(z):
          continue
        s, e = pos(z)
        out.append((s - 1, e, "", f"no decorator {text(z)[:50]}"))
  res = []
  for s, e, new, d in out:
    m = raw[:s] + new.encode() + raw[e:]
    try:
      if ast.dump(ast.parse(m)) != ast.dump(tree):
        res.append((raw[:s].count(b"\n") + 1, d.replace("\n", " "), m.decode()))
    except SyntaxError:
      pass
  return res


def main(argv):
  opts = dict(a[2:].split("=") for a in argv if a.startswith("--"))
  args = [a for a in argv if not a.startswith("--")]
  out = args[0]
  pat = re.compile(args[1] if len(args) > 1 else ".")
  rng = random.Random(int(opts.get("seed", 1)))
  done = set()
  if os.path.exists(out):
    done = {json.loads(l)["id"] for l in open(out)}
  base = "/tmp/mut.base"
  shutil.rmtree(base, ignore_errors=True)
  subprocess.run(f"git clone -q /repo {base}", shell=True, check=True)
  todo = []
  for f, ch in FILES.items():
    if not ch or not pat.search(f):
      continue
    for i, (line, d, m) in enumerate((subtle if opts.get('ops') == 'subtle' else sites)(open(f"{base}/{f}").read())):
      if re.search(opts.get("desc", "."), d):
        todo.append((f"{f}:{line}:{i}", f, line, d, m, ch.split()))
  total = len(todo)
  rng.shuffle(todo)
  todo = [t for t in todo[:int(opts.get("n", 500))] if t[0] not in done]
  print(total, "sites", len(todo), "to do", flush=True)
  lock = threading.Lock()

  def worker(k):
    d = f"/tmp/mut.{k}"
    v = f"/tmp/mutv.{k}"
    for x in (d, v):
      shutil.rmtree(x, ignore_errors=True)
    subprocess.run(f"git clone -q {base} {d} && mkdir {v} && cp -a /verif/vf "
                   f"/verif/check.sh /verif/KNOWN_FINDINGS.txt {v}",
                   shell=True, check=True)
    env = {**os.environ, "VF_REPO": d, "VF_WORKERS": "1",
           "VF_FAIL_FAST": "safe_sine_len-in-seconds"}
    while True:
      with lock:
        if not todo:
          break
        i, f, line, desc, m, checks = todo.pop()
      orig = open(f"{d}/{f}").read()
      open(f"{d}/{f}", "w").write(m)
      t0 = time.time()
      verdict, by, tried = "survived", None, {}
      for c in checks:
        try:
          p = subprocess.run(["timeout", "-k", "5", "600", "bash",
                              f"{v}/check.sh", c], env=env,
                             capture_output=True, text=True, check=False)
          rc = p.returncode
        except Exception:  # pylint: disable=W0703
          rc = -1
        tried[c] = rc
        if rc == 1 or rc == 124:
          verdict, by = "caught" if rc == 1 else "timeout", c
          break
      open(f"{d}/{f}", "w").write(orig)
      if verdict == "survived" and any(tried.values()):
        verdict = "no-answer"
      with lock:
        with open(out, "a") as fo:
          fo.write(json.dumps({"id": i, "file": f, "line": line, "desc": desc,
                               "verdict": verdict, "by": by, "tried": tried,
                               "s": round(time.time() - t0)}) + "\n")
    shutil.rmtree(d, ignore_errors=True)
    shutil.rmtree(v, ignore_errors=True)

  ths = [threading.Thread(target=worker, args=(k,))
         for k in range(int(opts.get("jobs", 4)))]
  for t in ths:
    t.start()
  for t in ths:
    t.join()
  shutil.rmtree(base, ignore_errors=True)


main(sys.argv[1:])
