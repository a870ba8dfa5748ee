"""python3 tools/dropseeds.py ID... : removes seeds from tools/seeds and seeded/"""
import ast, glob, shutil, sys
for f in glob.glob("tools/seeds/*.py"):
  s = open(f).read(); lines = s.split("\n"); cut = []
  for n in ast.parse(s).body:
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "seed" and n.value.args[0].value in sys.argv[1:]:
      cut.append((n.lineno - 1, n.end_lineno)); shutil.rmtree("seeded/" + n.value.args[0].value, ignore_errors=True); print("dropped", n.value.args[0].value)
  for a, b in reversed(cut): del lines[a:b]
  if cut: open(f, "w").write("\n".join(lines))
