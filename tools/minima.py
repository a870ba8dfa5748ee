"""Required events against observed ones: python3 tools/minima.py C14 ...
Lists minima above half of the smallest count over a few seeds"""
import importlib, json, os, subprocess, sys
sys.path.insert(0, ".")
FIX = "--fix" in sys.argv
for c in [a for a in sys.argv[1:] if a[0] == 'C']:
  lo = {}
  for s in range(1, 6):
    r = subprocess.run(["bash", "check.sh", c, "--seed", str(s)],
                       capture_output=True, text=True)
    if r.returncode == 1: print(c, s, r.stdout[-400:])
    e = json.load(open(f"evidence/{c}.json"))["coverage"]
    ev = {**e.get("clauses", {}), **e["events_observed"]}
    for k, v in ev.items(): lo[k] = min(lo.get(k, 1e99), v)
  src = open(f"vf/checks/{c.lower()}.py").read()
  import re
  req = eval(re.search(r"require=(\{.*?\})", src, re.S).group(1))
  bad = {k: (v, lo.get(k, 0)) for k, v in req.items() if v > lo.get(k, 0) / 2}
  print(c, bad or "ok")
  if bad and FIX:
    m = re.search(r"require=\{.*?\}", src, re.S)
    t = m.group(0)
    for k, (v, n) in bad.items():
      t = re.sub(r'"%s":(\s+)\d+' % re.escape(k), r'"%s":\g<1>%d' % (k, n // 2), t)
    open(f"vf/checks/{c.lower()}.py", "w").write(src.replace(m.group(0), t))
