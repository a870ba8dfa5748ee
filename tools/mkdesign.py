"""DESIGN.md from the sources: bash tools/gen.sh"""
import glob, importlib, json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import mkprops
out = [open("tools/design_head.md").read().rstrip(), "", "## Properties", ""]
caught = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
seeds = {}
for f in sorted(glob.glob("seeded/*/meta.json")):
  seeds[f.split("/")[1]] = json.load(open(f))
for q in mkprops.P:
  i = q["id"]
  out += [f"### {i} {q['title']}", ""]
  if not os.path.exists(f"vf/checks/{i.lower()}.py"):
    out += ["Not claimed: check not built yet.", ""]
    continue
  m = importlib.import_module(f"vf.checks.{i.lower()}")
  c = m.CHECK
  out += [f"* Specified: the statement in `properties.jsonl`; anchored in {', '.join('`' + a + '`' for a in q['anchors']['files'])}.",
          f"* Executed and monitored: {c.rule}"]
  ks = ", ".join(f"{n} {k[1]} (thorough {k[2]})" + (f" – {k[0].__doc__.strip().splitlines()[0].rstrip('.')}" if k[0].__doc__ else "") for n, k in c.kinds.items())
  out += [f"* Workloads (cases): {ks}."]
  if c.require:
    out += ["* Observed at least: " + ", ".join(f"{k} {v}" for k, v in c.require.items()) + "."]
  if c.assumptions:
    out += ["* Bounds and assumptions: " + "; ".join(c.assumptions) + "."]
  if c.level_note:
    out += ["* " + c.level_note]
  out += [f"* Beyond the tests: {q['why_tests_cant']}", ""]
out += ["## Defects found", "",
        "Genuine defects that the checks reported on the tree as it was. Each "
        "\"fixed\" one is a `fix:` commit in /repo; \"known\" ones are reported as KNOWN-FINDING.", ""]
for l in open("KNOWN_FINDINGS.txt"):
  if l.startswith(("fixed:", "known:")):
    out.append("* " + l.strip())
for l in open("tools/design_tail.md") if os.path.exists("tools/design_tail.md") else ():
  out.append(l.rstrip())
out += ["", "## Planted bugs", "",
        "Source: `tools/seeds/`; confirmed (stable tests pass, demonstration fails with the change only) and run with `tools/seedlib.py`.", "",
        "| planted bug | property | caught by | needs |", "|---|---|---|---|"]
for k, v in seeds.items():
  out.append(f"| {k} | {v['property']} | {caught.get(k, '?')} | {v['needs']} |")
open("DESIGN.md", "w").write("\n".join(out) + "\n")
