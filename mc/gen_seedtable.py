"""rewrites the table of planted bugs at the end of DESIGN.md from a result file: gen_seedtable.py RESULTS.json (checks that reported each)"""
import json, os, re, sys
R = json.load(open(sys.argv[1])); d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(d + "/seeded")):
    m = json.load(open(f"{d}/seeded/{i}/meta.json"))
    r = R.get(i, {})
    hit = [k.split()[1] for k, v in r.items() if k.startswith("check ") and v.startswith("1 1")]
    miss = [k.split()[1] for k, v in r.items() if k.startswith("check ") and v.startswith("0")]
    rows.append(f"| {i} | {m['needs']} | {', '.join(hit) or '?'}{' (not ' + ', '.join(miss) + ')' if miss else ''} |")
s = open(d + "/DESIGN.md").read()
head = s[:s.index("## 7.")] if "## 7." in s else s.replace("SEEDTABLE", "").rstrip() + "\n\n"
open(d + "/DESIGN.md", "w").write(head + "## 7. Planted bugs (`seeded/`) and the checks that report them\n| change | needs | reported by |\n|---|---|---|\n" + "\n".join(rows) + "\n")
