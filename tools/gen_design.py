"""Fill the table of planted bugs in DESIGN.md (run by hand: python3 tools/gen_design.py)."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(root + "/seeded/*/meta.json")):
    j = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {j['needs']} -> {j['what_it_breaks']} | {j['property']} |")
p = root + "/DESIGN.md"
s = open(p).read()
i = s.index("|---|---|---|\n") + len("|---|---|---|\n")
k = s.index("\n\n", i - 1)
open(p, "w").write(s[:i] + "\n".join(rows) + s[k:])
