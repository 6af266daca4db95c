"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {"c22-shared-handle"}      # by the quick check at seed 1
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{b}/meta.json"))
    rows.append(f"| {b} | {m['property']} | {m['needs'].replace('|', '/')[:150]} | {'**missed** by ' if b in MISSED else ''}checks/{m['property'].lower()}.py (quick{', seed 1' if b in MISSED else ''}) |")
s = open(root + "/DESIGN.md").read()
s = re.sub(r"<!--SEEDTABLE-->.*<!--END-->", lambda _: "<!--SEEDTABLE-->\n" + "\n".join(rows) + "\n<!--END-->", s, flags=re.S)
open(root + "/DESIGN.md", "w").write(s)
