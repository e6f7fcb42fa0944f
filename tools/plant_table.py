"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = os.path.join(here, "seeded")
rows = ["| planted bug | caught by | breaks | needs |", "|---|---|---|---|"]
for n in sorted(os.listdir(d)):
    p = os.path.join(d, n, "meta.json")
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
f = os.path.join(here, "DESIGN.md")
t = open(f).read()
t = re.sub(r"(<!-- plants -->\n).*?(<!-- /plants -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), t, flags=re.S)
open(f, "w").write(t)
