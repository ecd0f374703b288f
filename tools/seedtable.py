"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BEG, END = "<!-- seeds -->", "<!-- /seeds -->"
rows = ["| bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    with open(os.path.join(ROOT, "seeded", d, "meta.json")) as fh:
        m = json.load(fh)
    rows.append(f"| {d} | {m['property'] if m.get('caught', True) else 'missed by ' + m['property']} | {m['what_it_breaks']} | {m['needs']} |")
path = os.path.join(ROOT, "DESIGN.md")
with open(path) as fh:
    s = fh.read()
a, b = s.index(BEG), s.index(END)
with open(path, "w") as fh:
    fh.write(s[:a] + BEG + "\n" + "\n".join(rows) + "\n" + s[b:])
