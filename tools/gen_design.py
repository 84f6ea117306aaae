"""Writes the table of the planted bugs into DESIGN.md."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what it breaks | what it needs |", "|---|---|---|---|"]
for name in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    with open(os.path.join(ROOT, "seeded", name, "meta.json")) as f:
        m = json.load(f)
    rows.append(f"| {name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
path = os.path.join(ROOT, "DESIGN.md")
with open(path) as f:
    text = f.read()
a, b = "<!-- seeded -->\n", "<!-- end of seeded -->"
text = text[:text.index(a) + len(a)] + "\n".join(rows) + "\n" + text[text.index(b):]
with open(path, "w") as f:
    f.write(text)
