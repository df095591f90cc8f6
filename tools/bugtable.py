"""Prints the table of planted bugs for DESIGN.md."""
import collections
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = collections.defaultdict(list)
for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    with open(os.path.join(HERE, "seeded", name, "meta.json")) as f:
        rows[json.load(f)["property"]].append(name)
print("| check | planted bugs it catches |\n|---|---|")
for key in sorted(rows):
    print(f"| {key} | {', '.join(rows[key])} |")
