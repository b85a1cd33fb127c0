"""Rewrite the table of planted bugs in DESIGN.md."""
import collections
import json
import pathlib
import re

root = pathlib.Path(__file__).parents[1]
table = collections.defaultdict(list)
for meta in sorted(root.glob("seeded/*/meta.json")):
    table[json.loads(meta.read_text())["property"]].append(f"`{meta.parent.name}`")
rows = "".join(f"| {p} | {', '.join(b)} |\n" for p, b in sorted(table.items()))
path = root / "DESIGN.md"
text = path.read_text()
head = "| property and check | planted bugs |\n|---|---|\n"
path.write_text(re.sub(re.escape(head) + r"(\|.*\n)*", lambda _: head + rows, text))
print(sum(map(len, table.values())), "bugs")
