"""Writes the table of planted bugs into DESIGN.md (run by hand, from /verif, no check uses it)"""
import json
import os
import re

FIRST = {
    "c08-btoi-field": "wider values in small box fields",
    "c09-cast-known": "casts of values with a size known at compile time",
    "c11-concat-empty": "empty and literal parts of Concat",
    "c12-arg-skip": "routers with functions of many arguments of mixed kinds",
    "c15-field-const-index": "indices that are named constants and groups",
    "c19-error-once": "maps asked twice, messages of asserts at several counters",
    "c20-blank-comment": "empty comments and comment-only bodies",
    "c25-field-cache": "same struct and constant names with other layouts, in both orders",
    "c26-else-loop": "unfinished constructs at the end of the text",
    "c26-redos-struct": "grid of statement heads with long runs of one character class",
    "c31-end-label": "inline labels that look like keywords, label and instruction on one line",
    "c32-leading-blank": "programs without version line and with blank lines above",
}
rows = []
for i in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{i}/meta.json"))
    rows.append(f"| `{i}` | {m['property']} | {m['what_it_breaks']} | {FIRST.get(i, '')} |")
table = "\n".join(["| planted bug (caught by its property's quick check) | check | what it breaks | missed at first; added to the check |", "| --- | --- | --- | --- |"] + rows)
s = open("DESIGN.md").read()
mark = "<!-- planted -->"
if mark in s:
    s = re.sub(rf"{mark}.*?{mark}", lambda _: f"{mark}\n{table}\n{mark}", s, flags=re.S)
else:
    s += f"\n{mark}\n{table}\n{mark}\n"
open("DESIGN.md", "w").write(s)
print(len(rows))
