#!/usr/bin/env python3
"""Writes properties.jsonl. One P(...) per property; keeps the text in one reviewable place."""
import json, os
L = []
def P(id, title, statement, over, text, why, files, **anc):
    a = {"files": files}; a.update(anc)
    L.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
exec(open(os.path.join(os.path.dirname(__file__), "props_text.py")).read())
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in L: f.write(json.dumps(p) + "\n")
print(len(L), "properties")
