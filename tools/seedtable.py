#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted | property | needs | by |\n|---|---|---|---|")
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    note = m.get("note", "")
    print(f"| {i} | {m['property']} | {m['needs']} | {m['property']}{'; ' + note if note else ''} |")
