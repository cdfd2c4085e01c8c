#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md (from seeded/*/meta.json)."""
import glob, json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
print("| planted bug | check that catches it | breaks | needs |\n|---|---|---|---|")
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    d = json.load(open(f))
    print("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d["what_it_breaks"], d["needs"]))
