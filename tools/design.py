#!/usr/bin/env python3
"""Writes the generated tables of DESIGN.md: the part between the markers."""
import glob
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
B, E = "<!-- generated: %s -->", "<!-- end: %s -->"


def families():
    out = ["| Check | Families (cases quick / thorough) | Non-trivial case |",
           "|---|---|---|"]
    for f in sorted(glob.glob(here + "/nbv/props/c[0-9]*.py")):
        m = importlib.import_module("nbv.props." + os.path.basename(f)[:-3])
        rule = m.RULE.split("Non-trivial:")[-1].strip()
        out.append("| %s | %s | %s |" % (m.ID, ", ".join(
            "%s %d / %d" % x for x in m.FAMILIES), rule))
    return out


def fixes():
    with open(here + "/known-findings.json") as fh:
        return ["* " + x.split("fixed: property=")[1]
                for x in json.load(fh)["fixed"]]


def seeds():
    m = {}
    if os.path.exists(here + "/tools/caught.json"):
        with open(here + "/tools/caught.json") as fh:
            m = json.load(fh)
    out = ["| Planted bug | Needs | Caught by |", "|---|---|---|"]
    for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
        with open(d) as fh:
            j = json.load(fh)
        nm = os.path.basename(os.path.dirname(d))
        by = m.get(nm)
        out.append("| %s | %s | %s |" % (nm, j["needs"], j["property"] if
                                         by is None else " ".join(by) or
                                         "none"))
    return out


path = here + "/DESIGN.md"
with open(path) as fh:
    text = fh.read()
for nm, fn in (("families", families), ("fixes", fixes), ("seeds", seeds)):
    a, b = text.index(B % nm), text.index(E % nm)
    text = text[:a] + B % nm + "\n" + "\n".join(fn()) + "\n" + text[b:]
with open(path, "w") as fh:
    fh.write(text)
