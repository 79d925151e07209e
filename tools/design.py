#!/usr/bin/env python3
"""Writes DESIGN.md:  python3 tools/design.py"""
import ast
import glob
import json
import os
import runpy

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
    "P01": "Elements of every kind are multiplied by the real `*` and compared with the 2x2 product written out, and with rays sent one element at a time. The polynomials in all parameters must agree.",
    "P02": "Each element is traced with a symbolic ray and compared with the law of its optics written independently (Snell's paraxial law at each interface, lens and mirror equations), including flat and infinite radii.",
    "P03": "Every edit history (operation and position chosen symbolically) runs on a real group and on a Python list; after each, the group's matrix, length, vertices and indices are compared with the product of the list's elements.",
    "P04": "z is one symbolic number: the paths are where it falls. Oracle: the product of the elements before z and of the partial element's optics, flat and nested.",
    "P05": "Indices of all elements are free: the group must accept exactly what is continuous, insert or correct nothing else, and report first and last index.",
    "P06": "Trace of a symbolic ray against propagation element by element, with positions, lists and wavelengths.",
    "P07": "Diameters, NA and rays free: blocked if and only if the height exceeds half a diameter met on the way (or the angle the NA), and from there on.",
    "P08": "Histories trace / edit / trace: each trace is compared with that of a fresh copy of the same system, and inputs with what they were.",
    "P09": "Bundles through traceMany, traceManyThrough, in parallel and from profiles, against one ray at a time.",
    "P10": "A ray parallel to the axis has to cross it at the reported focus; a ray from the front focus has to leave parallel; principal planes have magnification one; focal lengths are distances between them; ToFocus has to get there.",
    "P11": "Conjugates: B = 0 after the distance reported, magnifications are A there; infinite cases; intermediate conjugates listed exactly.",
    "P12": "Light sent backwards through the element equals light sent forwards through the flipped one: matrix, length, indices, vertices; two flips restore.",
    "P13": "n(y1 theta2 - y2 theta1) compared before, inside and after every path.",
    "P14": "For every path of apertures the smallest admitted slope from the axial object point, computed independently, says which aperture is the stop; marginal rays have to touch its edge and pass everything else.",
    "P15": "Chief ray through the centre of the stop; pupils are images of the stop by the elements before or after it; f-number and NA from those.",
    "P16": "The search for the field of view runs symbolically over every diameter; the reported height has to pass and the height one precision above has to be blocked, the stop named being where it is blocked.",
    "P17": "The ABCD law and the beam's own definitions (q = z + i zR, w from Im 1/q), for every beam; waist, divergence, clipping, refusals.",
    "P18": "The eigenmode of the round trip: q = (Aq+B)/(Cq+D) with positive width, exactly when |A+D| < 2.",
    "P19": "Surfaces rebuilt from the data given; catalogues against the indices of arbitrary glasses; objectives and relays against their defining distances.",
    "P20": "The formula of each material is bounded over its published range by the solver; registry look-ups by name or index against the definition.",
    "P21": "Number, ranges, order and reproducibility of each source under symbolic ranges and draws.",
    "P22": "Derived values (heights, angles, counts, histograms) recomputed from the current rays after every history; cases that read only one of them guard against values that are right only because another was read before.",
    "P23": "Save, load, compare every attribute; load of other kinds of files must refuse and leave the target as it was; save that fails must leave the old file.",
    "P24": "Linear interpolation between the points of a trace against partial propagation, at any plane; fans and groups.",
    "P25": "Generated Zemax files with symbolic numbers; the lens read is compared with the prescription.",
    "P26": "Sub-path against the elements on that side of the plane, in the order light meets them, with positions kept.",
    "P27": "Everything handed to matplotlib (lines, curves, labels, arrows) against traces, prescriptions and positions; displays repeated.",
    "P28": "Histories of two instances against a dictionary; writes stopped after every step.",
    "P29": "The deviation (n-1)alpha towards the axis, for every ray, alone and among other elements.",
    "P30": "The role of each draw is found by probing, then decided for all draws: the map is uniform over the range, the ray is kept exactly when another uniform draw is below the stated density.",
    "P32": "The package's `__init__` is executed again at symbolic instants under every answer of the network and every kind of record; looks are counted; the highest of symbolic version numbers has to be announced.",
    "P33": "`reportEfficiency` runs with its rays drawn symbolically (random numbers are free values) and pyplot replaced by a recorder; each ray's fate is decided again from the apertures it meets; points and printed figures are compared.",
}
TIMES = {}
rows = []
reg = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
out = [open(os.path.join(HERE, "tools", "design_head.md")).read()]
for p in reg:
    i = p["id"]
    out.append(f"### {i}. {p['title']}\n\n{p['statement']}\n\n")
    f = os.path.join(HERE, "props", i.lower() + ".py")
    if not os.path.exists(f):
        out.append("*Not claimed*: see section 2.\n\n")
        continue
    d = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("BOUNDS", "OUTSIDE", "ASSUMPTIONS"):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    out.append(f"* *Decided by*: symbolic execution + z3/cvc5. {ORACLE[i]}\n")
    out.append(f"* *Bounds*: {d['BOUNDS']}.\n* *Outside*: {d['OUTSIDE']}.\n")
    if d.get("ASSUMPTIONS"):
        out.append(f"* *Assumes*: {'; '.join(d['ASSUMPTIONS'])}.\n")
    why = p["why_tests_cant"]
    if why:
        out.append(f"* *Beyond tests*: {why}\n")
    out.append("\n")
out.append(open(os.path.join(HERE, "tools", "design_mid.md")).read())
known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
out.append("### Known, not repaired\n\n")
for k in known:
    if k["status"] == "known":
        out.append(f"* **{k['property']}** ({k['case']}): {k['what']}.\n")
out.append("\n### Repaired\n\n| property | commit | what failed |\n|---|---|---|\n")
for k in known:
    if k["status"] == "fixed":
        out.append(f"| {k['property']} | {k['commit']} | {k['what'].split(k['commit'], 1)[1].strip()} |\n")
out.append("\n" + open(os.path.join(HERE, "tools", "design_tail.md")).read())
out.append("\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n")
caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    name = os.path.basename(os.path.dirname(m))
    out.append(f"| {name} | {d['property']} | {d['needs']} | {caught.get(name, '?')} |\n")
open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(out))
