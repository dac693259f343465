"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json
import os

PY = "/opt/venv/bin/python"
T = {
 "P01": "property-based testing: random formulas and parameters against an independent evaluator (complex-step gradient)",
 "P02": "property-based testing: generated bands against an independent root finder, in both directions",
 "P03": "property-based testing: generated bands against independent ray quadratures, resolution refinement",
 "P04": "property-based testing: generated bands against independent state counts; metamorphic relations",
 "P05": "property-based testing: generated targets against recomputed doping; state after the solver",
 "P06": "property-based testing: generated bands against independent orbit areas; metamorphic in the field",
 "P07": "stateful property-based testing: generated histories against a fresh object",
 "P08": "property-based testing: differential against an independent surface integral; invariants",
 "P09": "property-based testing: generated pockets against the closed Drude formula",
 "P10": "property-based testing: metamorphic (field reversal) and positivity over generated bands and fields",
 "P11": "stateful property-based testing: generated histories of field settings; symmetry metamorphic relations",
 "P12": "property-based testing: generated orbits against an independent Runge-Kutta integration and invariants",
 "P13": "property-based testing: differential against an independent Chambers integral; limits and scaling",
 "P14": "property-based testing: differential against independently weighted constant-energy conductivities; low-T laws",
 "P15": "stateful property-based testing: generated histories of settings and runs against a fresh object",
 "P16": "property-based testing: generated models, parameters and states against independent formulas; histories of setters",
 "P17": "property-based testing: generated angle sweeps against independently inverted tensors; permutations and histories",
 "P18": "property-based testing: round trip of generated exports through an independent reader",
 "P19": "property-based testing: generated data files against an independent interpolation",
 "P20": "property-based testing: generated parameter vectors against an independent simulation of the same member",
 "P21": "property-based testing: generated complete fits; invariants of the result, round trip of the saved member",
 "P22": "stateful property-based testing: generated interleavings of several objects against the same objects alone",
 "P23": "property-based testing: snapshots around generated figures and reports; drawn data against computed data",
 "P24": "property-based testing: metamorphic relations between equivalent descriptions of generated bands",
}
NOTE = {
 "P03": "One listed finding (KF1) is pinned: slice weights are compared with the factor N/(N-1) it describes. ",
 "P06": "One listed finding (KF2) is pinned: the product is compared with the listed quotient, anything else is reported. ",
}
BASE = ("Searches generated cases against an independent oracle; says nothing beyond the cases generated. Trusts numpy/scipy, "
        "the tolerances of DESIGN.md and that the interpreted and compiled (numba) functions agree (P01 and some cases elsewhere compare them).")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for p in sorted(T):
    if os.path.exists(os.path.join(here, "checks", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd="%s run_check.py %s" % (PY, p), thorough_cmd="%s run_check.py %s --thorough" % (PY, p),
                           evidence_file="evidence/%s.json" % p, technique=T[p], level="exploration", level_note=NOTE.get(p, "") + BASE))
    else:
        na.append(dict(property=p, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="%s tools/setup_check.py" % PY, checks=checks, not_applicable=na,
               notes="No hooks in /repo. Replay a violation with: %s run_check.py Pxx --replay FILE" % PY),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
