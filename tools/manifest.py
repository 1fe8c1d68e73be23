"""Regenerate MANIFEST.json: every property with a module is claimed"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECH = {
    "C01": "property-based testing: generated kernels/cutoffs/points against "
           "the kernel formula in extended precision",
    "C02": "property-based testing: invariants of generated expansions by "
           "independent quadrature and sign counting",
    "C03": "property-based testing, differential: independent, finer "
           "discretisation of the kernel",
    "C04": "property-based testing: physical kernel formula and metamorphic "
           "rescaling",
    "C05": "property-based testing: independent Fourier integral of "
           "piecewise polynomials",
    "C06": "property-based testing: exact propagators of generated spectra",
    "C07": "property-based testing: round trip and explicit matrices",
    "C08": "property-based testing: round trip and explicit matrices",
    "C09": "property-based testing: slice-by-slice reference and linearity",
    "C10": "property-based testing: reference linear algebra on generated "
           "matrices",
    "C11": "property-based testing: invariants of decompositions, mpmath "
           "reference for relative accuracy",
    "C12": "property-based testing: pole formulas, round trip",
    "C13": "property-based testing: reference model of augmentation, "
           "quadrature of Fourier integrals",
    "C14": "property-based testing: arbitrary-precision kernel formulas",
    "C15": "property-based testing: reference model with numpy's Legendre "
           "module",
    "C16": "property-based testing: closed-form integrals",
    "C17": "property-based testing: exact integrals of random polynomials",
    "C18": "property-based testing: functions with planted roots, brute-force "
           "scan of the grid",
    "C19": "property-based testing: generated truncation sequences against "
           "prefix model",
    "C20": "stateful property-based testing: call histories and threads "
           "against freshly made objects",
    "C21": "property-based testing, differential: irbasis and own basis",
    "C22": "property-based testing, differential: individually built bases",
    "C23": "property-based fault injection: generated invalid and boundary "
           "arguments",
    "C24": "property-based testing, metamorphic: solver options against "
           "independent discretisation",
}


def main():
    props = [json.loads(s) for s in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(os.path.join(V, "pbt/props", i.lower() + ".py")):
            checks.append({
                "property": i,
                "quick_cmd": "%s run.py %s" % (PY, i),
                "thorough_cmd": "VERIF_TIER=thorough %s run.py %s" % (PY, i),
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH[i], "level": "exploration",
                "level_note": "Searches seeded, generated inputs against an "
                "oracle independent of the library (DESIGN.md); no claim "
                "beyond the cases explored. Trusts numpy, scipy, mpmath and "
                "Hypothesis; tolerances are documented with the check."})
        else:
            na.append({"property": i, "reason": "check not yet built"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": PY + " run.py selftest",
                   "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")


main()
