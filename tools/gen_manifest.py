#!/usr/bin/env python3
"""Writes MANIFEST.json (keep in step with properties.jsonl)."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based testing against an f64 nearest-cell model", ""),
 "C02": ("property-based testing against an exact per-axis min/max model", ""),
 "C03": ("property-based testing: containment, alignment and tightness against a div_euclid model", ""),
 "C04": ("property-based testing: exact formula and round trip", ""),
 "C05": ("property-based testing against exact segment/box geometry (invariants and completeness of the chain)", ""),
 "C06": ("metamorphic property-based testing: limited trace vs unlimited trace and centre distances", ""),
 "C07": ("property-based testing: set algebra over single-ray traces, permutation and duplication relations", ""),
 "C08": ("stateful model-based testing against a hash-map model", ""),
 "C09": ("stateful model-based testing of growth histories against a world-keyed model", ""),
 "C10": ("stateful property-based testing of growth requests: coverage, tile alignment, bounded growth, idempotence", ""),
 "C11": ("stateful property-based testing of scan histories: no panic, bounded memory, coverage", ""),
 "C12": ("stateful model-based testing: certain/possible/impossible observation sets from exact geometry", ""),
 "C13": ("stateful model-based testing of evidence against an f64 clamped-sum model", ""),
 "C14": ("stateful model-based testing: reported cells against value changes and ray geometry, keyed by world cell", ""),
 "C15": ("metamorphic property-based testing: same scans, different tile size / growth / order / translation", ""),
 "C16": ("property-based testing against a list model", ""),
 "C17": ("property-based testing: f64 transform model, isometry and composition relations", ""),
 "C18": ("property-based testing: encode/decode round trip through generated readers (partial, interrupted)", ""),
 "C19": ("property-based testing: record printer/parser round trip against an independent rotation model", ""),
 "C20": ("property-based testing against WGS84 radii of curvature", ""),
 "C21": ("property-based testing over generated directories, per-file differential", ""),
 "C22": ("property-based testing over all f32 bit patterns against f64 closed forms", ""),
 "C23": ("stateful differential testing in lockstep with grid map + noise model", ""),
 "C24": ("end-to-end stateful property-based testing of generated recordings against a per-return evidence model", ""),
 "C26": ("end-to-end property-based testing of the visualiser binary against a recording window stand-in and a replayed map", " The window library is replaced by a stand-in that records what is drawn; the interleavings of the render and integration threads are those the machine produces under generated frame pacing."),
 "C25": ("structured fuzzing with injected faults (truncation, bad text, failing readers): must-error oracle", ""),
}
base = ("Every generated case is decided exactly by an oracle independent of the code under test; the guarantee is "
        "statistical over the documented generators (DESIGN.md), plus the committed regression inputs. Trusts rustc, "
        "nalgebra/ndarray arithmetic used to build inputs, and the harness. Inputs are finite and within the range where "
        "32-bit floats can still tell neighbouring cells apart; ties within float rounding accept either side.")
checks = []
for k in sorted(T):
    checks.append({"property": k, "quick_cmd": f"./check.sh {k} quick", "thorough_cmd": f"./check.sh {k} thorough",
        "evidence_file": f"evidence/{k}.json", "technique": T[k][0], "level": "exploration", "level_note": base + T[k][1]})
m = {"version": 1, "setup_cmd": "./check.sh --build",
     "checks": checks,
     "not_applicable": [],
     "notes": "No hooks: everything is observed through kuba's public API. Genuine defects found and fixed are in KNOWN_FINDINGS.jsonl and DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
