#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FG = "drdmannturb/fluctuation_generation/fluctuation_field_generator.py"
LF = "drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py"
GRF = "drdmannturb/fluctuation_generation/gaussian_random_fields.py"
SM = "drdmannturb/fluctuation_generation/sampling_methods.py"
CK = "drdmannturb/fluctuation_generation/covariance_kernels.py"
NC = "drdmannturb/fluctuation_generation/nn_covariance.py"
CAL = "drdmannturb/spectra_fitting/calibration.py"
OPS = "drdmannturb/spectra_fitting/one_point_spectra.py"
LOSS = "drdmannturb/spectra_fitting/loss_functions.py"
EL = "drdmannturb/spectra_fitting/eddy_lifetime.py"
DG = "drdmannturb/spectra_fitting/data_generator.py"
NN = "drdmannturb/nn_modules.py"
CO = "drdmannturb/common.py"
LP = "drdmannturb/fluctuation_generation/low_frequency/large_plot.py"
WP = "drdmannturb/fluctuation_generation/wind_plot.py"
PA = "drdmannturb/parameters.py"

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=None, na=None, technique=None, note=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append(dict(rec={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}, na=na, technique=technique, note=note))

exec(open(os.path.join(HERE, "tools", "table.py")).read())

schema_obs = json.load(open("/root/.vp/PROPERTIES.schema.json"))["properties"]["anchors"]["properties"].get("observe_at", {}) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else {}
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p["rec"]) + "\n")
man = {
    "version": 1,
    "setup_cmd": "sh /verif/setup.sh",
    "checks": [
        {"property": p["rec"]["id"], "quick_cmd": f"/verif/check.sh {p['rec']['id']} --tier quick", "thorough_cmd": f"/verif/check.sh {p['rec']['id']} --tier thorough",
         "evidence_file": f"evidence/{p['rec']['id']}.json", "technique": "deterministic simulation with fault injection: " + p["technique"], "level": "exploration", "level_note": p["note"]}
        for p in P if not p["na"]],
    "not_applicable": [{"property": p["rec"]["id"], "reason": p["na"]} for p in P if p["na"]],
    "notes": "No hooks in /repo: every seam (FFT engine, clock, random streams, uninitialised memory, log writer thread, caller threads, disk through an LD_PRELOAD interposer, process death, directory order, parallel-loop order, process-pool workers) sits outside it. Each failing run is minimised and written to /verif/replays; `check.sh --replay FILE` reproduces it.",
}
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "claimed")
