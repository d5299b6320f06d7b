"""KNOWN_FINDINGS.json from the fix commits in /repo (fixed entries suppress nothing)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [("loadfromdidv", ["C35"]), ("plot type by identity", ["C35"]), ("rfit_err", ["C35"]), ("reject documented shapes", ["C35"]), ("variance of a fitted slope", ["C35"]), ("plots reject arrays", ["C35"]),
         ("OptimumFilter.update_signal leaves", ["C02"]), ("shifts dt0", ["C04"]), ("half processed", ["C05"]),
         ("IBIS.analyze", ["C06"]), ("IV.calc_iv", ["C06"]), ("plot_reim_psd", ["C10"]), ("interrupted csd", ["C08"]), ("calculate_uncorr_noise", ["C07"]),
         ("gen_noise overwrites", ["C11"]), ("Noise.save destroys", ["C09"]), ("of_nsmb overwrites", ["C11", "C14"]),
         ("pileupcut subtracts", ["C11"]), ("slopecut never", ["C15"]), ("undefined names in get_muon_cut", ["C16"]),
         ("compare_noise looks up", ["C19"]), ("plot_noise_sim", ["C19"]), ("IV and IBIS plots raise", ["C10"])]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    ids = next((v for k, v in PROPS if k in s), None)
    assert ids, s
    for i in ids:
        out.append({"property": i, "status": "fixed", "commit": h, "what": s[5:],
                    "entry": f"fixed: property={i} {h} {s[5:]}"})
extra = os.path.join(ROOT, "tools", "known.json")
if os.path.exists(extra):
    out += json.load(open(extra))
json.dump({"findings": out}, open(os.path.join(ROOT, "KNOWN_FINDINGS.json"), "w"), indent=1)
