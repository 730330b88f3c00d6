#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, checks
TECH = "runtime monitoring: "
N = {
"C01": ("phase oracle over generated encryptions", "Every fresh ciphertext of generated and extreme messages/keys at every level and representation is decrypted by an exact reference and compared in every coefficient."),
"C03": ("exact ring-product oracle over generated polynomials", "Every product and transform round trip observed is compared with exact integer arithmetic; bounds for the floating-point domain come from the error analysis in DESIGN.md."),
"C04": ("128-bit integer oracle over boundary-biased operands", "Every operation observed is compared with exact integer arithmetic, with operands around every carry and borrow boundary."),
"C05": ("index-arithmetic oracle at every exponent and index", "Exhaustive over exponents and indices for the listed ring sizes, random and extreme words."),
"C06": ("digit and recomposition monitor over word sweeps", "Every digit of the swept words is checked exactly; the word sweep is strided in the quick tier and complete for 32 bits in the thorough tier."),
"C07": ("exact gadget-product oracle and noise-budget monitor", "Every engine is compared with exact digit-times-row arithmetic and with the plaintext product within the predicted noise."),
"C08": ("exact phase-index oracle and noise-budget monitor", "The table index is recomputed exactly from each input; outputs must be the entry within 8.5 predicted standard deviations."),
"C09": ("phase-preservation and noise-budget monitor", "Phases before and after each switch are compared under reference decryption, per index and for dense inputs."),
}
N.update(getattr(checks, "NOTES", {}))
props = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "none", "enable": "the checks build /repo's unmodified sources; no hooks are compiled in (std::random_device is interposed at link time)", "source_commits": []},
     "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        t, note = N[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECH + t, "level": "exploration",
                            "level_note": note + " Nothing is claimed about inputs, schedules or histories not executed. Trusts the compiler, the CPU and the reference models in /verif/harness."})
    else:
        m["not_applicable"].append({"property": i, "reason": "not claimed yet: its monitor is still being built"})
json.dump(m, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "claimed")
