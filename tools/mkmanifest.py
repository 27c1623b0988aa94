"""Writes /verif/MANIFEST.json from properties.jsonl, specs/props.py (claimed) and tools/na.json (reasons)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/vc", H + "/specs"]
import props
ids = [json.loads(l)["id"] for l in open(H + "/properties.jsonl") if l.strip()]
na = json.load(open(H + "/tools/na.json"))
NOTE = ("Every obligation generated from the current source (LLVM IR of the real functions, clang -O0 + sroa) is discharged by z3 for all "
        "inputs and all iterations; thorough re-checks with cvc5 and cross-checks contracts against the running code. Trusted: clang front end, "
        "the VC generator in vc/, the standard-library contracts in vc/stl.py, and the assumptions listed in the evidence file. A function "
        "that leaves the verifier's fragment after an edit falls back to a labelled bounded native search, counted as not discharged.")
m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py",
     "checks": [{"property": i, "quick_cmd": f"python3-vt check.py {i}", "thorough_cmd": f"python3-vt check.py {i} --thorough",
                 "technique": "contract-based deductive verification of LLVM IR of the real code (own VC generator, z3 + cvc5)",
                 "level": "proof", "level_note": NOTE + (" " + props.PROPS[i].note if props.PROPS[i].note else "")} for i in ids if i in props.PROPS],
     "not_applicable": [{"property": i, "reason": na[i]} for i in ids if i not in props.PROPS]}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(H + "/MANIFEST.json", "a").write("\n")
