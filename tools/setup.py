"""setup_cmd: check that the installed tools the checks need are here (nothing is built; checks build from /repo)."""
import os, shutil, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/vc", H + "/specs"]
import z3, cvc5, llvmc, props  # noqa
for t in ("clang++-18", "opt-18", "g++"):
    assert shutil.which(t), t
os.makedirs(H + "/evidence", exist_ok=True)
print("ok: z3", z3.get_version_string(), "properties", sorted(props.PROPS))
