"""Compiles /repo's current sources (plus instantiation units from /verif/tu) to LLVM bitcode on every run."""
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from llvmc import Module

REPO = os.environ.get("VC_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIBS = ["utils", "kana", "kanji", "stats", "quiz"]
BASE = ["-std=c++20", "-include", "cstdint", "-Dishexnumber=isxdigit"] + \
    [f"-I{REPO}/libs/{l}/include" for l in LIBS]


class BuildError(Exception):
    pass


_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="vc_")
        import atexit
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


_overlay = None


def overlay():
    """copy of libstdc++'s bits/stl_algobase.h without the 4-fold unrolled random-access overload of
    __find_if, so that std::find_if/all_of/any_of use the one-element-per-iteration overload"""
    global _overlay
    if _overlay is not None:
        return _overlay
    d = os.path.join(tmpdir(), "overlay")
    os.makedirs(os.path.join(d, "bits"), exist_ok=True)
    for base in ("/usr/include/c++/13", "/usr/include/c++/14", "/usr/include/c++/12"):
        p = os.path.join(base, "bits/stl_algobase.h")
        if not os.path.exists(p):
            continue
        s = open(p).read()
        i = s.find("/// This is an overload used by find algos for the RAI case.")
        if i >= 0:
            j = s.find("__find_if(_RandomAccessIterator __first", i)
            if j >= 0:
                # end of the function: first line that is exactly "    }"
                m = re.compile(r"^    \}\n", re.M).search(s, j)
                # the switch block closes with "\t}" so the first 4-space brace ends the function
                s = s[:i] + s[m.end():]
                open(os.path.join(d, "bits/stl_algobase.h"), "w").write(s)
        break
    _overlay = d
    return d


PASSES = "sroa,instsimplify,simplifycfg"


def bitcode(src, extra=()):
    name = re.sub(r"\W", "_", os.path.abspath(src))
    out = os.path.join(tmpdir(), name)
    if not os.path.exists(out + ".bc"):
        cmd = ["clang++-18", *BASE, "-fclang-abi-compat=17", "-isystem", overlay(), "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names",
               "-gline-tables-only", "-w", "-Wno-c++11-narrowing", *(["-fno-access-control"] if src.startswith(HERE) else []), *extra, "-emit-llvm", "-c", src, "-o", out + ".0.bc"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"clang failed on {src}:\n{r.stderr[-3000:]}")
        r = subprocess.run(["opt-18", f"-passes={PASSES}", out + ".0.bc", "-o", out + ".bc"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(f"opt failed on {src}:\n{r.stderr[-2000:]}")
        os.unlink(out + ".0.bc")
    return out + ".bc"


def modules(srcs):
    srcs = [s if s.startswith("/") else (os.path.join(REPO, s) if not s.startswith("tu/") else os.path.join(HERE, s))
            for s in srcs]
    with ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(bitcode, srcs))
    return [Module(b, label=s) for b, s in zip(bcs, srcs)]


def repo_sources(libs=LIBS):
    r = []
    for l in libs:
        d = f"{REPO}/libs/{l}/src"
        r += sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cpp"))
    return r


def native(driver, libs, out=None, opt="-O1", san=True):
    """compiles a replay driver together with /repo's current sources of the given libs (g++)"""
    out = out or os.path.join(tmpdir(), "drv_" + re.sub(r"\W", "_", os.path.basename(driver)))
    flags = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] if san else []
    objs = []

    def one(s):
        o = os.path.join(tmpdir(), "n%d_" % san + re.sub(r"\W", "_", s) + ".o")
        if not os.path.exists(o):
            r = subprocess.run(["g++", *BASE, opt, "-w", *flags, *(["-fno-access-control"] if s.startswith(HERE) else []), "-c", s, "-o", o], capture_output=True, text=True)
            if r.returncode:
                raise BuildError(f"g++ failed on {s}:\n{r.stderr[-3000:]}")
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, [driver] + repo_sources(libs)))
    r = subprocess.run(["g++", *flags, *objs, "-o", out], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("link failed:\n" + r.stderr[-3000:])
    return out
