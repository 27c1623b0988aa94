"""The kana tables of libs/kana/src/Kana.cpp and the converter's token tables, obtained by executing their real initialisers with the
verifier's own semantics (they have no inputs), and shared by the contracts that depend on them."""
import time
from contract import *
import stl

K = "kanji_tools::"
KANASRC = ["libs/kana/src/Kana.cpp", "libs/utils/src/Utf8.cpp", "libs/utils/src/UnicodeBlock.cpp",
           "libs/utils/src/String.cpp"]
LISTS = [K + "{anon}::kana_lists::" + n for n in ("KanaList", "DakutenKanaList", "HanDakutenKanaList")]
VARS = LISTS + [K + "Kana::" + n for n in ("RepeatPlain", "RepeatAccented", "RomajiMap", "HiraganaMap", "KatakanaMap")]
_cache = {}


def nothing(ex, st, a, ps, full, ins):
    return None


# the tables' own consistency checks: only assertions, which the contracts below make independently
SKIP = {K + "Kana::validate": nothing, K + "Kana::IterationMark::validate": nothing, K + "Converter::Tokens::verifyData": nothing}


def world(ex, st, tokens=False):
    """brings the initialised tables into the state"""
    key = (tuple(id(m) for m in ex.modules), tokens)
    if key not in _cache:
        models = dict(stl.M)
        models.update(SKIP)
        sub = Engine(ex.modules, models, {'mode': 'unroll', 'unroll': 5000, 'deadline': time.time() + 120})
        sub.inputs = []
        sub.record = False
        s = new_state()
        keys = [p.obj for p in run_initialiser(sub, s, [global_named(sub, n) for n in VARS])]
        if tokens:
            f = find_fn(ex.modules, K + "Converter::tokens", [])
            if f is None:
                raise Unsupported("converter tokens")
            o = sub.call_fn(s, f, [])
            if len(o) != 1 or isinstance(o[0][1], Throw):
                raise Unsupported("converter tokens are not constant")
            s = o[0][0]
        _cache[key] = ({k: o for k, o in s.mem.items() if o.name != 'local'}, sub.counter, ex.modules)
    mem, n, _ = _cache[key]
    ex.counter = max(ex.counter, n)
    st.owned = set(k for k in st.owned if k not in mem)
    for k, o in mem.items():
        if k != 0:
            st.mem[k] = o


def glob(ex, name):
    n, g = global_named(ex, name)
    return Ptr(('g', g.mod.label if g.internal else '', n))


def entries(ex, st, which):
    """[(key bytes, pointer to the kana)] of one of the tables"""
    p = glob(ex, K + "Kana::" + which + "Map")
    mv = st.mem[p.obj].cells[0][1]
    out = []
    for k, n in mv.entries:
        out.append((bytes(k.conc()), ex.load_raw(st, n + 32, 8)))
    return out
