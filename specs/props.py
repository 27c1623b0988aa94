"""Registry: which contracts and lemmas decide which property."""
import json
import os
import utf8
import blocks
import strings
import width
import enums
import small
import kana
import kanaobj
import convert
import order
import symbols
import columns
import ucd
import lookup
import quizzes

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

COMMON_ASSUMPTIONS = [
    "allocation succeeds (no std::bad_alloc); text shorter than 2^40 characters",
    "the C locale is in effect for <cctype>",
    "objects passed by reference do not alias each other unless the contract says so",
    "machine integers are modelled exactly (bit-vectors); signed overflow, out-of-bounds access, shifts and division are obligations",
    "function-local static constants are initialised once with the value of their initialiser",
]


class Prop:
    def __init__(self, pid, fns, lemmas=(), deps=(), driver="utils.cpp", libs=("utils",), srcs=(), assumptions=(), note=""):
        self.note = note
        self.pid, self.fns, self.lemmas, self.deps = pid, list(fns), list(lemmas), list(deps)
        self.driver, self.libs, self.srcs, self.assumptions = driver, list(libs), list(srcs), list(assumptions)

    def items(self):
        return self.fns + self.lemmas

    def contracts(self):
        return self.fns + self.deps

    def all_srcs(self):
        out = list(self.srcs)
        for f in self.fns:
            for s in f.srcs:
                if s not in out:
                    out.append(s)
        return out


PROPS = {}


def add(p):
    PROPS[p.pid] = p


add(Prop("C01", utf8.DEC, [utf8.LEM_RT[2]]))
add(Prop("C02", utf8.ENC, [utf8.LEM_RT[0], utf8.LEM_RT[1]]))
add(Prop("C03", utf8.VAL, [utf8.LEM_RT[1]]))
add(Prop("C04", blocks.IS + blocks.ALL, deps=utf8.DEC))
add(Prop("C05", width.WID, deps=utf8.DEC, driver="kana.cpp", libs=("utils", "kana")))
add(Prop("C06", strings.FMT, deps=utf8.DEC + strings.HELP))
add(Prop("C07", strings.HELP, deps=strings.FMT))
add(Prop("C08", enums.ENUM, driver="enums.cpp", libs=("utils", "kana", "kanji")))
V = dict(driver="values.cpp", libs=("utils", "kana", "kanji"))
add(Prop("C09", small.FLAGS, **V))
add(Prop("C10", small.ARGS, **V))
add(Prop("C11", small.RANGE, **V))
SY = dict(driver="symbol.cpp", libs=("utils",))
add(Prop("C12", symbols.SYMBOL, symbols.LEM, **SY))
add(Prop("C13", small.STROKES, **V))
add(Prop("C14", small.MOROHASHI, **V))
KN = dict(driver="kana.cpp", libs=("utils", "kana"))
add(Prop("C15", columns.VALUES + [columns.NEXT] + columns.HEADER, driver="column.cpp", libs=("utils",)))
add(Prop("C16", kana.VOICE + kana.IS + kana.SIZE + kana.SEL + kana.ITER + kana.OBJ, kana.LEM, deps=utf8.VAL, **KN))
add(Prop("C17", kanaobj.ITEMS, **KN))
add(Prop("C18", convert.KANA_KANA + convert.ALL + convert.FLAG, **KN))
add(Prop("C19", convert.KANA_ROMAJI, **KN))
add(Prop("C20", convert.TO_KANA + convert.WORDS, **KN))

ORD = dict(driver="order.cpp", libs=("utils", "kana", "kanji", "stats"))
add(Prop("C21", order.KANJI + order.COUNT + order.RADICAL, order.LEM, deps=strings.FMT + utf8.VAL, **ORD))
add(Prop("C22", ucd.UCD, deps=ucd.DEPS + ucd.CALLS, driver="ucd.cpp", libs=("utils", "kana", "kanji")))
add(Prop("C23", lookup.LOOKUP, lookup.LEM, deps=lookup.DEPS, driver="lookup.cpp", libs=("utils", "kana", "kanji", "stats")))
add(Prop("C24", quizzes.QUIZ_FNS, deps=quizzes.DEPS, driver="quiz.cpp", libs=("utils", "kana", "kanji", "stats", "quiz")))


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid and k.get("status") == "open"]
