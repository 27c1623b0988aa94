"""Specification of the character categories (Unicode blocks) and contracts of the 'is' / 'isAll' functions."""
from contract import *
import utf8
from utf8 import K, _ks, decode_prefix_cases, decoded

SRC = ["libs/utils/src/UnicodeBlock.cpp", "libs/utils/src/Utf8.cpp", "libs/utils/src/String.cpp"]

HIRA = [(0x3040, 0x309F)]
KATA = [(0x30A0, 0x30FF), (0x31F0, 0x31FF)]
COMMON = [(0x3400, 0x4DBF), (0x4E00, 0x9FFF), (0xF900, 0xFAFF), (0x20000, 0x2A6DF)]
RARE = [(0x2E80, 0x2EFF), (0x2A700, 0x2EBEF), (0x2F800, 0x2FA1F), (0x30000, 0x3134F)]
PUNCT = [(0x2000, 0x206F), (0x3000, 0x303F), (0xFFF0, 0xFFFF)]
SYMBOL = [(0x2100, 0x214F), (0x2190, 0x21FF), (0x2200, 0x22FF), (0x2500, 0x257F), (0x25A0, 0x25FF), (0x2600, 0x26FF),
          (0x2FF0, 0x2FFF), (0x3190, 0x319F), (0x31C0, 0x31EF)]
LETTER = [(0x80, 0xFF), (0x100, 0x17F), (0x180, 0x24F), (0x2150, 0x218F), (0x2460, 0x24FF), (0x2C60, 0x2C7F), (0xFF00, 0xFFEF)]
NONSP = [(0xFE00, 0xFE0F), (0x3099, 0x309A)]
CATS = {"Hiragana": HIRA, "Katakana": KATA, "Kana": HIRA + KATA, "CommonKanji": COMMON, "RareKanji": RARE,
        "Kanji": COMMON + RARE, "MBSymbol": SYMBOL, "MBLetter": LETTER, "MBPunctuation": PUNCT,
        "RecognizedUtf8": HIRA + KATA + COMMON + RARE + PUNCT + SYMBOL + LETTER}


def inr(c, bs):
    return b_or(*[b_and(cmp('uge', c, a, 32), cmp('ule', c, b, 32)) for a, b in bs])


def is_spec(src, start, n, one, bs):
    """the value of an 'is' function on the text src[start, start+n)"""
    two = cmp('uge', n, 2, 64)
    first = lambda c: inr(c, bs)
    p1 = decode_prefix_cases(src, start, 1)
    any_ = b_or(*[b_and(g, first(c[0])) for g, c in p1 if c])
    p3 = decode_prefix_cases(src, start, 3)
    sole = b_or(*[b_and(g, first(c[0]), 1 if len(c) == 1 else inr(c[1], NONSP)) for g, c in p3 if len(c) in (1, 2)])
    return b_and(two, b_ite(one, b_and(cmp('ule', n, 8, 64), sole), any_))


def mk_is(name):
    bs = CATS[name]

    def cases(ex, st, s, one):
        r = ex.rope(st, s)
        src, start, n = rope_src(ex, st, r)
        v = is_spec(src, start, n, one, bs)
        if not ex.ver:
            return [Case("all", 1, ret=v)]
        return [Case("accepted", v, ret=1), Case("rejected", b_not(v), ret=0)]
    return Fn(K + "is" + name, ["std::string const&", "bool"], 'bool',
              lambda ex, st: [sym_str(ex, st, "s"), sym_int(ex, st, "sizeOne", 1)], cases, srcs=SRC, title=f"is{name}(string, bool)")


def punct_spec(src, start, n, space, one):
    wide = b_and(cmp('uge', n, 3, 64), *[cmp('eq', src.at(add64(start, k)), b, 8) for k, b in enumerate((0xE3, 0x80, 0x80))])
    return b_ite(wide, b_and(space, b_or(cmp('ult', n, 4, 64), b_not(one))), is_spec(src, start, n, one, PUNCT))


def mk_punct():
    def cases(ex, st, s, space, one):
        src, start, n = rope_src(ex, st, ex.rope(st, s))
        v = punct_spec(src, start, n, space, one)
        if not ex.ver:
            return [Case("all", 1, ret=v)]
        return [Case("accepted", v, ret=1), Case("rejected", b_not(v), ret=0)]
    return Fn(K + "isMBPunctuation", ["std::string const&", "bool", "bool"], 'bool',
              lambda ex, st: [sym_str(ex, st, "s"), sym_int(ex, st, "includeSpace", 1), sym_int(ex, st, "sizeOne", 1)], cases,
              srcs=SRC, title="isMBPunctuation(string, bool, bool)")


def all_auto(src, start, n, bs, name):
    """runs over the decoded characters while they are acceptable"""
    c = lambda g: src.at(add64(start, g['g']))
    mark = lambda g: b_and(g['after'], inr(c(g), NONSP))
    return Auto(name, {'g': ('int', 64), 'after': ('bool',)}, {'g': 0, 'after': 0},
                run=lambda g: b_and(cmp('ult', g['g'], n, 64), b_or(mark(g), inr(c(g), bs))),
                step=lambda g: {'g': add64(g['g'], 1), 'after': b_not(mark(g))}, pos=['g'],
                facts=[("position within the text", lambda g: cmp('ule', g['g'], n, 64))], variant=lambda g: sub64(n, g['g']))


def mk_all(name):
    bs = CATS[name]

    def cases(ex, st, s):
        src, start, n = rope_src(ex, st, ex.rope(st, s))
        d = decoded(ex, st, src, start, add64(start, n))
        if not ex.ver:
            i = len(getattr(ex, 'allp', {}))
            ex.allp = getattr(ex, 'allp', {})
            v = ex.allp.setdefault((name, src.key, _ks(start), _ks(n)), z3.Bool(f"all{i}"))
            return [Case("all", 1, ret=v)]
        dsrc, ds, dn = rope_src(ex, st, d)
        a = all_auto(dsrc, ds, dn, bs, "all")
        return [Case("every character is in the category", 1, via=Via(a, value=lambda g: cmp('eq', g['g'], dn, 64)))]
    return Fn(K + "isAll" + name, ["std::string const&"], 'bool', lambda ex, st: [sym_str(ex, st, "s")], cases, srcs=SRC,
              title=f"isAll{name}(string)")


IS = [mk_is(n) for n in CATS if n != "MBPunctuation"] + [mk_punct()]
ALL = [mk_all(n) for n in CATS]
