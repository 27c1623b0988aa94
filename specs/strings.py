"""Specification of number / code point formatting and of the small string helpers in libs/utils/src/String.cpp."""
from contract import *
import stl
import utf8
from utf8 import K, _ks, atom, decoded

SRC = ["libs/utils/src/String.cpp", "libs/utils/src/Utf8.cpp", "tu/format.cpp"]
STR, U32S = "std::string const&", "std::u32string const&"
BT, HC = "kanji_tools::BracketType", "kanji_tools::HexCase"
BR = [("curly", 0, 123, 125), ("round", 1, 40, 41), ("square", 2, 91, 93)]
UPPER, NONE = 0, 3


def bracketed(t, alts):
    """alternatives of a text put between brackets of type t"""
    out = []
    for n, v, a, b in BR:
        c = cmp('eq', t, v, 32)
        out += [(b_and(c, g), Rope(1, (Lit([a]),)) + r + Rope(1, (Lit([b]),))) for g, r in alts if not (is_c(c) and not c)]
    c = cmp('uge', t, 3, 32)
    out += [(b_and(c, g), r) for g, r in alts]
    return [x for x in out if not (is_c(x[0]) and not x[0])]


def zeroes(ex, st, r, minsize):
    """alternatives of a text prepended with zeroes up to a minimum length (at least one character)"""
    n, ew = r.length(), r.ew
    short = cmp('ult', n, minsize, 64)
    one = Rope(ew, (Lit([48]),))
    out = [(short, stl.fill(ex, st, sub64(minsize, n), 48, ew) + r if not (is_c(short) and not short) else r)]
    e = cmp('eq', n, 0, 64)
    out.append((b_and(b_not(short), e), one))
    out.append((b_and(b_not(short), b_not(e)), r))
    return [x for x in out if not (is_c(x[0]) and not x[0])]


def digit(x, w, k, bits, upper):
    d = binop('and', binop('lshr', x, k * bits, w), (1 << bits) - 1, w)
    d = trunc(d, w, 8) if w > 8 else d
    if bits == 1:
        return binop('add', d, 48, 8)
    letter = b_ite(upper, binop('add', d, 55, 8), binop('add', d, 87, 8), 8)
    return b_ite(cmp('ult', d, 10, 8), binop('add', d, 48, 8), letter, 8)


def number(ex, st, x, w, bits, upper, minsize):
    """alternatives of the positional representation of x with at least minsize digits (0: all digits of the type)"""
    N = w // bits
    eff = b_ite(cmp('eq', minsize, 0, 64), N, minsize, 64)
    if is_c(minsize):
        eff = minsize or N
    out = []
    lo = min(eff, N) if is_c(eff) else 0
    for n in range(lo, N + 1):
        g = 1
        if n < N:
            g = cmp('eq', binop('lshr', x, n * bits, w), 0, w)
        if n > lo:
            g = b_and(g, cmp('ne', binop('lshr', x, (n - 1) * bits, w), 0, w))
        r = Rope(1, (Lit([digit(x, w, k, bits, upper) for k in reversed(range(n))]),))
        out += [(b_and(g, g2), r2) for g2, r2 in zeroes(ex, st, r, eff)]
    return out


TYPES = {"unsigned char": 8, "unsigned short": 16, "unsigned int": 32, "unsigned long": 64, "char32_t": 32, "char": 8}


def mk_num(name, t, ps, bits):
    """ps: list of parameter kinds after the value: 'b' bracket, 'h' hex case, 'm' minimum size"""
    w = TYPES[t]
    names = {'b': BT, 'h': HC, 'm': "unsigned long"}

    def setup(ex, st):
        out = [sym_int(ex, st, "x", w)]
        for p in ps:
            out.append(sym_int(ex, st, {'b': "brackets", 'h': "hexCase", 'm': "minSize"}[p], 64 if p == 'm' else 32))
        return out

    def cases(ex, st, x, *a):
        d = dict(zip(ps, a))
        up = cmp('eq', d.get('h', 1), UPPER, 32)
        alts = bracketed(d.get('b', NONE), number(ex, st, x, w, bits, up, d['m']))
        return [Case("formatted", 1, ret=alts)]

    def pre(ex, st, x, *a):
        d = dict(zip(ps, a))
        return [("minimum size below 2^40", cmp('ult', d['m'], MAXLEN, 64))]
    return Fn(K + name, [t] + [names[p] for p in ps], 'str', setup, cases, pre=pre, srcs=SRC, mode='unroll',
              title=f"{name}({', '.join([t] + [names[p].split('::')[-1] for p in ps])})", cost=20 if w * (2 if bits == 1 else 1) >= 64 else 5,
              opts={'max_paths': 20000})


FMT = []
for t in TYPES:
    if t not in ("char32_t",):
        FMT.append(mk_num("toBinary", t, "bm", 1))
    FMT.append(mk_num("toHex", t, "bhm", 4))
FMT += [mk_num("toBinary", "unsigned char", "m", 1), mk_num("toBinary", "unsigned long", "m", 1),
        mk_num("toHex", "unsigned char", "hm", 4), mk_num("toHex", "unsigned int", "bm", 4), mk_num("toHex", "unsigned long", "m", 4)]


def mk_brackets():
    return Fn(K + "addBrackets", [STR, BT], 'str', lambda ex, st: [sym_str(ex, st, "s"), sym_int(ex, st, "type", 32)],
              lambda ex, st, s, t: [Case("bracketed", 1, ret=bracketed(t, [(1, ex.rope(st, s))]))], srcs=SRC, title="addBrackets")


def mk_zeroes(t, ew):
    return Fn(K + "addLeadingZeroes", [t, "unsigned long"], 'str',
              lambda ex, st: [sym_str(ex, st, "s", ew), sym_int(ex, st, "minSize", 64)],
              lambda ex, st, s, m: [Case("padded", 1, ret=zeroes(ex, st, ex.rope(st, s), m))],
              pre=lambda ex, st, s, m: [("minimum size below 2^40", cmp('ult', m, MAXLEN, 64))],
              srcs=SRC, ew=ew, title=f"addLeadingZeroes({'String' if ew == 1 else 'CodeString'})")


def mk_unicode1():
    return Fn(K + "toUnicode", ["char32_t", BT], 'str', lambda ex, st: [sym_int(ex, st, "c", 32), sym_int(ex, st, "brackets", 32)],
              lambda ex, st, c, b: [Case("formatted", 1, ret=bracketed(b, number(ex, st, c, 32, 4, 1, 4)))], srcs=SRC,
              title="toUnicode(Code)")


def mk_unicode(t, ew):
    def cases(ex, st, s, b):
        r = ex.rope(st, s)
        if ew == 1:
            src, start, n = rope_src(ex, st, r)
            d = utf8.decoded(ex, st, src, start, add64(start, n))
        else:
            d = r
        src, start, n = rope_src(ex, st, d)
        cs = d.conc()
        if cs is not None and not cs:
            return [Case("empty", 1, ret=bracketed(b, [(1, Rope(1))]))]
        key = ('uni', src.key, _ks(start), _ks(n))

        def out(g):
            c = src.at(add64(start, g['g']))
            alts = []
            for sep, gg in ((Rope(1), cmp('eq', g['g'], 0, 64)), (Rope(1, (Lit([32]),)), cmp('ne', g['g'], 0, 64))):
                alts += [(b_and(gg, g2), sep + r2) for g2, r2 in number(ex, st, c, 32, 4, 1, 4)]
            return alts
        L = lambda g: g['len:uni']
        a = Auto("uni", {'g': ('int', 64)}, {'g': 0}, run=lambda g: cmp('ult', g['g'], n, 64),
                 step=lambda g: {'g': add64(g['g'], 1)}, gens={'uni': (key, out, None)}, pos=['g'],
                 facts=[("index within the text", lambda g: cmp('ule', g['g'], n, 64)),
                        ("at least one character per code", lambda g: cmp('uge', L(g), g['g'], 64)),
                        ("at most nine characters per code", lambda g: cmp('ule', L(g), binop('mul', g['g'], 9, 64), 64))],
                 variant=lambda g: sub64(n, g['g']))
        if ex.ver:
            cs = []
            for nm, v, x, y in BR:
                cs.append(Case(nm, cmp('eq', b, v, 32), via=Via(a, pieces=lambda g, x=x, y=y: [
                    Rope(1, (Lit([x]),)), ('gen', 'uni'), Rope(1, (Lit([y]),))])))
            cs.append(Case("no brackets", cmp('uge', b, 3, 32), via=Via(a, pieces=lambda g: [('gen', 'uni')])))
            return cs
        ln = atom(ex, key)[1]
        return [Case("formatted", 1, ret=bracketed(b, [(1, Rope(1, (Gen(key, ln),)))]))]
    return Fn(K + "toUnicode", [t, BT], 'str', lambda ex, st: [sym_str(ex, st, "s", ew), sym_int(ex, st, "brackets", 32)], cases,
              srcs=SRC, title=f"toUnicode({'String' if ew == 1 else 'CodeString'})", cost=5)


FMT += [mk_brackets(), mk_zeroes(STR, 1), mk_zeroes(U32S, 4), mk_unicode1(), mk_unicode(STR, 1), mk_unicode(U32S, 4)]


# ------------------------------------------------------------------ helpers
def mk_tochar(t, w, neg=False):
    def setup(ex, st):
        return [sym_int(ex, st, "x", w)] + ([sym_int(ex, st, "allowNegative", 1)] if neg else [])

    def cases(ex, st, x, *a):
        v = x if w == 8 else trunc(x, w, 8)
        if w == 8:
            return [Case("same bits", 1, ret=v)]
        if neg:
            ok = b_or(b_and(cmp('sge', x, 0, w), cmp('sle', x, 255, w)),
                      b_and(a[0], cmp('sge', x, (-128) & mask(w), w), cmp('slt', x, 0, w)))
        else:
            ok = cmp('ule', x, 255, w)
        return [Case("in range", ok, ret=v), Case("out of range", b_not(ok), throws="RangeError")]
    return Fn(K + "toChar", [t] + (["bool"] if neg else []), 8, setup, cases, srcs=SRC, title=f"toChar({t})")


def mk_single(t, ew):
    def cases(ex, st, s, one):
        r = ex.rope(st, s)
        n = r.length()
        ok = b_and(b_ite(one, cmp('eq', n, 1, 64), cmp('ne', n, 0, 64)), cmp('ult', r.at(0, 8 * ew), 128, 8 * ew))
        if not ex.ver:
            return [Case("all", 1, ret=ok)]
        return [Case("accepted", ok, ret=1), Case("rejected", b_not(ok), ret=0)]
    return Fn(K + "isSingleByte", [t, "bool"], 'bool', lambda ex, st: [sym_str(ex, st, "s", ew), sym_int(ex, st, "sizeOne", 1)],
              cases, srcs=SRC, title=f"isSingleByte({'String' if ew == 1 else 'CodeString'})")


def mk_quant(name, t, ew, all_):
    """isAllSingleByte / isAnySingleByte"""
    def cases(ex, st, s):
        src, start, n = rope_src(ex, st, ex.rope(st, s))
        key = (name, src.key, _ks(start), _ks(n))
        one = lambda g: cmp('ult', src.at(add64(start, g['g'])), 128, 8 * ew)
        go = (lambda g: one(g)) if all_ else (lambda g: b_not(one(g)))
        a = Auto(name, {'g': ('int', 64)}, {'g': 0}, run=lambda g: b_and(cmp('ult', g['g'], n, 64), go(g)),
                 step=lambda g: {'g': add64(g['g'], 1)}, pos=['g'],
                 facts=[("position within the text", lambda g: cmp('ule', g['g'], n, 64))], variant=lambda g: sub64(n, g['g']),
                 maxunfold=5)
        fin = lambda g: cmp('eq' if all_ else 'ne', g['g'], n, 64)
        if ex.ver:
            return [Case("every character checked", 1, via=Via(a, value=fin))]
        v = z3.Bool("A!" + str(abs(hash(key))))
        return [Case("all", 1, ret=v)]
    return Fn(K + name, [t], 'bool', lambda ex, st: [sym_str(ex, st, "s", ew)], cases, srcs=SRC, opts={'unroll_fns': ()},
              title=f"{name}({'String' if ew == 1 else 'CodeString'})")


def conv(c, up):
    lo, hi = (97, 122) if up else (65, 90)
    return b_ite(b_and(cmp('uge', c, lo, 8), cmp('ule', c, hi, 8)), binop('xor', c, 32, 8), c, 8)


def mk_first(name, up):
    def cases(ex, st, s):
        r = ex.rope(st, s)
        n = r.length()
        e = cmp('eq', n, 0, 64)
        first = Rope(1, (Lit([conv(r.at(0, 8), up)]),))
        rest = stl.substr(ex, st, r, 1, sub64(n, 1)) if not (is_c(e) and e) else r
        return [Case("empty", e, ret=Rope(1)), Case("first letter converted", b_not(e), ret=first + rest)]
    return Fn(K + name, [STR], 'str', lambda ex, st: [sym_str(ex, st, "s")], cases, srcs=SRC, title=name)


def mk_case(name, up):
    def spec(ex, st, s):
        src, start, n = rope_src(ex, st, ex.rope(st, s))
        return src, start, n, lambda i: conv(src.at(add64(start, i)), up)

    def upto(src, start, n, f, k):
        return Rope(1, (Sl(Src((name, src.key, _ks(start), _ks(n)), f), 0, k),))

    def cases(ex, st, s):
        x = spec(ex, st, s)
        return [Case("every letter converted", 1, ret=upto(*x, x[2]))]

    def auto(ex, st, args):
        src, start, n, f = spec(ex, st, args[0])
        return [Auto(name, {'g': ('int', 64)}, {'g': 0}, run=lambda g: cmp('ult', g['g'], n, 64), step=lambda g: {'g': add64(g['g'], 1)},
                     pos=['g'], facts=[("position within the text", lambda g: cmp('ule', g['g'], n, 64))], maps=[f],
                     heads=[lambda g: upto(src, start, n, f, g['g'])], variant=lambda g: sub64(n, g['g']))]
    return Fn(K + name, [STR], 'str', lambda ex, st: [sym_str(ex, st, "s")], cases, auto=auto, srcs=SRC, title=name)


HELP = [mk_tochar("int", 32, True), mk_tochar("unsigned short", 16), mk_tochar("unsigned int", 32), mk_tochar("unsigned long", 64),
        mk_tochar("char32_t", 32), mk_tochar("unsigned char", 8),
        Fn(K + "toUChar", ["char"], 8, lambda ex, st: [sym_int(ex, st, "x", 8)], lambda ex, st, x: [Case("same bits", 1, ret=x)],
           srcs=SRC, title="toUChar"),
        mk_single(STR, 1), mk_single(U32S, 4), mk_quant("isAllSingleByte", STR, 1, True), mk_quant("isAllSingleByte", U32S, 4, True),
        mk_quant("isAnySingleByte", STR, 1, False), mk_quant("isAnySingleByte", U32S, 4, False),
        mk_first("firstLower", False), mk_first("firstUpper", True), mk_case("toLower", False), mk_case("toUpper", True)]
