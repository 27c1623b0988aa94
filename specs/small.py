"""Contracts of the small value types: bit flags, argument lists, block ranges, stroke counts, Morohashi IDs."""
from contract import *
import stl
import blocks
from utf8 import _ks

K = "kanji_tools::"
TU = ["tu/values.cpp"]

# ------------------------------------------------------------------ bit flags
FLAGTYPES = {"ConvertFlags": 8, "Kanji::Info": 16, "VcFlags32": 32, "VcFlags64": 64}
OPS = {"&": "and", "|": "or", "^": "xor"}
FLAGS = []


def mk_flag2(T, w, op, assign):
    def setup(ex, st):
        x = out_cell(ex, st, w // 8, "x", sym_int(ex, st, "x", w)) if assign else sym_int(ex, st, "x", w)
        return [x, sym_int(ex, st, "y", w)]

    def cases(ex, st, x, y):
        v = binop(OPS[op], cell_value(ex, st, x, w // 8) if assign else x, y, w)
        return [Case("bits", 1, ret=x, writes=[(x, w // 8, v)]) if assign else Case("bits", 1, ret=v)]
    o = op + ("=" if assign else "")
    return Fn(K + "operator" + o, None, 'ptr' if assign else w, setup, cases, srcs=TU, full=f"operator{o}<{K}{T}>", nocall=True,
              title=f"{T} {o}", cmd=f"flags {T}")


def mk_flag1(T, w, name, kind, f):
    return Fn(K + name, None, kind, lambda ex, st: [sym_int(ex, st, "x", w)], lambda ex, st, x: [Case("bits", 1, ret=f(x))], srcs=TU,
              full=f"{name}<{K}{T}>", nocall=True, title=f"{T} {name}", cmd=f"flags {T}")


for T, w in FLAGTYPES.items():
    for op in OPS:
        FLAGS += [mk_flag2(T, w, op, False), mk_flag2(T, w, op, True)]
    FLAGS += [mk_flag1(T, w, "operator~", w, lambda x, w=w: binop('xor', x, mask(w), w)),
              mk_flag1(T, w, "hasValue", 'bool', lambda x, w=w: cmp('ne', x, 0, w)),
              mk_flag1(T, w, "operator!", 'bool', lambda x, w=w: cmp('eq', x, 0, w))]

# ------------------------------------------------------------------ command-line arguments
ARGSRC = TU + ["libs/utils/src/Args.cpp"]


def arg_list(ex, st, n):
    """an argument list of exactly n arbitrary pointers"""
    arr = ex.fresh_arr("argv", 8)
    p = ex.new_obj(st, 'src', None, "argv")
    o = st.mem[p.obj]
    o.src, o.ew, o.n, o.const = arr_src(arr, n), 8, n, True
    m = ex.new_obj(st, 'cells', None, "arguments")
    o.ptrs = m.obj
    return p


def mk_args(fn, kind, is_int, null, at, bad):
    """bad: list and count may disagree (only the constructor is looked at)"""
    w = 32 if is_int else 16

    def setup(ex, st):
        n = sym_int(ex, st, "argc", w)
        c = zext(n, 16, 64) if not is_int else sext(n, 32, 64)
        p = NULL if null else arg_list(ex, st, c)
        inp(ex).append(("argv", 'int', int(not null), 1))
        return [n, p] + ([sym_int(ex, st, "i", 16)] if at else [])

    def cases(ex, st, n, p, *i):
        out = []
        ok = 1
        if is_int:
            bad = b_or(cmp('slt', n, 0, 32), cmp('sgt', n, 65535, 32))
            out.append(Case("count outside the type", bad, throws="RangeError"))
            ok = b_not(bad)
        z = cmp('eq', n, 0, w)
        mis = b_not(z) if null else z
        out.append(Case("list and count disagree", b_and(ok, mis), throws="DomainError"))
        ok = b_and(ok, b_not(mis))
        if not at:
            v = zext(n, 16, 32) if not is_int else n
            return out + [Case("held", ok, ret=cmp('ne', v, 0, 32) if kind == 'bool' else v)]
        j = zext(i[0], 16, 32)
        m = zext(n, 16, 32) if not is_int else n
        out.append(Case("beyond the end", b_and(ok, cmp('uge', j, m, 32)), throws="RangeError"))
        if not null:
            o = st.mem[p.obj]
            out.append(Case("held", b_and(ok, cmp('ult', j, m, 32)), ret=lambda ex, s: Ptr(o.ptrs, Lin.of(o.src.at(zext(i[0], 16, 64))))))
        return out
    return Fn(K + fn, None, kind, setup, cases, srcs=ARGSRC, nocall=True, title=f"{fn[2:]}{' of a null list' if null else ''}", cmd="args")


ARGS = [mk_args("vcArgsSize", 32, False, z, False, True) for z in (0, 1)] + [mk_args("vcArgsSizeInt", 32, True, z, False, True) for z in (0, 1)] + \
    [mk_args("vcArgsBool", 'bool', False, z, False, True) for z in (0, 1)] + \
    [mk_args(f, 'ptr', i, z, True, False) for f, i in (("vcArgsAt", False), ("vcArgsAtInt", True)) for z in (0, 1)] + \
    [Fn(K + "vcArgsNone", None, 32, lambda ex, st: [], lambda ex, st: [Case("empty", 1, ret=0)], srcs=ARGSRC, nocall=True,
        title="no arguments", cmd="args")]

# ------------------------------------------------------------------ block ranges
RANGESRC = TU + ["libs/utils/src/BlockRange.cpp"]


def block(ex, st, name):
    p = ex.new_obj(st, 'cells', 32, name)
    ex.store_raw(st, p, 4, sym_int(ex, st, name + ".start", 32))
    ex.store_raw(st, p + 4, 4, sym_int(ex, st, name + ".end", 32))
    return p


def ends(ex, st, ps):
    return [(cell_value(ex, st, p, 4), cell_value(ex, st, p + 4, 4)) for p in ps]


def chosen(bs, i):
    """the character at position i of 'start-end start-end ... NUL'"""
    v = 0
    for k, (a, b) in reversed(list(enumerate(bs))):
        for j, c in ((2, b), (1, 45), (0, a)):
            v = b_ite(cmp('eq', i, 3 * k + j, 64), c, v, 32)
    return v


def mk_range(n):
    def cases(ex, st, *a):
        *bs, i = a
        return [Case("within", cmp('ule', i, 3 * n, 64), ret=chosen(ends(ex, st, bs), i)),
                Case("beyond the end", cmp('ugt', i, 3 * n, 64), throws="RangeError")]
    return Fn(K + f"vcRange{n}", None, 32, lambda ex, st: [block(ex, st, "abc"[k]) for k in range(n)] + [sym_int(ex, st, "i", 64)], cases,
              srcs=RANGESRC, nocall=True, title=f"range of {n} blocks", cmd=f"range {n}")


def mk_fixed(name, bs):
    return Fn(K + "vc" + name, None, 32, lambda ex, st: [sym_int(ex, st, "i", 64)],
              lambda ex, st, i: [Case("within", cmp('ule', i, 3 * len(bs), 64), ret=chosen(bs, i)),
                                 Case("beyond the end", cmp('ugt', i, 3 * len(bs), 64), throws="RangeError")],
              srcs=RANGESRC, nocall=True, title=name, cmd="range " + name)


def mk_text():
    def cases(ex, st, a, b, c, i):
        j = b_ite(cmp('ult', i, 9, 64), i, 9, 64)
        return [Case("text", 1, ret=chosen(ends(ex, st, [a, b, c]), j))]
    return Fn(K + "vcText3", None, 32, lambda ex, st: [block(ex, st, n) for n in "abc"] + [sym_int(ex, st, "i", 64)], cases, srcs=RANGESRC,
              nocall=True, title="text of a range", cmd="range 3")


def mk_check():
    return Fn(K + "BaseBlockRange::checkIndex", None, 64, lambda ex, st: [sym_int(ex, st, "i", 64), sym_int(ex, st, "size", 64)],
              lambda ex, st, i, n: [Case("within", cmp('ule', i, n, 64), ret=i), Case("beyond the end", cmp('ugt', i, n, 64), throws="RangeError")],
              srcs=RANGESRC, title="range index check", nocall=True, cmd="range 3")


def mk_block(fn, kind, f):
    def setup(ex, st):
        return [block(ex, st, "b")] + ([sym_int(ex, st, "c", 32)] if kind == 'bool' else [])

    def cases(ex, st, b, *c):
        (lo, hi), = ends(ex, st, [b])
        return [Case("block", 1, ret=f(lo, hi, *c))]
    return Fn(K + fn, None, kind, setup, cases, srcs=RANGESRC, nocall=True, title=fn[2:], cmd=fn[2:])


B = blocks
RANGE = [mk_range(1), mk_range(2), mk_range(3), mk_text(), mk_check(),
         Fn(K + "vcRangeSize3", None, 64, lambda ex, st: [block(ex, st, n) for n in "abc"], lambda ex, st, *a: [Case("size", 1, ret=9)],
            srcs=RANGESRC, nocall=True, title="size of a range", cmd="range 3"),
         mk_fixed("KanjiRange", B.COMMON + B.NONSP[:1] + B.RARE), mk_fixed("WideLetterRange", B.LETTER[6:7]), mk_fixed("HiraganaRange", B.HIRA),
         mk_fixed("KatakanaRange", B.KATA), mk_fixed("KanaRange", [(0x3040, 0x30FF), (0x31F0, 0x31FF)]),
         mk_block("vcInBlock", 'bool', lambda a, b, c: b_and(cmp('uge', c, a, 32), cmp('ule', c, b, 32))),
         mk_block("vcBlockSize", 32, lambda a, b: binop('add', binop('sub', b, a, 32), 1, 32))]

# ------------------------------------------------------------------ stroke counts
STRSRC = TU + ["libs/kanji/src/Strokes.cpp"]


def one_ok(n):
    return b_and(cmp('ne', n, 0, 8), cmp('ule', n, 64, 8))


def two_bad(n, v):
    """(range error, domain error) of a count with a variant"""
    r = b_or(cmp('ult', n, 2, 8), cmp('ugt', n, 64, 8), cmp('ult', v, 3, 8), cmp('ugt', v, 33, 8))
    return r, b_and(b_not(r), cmp('eq', n, v, 8))


def mk_strokes(variant, text):
    def setup(ex, st):
        a = [sym_int(ex, st, "value", 8)] + ([sym_int(ex, st, "variant", 8)] if variant else [])
        return a + ([sym_int(ex, st, "includeVariant", 1)] if text else [])

    def cases(ex, st, n, *a):
        if variant:
            r, d = two_bad(n, a[0])
            v = a[0]
        else:
            r, d, v = b_not(one_ok(n)), 0, 0
        ok = b_not(b_or(r, d))
        out = [Case("outside the range", r, throws="RangeError")] + ([Case("equal", d, throws="DomainError")] if variant else [])
        if not text:
            x = binop('or', zext(n, 8, 32), binop('shl', zext(v, 8, 32), 8, 32), 32)
            return out + [Case("held", ok, ret=binop('or', x, (1 << 16) if variant else 0, 32))]
        num = lambda x: stl.decimal(ex, st, zext(x, 8, 32), 32, True)
        if not variant:
            return out + [Case("count", ok, ret=num(n))]
        return out + [Case("both", b_and(ok, a[1]), ret=num(n) + lit("/") + num(v)), Case("count", b_and(ok, b_not(a[1])), ret=num(n))]
    name = "vcStrokes" + ("Variant" if variant else "") + ("Text" if text else "")
    return Fn(K + name, None, 'str' if text else 32, setup, cases, srcs=STRSRC, nocall=True, title=name[2:], cmd=name[2:])


def relations(a, b, w):
    """bits: == != < <= > >= of two keys"""
    r = 0
    for k, op in enumerate(("eq", "ne", "ult", "ule", "ugt", "uge")):
        r = binop('or', r, b_ite(cmp(op, a, b, w), 1 << k, 0, 32), 32)
    return r


def mk_scmp(name, n, key):
    names = ["a", "v", "b", "w"] if n == 4 else ["a", "b"] if n == 2 else ["a", "b", "w"]

    def setup(ex, st):
        return [sym_int(ex, st, x, 8) for x in names]

    def cases(ex, st, *a):
        (x, xv), (y, yv) = key(*a)
        k = lambda m, v: binop('or', binop('shl', zext(m, 8, 16), 8, 16), zext(0 if v is None else v, 8, 16), 16)
        return [Case("ordered by count, then variant", 1, ret=relations(k(x, xv), k(y, yv), 16))]

    def pre(ex, st, *a):
        out = []
        for m, v in key(*a):
            r, d = two_bad(m, v) if v is not None else (b_not(one_ok(m)), 0)
            out.append(("a valid count", b_not(b_or(r, d))))
        return out
    return Fn(K + name, None, 32, setup, cases, pre=pre, srcs=STRSRC, nocall=True, title=name[2:], cmd=name[2:])


STROKES = [mk_strokes(v, t) for v in (0, 1) for t in (0, 1)] + [
    mk_scmp("vcStrokesCompare", 2, lambda a, b: [(a, None), (b, None)]),
    mk_scmp("vcStrokesVariantCompare", 4, lambda a, v, b, w: [(a, v), (b, w)]),
    mk_scmp("vcStrokesMixedCompare", 3, lambda a, b, w: [(a, None), (b, w)])]

# ------------------------------------------------------------------ Morohashi IDs
MORSRC = TU + ["libs/kanji/src/MorohashiId.cpp", "libs/utils/src/String.cpp"]


def mk_morohashi():
    def setup(ex, st):
        return [sym_str(ex, st, "s")]

    def cases(ex, st, s):
        src, start, n = rope_src(ex, st, ex.rope(st, s))
        at = lambda i: src.at(add64(start, i))
        last = lambda k, ch: b_and(cmp('uge', n, k, 64), cmp('eq', at(sub64(n, k)), ord(ch), 8))
        dbl = b_or(b_and(last(1, 'P'), last(2, 'P')), b_and(last(1, "'"), last(2, "'")))
        prime = b_or(last(1, 'P'), last(1, "'"))
        sup = b_and(cmp('uge', n, 1, 64), cmp('eq', at(0), ord('H'), 8))
        out = []
        for nm, t, g, pre, suf in (("double prime", 2, dbl, 0, 2), ("prime", 1, b_and(prime, b_not(dbl)), 0, 1),
                                   ("supplemental", 3, b_and(sup, b_not(prime), b_not(dbl)), 1, 0),
                                   ("plain", 0, b_and(b_not(sup), b_not(prime), b_not(dbl)), 0, 0)):
            empty = cmp('eq', sub64(n, pre + suf), 0, 64)
            if t == 0:
                out.append(Case("no ID", b_and(g, empty), ret=0))
            else:
                out.append(Case(nm + " without a number", b_and(g, empty), throws="DomainError"))
            digit = lambda q: b_and(cmp('uge', at(q['g']), 48, 8), cmp('ule', at(q['g']), 57, 8))
            nxt = lambda q: binop('add', binop('mul', q['v'], 10, 32), zext(binop('sub', at(q['g']), 48, 8), 8, 32), 32)
            good = lambda q: b_and(digit(q), cmp('ule', nxt(q), 65535, 32))
            end = sub64(n, suf)
            a = Auto("id" + str(t), {'g': ('int', 64), 'v': ('int', 32), 'z': ('int', 64)}, {'g': pre, 'v': 0, 'z': pre},
                     run=lambda q, end=end, good=good: b_and(cmp('ult', q['g'], end, 64), good(q)),
                     step=lambda q, nxt=nxt, at=at: {'g': add64(q['g'], 1), 'v': nxt(q),
                                                     'z': b_ite(b_and(cmp('eq', q['z'], q['g'], 64), cmp('eq', at(q['g']), 48, 8)), add64(q['g'], 1), q['z'], 64)},
                     pos=['g', 'z'],
                     facts=[("position within the number", lambda q, end=end: cmp('ule', q['g'], end, 64)),
                            ("the value fits", lambda q: cmp('ule', q['v'], 65535, 32)),
                            ("leading zeroes", lambda q: b_and(cmp('ule', q['z'], q['g'], 64), b_imp(cmp('eq', q['z'], q['g'], 64), cmp('eq', q['v'], 0, 32))))],
                     variant=lambda q, end=end: sub64(end, q['g']), when=lambda x, s1, fn, g=g: x.valid(s1, g)[0])
            bad = lambda q, end=end, t=t: b_or(cmp('ult', q['g'], end, 64), cmp('eq', q['v'], 0, 32) if t else 0)
            out.append(Case(nm, b_and(g, b_not(empty)),
                            via=Via(a, value=lambda q, t=t: binop('or', q['v'], t << 16, 32), throws=("DomainError", bad))))
        return out
    return Fn(K + "vcMorohashi", None, 32, setup, cases, srcs=MORSRC, nocall=True, title="Morohashi ID of a text", cmd="morohashi", cost=3)


def mid(ex, st, name):
    p = ex.new_obj(st, 'cells', 4, name)
    ex.store_raw(st, p, 2, sym_int(ex, st, name + ".id", 16))
    t = sym_int(ex, st, name + ".type", 8)
    st.assume(cmp('ule', t, 3, 8))
    ex.store_raw(st, p + 2, 1, t)
    return p


def mkey(ex, st, p):
    return binop('or', binop('shl', zext(cell_value(ex, st, p, 2), 16, 32), 8, 32), zext(cell_value(ex, st, p + 2, 1), 8, 32), 32)


def mk_mtext():
    def cases(ex, st, p):
        i, t = cell_value(ex, st, p, 2), cell_value(ex, st, p + 2, 1)
        num = stl.decimal(ex, st, zext(i, 16, 32), 32, True)
        out = []
        for z in (0, 1):
            c = cmp('eq' if z else 'ne', i, 0, 16)
            b = Rope(1) if z else num
            for k, (nm, r) in enumerate((("plain", b), ("prime", b + lit("P")), ("double prime", b + lit("PP")), ("supplemental", lit("H") + b))):
                out.append(Case(nm + (" zero" if z else ""), b_and(c, cmp('eq', t, k, 8)), ret=r))
        return out
    def setup(ex, st):
        return [mid(ex, st, "x")]
    return Fn(K + "MorohashiId::toString", None, 'str', setup, cases, srcs=MORSRC, nocall=True,
              title="text of a Morohashi ID", cmd="morohashi text")


MOROHASHI = [mk_morohashi(), mk_mtext(),
             Fn(K + "vcMorohashiBool", None, 'bool', lambda ex, st: [mid(ex, st, "x")],
                lambda ex, st, p: [Case("has an ID", 1, ret=cmp('ne', cell_value(ex, st, p, 2), 0, 16))], srcs=MORSRC, nocall=True,
                title="Morohashi ID is set", cmd="morohashi text"),
             Fn(K + "vcMorohashiCompare", None, 32, lambda ex, st: [mid(ex, st, "a"), mid(ex, st, "b")],
                lambda ex, st, a, b: [Case("ordered by number, then type", 1, ret=relations(mkey(ex, st, a), mkey(ex, st, b), 32))], srcs=MORSRC,
                nocall=True, title="Morohashi ID order", cmd="morohashi compare"),
             Fn(K + "vcMorohashiNone", None, 32, lambda ex, st: [], lambda ex, st: [Case("none", 1, ret=0)], srcs=MORSRC, nocall=True,
                title="no Morohashi ID", cmd="morohashi text")]
