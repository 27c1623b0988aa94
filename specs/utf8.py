"""Specification of UTF-8 decoding, encoding and validation, written from the Unicode definition (RFC 3629),
and the contracts of the conversion functions in libs/utils/src/Utf8.cpp."""
import z3
from contract import *

SRC = ["libs/utils/src/Utf8.cpp", "libs/utils/src/String.cpp"]
FFFD = 0xFFFD


def u32(x):
    return zext(x, 8, 32)


def cont(b):
    return cmp('eq', binop('and', b, 0xC0, 8), 0x80, 8)


def ge8(b, k):
    return cmp('uge', b, k, 8)


def bits(b, m, sh):
    return binop('shl', binop('and', u32(b), m, 32), sh, 32)


def add(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = binop('or', r, x, 32)
    return r


def decode1(b):
    """(code, bytes consumed) of the first character of the four bytes b0..b3 (missing bytes read as NUL)"""
    b0, b1, b2, b3 = b
    c2 = add(bits(b0, 0x1F, 6), bits(b1, 0x3F, 0))
    c3 = add(bits(b0, 0x0F, 12), bits(b1, 0x3F, 6), bits(b2, 0x3F, 0))
    c4 = add(bits(b0, 0x07, 18), bits(b1, 0x3F, 12), bits(b2, 0x3F, 6), bits(b3, 0x3F, 0))
    i = lambda c, a, b_: b_ite(c, a, b_, 32)
    v2 = i(cmp('uge', c2, 0x80, 32), c2, FFFD)
    v3 = i(b_and(cmp('uge', c3, 0x800, 32), b_or(cmp('ult', c3, 0xD800, 32), cmp('ugt', c3, 0xDFFF, 32))), c3, FFFD)
    v4 = i(b_and(cmp('uge', c4, 0x10000, 32), cmp('ule', c4, 0x10FFFF, 32)), c4, FFFD)
    is1, isbad = cmp('ult', b0, 0x80, 8), b_or(cont(b0), ge8(b0, 0xF8))
    is2, is3 = cmp('ult', b0, 0xE0, 8), cmp('ult', b0, 0xF0, 8)
    code = i(is1, u32(b0), i(isbad, FFFD, i(b_not(cont(b1)), FFFD, i(is2, v2, i(b_not(cont(b2)), FFFD, i(
        is3, v3, i(b_not(cont(b3)), FFFD, v4)))))))
    j = lambda c, a, b_: b_ite(c, a, b_, 64)
    ln = j(b_or(is1, isbad, b_not(cont(b1))), 1, j(b_or(is2, b_not(cont(b2))), 2, j(b_or(is3, b_not(cont(b3))), 3, 4)))
    return code, ln


def at4(src, p):
    return [src.at(add64(p, k)) for k in range(4)]


def code_at(src, p):
    return decode1(at4(src, p))[0]


def len_at(src, p):
    return decode1(at4(src, p))[1]


def nz(src, p):
    return cmp('ne', src.at(p), 0, 8)


# ------------------------------------------------------------------ decoding a whole text
def dec_auto(src, start, limit, maxn, name="dec"):
    """automaton that decodes src from `start` until NUL or until maxn (0: no limit) characters"""
    key = ('dec', src.key, _ks(start))
    return Auto(
        name, {'g': ('int', 64), 'p': ('int', 64)}, {'g': 0, 'p': start},
        run=[lambda g: nz(src, g['p']), lambda g: b_or(cmp('eq', maxn, 0, 64), cmp('ult', g['g'], maxn, 64))],
        step=lambda g: {'g': add64(g['g'], 1), 'p': add64(g['p'], len_at(src, g['p']))},
        gens={'dec': (key, lambda g: [(1, Rope(4, (Lit([code_at(src, g['p'])]),)))], 'g')},
        pos=['p'],
        facts=[("position not past the terminating NUL", lambda g: cmp('ule', g['p'], limit, 64)),
               ("count within the limit", lambda g: b_or(cmp('eq', maxn, 0, 64), cmp('ule', g['g'], maxn, 64))),
               ("count not above position", lambda g: cmp('ule', g['g'], g['p'], 64))],
        variant=lambda g: sub64(limit, g['p']), guards=[("no limit", cmp('eq', maxn, 0, 64))])


def _ks(v):
    return v if is_c(v) else v.sexpr()


def atom(ex, key):
    """(array, length) standing for a specified sequence"""
    if not hasattr(ex, 'atoms'):
        ex.atoms = {}
    if key not in ex.atoms:
        i = len(ex.atoms)
        ew = 1
        arr = z3.Array(f"W{i}", z3.BitVecSort(64), z3.BitVecSort(32))
        ex.atoms[key] = (arr, z3.BitVec(f"WN{i}", 64))
    return ex.atoms[key]


def decoded(ex, st, src, start, limit):
    """the complete decoding of a text, as a rope over an abstract sequence; facts: first elements by unfolding the
    automaton twice"""
    if is_c(limit) and is_c(start) and limit - start <= 64:
        bs = [src.at(start + k) for k in range(limit - start)] + [0] * 4
        if all(is_c(b) for b in bs):
            out, p = [], 0
            while bs[p]:
                c, n = decode1(bs[p:p + 4])
                out.append(c)
                p += n
            return Rope(4, (Lit(out),))
    key = ('dec', src.key, _ks(start))
    arr, n = atom(ex, key)
    p, pre = start, 1
    facts = [cmp('ule', n, sub64(limit, start), 64)]
    for k in range(2):
        more = b_and(pre, nz(src, p))
        facts.append(b_imp(pre, b_and(b_imp(nz(src, p), cmp('ugt', n, k, 64)), b_imp(b_not(nz(src, p)), cmp('eq', n, k, 64)))))
        facts.append(b_imp(more, z3.Select(arr, z3.BitVecVal(k, 64)) == bv(code_at(src, p), 32)))
        pre = more
        p = add64(p, len_at(src, p))
    for f in facts:
        if not is_c(f):
            st.assume(f)
    return Rope(4, (Sl(arr_src(arr), 0, n),))


def decode_prefix_cases(src, start, m):
    """[(guard, codes)] for decoding at most m characters, m a small constant"""
    out, p, pre, codes = [], start, 1, []
    for k in range(m):
        out.append((b_and(pre, b_not(nz(src, p))), list(codes)))
        pre = b_and(pre, nz(src, p))
        codes.append(code_at(src, p))
        p = add64(p, len_at(src, p))
    out.append((pre, list(codes)))
    return out


def decode_cases(ex, st, src, start, limit, maxn, via):
    if via:
        return [Case("decodes", 1, via=via)]
    if is_c(maxn) and 0 < maxn <= 4:
        return [Case(f"{len(c)} characters", g, ret=Rope(4, (Lit(c),))) for g, c in decode_prefix_cases(src, start, maxn)]
    if is_c(maxn) and maxn == 0:
        return [Case("all characters", 1, ret=decoded(ex, st, src, start, limit))]
    raise Unsupported("decoding with a symbolic limit at a call site")


def decoded_max(ex, st, src, start, limit, maxn):
    """the decoding of a text cut after maxn characters (0: never)"""
    if is_c(maxn) and maxn == 0:
        return decoded(ex, st, src, start, limit)
    arr, n = atom(ex, ('decmax', src.key, _ks(start), _ks(maxn)))
    st.assume(cmp('ule', n, sub64(limit, start), 64))
    st.assume(b_or(cmp('eq', maxn, 0, 64), cmp('ule', n, maxn, 64)))
    return Rope(4, (Sl(arr_src(arr), 0, n),))


def mk_dec(q, ps, is_str, has_max, null=False):
    """fromUtf8 / fromUtf8ToWstring for a char pointer or a std::string argument"""
    def setup(ex, st):
        s = NULL if null else sym_str(ex, st, "s") if is_str else sym_cstr(ex, st, "s")
        if null:
            inp(ex).append(("s", 'const', None))
        return [s] + ([sym_int(ex, st, "maxSize", 64)] if has_max else [])

    def cases(ex, st, s, *m):
        maxn = m[0] if m else 0
        if s.obj == 0:
            return [Case("null text", 1, ret=Rope(4))]
        if is_str:
            src, start, n = rope_src(ex, st, ex.rope(st, s))
            limit = add64(start, n)
        else:
            src, start, limit = text_at(ex, st, s)
        whole = lambda ex2, st2: decoded_max(ex2, st2, src, start, limit, maxn)
        if ex.ver:
            a = dec_auto(src, start, limit, maxn)
            return [Case("decodes", 1, via=Via(a, pieces=lambda g: [('gen', 'dec')], alt=whole))]
        if is_c(maxn) and 0 < maxn <= 4:
            return [Case(f"{len(c)} characters", g, ret=Rope(4, (Lit(c),)))
                    for g, c in decode_prefix_cases(src, start, maxn)]
        return [Case("all characters", 1, ret=whole)]
    return Fn(q, ps, 'str', setup, cases, srcs=SRC, ew=4, nocall=null,
              title=f"{q.split('::')[-1]}({', '.join(ps)}){' on null' if null else ''}", tag=('dec',))


def mk_getcode(ps, is_str, null=False):
    def setup(ex, st):
        if null:
            inp(ex).append(("s", 'const', None))
            return [NULL]
        return [sym_str(ex, st, "s") if is_str else sym_cstr(ex, st, "s")]

    def cases(ex, st, s):
        if s.obj == 0:
            return [Case("null text", 1, ret=0)]
        if is_str:
            src, start, n = rope_src(ex, st, ex.rope(st, s))
        else:
            src, start, limit = text_at(ex, st, s)
        return [Case("empty", b_not(nz(src, start)), ret=0), Case("decodes one", nz(src, start), ret=code_at(src, start))]
    return Fn("kanji_tools::getCode", ps, 32, setup, cases, srcs=SRC, nocall=null,
              title=f"getCode({', '.join(ps)}){' on null' if null else ''}")


K = "kanji_tools::"
DEC = [mk_dec(K + "fromUtf8", ["char const*", "unsigned long"], False, True),
       mk_dec(K + "fromUtf8", ["char const*", "unsigned long"], False, True, True),
       mk_dec(K + "fromUtf8", ["std::string const&", "unsigned long"], True, True),
       mk_dec(K + "fromUtf8ToWstring", ["char const*"], False, False),
       mk_dec(K + "fromUtf8ToWstring", ["char const*"], False, False, True),
       mk_dec(K + "fromUtf8ToWstring", ["std::string const&"], True, False),
       mk_getcode(["char const*"], False), mk_getcode(["char const*"], False, True),
       mk_getcode(["std::string const&"], True)]


# ------------------------------------------------------------------ encoding
def enc_cases(c):
    """[(guard, bytes)] UTF-8 encoding of one code; not-encodable codes give U+FFFD"""
    def b(sh, m, hi):
        return binop('or', trunc(binop('and', binop('lshr', c, sh, 32), m, 32), 32, 8), hi, 8)
    le = lambda k: cmp('ule', c, k, 32)
    sur = b_and(cmp('uge', c, 0xD800, 32), le(0xDFFF))
    bad = b_or(sur, b_not(le(0x10FFFF)))
    return [("one byte", le(0x7F), [trunc(c, 32, 8)]),
            ("two bytes", b_and(b_not(le(0x7F)), le(0x7FF)), [b(6, 0x1F, 0xC0), b(0, 0x3F, 0x80)]),
            ("three bytes", b_and(b_not(le(0x7FF)), le(0xFFFF), b_not(sur)), [b(12, 0x0F, 0xE0), b(6, 0x3F, 0x80), b(0, 0x3F, 0x80)]),
            ("four bytes", b_and(b_not(le(0xFFFF)), le(0x10FFFF)),
             [b(18, 0x07, 0xF0), b(12, 0x3F, 0x80), b(6, 0x3F, 0x80), b(0, 0x3F, 0x80)]),
            ("not a Unicode scalar value", bad, [0xEF, 0xBF, 0xBD])]


def enc_alts(c):
    return [(g, Rope(1, (Lit(b),))) for _, g, b in enc_cases(c)]


def mk_enc1(t):
    return Fn(K + "toUtf8", [t], 'str', lambda ex, st: [sym_int(ex, st, "c", 32)],
              lambda ex, st, c: [Case(n, g, ret=Rope(1, (Lit(b),))) for n, g, b in enc_cases(c)], srcs=SRC,
              title=f"toUtf8({t})")


def mk_encs(t):
    def cases(ex, st, s):
        r = ex.rope(st, s)
        cs = r.conc()
        if cs is not None and len(cs) <= 2 and not ex.ver:
            alts = [("", 1, [])]
            for c in cs:
                alts = [(n + n2 + " ", b_and(g, g2), b + b2) for n, g, b in alts for n2, g2, b2 in enc_cases(c)]
            return [Case(n, g, ret=Rope(1, (Lit(b),))) for n, g, b in alts]
        src, start, n = rope_src(ex, st, r)
        key = ('enc', src.key, _ks(start), _ks(n))
        a = Auto("enc", {'g': ('int', 64)}, {'g': 0}, run=lambda g: cmp('ult', g['g'], n, 64),
                 step=lambda g: {'g': add64(g['g'], 1)},
                 gens={'enc': (key, lambda g: enc_alts(src.at(add64(start, g['g']))), None)}, pos=['g'],
                 facts=[("index within the text", lambda g: cmp('ule', g['g'], n, 64))],
                 variant=lambda g: sub64(n, g['g']))
        if ex.ver:
            return [Case("encodes every code", 1, via=Via(a, pieces=lambda g: [('gen', 'enc')]))]
        ln = atom(ex, key)[1]
        return [Case("encodes every code", 1, ret=Rope(1, (Gen(key, ln),)))]
    return Fn(K + "toUtf8", [t], 'str', lambda ex, st: [sym_str(ex, st, "s", 4)], cases, srcs=SRC, title=f"toUtf8({t})")


ENC = [mk_enc1("char32_t"), mk_enc1("int"), mk_enc1("unsigned int"), mk_encs("std::u32string const&"),
       mk_encs("std::wstring const&")]


# ------------------------------------------------------------------ validation
def valid_cases(src, p, size_one):
    """[(name, guard, error or None)] for the text at p; error None: valid; 'mb': not multi-byte"""
    b0, b1, b2, b3 = at4(src, p)
    lt = lambda b, k: cmp('ult', b, k, 8)
    ascii_ = lt(b0, 0x80)
    ct = cont(b0)
    lead = b_and(b_not(ascii_), b_not(ct))
    is2, is3, is4 = lt(b0, 0xE0), b_and(ge8(b0, 0xE0), lt(b0, 0xF0)), b_and(ge8(b0, 0xF0), lt(b0, 0xF8))
    long_ = ge8(b0, 0xF8)
    m2 = b_not(cont(b1))
    m3 = b_and(b_not(is2), b_not(cont(b2)))
    tail = b_and(lead, b_not(m2), b_not(m3))
    toolong = b_and(tail, long_)
    m4 = b_and(tail, is4, b_not(cont(b3)))
    missing = b_or(b_and(lead, b_or(m2, m3)), m4)
    full = b_and(tail, b_not(long_), b_not(m4))
    c2 = add(bits(b0, 0x1F, 6), bits(b1, 0x3F, 0))
    c3 = add(bits(b0, 0x0F, 12), bits(b1, 0x3F, 6), bits(b2, 0x3F, 0))
    c4 = add(bits(b0, 0x07, 18), bits(b1, 0x3F, 12), bits(b2, 0x3F, 6), bits(b3, 0x3F, 0))
    over = b_and(full, b_or(b_and(is2, cmp('ult', c2, 0x80, 32)), b_and(is3, cmp('ult', c3, 0x800, 32)),
                            b_and(is4, cmp('ult', c4, 0x10000, 32))))
    inval = b_and(full, b_or(b_and(is3, cmp('uge', c3, 0xD800, 32), cmp('ule', c3, 0xDFFF, 32)),
                             b_and(is4, cmp('ugt', c4, 0x10FFFF, 32))))
    ok = b_and(full, b_not(over), b_not(inval))
    more = b_or(b_and(is2, nz(src, add64(p, 2))), b_and(is3, nz(src, add64(p, 3))), b_and(is4, nz(src, add64(p, 4))))
    stl_ = b_and(ok, size_one, more)
    return [("ascii or empty", ascii_, 'mb'), ("starts with a continuation byte", ct, 'ContinuationByte'),
            ("missing continuation bytes", missing, 'MissingBytes'), ("lead byte too long", toolong, 'CharTooLong'),
            ("overlong encoding", over, 'Overlong'), ("surrogate or beyond the last code point", inval, 'InvalidCodePoint'),
            ("more text after the first character", stl_, 'StringTooLong'), ("valid", b_and(ok, b_not(stl_)), None)]


RES = {'Valid': 0, 'CharTooLong': 1, 'ContinuationByte': 2, 'InvalidCodePoint': 3, 'MissingBytes': 4, 'Overlong': 5,
       'StringTooLong': 6}
MB = {'Valid': 0, 'NotMultiByte': 1, 'NotValid': 2}


def mk_valid(ps, is_str, null=False):
    def setup(ex, st):
        if null:
            inp(ex).append(("s", 'const', None))
        s = NULL if null else sym_str(ex, st, "s") if is_str else sym_cstr(ex, st, "s")
        return [s, out_cell(ex, st, 4, "error"), sym_int(ex, st, "sizeOne", 1)]

    def cases(ex, st, s, err, one):
        if s.obj == 0:
            return [Case("null text", 1, ret=MB['NotMultiByte'])]
        src, start = (rope_src(ex, st, ex.rope(st, s)) if is_str else text_at(ex, st, s))[:2]
        out = []
        for n, g, e in valid_cases(src, start, one):
            if e == 'mb':
                out.append(Case(n, g, ret=MB['NotMultiByte']))
            elif e is None:
                out.append(Case(n, g, ret=MB['Valid']))
            else:
                out.append(Case(n, g, ret=MB['NotValid'], writes=[(err, 4, RES[e])]))
        return out
    return Fn(K + "validateMBUtf8", ps, 32, setup, cases, srcs=SRC, nocall=null,
              title=f"validateMBUtf8({', '.join(ps)}){' on null' if null else ''}")


def mk_isvalid(q, mb):
    def cases(ex, st, s, one):
        src, start = rope_src(ex, st, ex.rope(st, s))[:2]
        return [Case(n, g, ret=int(e is None or (not mb and e == 'mb'))) for n, g, e in valid_cases(src, start, one)]
    return Fn(K + q, ["std::string const&", "bool"], 'bool', lambda ex, st: [sym_str(ex, st, "s"), sym_int(ex, st, "sizeOne", 1)],
              cases, srcs=SRC, title=f"{q}(string, bool)")


VAL = [mk_valid(["char const*", "kanji_tools::Utf8Result&", "bool"], False),
       mk_valid(["char const*", "kanji_tools::Utf8Result&", "bool"], False, True),
       mk_valid(["std::string const&", "kanji_tools::Utf8Result&", "bool"], True),
       mk_isvalid("isValidMBUtf8", True), mk_isvalid("isValidUtf8", False)]


# ------------------------------------------------------------------ lemmas
def lem_roundtrip(ex, st):
    c = ex.fresh("c", 32)
    for n, g, b in enc_cases(c):
        d, ln = decode1((b + [ex.fresh("tail", 8) for _ in range(4)])[:4])
        s = st.fork()
        s.assume(g)
        if n.startswith("not"):
            ex.oblige(s, b_and(eq(d, FFFD, 32), eq(ln, 3, 64)), f"{n}: decodes to the replacement character", "lemma")
        else:
            ex.oblige(s, b_and(eq(d, c, 32), eq(ln, len(b), 64)), f"{n}: decode(encode(c) ++ rest) = c, consuming exactly encode(c)", "lemma")


def lem_reencode(ex, st):
    b = [ex.fresh(f"b{k}", 8) for k in range(5)]
    st.assume(cmp('ne', b[0], 0, 8))
    src = Src(('lemma',), lambda i: b[i] if is_c(i) and i < 5 else 0)
    d, ln = decode1(b[:4])
    for n, g, e in valid_cases(src, 0, 0):
        s = st.fork()
        s.assume(g)
        if e is None or e == 'mb':
            alts = [b_and(g2, eq(ln, len(bb), 64), *[eq(x, y, 8) for x, y in zip(bb, b)]) for _, g2, bb in enc_cases(d)]
            ex.oblige(s, b_or(*alts), f"{n}: encode(decode(x)) = x", "lemma")
        else:
            ex.oblige(s, eq(d, FFFD, 32), f"{n}: decodes to the replacement character", "lemma")


def lem_progress(ex, st):
    b = [ex.fresh(f"b{k}", 8) for k in range(4)]
    d, ln = decode1(b)
    ex.oblige(st, b_and(cmp('uge', ln, 1, 64), cmp('ule', ln, 4, 64)), "each step consumes one to four bytes", "lemma")
    st.assume(cmp('ne', b[0], 0, 8))
    ex.oblige(st, b_and(*[b_imp(cmp('ugt', ln, k, 64), cmp('ne', b[k], 0, 8)) for k in range(1, 4)]),
              "a step never consumes the terminating NUL", "lemma")


LEM_RT = [Lemma("encoding then decoding one code is the identity", lem_roundtrip),
          Lemma("decoding then encoding one valid character is the identity; everything else is replaced", lem_reencode),
          Lemma("decoding makes progress within the text", lem_progress)]
