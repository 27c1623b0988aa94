"""The orders of kanji and of kanji counts: lexicographic on tuples of keys.  A kanji is an object whose virtual functions return
arbitrary values (tu/order.h: every overrider the program has is a constant function of its object)."""
from contract import *
import stl
import utf8
import strings

K = "kanji_tools::"
SRC = ["tu/order.cpp", "libs/kanji/src/Kanji.cpp", "libs/kanji/src/KanjiData.cpp", "libs/kanji/src/Radical.cpp", "libs/kanji/src/Strokes.cpp",
       "libs/stats/src/Stats.cpp", "libs/utils/src/String.cpp"]
JOUYOU, JINMEI, LJINMEI, LOLD, FREQ, EXTRA, KENTEI, UCD, TNONE = range(9)
K1, KNONE, LNONE, GNONE = 11, 12, 5, 7
MAXFREQ = "_ZN11kanji_tools9KanjiData13_maxFrequencyE"


def layout(ex, name):
    """sizes and member offsets, as the compiler lays the classes out"""
    if not hasattr(ex, 'offsets'):
        ex.offsets = {}
    if name not in ex.offsets:
        f = find_fn(ex.modules, K + ("vc" if name.startswith("Size") else "vcOff") + name, [])
        if f is None:
            raise Unsupported("layout of " + name)
        w = ex.where
        ex.offsets[name] = ex.call_fn(new_state(), f, [])[0][1].v
        ex.where = w
    return ex.offsets[name]


def rank(ex, r):
    """the place of a text in the order of texts (an unknown total order: only the keys' places are compared)"""
    if not hasattr(ex, 'ranks'):
        ex.ranks = {}
    k = repr_key(r)
    if k not in ex.ranks:
        ex.ranks[k] = ex.fresh("rank", 64)
    return ex.ranks[k]


def by_rank(ex, st, x, y):
    a, b = rank(ex, x), rank(ex, y)
    return b_ite(cmp('ult', a, b, 64), mask(32), b_ite(cmp('eq', a, b, 64), 0, 1, 32), 32)


def same_rank(ex, st, x, y):
    return cmp('eq', rank(ex, x), rank(ex, y), 64)


def texts_ordered(ex):
    ex.str_cmp, ex.str_eq = by_rank, same_rank


def a_kanji(ex, st, n, text=True):
    """any kanji object"""
    texts_ordered(ex)
    off = lambda x: layout(ex, x)
    p = ex.new_obj(st, 'cells', off("SizeKanji"), n)
    vt = [g for m in ex.modules for g in m.globals if g == "_ZTVN11kanji_tools7VcKanjiE"]
    m = next(m for m in ex.modules if vt and vt[0] in m.globals)
    v = ex.global_ptr(st, vt[0], m)
    ex.store_raw(st, p, 8, v + 16)

    def text(at, nm):
        arr = ex.fresh_arr(n + nm, 1)
        ln = ex.fresh(n + nm + ".len", 64)
        st.assume(z3.ULT(ln, MAXLEN))
        st.assume(z3.Select(arr, ln) == 0)
        ex.set_rope(st, p + at, Rope(1, (Sl(arr_src(arr, ln), 0, ln),)))
        inp(ex).append((n + nm, 'str', arr, ln, 1))
    text(off("Name"), ".name")
    text(off("Compat"), ".compat")
    ex.store_raw(st, p + off("Compat") + 32, 1, zext(sym_int(ex, st, n + ".hasCompat", 1), 1, 8))
    s = p + off("Strokes")
    sv, sx = sym_int(ex, st, n + ".strokes", 8), sym_int(ex, st, n + ".variant", 8)
    ex.store_raw(st, s + off("StrokesValue"), 1, sv)
    ex.store_raw(st, s + off("StrokesVariant"), 1, sx)
    for nm, w, hi in (("Type", 8, TNONE), ("Frequency", 16, None), ("Grade", 8, GNONE), ("Kyu", 8, KNONE), ("Level", 8, LNONE)):
        x = sym_int(ex, st, n + "." + nm, w)
        if hi is not None:
            st.assume(cmp('ule', x, hi, w))
        ex.store_raw(st, p + off(nm), w // 8, x)
    if text:
        text(off("Meaning"), ".meaning")
        text(off("Reading"), ".reading")
    st.mem[p.obj].size = off("SizeKanji")
    return p


def get(ex, st, p, nm, w):
    return cell_value(ex, st, p + layout(ex, nm), w // 8)


def less(keys):
    """lexicographic: [(a, b, width)]"""
    r = 0
    for a, b, w in reversed(keys):
        r = b_or(cmp('ult', a, b, w), b_and(cmp('eq', a, b, w), r))
    return r


def compat(ex, st, p):
    """[(guard, rope)] of the compatibility name"""
    h = cmp('ne', cell_value(ex, st, p + layout(ex, "Compat") + 32, 1), 0, 8)
    return [(h, ex.rope(st, p + layout(ex, "Compat"))), (b_not(h), ex.rope(st, p + layout(ex, "Name")))]


def unicode_rank(ex, st, r):
    f = next(f for f in strings.FMT if f.title == "toUnicode(String)")
    p = ex.new_obj(st, 'cells', 32, "text")
    ex.set_rope(st, p, r)
    v, ex.ver = ex.ver, False
    cs = f.cases(ex, st, [p, 3])
    ex.ver = v
    rs = []
    for c in cs:
        rs += [(b_and(c.guard, g), x) for g, x in c.ret] if isinstance(c.ret, list) else [(c.guard, c.ret)]
    rs = [(g, x) for g, x in rs if not (is_c(g) and not g)]
    out = rank(ex, rs[-1][1])
    for g, x in reversed(rs[:-1]):
        out = b_ite(g, rank(ex, x), out, 64)
    return out


def code(ex, st, p):
    (g, a), (_, b) = compat(ex, st, p)
    return b_ite(g, unicode_rank(ex, st, a), unicode_rank(ex, st, b), 64)


def freq(ex, st, p, default):
    f = get(ex, st, p, "Frequency", 16)
    return b_ite(cmp('eq', f, 0, 16), default, f, 16)


def stroke_keys(ex, st, p):
    s = p + layout(ex, "Strokes")
    return [(cell_value(ex, st, s + layout(ex, "StrokesValue"), 1), 8), (cell_value(ex, st, s + layout(ex, "StrokesVariant"), 1), 8),
            (freq(ex, st, p, 65535), 16), (code(ex, st, p), 64)]


def rank_of(ex, st, p):
    """place in the legend: Jouyou, JLPT, top frequency, Jinmei, linked Jinmei, linked old, extra, other Kentei, Kentei K1, rest of UCD"""
    t, lv, f, k = (get(ex, st, p, n, w) for n, w in (("Type", 8), ("Level", 8), ("Frequency", 16), ("Kyu", 8)))
    r = b_ite(cmp('eq', k, K1, 8), 8, 7, 16)
    for ty, v in ((UCD, 9), (EXTRA, 6), (LOLD, 5), (LJINMEI, 4), (JINMEI, 3)):
        r = b_ite(cmp('eq', t, ty, 8), v, r, 16)
    r = b_ite(cmp('ne', f, 0, 16), 2, r, 16)
    r = b_ite(cmp('ne', lv, LNONE, 8), 1, r, 16)
    return b_ite(cmp('eq', t, JOUYOU, 8), 0, r, 16)


def pairs(ks, js):
    return [(a, b, w) for (a, w), (b, _) in zip(ks, js)]


def two(ex, st):
    return [a_kanji(ex, st, "a"), a_kanji(ex, st, "b")]


def mk_order(name, keys, title):
    return Fn(K + "Kanji::" + name, None, 'bool', two, lambda ex, st, a, b: [Case("ordered", 1, ret=less(pairs(keys(ex, st, a), keys(ex, st, b))))],
              srcs=SRC, nocall=True, title=title, cmd="kanji order", cost=3)


def by_name(ex, st, p):
    return [(rank_of(ex, st, p), 16)] + stroke_keys(ex, st, p)


def shared(ex, st, p, n):
    c = ex.new_obj(st, 'cells', 16, n)
    ex.store_raw(st, c, 8, p)
    ex.store_raw(st, c + 8, 8, NULL)
    return c


def mk_lambda(fn, keys, title):
    def setup(ex, st):
        a, b = two(ex, st)
        return [shared(ex, st, a, "pa"), shared(ex, st, b, "pb")]

    def cases(ex, st, x, y):
        a, b = ex.load_raw(st, x, 8), ex.load_raw(st, y, 8)
        return [Case("ordered", 1, ret=less(pairs(keys(ex, st, a), keys(ex, st, b))))]
    return Fn(K + fn, None, 'bool', setup, cases, srcs=SRC, nocall=True, title=title, cmd="kanji order", cost=3)


def mk_get(fn, kind, f, title, args=()):
    return Fn(K + "Kanji::" + fn, None, kind, lambda ex, st: [a_kanji(ex, st, "a")] + [sym_int(ex, st, n, w) for n, w in args],
              lambda ex, st, p, *x: [Case("value", 1, ret=f(ex, st, p, *x))], srcs=SRC, nocall=True, title=title, cmd="kanji order")


def mk_text(fn, cases, title):
    return Fn(K + "Kanji::" + fn, None, 'str', lambda ex, st: [a_kanji(ex, st, "a")], cases, srcs=SRC, nocall=True, title=title, cmd="kanji order")


def qualified(ex, st, p):
    r, n = rank_of(ex, st, p), ex.rope(st, p + layout(ex, "Name"))
    return [Case(f"suffix {ch}", cmp('eq', r, i, 16), ret=n + lit(ch)) for i, ch in enumerate(".'\"^~%+@#*")]


def empty_at(ex, st, p, nm):
    return cmp('eq', ex.rope(st, p + layout(ex, nm)).length(), 0, 64)


KANJI = [mk_order("orderByStrokes", stroke_keys, "kanji order by strokes"), mk_order("orderByQualifiedName", by_name, "kanji order by qualified name"),
         mk_lambda("vcByStrokes", stroke_keys, "pointer order by strokes"), mk_lambda("vcByQualifiedName", by_name, "pointer order by qualified name"),
         mk_text("qualifiedName", qualified, "qualified name"),
         mk_text("compatibilityName", lambda ex, st, p: [Case("defined" if i == 0 else "same as the name", g, ret=r) for i, (g, r) in enumerate(compat(ex, st, p))],
                 "compatibility name"),
         mk_get("frequencyOrDefault", 16, lambda ex, st, p, x: freq(ex, st, p, x), "frequency or default", [("default", 16)]),
         mk_get("frequencyOrMax", 16, lambda ex, st, p: freq(ex, st, p, 65535), "frequency or maximum"),
         mk_get("is", 'bool', lambda ex, st, p, t: cmp('eq', get(ex, st, p, "Type", 8), t, 8), "is of a type", [("type", 8)]),
         mk_get("hasLevel", 'bool', lambda ex, st, p: cmp('ne', get(ex, st, p, "Level", 8), LNONE, 8), "has a level"),
         mk_get("hasKyu", 'bool', lambda ex, st, p: cmp('ne', get(ex, st, p, "Kyu", 8), KNONE, 8), "has a kyu"),
         mk_get("hasGrade", 'bool', lambda ex, st, p: cmp('ne', get(ex, st, p, "Grade", 8), GNONE, 8), "has a grade"),
         mk_get("hasMeaning", 'bool', lambda ex, st, p: b_not(empty_at(ex, st, p, "Meaning")), "has a meaning"),
         mk_get("hasReading", 'bool', lambda ex, st, p: b_not(empty_at(ex, st, p, "Reading")), "has a reading"),
         Fn(K + "Kanji::operator==", None, 'bool', two, lambda ex, st, a, b: [Case("same name", 1, ret=cmp(
             'eq', rank(ex, ex.rope(st, a + layout(ex, "Name"))), rank(ex, ex.rope(st, b + layout(ex, "Name"))), 64))],
            srcs=SRC, nocall=True, title="equal kanji", cmd="kanji order")]


# ------------------------------------------------------------------ counts
def max_frequency(ex, st):
    m = next(m for m in ex.modules if MAXFREQ in m.globals and not m.globals[MAXFREQ].decl)
    key = ('g', '', MAXFREQ)
    o = Obj('cells', 2, MAXFREQ)
    st.mem[key] = o
    st.owned.add(key)
    v = sym_int(ex, st, "maxFrequency", 16)
    ex.store_raw(st, Ptr(key), 2, v)
    return v


def a_count(ex, st, n, kanji):
    off = lambda x: layout(ex, x)
    p = ex.new_obj(st, 'cells', off("SizeCount"), n)
    ex.store_raw(st, p + off("Count"), 8, sym_int(ex, st, n + ".count", 64))
    arr = ex.fresh_arr(n + ".text", 1)
    ln = ex.fresh(n + ".text.len", 64)
    st.assume(z3.ULT(ln, MAXLEN))
    st.assume(z3.Select(arr, ln) == 0)
    ex.set_rope(st, p + off("CountName"), Rope(1, (Sl(arr_src(arr, ln), 0, ln),)))
    inp(ex).append((n + ".text", 'str', arr, ln, 1))
    inp(ex).append((n + ".known", 'int', int(kanji), 1))
    q = a_kanji(ex, st, n, text=False) if kanji else NULL
    ex.store_raw(st, p + off("CountEntry"), 8, q)
    ex.store_raw(st, p + off("CountEntry") + 8, 8, NULL)
    return p


def count_keys(ex, st, p):
    off = lambda x: layout(ex, x)
    mx = cell_value(ex, st, Ptr(('g', '', MAXFREQ)), 2)
    e = ex.load_raw(st, p + off("CountEntry"), 8)
    c = ex.load_raw(st, p + off("Count"), 8)
    known = isinstance(e, Ptr) and e.obj != 0
    f = freq(ex, st, e, mx) if known else binop('add', mx, 1, 16)
    t = get(ex, st, e, "Type", 8) if known else TNONE
    return [(binop('xor', c, mask(64), 64), 64), (f, 16), (t, 8), (rank(ex, ex.rope(st, p + off("CountName"))), 64)]


KINDS = [(x, y) for x in (1, 0) for y in (1, 0)]


def count_setup(n):
    def setup(ex, st):
        texts_ordered(ex)
        max_frequency(ex, st)
        return []

    def each(ex, st):
        out = []
        for ks in (KINDS if n == 2 else [(1,), (0,)]):
            names = ["a", "b"][:n]
            ex.inputs[:] = ex.inputs[:1]
            out.append((" and ".join("known" if k else "unknown" for k in ks), [a_count(ex, st, m, k) for m, k in zip(names, ks)]))
        return out
    return setup, each


def mk_count(q, kind, n, ret, title):
    setup, each = count_setup(n)
    return Fn(K + q, None, kind, setup, lambda ex, st, *a: [Case("value", 1, ret=ret(ex, st, *a))], each=each, srcs=SRC, nocall=True,
              title=title, cmd="count order")


COUNT = [mk_count("Stats::Count::operator<", 'bool', 2, lambda ex, st, a, b: less(pairs(count_keys(ex, st, a), count_keys(ex, st, b))),
                  "order of kanji counts"),
         mk_count("Stats::Count::frequency", 16, 1, lambda ex, st, a: count_keys(ex, st, a)[1][0], "frequency of a count"),
         mk_count("Stats::Count::type", 8, 1, lambda ex, st, a: count_keys(ex, st, a)[2][0], "type of a count")]


# ------------------------------------------------------------------ radicals
def a_radical(ex, st, n):
    p = ex.new_obj(st, 'cells', layout(ex, "SizeRadical"), n)
    ex.store_raw(st, p + layout(ex, "RadicalNumber"), 2, sym_int(ex, st, n + ".number", 16))
    return p


def mk_radical(op, c):
    def cases(ex, st, a, b):
        return [Case("by number", 1, ret=cmp(c, get(ex, st, a, "RadicalNumber", 16), get(ex, st, b, "RadicalNumber", 16), 16))]
    return Fn(K + "Radical::operator" + op, None, 'bool', lambda ex, st: [a_radical(ex, st, "a"), a_radical(ex, st, "b")], cases, srcs=SRC,
              nocall=True, title="radical " + op, cmd="radical order")


RADICAL = [mk_radical("==", 'eq'), mk_radical("<", 'ult')]


def lem_weak(name, widths):
    """the lexicographic comparison of the specification is a strict weak order; total when the keys decide"""
    def build(ex, st):
        mk = lambda n: [(ex.fresh(n, w), w) for w in widths]
        a, b, c = mk("a"), mk("b"), mk("c")
        L = lambda x, y: less(pairs(x, y))
        ex.oblige(st.fork(), b_not(L(a, a)), "nothing comes before itself", "lemma")
        ex.oblige(st.fork(), b_imp(L(a, b), b_not(L(b, a))), "never both before and after", "lemma")
        ex.oblige(st.fork(), b_imp(b_and(L(a, b), L(b, c)), L(a, c)), "transitive", "lemma")
        inc = lambda x, y: b_and(b_not(L(x, y)), b_not(L(y, x)))
        ex.oblige(st.fork(), b_imp(b_and(inc(a, b), inc(b, c)), inc(a, c)), "incomparability is transitive", "lemma")
        ex.oblige(st.fork(), b_imp(inc(a, b), b_and(*[cmp('eq', x, y, w) for (x, w), (y, _) in zip(a, b)])),
                  "only equal keys are incomparable", "lemma")
    return Lemma(name, build)


LEM = [lem_weak("the order of kanji is a strict weak order", [16, 8, 8, 16, 64]), lem_weak("the order of counts is a strict weak order", [64, 16, 8, 64])]
