"""Looking up kanji, radicals and Unicode data: by name (also of a variation), Morohashi ID, Nelson ID and frequency; adding kanji.
Maps and lists have arbitrary contents (maps.Base, lists of unknown pointers); reference counts are not looked at."""
from contract import *
import maps
import stl
import utf8
import kana
import order
import ucd
from order import layout

K = "kanji_tools::"
SRC = ["tu/lookup.cpp", "tu/order.cpp", "tu/ucd.cpp", "libs/kanji/src/KanjiData.cpp", "libs/kanji/src/UcdData.cpp", "libs/kanji/src/RadicalData.cpp",
       "libs/kanji/src/Kanji.cpp", "libs/kanji/src/Strokes.cpp", "libs/kanji/src/Ucd.cpp", "libs/utils/src/String.cpp"]
KP = "std::shared_ptr<kanji_tools::Kanji>"
LIST = "std::vector<" + KP + ">"
BUCKETS, ENTRIES = 10, 250
DEPS = kana.SEL + [ucd.CALLS[1]] + [Fn(K + q, None, 'void', None, lambda ex, st, *a: [Case("prints", 1)])
                                    for q in ("KanjiData::insertSanityChecks", "KanjiData::printError")]


def names(ex, what="kanjis"):
    """an object standing for all of memory: unknown kanji are addresses in it"""
    return what


def some_address(ex, st, what):
    if not hasattr(ex, 'places'):
        ex.places = {}
    if what not in ex.places:
        ex.places[what] = ex.new_obj(st, 'cells', None, what)
    p = ex.places[what]
    if p.obj not in st.mem:
        st.mem[p.obj] = Obj('cells', None, what)
    return Ptr(p.obj, Lin.of(ex.fresh(what, 64)))


def a_list(ex, st, at, name, n=None):
    """a list of kanji with unknown contents at `at`"""
    if n is None:
        n = ex.fresh(name + ".size", 64)
        st.assume(cmp('ult', n, 1 << 30, 64))
    a = ex.new_obj(st, 'src', None, name)
    o = st.mem[a.obj]
    o.src, o.ew, o.n, o.const = arr_src(ex.fresh_arr(name, 8), n), 16, n, True
    o.ptrs = some_address(ex, st, "kanji").obj
    end = Ptr(a.obj, Lin.of(n, 16))
    for k, v in enumerate((a, end, end)):
        ex.store_raw(st, at + 8 * k, 8, v)
    return a, n


def list_value(ex, st, name):
    """cells of a list as a mapped value"""
    t = ex.new_obj(st, 'cells', 24, "list")
    a_list(ex, st, t, name)
    return {8 * k: (8, ex.load_raw(st, t + 8 * k, 8)) for k in range(3)}


def kanji_value(ex, st, key):
    return {0: (8, order.a_kanji(ex, st, "kanji") if getattr(ex, 'real', False) else some_address(ex, st, "kanji")), 8: (8, NULL)}


def text_value(ex, st, key):
    arr, n = ex.fresh_arr("value", 1), ex.fresh("value.len", 64)
    st.assume(cmp('ult', n, MAXLEN, 64))
    st.assume(z3.Select(arr, n) == 0)
    return {0: (32, Rope(1, (Sl(arr_src(arr, n), 0, n),)))}


def ucd_value(ex, st, key):
    return {layout(ex, "Entry") + layout(ex, "EntryName"): text_value(ex, st, key)[0]}


TYPES = {"Compat": ('std::string', 'std::string', text_value), "Names": ('std::string', KP, kanji_value),
         "Morohashi": ('kanji_tools::MorohashiId', LIST, lambda ex, st, key: list_value(ex, st, "byMorohashi")),
         "Nelson": ('unsigned short', LIST, lambda ex, st, key: list_value(ex, st, "byNelson"))}
UTYPES = {"UcdMap": ('std::string', 'kanji_tools::Ucd', ucd_value), "UcdLinkedJinmei": ('std::string', 'std::string', text_value),
          "Radical": ('std::string', 'unsigned short', lambda ex, st, key: {0: (2, ex.fresh("place", 16))})}
BASES = {n: maps.Base(n, gen=g) for n, (k, v, g) in list(TYPES.items()) + list(UTYPES.items())}


def entry(ex, st, n, key):
    k, v, g = (TYPES | UTYPES)[n]
    has, node = maps.basenode(ex, st, BASES[n], key, k, v)
    return has, node + maps.voff(ex, k, v)


def ucd_data(ex, st, p):
    for n in ("UcdMap", "UcdLinkedJinmei"):
        k, v, g = UTYPES[n]
        ex.store_raw(st, p + layout(ex, n), 48, maps.MapV(BASES[n], (), k, v))


def database(ex, st, real=False):
    """any database"""
    ex.real = real
    p = ex.new_obj(st, 'cells', layout(ex, "SizeKanjiData"), "data")
    for n, (k, v, g) in TYPES.items():
        ex.store_raw(st, p + layout(ex, "Data" + n), 48, maps.MapV(BASES[n], (), k, v))
    ucd_data(ex, st, p + layout(ex, "DataUcd"))
    return p


def variation(ex, st, s):
    """(is a variation of a character, the character without its selector)"""
    r = ex.rope(st, s)
    return kana.with_selector(r), r


def find_cases(ex, st, p, s):
    """Unicode data of a name: its own entry, or for a variation the entry of the linked Jinmei character"""
    r = ex.rope(st, s)
    g = kana.with_selector(r)
    out = []
    if ex.feasible(st, b_not(g)):
        has, v = entry(ex, st, "UcdMap", r)
        out += [Case("known", b_and(b_not(g), has), ret=v), Case("unknown", b_and(b_not(g), b_not(has)), ret=NULL)]
    if ex.feasible(st, g):
        base = stl.substr(ex, st, r, 0, sub64(r.length(), 3))
        l, lv = entry(ex, st, "UcdLinkedJinmei", base)
        has, v = entry(ex, st, "UcdMap", ex.rope(st, lv))
        out += [Case("variation without a link", b_and(g, b_not(l)), ret=NULL), Case("linked character", b_and(g, l, has), ret=v),
                Case("unknown link", b_and(g, l, b_not(has)), ret=NULL)]
    return out


def mk_ucd_find():
    def setup(ex, st):
        p = ex.new_obj(st, 'cells', layout(ex, "SizeUcdData"), "ucd")
        ucd_data(ex, st, p)
        return [p, sym_str(ex, st, "name")]
    return Fn(K + "UcdData::find", ["std::string const&"], 'ptr', setup, find_cases, pre=lambda ex, st, p, s: kana.no_nul(ex, st, s), srcs=SRC,
              title="Unicode data of a name", cmd="lookup ucd")


def mk_findname():
    def cases(ex, st, p, s):
        r = ex.rope(st, s)
        c, cv = entry(ex, st, "Compat", r)
        h1, v1 = entry(ex, st, "Names", ex.rope(st, cv))
        h2, v2 = entry(ex, st, "Names", r)
        val = lambda v: lambda ex, s: [(0, 8, ex.load_raw(s, v, 8))]
        none = [(0, 8, NULL)]
        return [Case("variation", b_and(c, h1), ret=val(v1)), Case("variation of nothing", b_and(c, b_not(h1)), ret=none),
                Case("name", b_and(b_not(c), h2), ret=val(v2)), Case("unknown", b_and(b_not(c), b_not(h2)), ret=none)]
    return Fn(K + "KanjiData::findByName", ["std::string const&"], 'sret', lambda ex, st: [database(ex, st), sym_str(ex, st, "name")], cases, srcs=SRC,
              title="kanji of a name", nocall=True, cmd="lookup name")


def mk_type():
    def cases(ex, st, p, s):
        r = ex.rope(st, s)
        c, cv = entry(ex, st, "Compat", r)
        h1, v1 = entry(ex, st, "Names", ex.rope(st, cv))
        h2, v2 = entry(ex, st, "Names", r)
        t = lambda v: cell_value(ex, st, ex.load_raw(st, v, 8) + layout(ex, "Type"), 1)
        return [Case("type of the kanji", 1, ret=b_ite(c, b_ite(h1, t(v1), order.TNONE, 8), b_ite(h2, t(v2), order.TNONE, 8), 8))]
    return Fn(K + "KanjiData::getType", ["std::string const&"], 8, lambda ex, st: [database(ex, st, True), sym_str(ex, st, "name")], cases, srcs=SRC,
              title="type of a name", nocall=True, cmd="lookup name")


def empty_list(ex, st):
    for m in ex.modules:
        for n in m.globals:
            if n.startswith('_ZN11kanji_tools11BaseEnumMapISt6vector') and canon(n)[0].endswith("::Empty"):
                return ex.global_ptr(st, n, m)
    raise Unsupported("empty list")


def a_morohashi(ex, st, n="id"):
    p = ex.new_obj(st, 'cells', 4, n)
    ex.store_raw(st, p, 2, sym_int(ex, st, n, 16))
    t = sym_int(ex, st, n + ".type", 8)
    st.assume(cmp('ule', t, 3, 8))
    ex.store_raw(st, p + 2, 1, t)
    return p


def id_key(ex, st, p):
    return maps.load_key(ex, st, p, 'kanji_tools::MorohashiId')


def mk_morohashi():
    def cases(ex, st, p, q):
        has, v = entry(ex, st, "Morohashi", id_key(ex, st, q))
        h = b_and(has, cmp('ne', cell_value(ex, st, q, 2), 0, 16))
        return [Case("known", h, ret=v), Case("none", b_not(h), ret=lambda ex, s: empty_list(ex, s))]
    return Fn(K + "KanjiData::findByMorohashiId", ["kanji_tools::MorohashiId const&"], 'ptr', lambda ex, st: [database(ex, st), a_morohashi(ex, st)],
              cases, srcs=SRC, title="kanji of a Morohashi ID", nocall=True, cmd="lookup morohashi")


def mk_nelson():
    def cases(ex, st, p, i):
        has, v = entry(ex, st, "Nelson", i)
        return [Case("known", has, ret=v), Case("none", b_not(has), ret=lambda ex, s: empty_list(ex, s))]
    return Fn(K + "KanjiData::findByNelsonId", None, 'ptr', lambda ex, st: [database(ex, st), sym_int(ex, st, "id", 16)],
              cases, srcs=SRC, title="kanji of a Nelson ID", nocall=True, cmd="lookup nelson")


def max_frequency(ex, st):
    key = ('g', '', order.MAXFREQ)
    st.mem[key] = Obj('cells', 2, "maximum frequency")
    st.owned.add(key)
    return Ptr(key)


def bucket_of(f):
    """bucket of a frequency > 0"""
    b = binop('udiv', sub32(f, 1), ENTRIES, 32)
    return b_ite(cmp('ult', b, BUCKETS, 32), b, BUCKETS - 1, 32)


def sub32(a, b):
    return binop('sub', a, b, 32)


def size_of(b, n):
    """entries of bucket b once the kanji of frequencies 1 .. n are there"""
    n = zext(n, 16, 64)
    start = b * ENTRIES
    rest = b_ite(cmp('ult', n, start, 64), 0, sub64(n, start), 64)
    return rest if b == BUCKETS - 1 else b_ite(cmp('ult', rest, ENTRIES, 64), rest, ENTRIES, 64)


def frequencies(ex, st, p, n):
    """the buckets hold the kanji of frequencies 1 .. n in order"""
    out = []
    for b in range(BUCKETS):
        out.append(a_list(ex, st, p + layout(ex, "DataFrequencies") + 24 * b, f"bucket{b}", simp_(size_of(b, n))))
    st.ghost['buckets'] = out
    m = max_frequency(ex, st)
    ex.store_raw(st, m, 2, b_ite(cmp('eq', n, 0, 16), 0, binop('add', n, 1, 16), 16))
    return out


def simp_(v):
    return v if is_c(v) else simp(v)


def loaded(ex, st):
    """how many kanji with a frequency there are (their numbers come from a list of at most 65534 kanji)"""
    n = sym_int(ex, st, "loaded", 16)
    st.assume(cmp('ule', n, 65534, 16))
    return n


def mk_findfreq(b):
    """the kanji of a frequency that belongs into bucket b (b = BUCKETS: the numbers no kanji has)"""
    none = b == BUCKETS

    def setup(ex, st):
        p = database(ex, st)
        n = loaded(ex, st)
        f = sym_int(ex, st, "frequency", 16)
        frequencies(ex, st, p, n)
        out = b_or(cmp('eq', f, 0, 16), cmp('ugt', f, n, 16))
        st.assume(out if none else b_and(b_not(out), cmp('eq', bucket_of(zext(f, 16, 32)), b, 32)))
        st.ghost['freqs'] = (n, f)
        return [p, f]

    def cases(ex, st, p, f):
        if none:
            return [Case("no such kanji", 1, ret=[(0, 8, NULL)])]
        a, size = st.ghost['buckets'][b]
        o = st.mem[a.obj]
        i = sub64(zext(f, 16, 64), 1 + b * ENTRIES)
        return [Case("the kanji", 1, ret=lambda ex, s: [(0, 8, Ptr(o.ptrs, Lin.of(o.src.at(i))))])]
    return Fn(K + "KanjiData::findByFrequency", None, 'sret', setup, cases, srcs=SRC, nocall=True,
              title="kanji of a frequency" + (" nobody has" if none else f" in bucket {b}"), cmd="lookup frequency")


def mk_freqlist():
    def cases(ex, st, p, b):
        i = cmp('ult', b, BUCKETS, 64)
        return [Case("bucket", i, ret=lambda ex, s: Ptr(p.obj, Lin.of(b, 24) + layout(ex, "DataFrequencies"))),
                Case("no bucket", b_not(i), ret=lambda ex, s: empty_list(ex, s))]
    return Fn(K + "KanjiData::frequencyList", None, 'ptr', lambda ex, st: [database(ex, st), sym_int(ex, st, "bucket", 64)], cases, srcs=SRC, nocall=True,
              title="kanji of a bucket", cmd="lookup frequency")


def a_kanjiptr(ex, st):
    k = order.a_kanji(ex, st, "kanji")
    p = ex.new_obj(st, 'cells', 16, "pointer")
    ex.store_raw(st, p, 8, k)
    ex.store_raw(st, p + 8, 8, NULL)
    return p, k


def appended(ex, st, at, a, n, k, what):
    b, e = ex.load_raw(st, at, 8), ex.load_raw(st, at + 8, 8)
    o = st.mem.get(b.obj) if isinstance(b, Ptr) else None
    tail = getattr(o, 'tail', None) if o is not None else None
    ok = tail is not None and tail[0] == a.obj and len(tail[1]) == 1
    ex.oblige(st.fork(), int(ok), what + ": one kanji is added at the end", "postcondition")
    if ok:
        ex.oblige(st.fork(), veq(ex, st, tail[1][0], k, 64), what + ": it is the given one", "postcondition")
        ex.oblige(st.fork(), cmp('eq', (e.off - b.off).val(), binop('mul', add64(n, 1), 16, 64), 64), what + ": the list is one longer", "postcondition")


def vec_cells(at):
    return [(at + 8 * k, 8) for k in range(3)]


def mk_addfreq(b):
    def setup(ex, st):
        p = database(ex, st)
        q, k = a_kanjiptr(ex, st)
        f = cell_value(ex, st, k + layout(ex, "Frequency"), 2)
        st.assume(b_and(cmp('ne', f, 0, 16), cmp('ule', f, 65534, 16)))
        lists = []
        for i in range(BUCKETS):
            lists.append(a_list(ex, st, p + layout(ex, "DataFrequencies") + 24 * i, f"bucket{i}"))
        st.assume(cmp('eq', bucket_of(zext(f, 16, 32)), b, 32))
        m = max_frequency(ex, st)
        v = sym_int(ex, st, "maximum", 16)
        ex.store_raw(st, m, 2, v)
        st.ghost['add'] = (lists, k, f, m, v)
        return [p, q]

    def cases(ex, st, p, q):
        lists, k, f, m, v = st.ghost['add']
        at = p + layout(ex, "DataFrequencies") + 24 * b
        f1 = binop('add', f, 1, 16)

        def ret(ex, s, oc):
            appended(ex, s, at, *lists[b], k, "kanji with a frequency")
        return [Case("added", 1, ret=ret, owns=vec_cells(at), writes=[(m, 2, b_ite(cmp('ult', v, f1, 16), f1, v, 16))])]
    return Fn(K + "KanjiData::addToFrequencies", None, 'any', setup, cases, srcs=SRC, nocall=True, title=f"adding a frequency of bucket {b}",
              cmd="lookup frequency")


def mk_addto(q, member, values, field, none):
    def setup(ex, st):
        p = database(ex, st)
        qp, k = a_kanjiptr(ex, st)
        v = cell_value(ex, st, k + layout(ex, field), 1)
        st.assume(cmp('ult', v, none, 8))
        lists = [a_list(ex, st, p + layout(ex, "Data" + member) + layout(ex, values) + 24 * i, f"list{i}") for i in range(none)]
        st.ghost['add'] = (lists, k, v)
        return [p, qp]

    def cases(ex, st, p, qp):
        lists, k, v = st.ghost['add']
        out = []
        for i in range(none):
            at = p + layout(ex, "Data" + member) + layout(ex, values) + 24 * i

            def ret(ex, s, oc, at=at, i=i):
                appended(ex, s, at, *lists[i], k, f"list {i}")
            out.append(Case(f"list {i}", cmp('eq', v, i, 8), ret=ret, owns=vec_cells(at)))
        return out
    return Fn(K + "KanjiData::" + q, None, 'any', setup, cases, srcs=SRC, nocall=True, title=q, cmd="lookup lists")


def radicals(ex, st, p=None):
    """loaded radicals: a list of n of them and the place in it of every name"""
    if p is None:
        p = ex.new_obj(st, 'cells', layout(ex, "SizeRadicalData"), "radicals")
    n = sym_int(ex, st, "radicals", 64)
    st.assume(cmp('ule', n, 65535, 64))
    a = ex.new_obj(st, 'src', None, "radicals")
    o = st.mem[a.obj]
    w = layout(ex, "SizeRadical")
    o.src, o.ew, o.n, o.const = arr_src(ex.fresh_arr("radicals", 8), n), w, n, True
    end = Ptr(a.obj, Lin.of(n, w))
    for k, v in enumerate((a, end, end)):
        ex.store_raw(st, p + layout(ex, "RadicalList") + 8 * k, 8, v)
    ex.store_raw(st, p + layout(ex, "RadicalMap"), 48, maps.MapV(BASES["Radical"], (), 'std::string', 'unsigned short'))
    st.ghost['radicals'] = (a, n, w)
    return p


def mk_radical(by_name):
    def cases(ex, st, p, x):
        a, n, w = st.ghost['radicals']
        none = cmp('eq', n, 0, 64)
        if by_name:
            has, v = entry(ex, st, "Radical", ex.rope(st, x))
            i = zext(cell_value(ex, st, v, 2), 16, 64)
            ok = b_and(has, cmp('ult', i, n, 64))
            return [Case("not loaded", none, throws="DomainError"), Case("unknown name", b_and(b_not(none), b_not(has)), throws="DomainError"),
                    Case("radical", b_and(b_not(none), ok), ret=Ptr(a.obj, Lin.of(i, w))),
                    Case("place outside the list", b_and(b_not(none), has, b_not(ok)), throws="out_of_range")]
        x = zext(x, 16, 64)
        ok = b_and(cmp('ne', x, 0, 64), cmp('ule', x, n, 64))
        return [Case("not loaded", none, throws="DomainError"), Case("no such number", b_and(b_not(none), b_not(ok)), throws="DomainError"),
                Case("radical", b_and(b_not(none), ok), ret=Ptr(a.obj, Lin.of(sub64(x, 1), w)))]
    return Fn(K + "RadicalData::find", ["std::string const&"] if by_name else ["unsigned short"], 'ptr',
              lambda ex, st: [radicals(ex, st), sym_str(ex, st, "name") if by_name else sym_int(ex, st, "number", 16)], cases, srcs=SRC, nocall=True,
              title="radical of a " + ("name" if by_name else "number"), cmd="lookup radical")


def a_ucd(ex, st):
    p = ex.new_obj(st, 'cells', layout(ex, "SizeUcd"), "ucd")
    for f, w in (("UcdRadical", 16), ):
        ex.store_raw(st, p + layout(ex, f), 2, sym_int(ex, st, f, w))
    s = p + layout(ex, "UcdStrokes")
    ex.store_raw(st, s, 1, sym_int(ex, st, "strokes", 8))
    ex.store_raw(st, s + 1, 1, sym_int(ex, st, "variant", 8))
    ex.set_rope(st, p + layout(ex, "UcdMeaning"), ex.rope(st, sym_str(ex, st, "meaning")))
    return p


def null_ucd(u):
    return u.obj == 0


def each_ucd(mk):
    """for an entry and for none"""
    return [mk(False), mk(True)]


def constant_of(ex, st, f, n):
    """a static constant of a function"""
    hit = [(m, g) for m in ex.modules for g in m.globals if g.endswith(n) and f in g]
    if len(hit) != 1:
        raise Unsupported("constant " + n)
    return ex.global_ptr(st, hit[0][1], hit[0][0])


def mk_part(q, of, size):
    """part of an entry, or an empty value"""
    def mk(none):
        def cases(ex, st, u):
            if not none:
                return [Case("part", 1, ret=lambda ex, st, oc: ex.oblige(st.fork(), veq(ex, st, oc.v, u + layout(ex, of), 64), "part of the entry", "postcondition"))]

            def empty(ex, st, oc):
                for k in range(size):
                    ex.oblige(st.fork(), cmp('eq', cell_value(ex, st, oc.v + k, 1), 0, 8), "an empty value", "postcondition")
            return [Case("empty", 1, ret=empty)]
        return Fn(K + "KanjiData::" + q, None, 'any', lambda ex, st: [NULL if none else a_ucd(ex, st)], cases, srcs=SRC, nocall=True,
                  title=q + (" of nothing" if none else ""), cmd="lookup parts")
    return each_ucd(mk)


def mk_meaning():
    def mk(none):
        def cases(ex, st, u):
            if none:
                return [Case("none", 1, ret=lambda ex, s, oc: ex.oblige(s.fork(), cmp('eq', ex.rope(s, oc.v).length(), 0, 64), "an empty text", "postcondition"))]
            return [Case("meaning", 1, ret=lambda ex, s, oc: ex.oblige(s.fork(), veq(ex, s, oc.v, u + layout(ex, "UcdMeaning"), 64), "the meaning", "postcondition"))]
        return Fn(K + "UcdData::getMeaning", None, 'any', lambda ex, st: [NULL if none else a_ucd(ex, st)], cases, srcs=SRC, nocall=True,
                  title="meaning of " + ("nothing" if none else "an entry"), cmd="lookup parts")
    return each_ucd(mk)


def mk_strokes():
    def mk(none):
        def cases(ex, st, p, s, u):
            if none:
                return [Case("none", 1, throws="DomainError")]
            a = u + layout(ex, "UcdStrokes")
            return [Case("strokes", 1, ret=binop('or', zext(cell_value(ex, st, a, 1), 8, 16), binop('shl', zext(cell_value(ex, st, a + 1, 1), 8, 16), 8, 16), 16))]
        return Fn(K + "KanjiData::ucdStrokes", None, 16, lambda ex, st: [database(ex, st), sym_str(ex, st, "name"), NULL if none else a_ucd(ex, st)], cases,
                  srcs=SRC, nocall=True, title="strokes of " + ("nothing" if none else "an entry"), cmd="lookup parts")
    return each_ucd(mk)


LOOKUP = [mk_ucd_find(), mk_findname(), mk_type(), mk_morohashi(), mk_nelson(), mk_freqlist()] + [mk_findfreq(b) for b in range(BUCKETS + 1)] + \
    [mk_addfreq(b) for b in range(BUCKETS)] + [mk_addto("addToKyus", "Kyus", "KyuValues", "Kyu", order.KNONE), mk_addto("addToLevels", "Levels", "LevelValues", "Level", order.LNONE)]
LOOKUP += [mk_radical(True), mk_radical(False)] + mk_part("getPinyin", "Pinyin", 2) + mk_part("getMorohashiId", "Morohashi", 2) + mk_meaning() + mk_strokes()


def mk_ucdradical():
    def mk(none):
        def setup(ex, st):
            p = database(ex, st)
            radicals(ex, st, p + layout(ex, "DataRadicals"))
            return [p, sym_str(ex, st, "name"), NULL if none else a_ucd(ex, st)]

        def cases(ex, st, p, s, u):
            if none:
                return [Case("none", 1, throws="DomainError")]
            return NUMBER.cases(ex, st, [p + layout(ex, "DataRadicals"), cell_value(ex, st, u + layout(ex, "UcdRadical"), 2)])
        return Fn(K + "KanjiData::ucdRadical", None, 'ptr', setup, cases, srcs=SRC, nocall=True, title="radical of " + ("nothing" if none else "an entry"),
                  cmd="lookup parts")
    return each_ucd(mk)


def mk_byname():
    def setup(ex, st):
        p = database(ex, st)
        radicals(ex, st, p + layout(ex, "DataRadicals"))
        return [p, sym_str(ex, st, "name")]
    return Fn(K + "KanjiData::getRadicalByName", None, 'ptr', setup, lambda ex, st, p, s: NAME.cases(ex, st, [p + layout(ex, "DataRadicals"), s]), srcs=SRC, nocall=True,
              title="radical of a name in the data", cmd="lookup radical")


def named_ucd(ex, st):
    return [database(ex, st), sym_str(ex, st, "name")]


def mk_finducd():
    return Fn(K + "KanjiData::findUcd", None, 'ptr', named_ucd, lambda ex, st, p, s: find_cases(ex, st, p + layout(ex, "DataUcd"), s),
              pre=lambda ex, st, p, s: kana.no_nul(ex, st, s), srcs=SRC, nocall=True, title="Unicode data of a name in the data", cmd="lookup ucd")


def mk_compat():
    """another name a kanji is known under"""
    def cases(ex, st, p, s):
        r = ex.rope(st, s)
        out = []
        for c in find_cases(ex, st, p + layout(ex, "DataUcd"), s):
            if c.ret.obj == 0:
                out.append(Case(c.name, c.guard, ret=[(32, 1, 0)]))
                continue
            n = ex.rope(st, c.ret + layout(ex, "Entry") + layout(ex, "EntryName"))
            same = stl.rope_cmp_eq(ex, st, n, r)
            out += [Case(c.name + ", the same name", b_and(c.guard, same), ret=[(32, 1, 0)]),
                    Case(c.name + ", another name", b_and(c.guard, b_not(same)), ret=[(0, 32, n), (32, 1, 1)])]
        return out
    return Fn(K + "KanjiData::getCompatibilityName", None, 'sret', named_ucd, cases, pre=lambda ex, st, p, s: kana.no_nul(ex, st, s), srcs=SRC, nocall=True,
              title="another name of a kanji", cmd="lookup ucd")


def mk_morohashi_text():
    def cases(ex, st, p, s):
        ok, i, t = ucd.morohashi_of(ex, st, s)
        key = binop('or', zext(i, 16, 32), binop('shl', zext(t, 8, 32), 16, 32), 32)
        has, v = entry(ex, st, "Morohashi", key)
        h = b_and(has, cmp('ne', i, 0, 16))
        return [Case("refused", b_not(ok), throws="DomainError"), Case("known", b_and(ok, h), ret=v),
                Case("none", b_and(ok, b_not(h)), ret=lambda ex, s: empty_list(ex, s))]
    return Fn(K + "KanjiData::findByMorohashiId", ["std::string const&"], 'ptr', lambda ex, st: [database(ex, st), sym_str(ex, st, "id")], cases, srcs=SRC,
              title="kanji of the text of a Morohashi ID", nocall=True, cmd="lookup morohashi")


def mk_maxfreq():
    def setup(ex, st):
        m = max_frequency(ex, st)
        ex.store_raw(st, m, 2, sym_int(ex, st, "maximum", 16))
        st.ghost['maximum'] = m
        return []
    return Fn(K + "KanjiData::maxFrequency", None, 16, setup, lambda ex, st: [Case("one more", 1, ret=cell_value(ex, st, st.ghost['maximum'], 2))], srcs=SRC,
              nocall=True, title="one more than the highest frequency", cmd="lookup frequency")


def insertable(ex, st, ids):
    """a kanji with a Morohashi ID and Classic Nelson IDs"""
    q, k = a_kanjiptr(ex, st)
    ex.store_raw(st, k + layout(ex, "KanjiMorohashi"), 2, sym_int(ex, st, "morohashi", 16))
    t = sym_int(ex, st, "morohashi.kind", 8)
    st.assume(cmp('ule', t, 3, 8))
    ex.store_raw(st, k + layout(ex, "KanjiMorohashi") + 2, 1, t)
    n = [sym_int(ex, st, f"nelson{i}", 16) for i in range(ids)]
    for a, b in zip(n, n[1:]):
        st.assume(cmp('ne', a, b, 16))
    v = ex.new_obj(st, 'cells', 2 * ids, "nelson") if ids else NULL
    for i, x in enumerate(n):
        ex.store_raw(st, v + 2 * i, 2, x)
    end = v + 2 * ids if ids else NULL
    for j, x in enumerate((v, end, end)):
        ex.store_raw(st, k + layout(ex, "Nelson") + 8 * j, 8, x)
    return q, k, n


def is_variation(r):
    return kana.with_selector(r)


def mk_insert(ids, into):
    """a kanji is added: its name, grade, other name and IDs lead to it afterwards, and nothing else changes"""
    def setup(ex, st):
        p = database(ex, st, True)
        q, k, n = insertable(ex, st, ids)
        st.assume(kana.no_nul(ex, st, k + layout(ex, "Name"))[0][1])
        grades = [a_list(ex, st, p + layout(ex, "DataGrades") + layout(ex, "GradeValues") + 24 * i, f"grade{i}") for i in range(order.GNONE)]
        st.ghost['insert'] = (k, n, grades)
        if into:
            d = ex.new_obj(st, 'cells', 24, "list")
            st.ghost['into'] = a_list(ex, st, d, "into")
            return [p, d, q]
        return [p, q, NULL]

    def cases(ex, st, args):
        p, q = args[0], args[2 if into else 1]
        k, n, grades = st.ghost['insert']
        name = ex.rope(st, k + layout(ex, "Name"))
        has, node = entry(ex, st, "Names", name)
        m = k + layout(ex, "KanjiMorohashi")
        i = cell_value(ex, st, m, 2)
        lists = [("Nelson", x, 1) for x in n] + [("Morohashi", id_key(ex, st, m), cmp('ne', i, 0, 16))]
        g = cell_value(ex, st, k + layout(ex, "Grade"), 1)
        at_grade = lambda j: p + layout(ex, "DataGrades") + layout(ex, "GradeValues") + 24 * j
        maps_ = [(p + layout(ex, "Data" + x), 48) for x in TYPES]
        before = [entry(ex, st, w, x) for w, x, _ in lists]

        def added(ex, s, oc):
            ex.oblige(s.fork(), cmp('eq', oc.v, 1, 1), "the answer is yes", "postcondition")
            holds(ex, s, p, "Names", name, lambda ex, s, v: veq(ex, s, ex.load_raw(s, v, 8), k, 64), "the name leads to the kanji")
            other(ex, s)
            for (w, x, c), (h, v) in zip(lists, before):
                if ex.feasible(s, c):
                    s2 = s.fork()
                    s2.assume(c)
                    in_list(ex, s2, p, w, x, h, v, k)
                if not (is_c(c) and c) and ex.feasible(s, b_not(c)):
                    s2 = s.fork()
                    s2.assume(b_not(c))
                    unchanged(ex, s2, p, w)
            if not n:
                unchanged(ex, s, p, "Nelson")
            for j in range(order.GNONE):
                c = cmp('eq', g, j, 8)
                if ex.feasible(s, c):
                    s2 = s.fork()
                    s2.assume(c)
                    appended(ex, s2, at_grade(j), *grades[j], k, f"grade {j}")
                if ex.feasible(s, b_not(c)):
                    s2 = s.fork()
                    s2.assume(b_not(c))
                    ex.oblige(s2, veq(ex, s2, ex.load_raw(s2, at_grade(j), 8), grades[j][0], 64), f"another grade than {j}: list unchanged", "postcondition")
            if into:
                appended(ex, s, args[1], *st.ghost['into'], k, "the list")

        def other(ex, s):
            v = is_variation(name)
            if ex.feasible(s, b_not(v)):
                s2 = s.fork()
                s2.assume(b_not(v))
                unchanged(ex, s2, p, "Compat")
            if ex.feasible(s, v):
                for c, r in order.compat(ex, s, k):
                    if not ex.feasible(s, b_and(v, c)):
                        continue
                    s2 = s.fork()
                    s2.assume(b_and(v, c))
                    h, old = entry(ex, s2, "Compat", r)
                    if ex.feasible(s2, h):
                        s3 = s2.fork()
                        s3.assume(h)
                        unchanged(ex, s3, p, "Compat")
                    if ex.feasible(s2, b_not(h)):
                        s3 = s2.fork()
                        s3.assume(b_not(h))
                        holds(ex, s3, p, "Compat", r, lambda ex, s, v: rope_eq(ex, s, ex.rope(s, v), name), "the other name leads to the name")

        def refused(ex, s, oc):
            ex.oblige(s.fork(), cmp('eq', oc.v, 0, 1), "the answer is no", "postcondition")
            for x in TYPES:
                unchanged(ex, s, p, x)
        owns = maps_ + [c for j in range(order.GNONE) for c in vec_cells(at_grade(j))] + (vec_cells(args[1]) if into else []) + \
            [c for (h, v) in before for c in vec_cells(v)]
        return [Case("added", b_not(has), ret=added, owns=owns), Case("the name is taken", has, ret=refused)]
    ps = ["std::vector", "std::shared_ptr<kanji_tools::Kanji> const&"] if into else ["std::shared_ptr<kanji_tools::Kanji> const&", "kanji_tools::Ucd const*"]
    return Fn(K + "KanjiData::checkInsert", None, 'any', setup, lambda ex, st, *a: cases(ex, st, a), srcs=SRC, nocall=True, full="checkInsert(std::vector" if into else "checkInsert(std::shared_ptr",
              title="adding a kanji with " + ("no Nelson ID", "a Nelson ID", "two Nelson IDs")[ids] + (" to a list" if into else ""), cmd="lookup insert",
              bound=None if not ids else f"{ids} different Nelson IDs")


def map_now(ex, st, p, w):
    return ex.load_raw(st, p + layout(ex, "Data" + w), 48)


def unchanged(ex, st, p, w):
    m = map_now(ex, st, p, w)
    ex.oblige(st.fork(), int(isinstance(m, maps.MapV) and m.base is BASES[w] and not m.entries), f"{w}: nothing is added", "postcondition")


def holds(ex, st, p, w, key, ok, what):
    """exactly one entry was added, under the key, and its value is as specified"""
    m = map_now(ex, st, p, w)
    one = isinstance(m, maps.MapV) and m.base is BASES[w] and len(m.entries) == 1
    ex.oblige(st.fork(), int(one), what + ": one entry is added", "postcondition")
    if one:
        k, node = m.entries[0]
        ex.oblige(st.fork(), rope_eq(ex, st, k, key), what + ": under this name", "postcondition")
        ex.oblige(st.fork(), ok(ex, st, node + maps.voff(ex, m.kt, m.vt)), what, "postcondition")


def in_list(ex, st, p, w, key, has, v, k):
    """the kanji is at the end of the list of the key, which is new if there was none"""
    if ex.feasible(st, has):
        s = st.fork()
        s.assume(has)
        lists_end(ex, s, v, k, w)
    if ex.feasible(st, b_not(has)):
        s = st.fork()
        s.assume(b_not(has))
        m = map_now(ex, s, p, w)
        es = [(x, n) for x, n in m.entries if ex.valid(s, cmp('eq', x, key, 8 * maps.keysize(ex, m.kt)))[0]]
        ex.oblige(s.fork(), int(len(es) == 1), f"{w}: a new list", "postcondition")
        if len(es) == 1:
            at = es[0][1] + maps.voff(ex, m.kt, m.vt)
            b, e = ex.load_raw(s, at, 8), ex.load_raw(s, at + 8, 8)
            ex.oblige(s.fork(), cmp('eq', (e.off - b.off).val(), 16, 64), f"{w}: of one kanji", "postcondition")
            ex.oblige(s.fork(), veq(ex, s, ex.load_raw(s, b, 8), k, 64), f"{w}: the given one", "postcondition")


def lists_end(ex, st, v, k, w):
    b, e = ex.load_raw(st, v, 8), ex.load_raw(st, v + 8, 8)
    tail = getattr(st.mem[b.obj], 'tail', None)
    ok = tail is not None and len(tail[1]) == 1 and st.mem[tail[0]].name.startswith("by")
    ex.oblige(st.fork(), int(ok), f"{w}: one kanji is added at the end of the list", "postcondition")
    if ok:
        ex.oblige(st.fork(), veq(ex, st, tail[1][0], k, 64), f"{w}: it is the given one", "postcondition")


NAME, NUMBER = [f for f in LOOKUP if f.q.endswith("RadicalData::find")]
LOOKUP += mk_ucdradical() + [mk_byname(), mk_finducd(), mk_compat(), mk_morohashi_text(), mk_maxfreq()]
LOOKUP += [mk_insert(0, False), mk_insert(1, False), mk_insert(2, False), mk_insert(0, True)]


def lem_in_order(ex, st):
    """adding the kanji of frequency n + 1 to the lists of the kanji 1 .. n gives the lists of the kanji 1 .. n + 1"""
    n = ex.fresh("n", 16)
    st.assume(cmp('ult', n, 65534, 16))
    f = binop('add', n, 1, 16)
    for b in range(BUCKETS):
        here = cmp('eq', bucket_of(zext(f, 16, 32)), b, 32)
        ex.oblige(st.fork(), cmp('eq', size_of(b, 0), 0, 64), f"list {b} is empty at first", "lemma")
        ex.oblige(st.fork(), cmp('eq', size_of(b, f), add64(size_of(b, n), b_ite(here, 1, 0, 64)), 64), f"list {b} grows by its own kanji only", "lemma")
        ex.oblige(st.fork(), b_imp(here, cmp('eq', size_of(b, n), sub64(zext(f, 16, 64), 1 + b * ENTRIES), 64)),
                  f"in list {b} the end is the place where its frequency is looked up", "lemma")
    old = b_ite(cmp('eq', n, 0, 16), 0, f, 16)
    f1 = binop('add', f, 1, 16)
    ex.oblige(st.fork(), cmp('eq', b_ite(cmp('ult', old, f1, 16), f1, old, 16), f1, 16), "the maximum is one more than the last frequency", "lemma")


LEM = [Lemma("kanji added in the order of their frequencies lie where they are looked up", lem_in_order)]
