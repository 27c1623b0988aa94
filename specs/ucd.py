"""Entries of the Unicode character data: checked names and codes, sources, links."""
from contract import *
import stl
import utf8
import blocks
import strings
import order
from order import layout

K = "kanji_tools::"
SRC = ["tu/ucd.cpp", "libs/kanji/src/Ucd.cpp", "libs/utils/src/String.cpp", "libs/utils/src/Utf8.cpp", "libs/utils/src/UnicodeBlock.cpp"]


def mk_code():
    """getCode, whose value for the names of links is left unknown: any code (the texts of links only depend on it through its digits)"""
    f, = [f for f in utf8.DEC if f.q.endswith("getCode") and f.params == ["std::string const&"]]

    def cases(ex, st, s):
        src = rope_src(ex, st, ex.rope(st, s))[0]
        if src.key in ex.elems:
            return [Case("decodes one", 1, ret=ex.elem_value(src, "code", 32))]
        return f.cases(ex, st, [s])
    return Fn(f.q, f.params, f.kind, f.setup, cases, srcs=f.srcs, title=f.title)


DEPS = [mk_code()] + [f for f in blocks.IS if f.q.endswith("isKanji")] + \
    [f for f in strings.FMT if f.title == "toUnicode(Code)"]
LETTERS = "GHJKTV"
SQUARE = 2
TRAD_R, TRAD, COMPAT, LNONE = 5, 10, 6, 11


def code_of(ex, st, r):
    src, start, n = rope_src(ex, st, r)
    if src.key in ex.elems:
        return ex.elem_value(src, "code", 32)
    return b_ite(utf8.nz(src, start), utf8.code_at(src, start), 0, 32)


def is_kanji(ex, st, r):
    src, start, n = rope_src(ex, st, r)
    return blocks.is_spec(src, start, n, 1, blocks.CATS["Kanji"])


def code_and_name(ex, st, r):
    """alternatives of '[code] name'"""
    c = code_of(ex, st, r)
    return [(g, x + lit(" ") + r) for g, x in strings.bracketed(SQUARE, strings.number(ex, st, c, 32, 4, 1, 4))]


def mk_entry():
    def setup(ex, st):
        this = ex.new_obj(st, 'cells', layout(ex, "SizeEntry"), "entry")
        return [this, sym_int(ex, st, "code", 32), sym_str(ex, st, "name")]

    def cases(ex, st, this, code, name):
        r = ex.rope(st, name)
        k, c = is_kanji(ex, st, r), code_of(ex, st, r)
        same = cmp('eq', code, c, 32)
        own = [(this, layout(ex, "SizeEntry"))]

        def held(ex, st, oc):
            ex.oblige(st.fork(), rope_eq(ex, st, ex.rope(st, this + layout(ex, "EntryName")), r), "the entry holds the name", "postcondition")
        return [Case("not a kanji", b_not(k), throws="DomainError", owns=own),
                Case("another code", b_and(k, b_not(same)), throws="DomainError", owns=own),
                Case("held", b_and(k, same), ret=held, owns=own)]
    return Fn(K + "Ucd::Entry::Entry", ["char32_t", "std::string const&"], 'any', setup, cases, srcs=SRC, nocall=True, title="entry of a code and a name", cmd="ucd entry")


def entry(ex, st, n="name"):
    p = ex.new_obj(st, 'cells', layout(ex, "SizeEntry"), "entry")
    ex.set_rope(st, p + layout(ex, "EntryName"), ex.rope(st, sym_str(ex, st, n)))
    return p


def ucd(ex, st, name=False, links=None):
    p = ex.new_obj(st, 'cells', layout(ex, "SizeUcd"), "ucd")
    if name:
        ex.set_rope(st, p + layout(ex, "Entry") + layout(ex, "EntryName"), ex.rope(st, sym_str(ex, st, "name")))
    ex.store_raw(st, p + layout(ex, "Sources"), 1, sym_int(ex, st, "sources", 8))
    lt = sym_int(ex, st, "linkType", 8)
    st.assume(cmp('ule', lt, LNONE, 8))
    ex.store_raw(st, p + layout(ex, "LinkType"), 1, lt)
    n = sym_int(ex, st, "links", 64)
    st.assume(cmp('ult', n, 1 << 20, 64))
    a = ex.new_obj(st, 'src', None, "links")
    o = st.mem[a.obj]
    o.texts = ex.fresh_texts("link")
    o.src, o.ew, o.n, o.const = None, 32, n, True
    ex.store_raw(st, p + layout(ex, "Links"), 8, a)
    end = Ptr(a.obj, Lin.of(n, 32))
    ex.store_raw(st, p + layout(ex, "Links") + 8, 8, end)
    ex.store_raw(st, p + layout(ex, "Links") + 16, 8, end)
    st.ghost['the links'] = (a, n)
    return p


def mk_of_entry(q, kind, f):
    return Fn(K + "Ucd::Entry::" + q, [], kind, lambda ex, st: [entry(ex, st)],
              lambda ex, st, p: [Case("entry", 1, ret=f(ex, st, ex.rope(st, p + layout(ex, "EntryName"))))], srcs=SRC, title=q + " of an entry", nocall=True, cmd="ucd text")


def mk_text():
    return Fn(K + "Ucd::codeAndName", [], 'str', lambda ex, st: [ucd(ex, st, True)],
              lambda ex, st, p: [Case("entry", 1, ret=code_and_name(ex, st, ex.rope(st, p + layout(ex, "Entry") + layout(ex, "EntryName"))))], srcs=SRC,
              title="code and name of a character", nocall=True, cmd="ucd text")


def mk_links():
    def cases(ex, st, p):
        a, n = st.ghost['the links']
        o = st.mem[a.obj]

        def out(g):
            alts = []
            for sep, gg in ((Rope(1), cmp('eq', g['g'], 0, 64)), (lit(", "), cmp('ne', g['g'], 0, 64))):
                alts += [(b_and(gg, g2), sep + r2) for g2, r2 in code_and_name(ex, st, o.texts(ex, st, g['g']))]
            return alts
        a = Auto("links", {'g': ('int', 64)}, {'g': 0}, run=lambda g: cmp('ult', g['g'], n, 64), step=lambda g: {'g': add64(g['g'], 1)},
                 gens={'text': (('links',), out, None)}, pos=['g'],
                 facts=[("index within the links", lambda g: cmp('ule', g['g'], n, 64)),
                        ("text is empty only at the start", lambda g: b_or(b_and(cmp('eq', g['g'], 0, 64), cmp('eq', g['len:text'], 0, 64)),
                                                                            b_and(cmp('ne', g['g'], 0, 64), cmp('ne', g['len:text'], 0, 64))))],
                 variant=lambda g: sub64(n, g['g']))
        return [Case("every link", 1, via=Via(a, pieces=lambda g: [('gen', 'text')]))]
    return Fn(K + "Ucd::linkCodeAndNames", [], 'str', lambda ex, st: [ucd(ex, st)], cases, srcs=SRC, title="codes and names of the links", nocall=True, cmd="ucd links")


def mk_flag(q, f):
    def cases(ex, st, p):
        return [Case("flag", 1, ret=f(cell_value(ex, st, p + layout(ex, "Sources"), 1), cell_value(ex, st, p + layout(ex, "LinkType"), 1), st.ghost['the links'][1]))]
    return Fn(K + "Ucd::" + q, [], 'bool', lambda ex, st: [ucd(ex, st)], cases, srcs=SRC, title=q, nocall=True, cmd="ucd flags")


def letters(ex, st):
    run_initialiser(ex, st, [global_named(ex, K + "{anon}::SourceLetterMap")])


def bit_of(c):
    """(is a source letter, its bit)"""
    v = 0
    for k, l in reversed(list(enumerate(LETTERS))):
        v = b_ite(cmp('eq', c, ord(l), 8), 1 << k, v, 8)
    return v


def mk_sources():
    def setup(ex, st):
        letters(ex, st)
        return [sym_str(ex, st, "sources"), sym_int(ex, st, "joyo", 1), sym_int(ex, st, "jinmei", 1)]

    def cases(ex, st, s, joyo, jinmei):
        src, start, n = rope_src(ex, st, ex.rope(st, s))
        long = cmp('ugt', n, len(LETTERS), 64)
        at = lambda q: bit_of(src.at(add64(start, q['g'])))
        good = lambda q: b_and(cmp('ne', at(q), 0, 8), cmp('eq', binop('and', q['v'], at(q), 8), 0, 8))
        a = Auto("sources", {'g': ('int', 64), 'v': ('int', 8)}, {'g': 0, 'v': 0}, run=lambda q: b_and(cmp('ult', q['g'], n, 64), good(q)),
                 step=lambda q: {'g': add64(q['g'], 1), 'v': binop('or', q['v'], at(q), 8)}, pos=['g'],
                 facts=[("position within the text", lambda q: cmp('ule', q['g'], n, 64)), ("only source bits", lambda q: cmp('ult', q['v'], 64, 8))],
                 variant=lambda q: sub64(n, q['g']), when=lambda x, s1, fn: x.valid(s1, b_not(long))[0])
        v = lambda q: binop('or', q['v'], binop('or', b_ite(joyo, 64, 0, 8), b_ite(jinmei, 128, 0, 8), 8), 8)
        return [Case("too long", long, throws="DomainError"),
                Case("letters", b_not(long), via=Via(a, value=v, throws=("DomainError", lambda q: cmp('ult', q['g'], n, 64))))]
    return Fn(K + "Ucd::getSources", None, 8, setup, cases, srcs=SRC, title="sources from letters", nocall=True, cmd="ucd sources")


def mk_letters():
    def setup(ex, st):
        letters(ex, st)
        return [ucd(ex, st)]

    def cases(ex, st, p):
        b = cell_value(ex, st, p + layout(ex, "Sources"), 1)
        alts = [(1, Rope(1))]
        for k, l in enumerate(LETTERS):
            on = cmp('ne', binop('and', b, 1 << k, 8), 0, 8)
            alts = [x for g, r in alts for x in ((b_and(g, on), r + lit(l)), (b_and(g, b_not(on)), r))]
        return [Case("letters", 1, ret=alts)]
    return Fn(K + "Ucd::sources", [], 'str', setup, cases, srcs=SRC, title="letters of the sources", nocall=True, cmd="ucd sources")


def known(ex, what, key, w):
    """an unknown value determined by a key"""
    if not hasattr(ex, 'known_values'):
        ex.known_values = {}
    k = (what, key, w)
    if k not in ex.known_values:
        ex.known_values[k] = ex.fresh(what, w)
    return ex.known_values[k]


def symbol_of(ex, st, table, name):
    """(is accepted, number) of a name as a symbol (decided by C12)"""
    k = (table.obj, repr_key(ex.rope(st, name)))
    return known(ex, "symbolOk", k, 1), known(ex, "symbolId", k, 16)


def morohashi_of(ex, st, name):
    """(is accepted, number, kind) of a text as a Morohashi ID (decided by C14)"""
    k = repr_key(ex.rope(st, name))
    return known(ex, "morohashiOk", k, 1), known(ex, "morohashiId", k, 16), known(ex, "morohashiKind", k, 8)


def sources_of(ex, st, s, joyo, jinmei):
    k = (repr_key(ex.rope(st, s)), str(joyo), str(jinmei))
    return known(ex, "sourcesOk", k, 1), known(ex, "sourcesBits", k, 8)


def call_symbol(ex, st, this, ty, name, m, l):
    ok, v = symbol_of(ex, st, m, name)
    return [Case("accepted", ok, writes=[(this, 2, v)]), Case("refused", b_not(ok), throws="DomainError")]


def call_morohashi(ex, st, this, name):
    ok, v, t = morohashi_of(ex, st, name)
    return [Case("accepted", ok, writes=[(this, 2, v), (this + 2, 1, t)]), Case("refused", b_not(ok), throws="DomainError")]


def call_sources(ex, st, s, joyo, jinmei):
    ok, v = sources_of(ex, st, s, joyo, jinmei)
    return [Case("accepted", ok, ret=v), Case("refused", b_not(ok), throws="DomainError")]


CALLS = [Fn(K + "BaseSymbol::BaseSymbol", None, 'void', None, call_symbol, full="std::map"),
         Fn(K + "MorohashiId::MorohashiId", ["std::string const&"], 'void', None, call_morohashi),
         Fn(K + "Ucd::getSources", None, 8, None, call_sources)]
TEXTS = ["NelsonIds", "JSource", "UcdMeaning", "OnReading", "KunReading"]


def tables(ex):
    """the tables of names of the three kinds of symbols"""
    out = []
    for t in ("Ucd::Block", "Ucd::Version", "Pinyin"):
        hit = [(m, n) for m in ex.modules for n in m.globals if n.startswith('_ZN11kanji_tools6SymbolI') and canon(n)[0].endswith("::_map") and
               ("<" + K + t + ">") in canon(n)[2]]
        if not hit:
            raise Unsupported("names of " + t)
        out.append(hit[0])
    return out


def mk_ctor():
    def setup(ex, st):
        this = ex.new_obj(st, 'cells', layout(ex, "SizeUcd"), "ucd")
        e = entry(ex, st)
        S = lambda n: sym_str(ex, st, n)
        block, version = S("block"), S("version")
        radical = sym_int(ex, st, "radical", 16)
        strokes = sym_int(ex, st, "strokes", 16)
        pinyin, morohashi, nelson, sources, jsource = (S(n) for n in ("pinyin", "morohashi", "nelson", "sources", "jSource"))
        joyo, jinmei = sym_int(ex, st, "joyo", 1), sym_int(ex, st, "jinmei", 1)
        links = ex.new_obj(st, 'cells', 24, "links")
        n = ex.fresh("links", 64)
        st.assume(cmp('ult', n, 1 << 20, 64))
        a = ex.new_obj(st, 'src', None, "links")
        o = st.mem[a.obj]
        o.texts, o.ew, o.n, o.const = ex.fresh_texts("link"), 32, n, True
        end = Ptr(a.obj, Lin.of(n, 32))
        for k, v in enumerate((a, end, end)):
            ex.store_raw(st, links + 8 * k, 8, v)
        lt = sym_int(ex, st, "linkType", 8)
        meaning, on, kun = S("meaning"), S("on"), S("kun")
        st.ghost['the links'] = (a, n)
        return [this, e, block, version, radical, strokes, pinyin, morohashi, nelson, sources, jsource, joyo, jinmei, links, lt, meaning, on, kun]

    def cases(ex, st, this, e, block, version, radical, strokes, pinyin, morohashi, nelson, sources, jsource, joyo, jinmei, links, lt, meaning, on, kun):
        syms = [symbol_of(ex, st, ex.global_ptr(st, n, m), x) for (m, n), x in zip(tables(ex), (block, version, pinyin))]
        mo = morohashi_of(ex, st, morohashi)
        so = sources_of(ex, st, sources, joyo, jinmei)
        ok = b_and(*[x[0] for x in syms], mo[0], so[0])
        a, n = st.ghost['the links']
        size = layout(ex, "SizeUcd")
        ropes = [("name", layout(ex, "Entry") + layout(ex, "EntryName"), ex.rope(st, e + layout(ex, "EntryName")))] +             [(t, layout(ex, t), ex.rope(st, x)) for t, x in zip(TEXTS, (nelson, jsource, meaning, on, kun))]

        def held(ex, st, oc):
            def same(nm, off, z, v):
                ex.oblige(st.fork(), veq(ex, st, cell_value(ex, st, this + off, z), v, 8 * z), "holds the given " + nm, "postcondition")
            for (nm, x) in zip(("Block", "Version", "Pinyin"), syms):
                same(nm, layout(ex, nm), 2, x[1])
            same("sources", layout(ex, "Sources"), 1, so[1])
            same("kind of link", layout(ex, "LinkType"), 1, lt)
            same("radical", layout(ex, "UcdRadical"), 2, radical)
            for k in (0, 1):
                same("strokes", layout(ex, "UcdStrokes") + k, 1, trunc(binop('lshr', strokes, 8 * k, 16), 16, 8))
            same("Morohashi number", layout(ex, "Morohashi"), 2, mo[1])
            same("Morohashi kind", layout(ex, "Morohashi") + 2, 1, mo[2])
            for nm, off, r in ropes:
                ex.oblige(st.fork(), rope_eq(ex, st, ex.rope(st, this + off), r), "holds the given " + nm, "postcondition")
            same("links", layout(ex, "Links"), 8, a)
            same("number of links", layout(ex, "Links") + 8, 8, Ptr(a.obj, Lin.of(n, 32)))
        own = [(this, size), (links, 24)]
        return [Case("held", ok, ret=held, owns=own), Case("refused", b_not(ok), throws="DomainError", owns=own)]
    return Fn(K + "Ucd::Ucd", None, 'any', setup, cases, srcs=SRC + ["libs/kanji/src/MorohashiId.cpp", "libs/utils/src/Symbol.cpp"], nocall=True,
              title="character from its data", cmd="ucd make")


is_trad = lambda t: b_or(cmp('eq', t, TRAD, 8), cmp('eq', t, TRAD_R, 8))
some = lambda n: cmp('ne', n, 0, 64)
bit = lambda s, k: cmp('ne', binop('and', s, k, 8), 0, 8)
UCD = [mk_entry(), mk_ctor(), mk_of_entry("code", 32, code_of), mk_of_entry("codeAndName", 'str', code_and_name), mk_text(), mk_links(), mk_sources(), mk_letters(),
       mk_flag("joyo", lambda s, t, n: bit(s, 64)), mk_flag("jinmei", lambda s, t, n: bit(s, 128)),
       mk_flag("hasLinks", lambda s, t, n: some(n)), mk_flag("hasTraditionalLinks", lambda s, t, n: is_trad(t)),
       mk_flag("hasNonTraditionalLinks", lambda s, t, n: b_and(some(n), b_not(is_trad(t)))),
       mk_flag("linkedReadings", lambda s, t, n: cmp('ult', t, COMPAT, 8))]
