"""Character iteration over text (variation selectors, combining marks) and the voicing of kana."""
from contract import *
from engine import ZERO
import utf8
import kanatab
import stl
from utf8 import K, atom, cont, nz, valid_cases, at4
from kanatab import KANASRC

SRC = ["tu/kana.cpp", "libs/kana/src/Utf8Char.cpp", "libs/utils/src/Utf8.cpp", "libs/utils/src/String.cpp"]


# ------------------------------------------------------------------ voiced and semi-voiced kana
HI = "かきくけこさしすせそたちつてとはひふへほ"
YA, A = "ゃぃゅぇょ", "ぁぃぅぇぉ"
DIGRAPHS = [x + y for x, ys in (("き", YA), ("し", YA), ("ち", YA), ("て", YA), ("ひ", YA), ("く", A), ("と", A), ("う", "ぃぇ")) for y in ys]


def voiced_table(semi):
    """{plain text: its (semi-)voiced form} for every kana that has one"""
    t = {}
    sh = lambda c: chr(0x3094) if c == "う" else chr(ord(c) + (2 if semi else 1))
    for c in ("はひふへほ" if semi else HI + "う"):
        t[c] = sh(c)
    for d in DIGRAPHS:
        if not semi or d[0] == "ひ":
            t[d] = sh(d[0]) + d[1]
    up = lambda s: "".join(chr(ord(c) + 0x60) for c in s)
    t.update({up(k): up(v) for k, v in list(t.items())})
    return t


def is_text(r, s):
    """the rope spells s"""
    b = s.encode() if isinstance(s, str) else s
    n = r.length()
    if is_c(n) and n != len(b):
        return 0
    return b_and(cmp('eq', n, len(b), 64), *[cmp('eq', r.at(i, 8), x, 8) for i, x in enumerate(b)])


def voiced_cases(r, semi):
    """[(name, guard, text)] of the voiced form of a text; None: it has none"""
    t = voiced_table(semi)
    out, some = [], []
    for size in (3, 6):
        ks = [k for k in t if len(k.encode()) == size]
        gs = [(is_text(r, k), t[k].encode()) for k in ks]
        g = b_or(*[c for c, _ in gs])
        if is_c(g) and not g:
            continue
        bs = []
        for i in range(size):
            v = 0
            for x in sorted({b[i] for _, b in gs}):
                v = b_ite(b_or(*[c for c, b in gs if b[i] == x]), x, v, 8)
            bs.append(v)
        some.append(g)
        out.append((f"{size // 3} characters", g, Rope(1, (Lit(bs),))))
    return out + [("has none", b_not(b_or(*some)), None)]


def mk_find(name, semi):
    def setup(ex, st):
        kanatab.world(ex, st)
        return [sym_str(ex, st, "s")]

    def cases(ex, st, s):
        r = ex.rope(st, s)
        return [Case(n, g, ret=[(32, 1, 0)] if v is None else [(0, 32, v), (32, 1, 1)]) for n, g, v in voiced_cases(r, semi)]
    return Fn(K + "Kana::" + name, ["std::string const&"], 'sret', setup, cases, srcs=KANASRC, title=name, mode='unroll', cost=9)


VOICE = [mk_find("findDakuten", False), mk_find("findHanDakuten", True)]


# ------------------------------------------------------------------ modifiers: variation selectors and combining marks
def is8(src, p, k):
    return cmp('eq', src.at(p), k, 8)


def selector(src, p):
    b = src.at(add64(p, 2))
    return b_and(is8(src, p, 0xEF), is8(src, add64(p, 1), 0xB8), cmp('uge', b, 0x80, 8), cmp('ule', b, 0x8F, 8))


def mark(src, p):
    return b_and(is8(src, p, 0xE3), is8(src, add64(p, 1), 0x82), b_or(is8(src, add64(p, 2), 0x99), is8(src, add64(p, 2), 0x9A)))


def modifier(src, p):
    return b_or(selector(src, p), mark(src, p))


def text(ex, st, s, is_str):
    """(src, start, position of the end) of a text argument"""
    if is_str:
        src, start, n = rope_src(ex, st, ex.rope(st, s))
        return src, start, add64(start, n)
    return text_at(ex, st, s)


def text_arg(ex, st, t, null, name="s"):
    if null:
        inp(ex).append((name, 'const', None))
        return NULL
    return sym_str(ex, st, name) if t.startswith("std::string") else sym_cstr(ex, st, name)


def short(t):
    return 'String' if 'string' in t else t


TEXTS = [("unsigned char const*", False), ("unsigned char const*", True), ("char const*", False), ("char const*", True),
         ("std::string const&", False)]


def mk_is(name, pred, t, null):
    def cases(ex, st, s):
        if s.obj == 0:
            return [Case("null text", 1, ret=0)]
        src, start, _ = text(ex, st, s, 'string' in t)
        return [Case("by the first three bytes", 1, ret=pred(src, start))]
    return Fn(K + "Utf8Char::" + name, [t], 'bool', lambda ex, st: [text_arg(ex, st, t, null)], cases, srcs=SRC, nocall=null,
              title=f"{name}({short(t)}){' on null' if null else ''}")


IS = [mk_is(n, p, t, z) for n, p in (("isVariationSelector", selector), ("isCombiningMark", mark)) for t, z in TEXTS]


# ------------------------------------------------------------------ number of characters
def counted(src, p, only):
    """does the character at p count"""
    b = src.at(p)
    lead = cmp('uge', b, 0xC0, 8)
    return b_and(b_not(modifier(src, p)), b_or(lead, b_and(b_not(only), b_not(cont(b)))))


def size_next(src, p):
    return add64(p, b_ite(modifier(src, p), 3, 1, 64))


def size_auto(src, start, end, only):
    return Auto("size", {'p': ('int', 64), 'count': ('int', 64)}, {'p': start, 'count': 0}, run=lambda g: nz(src, g['p']),
                step=lambda g: {'p': size_next(src, g['p']), 'count': add64(g['count'], zext(counted(src, g['p'], only), 1, 64))},
                pos=['p'], facts=[("position within the text", lambda g: cmp('ule', g['p'], end, 64))],
                variant=lambda g: sub64(end, g['p']))


def mk_size(t, null):
    def cases(ex, st, s, only):
        if s.obj == 0:
            return [Case("null text", 1, ret=0)]
        src, start, end = text(ex, st, s, 'string' in t)
        whole = atom(ex, ('size', src.key, utf8._ks(start), utf8._ks(only)))[1]
        if ex.ver:
            return [Case("number of characters", 1, via=Via(size_auto(src, start, end, only), value=lambda g: g['count'], alt=lambda ex, st: whole))]
        return [Case("number of characters", 1, ret=whole)]
    return Fn(K + "Utf8Char::size", [t, "bool"], 64, lambda ex, st: [text_arg(ex, st, t, null), sym_int(ex, st, "onlyMB", 1)], cases,
              srcs=SRC, nocall=null, title=f"size({short(t)}){' on null' if null else ''}")


SIZE = [mk_size(t, z) for t, z in TEXTS[2:]]


# ------------------------------------------------------------------ one character with a variation selector
def char_len(b0):
    return b_ite(cmp('ult', b0, 0xE0, 8), 2, b_ite(cmp('ult', b0, 0xF0, 8), 3, 4, 64), 64)


def valid_at(src, p):
    """a well-formed multi-byte character starts at p"""
    return [g for n, g, e in valid_cases(src, p, 0) if e is None][0]


def with_selector(r):
    """the text is one multi-byte character followed by a variation selector"""
    n = r.length()
    out = []
    for k in (2, 3, 4):
        src = Src(('lead',), lambda i, k=k: r.at(i, 8) if is_c(i) and i < k else 0)
        out.append(b_and(cmp('eq', n, k + 3, 64), valid_at(src, 0), cmp('eq', char_len(r.at(0, 8)), k, 64),
                         cmp('eq', r.at(k, 8), 0xEF, 8), cmp('eq', r.at(k + 1, 8), 0xB8, 8), cmp('uge', r.at(k + 2, 8), 0x80, 8),
                         cmp('ule', r.at(k + 2, 8), 0x8F, 8)))
    return b_or(*out)


def no_nul(ex, st, s):
    """the text holds no NUL (where the selector test looks)"""
    r = ex.rope(st, s)
    n = r.length()
    return [("text without NUL", b_and(*[b_or(cmp('ule', n, k, 64), cmp('ne', r.at(k, 8), 0, 8)) for k in range(7)]))]


def mk_withsel():
    return Fn(K + "Utf8Char::isCharWithVariationSelector", ["std::string const&"], 'bool', lambda ex, st: [sym_str(ex, st, "s")],
              lambda ex, st, s: [Case("one character and a selector", 1, ret=with_selector(ex.rope(st, s)))], pre=no_nul, srcs=SRC,
              title="isCharWithVariationSelector")


def mk_nosel():
    def cases(ex, st, s):
        r = ex.rope(st, s)
        g = with_selector(r)
        return [Case("selector removed", g, ret=lambda ex, st: stl.substr(ex, st, r, 0, sub64(r.length(), 3))), Case("unchanged", b_not(g), ret=r)]
    return Fn(K + "Utf8Char::noVariationSelector", ["std::string const&"], 'str', lambda ex, st: [sym_str(ex, st, "s")], cases, pre=no_nul,
              srcs=SRC, title="noVariationSelector")


SEL = [mk_withsel(), mk_nosel()]


# ------------------------------------------------------------------ iteration
class Obj8:
    """a Utf8Char object built by its constructor over an arbitrary text; the cells of its cursor and counters are found through its
    own accessors"""

    def __init__(self, ex, st):
        self.s = sym_str(ex, st, "s")
        self.this = ex.new_obj(st, 'cells', None, "Utf8Char")
        f = find_fn(ex.modules, K + "Utf8Char::Utf8Char", ["std::string const&"])
        if f is None:
            raise Unsupported("constructor of Utf8Char")
        outs = ex.call_fn(st, f, [self.this, self.s])
        if len(outs) != 1 or isinstance(outs[0][1], Throw):
            raise Unsupported("constructor of Utf8Char does not finish normally")
        s2 = outs[0][0]
        for a in ('mem', 'pc', 'owned', 'exc', 'caught', 'ghost', 'events', 'trace'):
            setattr(st, a, getattr(s2, a))
        o = st.mem[self.this.obj]
        self.cursor, data = None, None
        for off, (size, v) in sorted(o.cells.items()):
            if isinstance(v, Rope):
                data = off
        for off, (size, v) in sorted(o.cells.items()):
            if isinstance(v, Ptr) and size == 8 and v.obj != 0 and st.mem[v.obj].kind == 'view' and off != data:
                if self.cursor is not None:
                    raise Unsupported("Utf8Char has more than one position")
                self.cursor = off
        if self.cursor is None or data is None:
            raise Unsupported("Utf8Char has no position")
        self.begin = o.cells[self.cursor][1]
        self.src, self.start, self.end = text_at(ex, st, self.begin)
        if not ex.valid(st, cmp('eq', sub64(self.end, self.start), ex.rope(st, self.s).length(), 64))[0]:
            raise Unsupported("Utf8Char does not hold the text")
        nums = [off for off, (size, v) in o.cells.items() if size == 8 and off not in (self.cursor, data) and (is_c(v) or v is ZERO)]
        self.counter = {}
        for name in ("errors", "variants", "combiningMarks"):
            s3 = st.fork()
            for i, off in enumerate(nums):
                ex.store_raw(s3, self.this + off, 8, 1000 + i)
            f = find_fn(ex.modules, K + "vc" + name[0].upper() + name[1:], None)
            r = ex.call_fn(s3, f, [self.this]) if f is not None else []
            if len(r) != 1 or not is_c(r[0][1].v) or not 1000 <= r[0][1].v < 1000 + len(nums):
                raise Unsupported("counter " + name)
            self.counter[name] = nums[r[0][1].v - 1000]
        if len(set(self.counter.values())) != 3:
            raise Unsupported("counters share storage")

    def arbitrary(self, ex, st):
        """any state calls can leave it in: a position within the text (or at its end) and any counters"""
        p = sym_int(ex, st, "position", 64)
        st.assume(cmp('ule', p, sub64(self.end, self.start), 64))
        self.p0 = add64(self.start, p)
        self.c0 = {}
        ex.store_raw(st, self.this + self.cursor, 8, self.begin + Lin.of(p))
        for n, off in self.counter.items():
            self.c0[n] = sym_int(ex, st, n, 64)
            ex.store_raw(st, self.this + off, 8, self.c0[n])

    def cells(self):
        return [(self.this + self.cursor, 8)] + [(self.this + off, 8) for off in self.counter.values()]

    def read(self, ex, st):
        """(position, counters) now"""
        v = cell_value(ex, st, self.this + self.cursor, 8)
        if not isinstance(v, Ptr) or v.obj != self.begin.obj:
            raise Unsupported("position outside the text")
        return add64(self.start, (v.off - self.begin.off).val()), {n: cell_value(ex, st, self.this + off, 8) for n, off in self.counter.items()}


def next_auto(o, only):
    """skips what is not a character: single bytes when only multi-byte characters are wanted, bytes that start no well-formed
    character (an error each), modifiers without a character before them (an error each); d: bytes skipped"""
    src = o.src
    at = lambda g: add64(o.p0, g['d'])
    ascii_ = lambda g: cmp('ult', src.at(at(g)), 0x80, 8)
    ok = lambda g: valid_at(src, at(g))
    stop = lambda g: b_or(b_and(ascii_(g), b_not(only)), b_and(ok(g), b_not(modifier(src, at(g)))))
    return Auto("skip", {'d': ('int', 64), 'errors': ('int', 64)}, {'d': 0, 'errors': o.c0["errors"]},
                run=[lambda g: nz(src, at(g)), lambda g: b_not(stop(g))],
                step=lambda g: {'d': add64(g['d'], b_ite(ok(g), 3, 1, 64)), 'errors': add64(g['errors'], b_ite(ascii_(g), 0, 1, 64))},
                pos=['d'], facts=[("position within the text", lambda g: cmp('ule', g['d'], sub64(o.end, o.p0), 64))],
                variant=lambda g: sub64(sub64(o.end, o.p0), g['d']), maxunfold=1)


def found(o, g, only):
    """[(guard, text or None, position after, {counter: increments})] of the search that stopped at g"""
    src, p = o.src, add64(o.p0, g['d'])
    b0 = src.at(p)
    out = [(b_not(nz(src, p)), None, p, {}), (b_and(nz(src, p), cmp('ult', b0, 0x80, 8)), Rope(1, (Lit([b0]),)), add64(p, 1), {})]
    ok = b_and(valid_at(src, p), b_not(modifier(src, p)))
    for n in (2, 3, 4):
        c = b_and(ok, cmp('eq', char_len(b0), n, 64))
        q = add64(p, n)
        cur = Rope(1, (Lit([src.at(add64(p, k)) for k in range(n)]),))
        q3 = add64(q, 3)
        out.append((b_and(c, b_not(modifier(src, q))), cur, q, {}))
        out.append((b_and(c, selector(src, q)), cur + Rope(1, (Lit([src.at(add64(q, k)) for k in range(3)]),)), q3, {"variants": 1}))
        for semi in (False, True):
            m = b_and(c, mark(src, q), is8(src, add64(q, 2), 0x9A if semi else 0x99))
            for _, gd, v in voiced_cases(cur, semi):
                out.append((b_and(m, gd), cur if v is None else v, q3, {"errors": 1} if v is None else {"combiningMarks": 1}))
    return out


def mk_next(name, peek):
    def setup(ex, st):
        o = ex.utf8char = Obj8(ex, st)
        o.arbitrary(ex, st)
        res = ex.new_obj(st, 'cells', 32, "result")
        o.r0 = Rope(1, (Sl(arr_src(ex.fresh_arr("old", 1)), 0, ex.fresh("old.len", 64)),))
        st.assume(cmp('ult', o.r0.length(), MAXLEN, 64))
        ex.set_rope(st, res, o.r0)
        return [o.this, res, sym_int(ex, st, "onlyMB", 1)]

    def cases(ex, st, this, res, only):
        o = ex.utf8char
        o.auto = next_auto(o, only)

        def ret(ex, st, oc):
            pos, cnt = o.read(ex, st)
            got = ex.rope(st, res)
            alts = {}
            for cond, g, base, extra in o.auto.finals(ex, st):
                for gd, v, q, inc in found(o, g, only):
                    c = b_and(cond, gd)
                    if is_c(c) and not c or not ex.feasible(st, c):
                        continue
                    put = lambda what, f: alts.setdefault(what, []).append(b_and(c, f))
                    put("says whether there was a character", eq(oc.v, int(v is not None), 1))
                    put("gives the character", rope_eq(ex, st, got, o.r0 if v is None else v))
                    put("moves past it" if not peek else "stays where it was", cmp('eq', pos, o.p0 if peek else q, 64))
                    for n in cnt:
                        want = o.c0[n] if peek else add64(g['errors'] if n == "errors" else o.c0[n], inc.get(n, 0))
                        put(f"counts {n}", cmp('eq', cnt[n], want, 64))
            for w in ("says whether there was a character", "gives the character", "stays where it was" if peek else "moves past it",
                      "counts errors", "counts variants", "counts combiningMarks"):
                ex.oblige(st.fork(), b_or(*alts.get(w, [])), f"Utf8Char::{name}: {w}", "postcondition")
        return [Case("from any position", 1, ret=ret, owns=[(res, 32)] + ([] if peek else o.cells()))]
    return Fn(K + "Utf8Char::" + name, ["std::string&", "bool"], 'any', setup, cases, srcs=SRC, title=name,
              auto=lambda ex, st, a: [ex.utf8char.auto], nocall=True, cost=9)


ITER = [mk_next("next", False), mk_next("peek", True)]


def mk_first():
    def setup(ex, st):
        o = ex.utf8char = Obj8(ex, st)
        o.p0, o.c0 = o.start, {n: 0 for n in o.counter}
        return [o.s]

    def cases(ex, st, s):
        if not ex.ver:
            raise Unsupported("first character at a call site")
        o = ex.utf8char
        src, start, _ = text(ex, st, s, True)
        o.src, o.start, o.p0, o.end = src, start, start, add64(start, ex.rope(st, s).length())
        o.auto = next_auto(o, 1)
        return [Case("first character", 1, ret=lambda ex, st: [(b_and(cond, gd), v if v is not None else Rope(1)) for cond, g, base, extra in
                                                              o.auto.finals(ex, st) for gd, v, q, inc in found(o, g, 1)])]
    return Fn(K + "Utf8Char::getFirst", ["std::string const&"], 'str', setup, cases, srcs=SRC, title="getFirst",
              auto=lambda ex, st, a: [ex.utf8char.auto], nocall=True, cost=9)


def mk_member(name, kind):
    """a member that asks about the text the object was made from"""
    def setup(ex, st):
        o = ex.utf8char = Obj8(ex, st)
        o.arbitrary(ex, st)
        return [o.this, sym_int(ex, st, "flag", 1)]

    def cases(ex, st, this, flag):
        o = ex.utf8char
        if name == "size":
            return [Case("number of characters", 1, ret=atom(ex, ('size', o.src.key, utf8._ks(o.start), utf8._ks(flag)))[1])]
        val = lambda e: utf8.MB['NotMultiByte' if e == 'mb' else 'Valid' if e is None else 'NotValid']
        return [Case(n, g, ret=int(e is None) if kind == 'bool' else val(e)) for n, g, e in valid_cases(o.src, o.start, flag)]
    return Fn(K + "Utf8Char::" + name, ["bool"], kind, setup, cases, srcs=SRC, title=f"{name} of an object", nocall=True)


def mk_start(name):
    """a new object, and one that was reset, begins at the start of its text with all counters zero"""
    def setup(ex, st):
        o = ex.utf8char = Obj8(ex, st)
        o.arbitrary(ex, st)
        return [o.this] + ([] if name == "reset" else [o.s])

    def cases(ex, st, *a):
        o = ex.utf8char

        def ret(ex, st, oc):
            pos, cnt = o.read(ex, st)
            ex.oblige(st.fork(), cmp('eq', pos, o.start, 64), f"Utf8Char::{name}: starts at the beginning of the text", "postcondition")
            for n in cnt:
                ex.oblige(st.fork(), cmp('eq', cnt[n], 0, 64), f"Utf8Char::{name}: {n} start at zero", "postcondition")
        own = [(o.this, 32)] if name != "reset" else []
        return [Case("start", 1, ret=ret, owns=o.cells() + own)]
    return Fn(K + "Utf8Char::" + name, [] if name == "reset" else ["std::string const&"], 'any', setup, cases, srcs=SRC, title=name, nocall=True)


OBJ = [mk_start("reset"), mk_start("Utf8Char"), mk_member("size", 64), mk_member("valid", 32), mk_member("isValid", 'bool'), mk_first()]


# ------------------------------------------------------------------ lemmas
class _At:
    """a search that stopped at the first of eight arbitrary bytes"""

    def __init__(self, ex):
        self.b = [ex.fresh(f"b{k}", 8) for k in range(8)]
        self.src = Src(('lemma',), lambda i: self.b[i] if is_c(i) and i < 8 else 0)
        self.p0 = 0


def lem_pieces(ex, st):
    o = _At(ex)
    b0 = o.b[0]
    st.assume(nz(o.src, 0))
    st.assume(b_or(cmp('ult', b0, 0x80, 8), b_and(valid_at(o.src, 0), b_not(modifier(o.src, 0)))))
    for gd, v, q, inc in found(o, {'d': 0}, 0):
        if v is None:
            ex.oblige(st.fork(), b_not(gd), "a character is found at the start of a well-formed text", "lemma")
            continue
        if not ex.feasible(st, gd):
            continue
        s = st.fork()
        s.assume(gd)
        n = v.length()
        if inc.get("combiningMarks"):
            ex.oblige(s, cmp('eq', q, add64(n, 3), 64), "a composed character stands for itself and its mark", "lemma")
            continue
        keep = b_and(*[cmp('eq', v.at(k, 8), o.b[k], 8) for k in range(n)])
        if inc.get("errors"):
            ex.oblige(s, b_and(keep, cmp('eq', q, add64(n, 3), 64)), "a character is kept when its mark does not apply", "lemma")
        else:
            ex.oblige(s, b_and(keep, cmp('eq', q, n, 64)), "consecutive results spell the text", "lemma")


def lem_size(ex, st):
    """what one step of the iteration consumes counts as one character"""
    for only in (0, 1):
        o = _At(ex)
        s0 = st.fork()
        s0.assume(nz(o.src, 0))
        if only:
            s0.assume(b_not(cmp('ult', o.b[0], 0x80, 8)))
        s0.assume(b_or(cmp('ult', o.b[0], 0x80, 8), b_and(valid_at(o.src, 0), b_not(modifier(o.src, 0)))))
        for gd, v, q, inc in found(o, {'d': 0}, only):
            if v is None or not ex.feasible(s0, gd):
                continue
            s = s0.fork()
            s.assume(gd)
            n, p = 0, 0
            while p < q:
                m = modifier(o.src, p)
                if ex.valid(s, m)[0]:
                    p += 3
                    continue
                ex.oblige(s.fork(), b_not(m), "no modifier inside a character", "lemma")
                n = add64(n, zext(counted(o.src, p, only), 1, 64))
                p += 1
            ex.oblige(s, b_and(cmp('eq', n, 1, 64), int(p == q)), "the size of a well-formed text is the number of characters found", "lemma")


LEM = [Lemma("iteration spells the text", lem_pieces), Lemma("size counts what iteration finds", lem_size)]
