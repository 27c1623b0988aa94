"""The kana and their readings."""
from contract import *
import kanatab
import kana
from kana import is_text, voiced_table
from kanatab import K, KANASRC

SRC = ["tu/kana.cpp"] + KANASRC
HIRAGANA, KATAKANA, ROMAJI = 0, 1, 2
HEPBURN, KUNREI = 1, 2

# ------------------------------------------------------------------ the reference: every kana and its unique reading
# rows of the syllabary (columns a i u e o), and the combinations that can be typed with usual input methods
ROWS = """
k か き く け こ|ka ki ku ke ko
g が ぎ ぐ げ ご|ga gi gu ge go
s さ し す せ そ|sa shi su se so
z ざ じ ず ぜ ぞ|za ji zu ze zo
t た ち つ て と|ta chi tsu te to
d だ ぢ づ で ど|da di du de do
n な に ぬ ね の|na ni nu ne no
h は ひ ふ へ ほ|ha hi fu he ho
b ば び ぶ べ ぼ|ba bi bu be bo
p ぱ ぴ ぷ ぺ ぽ|pa pi pu pe po
m ま み む め も|ma mi mu me mo
y や ゆ よ|ya yu yo
r ら り る れ ろ|ra ri ru re ro
w わ ゐ ゑ を|wa wyi wye wo
v ゔ ん|vu n
l ぁ ぃ ぅ ぇ ぉ ゕ ゖ ゃ ゅ ょ ゎ っ|la li lu le lo lka lke lya lyu lyo lwa ltu
"""
# digraphs: first kana, consonant, and the vowels typed for a following small ゃぃゅぇょ or ぁぃぅぇぉ
YA = {"ゃ": "a", "ぃ": "i", "ゅ": "u", "ぇ": "e", "ょ": "o"}
AA = {"ぁ": "a", "ぃ": "i", "ぅ": "u", "ぇ": "e", "ぉ": "o"}


def reference():
    """{hiragana: (reading, Hepburn reading or None, Kunrei reading or None, other readings)}"""
    r = {}
    for h, t in zip("あいうえお", "aiueo"):
        r[h] = t
    for line in ROWS.strip().splitlines():
        ks, rs = line[2:].split("|")
        for k, t in zip(ks.split(), rs.split()):
            r[k] = t
    for first, c in (("き", "ky"), ("ぎ", "gy"), ("に", "ny"), ("ひ", "hy"), ("び", "by"), ("ぴ", "py"), ("み", "my"), ("り", "ry"),
                     ("ぢ", "dy"), ("て", "th"), ("で", "dh")):
        for s, v in YA.items():
            r[first + s] = c + v
    for s, v in YA.items():
        r["し" + s] = ("sy" if v == "i" else "sh") + v
        r["じ" + s] = ("jy" if v == "i" else "j") + v
        r["ち" + s] = ("ty" if v == "i" else "ch") + v
    for first, c in (("く", "q"), ("ぐ", "gw"), ("す", "sw"), ("と", "tw"), ("ど", "dw")):
        for s, v in AA.items():
            r[first + s] = c + v
    r["くゎ"] = "qwa"
    for s, v in AA.items():
        r["ふ" + s] = ("fw" if v == "u" else "f") + v
        if v != "u":
            r["つ" + s] = "ts" + v
            r["ゔ" + s] = "v" + v
    for s in "ゃゅょ":
        r["ふ" + s] = "fy" + YA[s]
        r["ゔ" + s] = "vy" + YA[s]
    r["うぃ"], r["うぇ"], r["いぇ"] = "wi", "we", "ye"
    # Hepburn and Kunrei readings that are not the unique one
    hep = {"ぢ": "ji", "づ": "zu", "ぢゃ": "ja", "ぢゅ": "ju", "ぢょ": "jo", "ゐ": "i", "ゑ": "e", "を": "o"}
    kun = {"し": "si", "ち": "ti", "つ": "tu", "ふ": "hu", "じ": "zi", "ぢ": "zi", "づ": "zu", "ゐ": "i", "ゑ": "e", "を": "o"}
    for s, v in YA.items():
        if s in "ゃゅょ":
            kun["し" + s], kun["じ" + s], kun["ち" + s], kun["ぢ" + s] = "sy" + v, "zy" + v, "ty" + v, "zy" + v
    # further spellings that can be typed
    more = {"じゃ": ["jya"], "じゅ": ["jyu"], "じょ": ["jyo"], "じぃ": ["zyi"], "じぇ": ["zye", "jye"], "ちぇ": ["tye"], "う": ["wu"],
            "ぁ": ["xa"], "ぃ": ["xi"], "ぅ": ["xu"], "ぇ": ["xe", "lye", "xye"], "ぉ": ["xo"], "ゕ": ["xka"], "ゖ": ["xke"],
            "ゃ": ["xya"], "ゅ": ["xyu"], "ょ": ["xyo"], "ゎ": ["xwa"], "っ": ["xtu"],
            "ふぁ": ["fwa", "hwa"], "ふぃ": ["fyi", "fwi", "hwi"], "ふぇ": ["fye", "fwe", "hwe"], "ふぉ": ["fwo", "hwo"],
            "くぁ": ["kwa"], "くぃ": ["kwi", "qwi"], "くぅ": ["kwu", "qwu"], "くぇ": ["kwe", "qwe"], "くぉ": ["kwo", "qwo"]}
    out = {}
    for h, t in r.items():
        k = kun.get(h)
        own = h not in hep           # a Kunrei reading of a kana without ambiguous Hepburn reading can be typed for it
        out[h] = (t, hep.get(h), k, ([k] if k and own else []) + more.get(h, []))
    return out


REF = reference()
up = lambda s: "".join(chr(ord(c) + 0x60) for c in s)
VOICED, SEMI = voiced_table(False), voiced_table(True)
PLAIN = {v: k for t in (VOICED, SEMI) for k, v in t.items()}


def reading(h, hepburn, kunrei):
    t, he, ku, _ = REF[h]
    return he if hepburn and he else ku if kunrei and ku else t


# ------------------------------------------------------------------ entries
def call1(ex, st, q, args, params=None):
    f = find_fn(ex.modules, K + q, params)
    if f is None:
        raise Unsupported(q)
    o = ex.call_fn(st, f, args)
    if len(o) != 1 or isinstance(o[0][1], Throw):
        raise Unsupported(q)
    return o[0][1].v


def spelled(ex, st, p):
    """the constant text at p"""
    b = ex.rope(st, p).conc()
    if b is None:
        raise Unsupported("text of a kana is not constant")
    return bytes(b)


def kana_world(ex, st):
    """the tables; {hiragana: kana object}"""
    kanatab.world(ex, st)
    ex.kana = {}
    for k, p in kanatab.entries(ex, st, "Hiragana"):
        try:
            h = k.decode()
        except UnicodeDecodeError:
            h = repr(k)
        ex.kana[h] = p
    ex.by_ptr = {(p.obj, p.off.conc()): h for h, p in ex.kana.items()}


def mk_map(name, number):
    """getMap: the table of a type has exactly the specified keys, each leading to its kana"""
    def setup(ex, st):
        kana_world(ex, st)
        return [number]

    def cases(ex, st, t):
        want = {}
        for h, (r, he, ku, more) in REF.items():
            for k in [h] if number == HIRAGANA else [up(h)] if number == KATAKANA else [r] + more:
                want[k.encode()] = h

        def ret(ex, st, oc):
            p = oc.v
            g = kanatab.glob(ex, K + "Kana::" + name + "Map")
            ex.oblige(st.fork(), int(isinstance(p, Ptr) and p.obj == g.obj and p.off.conc() == g.off.conc()), f"getMap({name}): gives that table", "postcondition")
            got = dict(kanatab.entries(ex, st, name))
            ex.oblige(st.fork(), int(set(got) == set(want)), f"{name} table: exactly the specified keys", "postcondition")
            for k, h in want.items():
                q = got.get(k)
                if q is None:
                    continue
                r = [spelled(ex, st, call1(ex, st, f, [q])) for f in ("vcHiragana", "vcKatakana", "vcRomaji")]
                ok = r == [h.encode(), up(h).encode(), REF[h][0].encode()]
                n = call1(ex, st, "vcVariantCount", [q])
                if not is_c(n):
                    raise Unsupported("number of variants")
                v = [spelled(ex, st, call1(ex, st, "vcVariant", [q, i])) for i in range(n)]
                ok = ok and sorted(v) == sorted(x.encode() for x in REF[h][3])
                ok = ok and ex.kana.get(h) is not None and (ex.kana[h].obj, ex.kana[h].off.conc()) == (q.obj, q.off.conc())
                ex.oblige(st.fork(), int(ok), f"{name} table: {k.decode()} leads to the one kana with the specified texts", "postcondition")
        return [Case(name, 1, ret=ret)]
    return Fn(K + "Kana::getMap", ["kanji_tools::CharType"], 'any', setup, cases, srcs=SRC, title=f"getMap({name})", cmd="getMap", nocall=True)


MAPS = [mk_map(n, t) for n, t in (("Hiragana", HIRAGANA), ("Katakana", KATAKANA), ("Romaji", ROMAJI))]


def text_of(ex, st, oc, name, alts):
    """the returned reference is to one of the given texts: alts [(condition, text)]"""
    got = ex.rope(st, oc.v)
    ex.oblige(st.fork(), b_or(*[b_and(c, is_text(got, t)) for c, t in alts]), name, "postcondition")


def bit(v, b):
    return cmp('ne', iand(v, b), 0, 8)


def iand(v, b):
    return v & b if is_c(v) else bv(v, 8) & z3.BitVecVal(b, 8)


def flag_alts(h, flags):
    """[(condition on the flags, reading)]"""
    he, ku = bit(flags, HEPBURN), bit(flags, KUNREI)
    return [(b_and(he if a else b_not(he), ku if b else b_not(ku)), reading(h, a, b)) for a in (0, 1) for b in (0, 1)]


def type_alts(h, t, flags):
    return [(cmp('eq', t, HIRAGANA, 8), h), (cmp('eq', t, KATAKANA, 8), up(h))] + [(b_and(cmp('eq', t, ROMAJI, 8), c), r) for c, r in flag_alts(h, flags)]


def each_kana(more):
    def each(ex, st):
        for h, p in ex.kana.items():
            if h in REF:
                yield h, [p] + more(ex, st)
    return each


def kana_of(ex, p):
    return ex.by_ptr[(p.obj, p.off.conc())]


def mk(q, params, kind, args, cases, title=None, pre=None):
    """a member function, on every kana"""
    return Fn(K + "Kana::" + q, params, kind, lambda ex, st: kana_world(ex, st), cases, srcs=SRC, each=each_kana(args), nocall=True, pre=pre,
              title=title or q, cmd=title or q, mode='unroll', cost=5)


def char_type(ex, st, t):
    return [("a character type", cmp('ule', t, 2, 8))]


def romaji_cases(ex, st, this, flags):
    h = kana_of(ex, this)
    return [Case("reading", 1, ret=lambda ex, st, oc: text_of(ex, st, oc, f"getRomaji [{h}]: the reading in the chosen system", flag_alts(h, flags)))]


def get_cases(ex, st, this, t, flags):
    h = kana_of(ex, this)
    return [Case("text", 1, ret=lambda ex, st, oc: text_of(ex, st, oc, f"get [{h}]: the text of that type", type_alts(h, t, flags)))]


def sokuon_cases(ex, st, this, flags):
    h = kana_of(ex, this)
    dbl = lambda r: ("t" if r[0] == "c" else r[0]) + r
    return [Case("reading", 1, ret=lambda ex, st: [(c, Rope(1, (Lit(list(dbl(r).encode())),))) for c, r in flag_alts(h, flags)])]


def voice_cases(table, want_text):
    def cases(ex, st, this, t=None):
        h = kana_of(ex, this)
        v = table.get(h)
        if not want_text:
            return [Case("linked kana", 1, ret=NULL if v is None else ex.kana[v])]
        if v is None:
            return [Case("has none", 1, ret=[(32, 1, 0)])]
        out = []
        for c, s in type_alts(v, t, 0):
            if is_c(c) and not c:
                continue
            out.append(Case(s, c, ret=[(0, 32, Rope(1, (Lit(list(s.encode())),))), (32, 1, 1)]))
        return out
    return cases


def flag_is(f):
    return lambda ex, st, this: [Case("as specified", 1, ret=int(f(kana_of(ex, this))))]


def contains_cases(ex, st, this, s):
    h = kana_of(ex, this)
    r = ex.rope(st, s)
    return [Case("equals one of its texts", 1, ret=b_or(is_text(r, h), is_text(r, up(h))))]


SMALL = "ぁぃぅぇぉゕゖゃゅょゎっ"
t_arg = lambda ex, st: [sym_int(ex, st, "type", 8)]
fl_arg = lambda ex, st: [sym_int(ex, st, "flags", 8)]
FL, CT, STR = "kanji_tools::ConvertFlags", "kanji_tools::CharType", "std::string const&"
MEMBERS = [
    mk("getRomaji", [FL], 'any', fl_arg, romaji_cases),
    mk("get", [CT, FL], 'any', lambda ex, st: t_arg(ex, st) + fl_arg(ex, st), get_cases, pre=lambda ex, st, this, t, f: char_type(ex, st, t)),
    mk("getSokuonRomaji", [FL], 'str', fl_arg, sokuon_cases),
    mk("dakuten", [CT], 'sret', t_arg, voice_cases(VOICED, True), pre=lambda ex, st, this, t: char_type(ex, st, t)),
    mk("hanDakuten", [CT], 'sret', t_arg, voice_cases(SEMI, True), pre=lambda ex, st, this, t: char_type(ex, st, t)),
    mk("isSmall", [], 'bool', lambda ex, st: [], flag_is(lambda h: h in SMALL)),
    mk("isMonograph", [], 'bool', lambda ex, st: [], flag_is(lambda h: len(h) == 1)),
    mk("isDigraph", [], 'bool', lambda ex, st: [], flag_is(lambda h: len(h) == 2)),
    mk("isDakuten", [], 'bool', lambda ex, st: [], flag_is(lambda h: h in VOICED.values() or h[0] == "ゔ")),
    mk("isHanDakuten", [], 'bool', lambda ex, st: [], flag_is(lambda h: h in SEMI.values())),
    mk("containsKana", [STR], 'bool', lambda ex, st: [sym_str(ex, st, "s")], contains_cases),
]


# ------------------------------------------------------------------ equality
def mk_eq():
    def setup(ex, st):
        kana_world(ex, st)
        h = "か"
        p = ex.kana.get(h)
        if p is None:
            raise Unsupported("no kana " + h)
        ex.pair = []
        for n in "ab":
            q = Ptr(p.obj, p.off)
            off = call1(ex, st, "vcRomaji", [q])
            o = st.mem[p.obj]
            new = ex.new_obj(st, 'cells', None, "kana " + n)
            base = p.off.conc()
            for c, v in o.cells.items():
                if base <= c < base + 160 and c != off.off.conc():
                    st.mem[new.obj].cells[c - base] = v
            s = sym_str(ex, st, "reading of " + n)
            ex.set_rope(st, new + (off.off.conc() - base), ex.rope(st, s))
            ex.pair.append(new)
        return list(ex.pair)

    def cases(ex, st, a, b):
        ra, rb = [ex.rope(st, call1(ex, st, "vcRomaji", [p])) for p in (a, b)]
        return [Case("same reading", 1, ret=rope_eq(ex, st, ra, rb, exact=True))]
    return Fn(K + "Kana::operator==", ["kanji_tools::Kana const&"], 'bool', setup, cases, srcs=SRC, title="operator==", nocall=True)


# ------------------------------------------------------------------ iteration marks
MARKS = [("RepeatPlain", "ゝ", "ヽ"), ("RepeatAccented", "ゞ", "ヾ")]


def mark_ptr(ex, name):
    return kanatab.glob(ex, K + "Kana::" + name)


def mark_of(ex, p):
    return [i for i, (n, _, _) in enumerate(MARKS) if mark_ptr(ex, n).obj == p.obj][0]


def mk_matches():
    def cases(ex, st, this, t, s):
        _, h, k = MARKS[mark_of(ex, this)]
        r = ex.rope(st, s)
        return [Case("is the mark of that type", 1, ret=b_or(b_and(cmp('eq', t, HIRAGANA, 8), is_text(r, h)), b_and(cmp('eq', t, KATAKANA, 8), is_text(r, k))))]
    return Fn(K + "Kana::IterationMark::matches", [CT, STR], 'bool', lambda ex, st: kana_world(ex, st), cases, srcs=SRC, title="IterationMark::matches",
              each=lambda ex, st: [(n, [mark_ptr(ex, n), sym_int(ex, st, "type", 8), sym_str(ex, st, "s")]) for n, _, _ in MARKS], nocall=True)


def mk_find():
    def cases(ex, st, t, s):
        r = ex.rope(st, s)
        gs = [b_or(b_and(cmp('eq', t, HIRAGANA, 8), is_text(r, h)), b_and(cmp('eq', t, KATAKANA, 8), is_text(r, k))) for _, h, k in MARKS]
        return [Case(n, g, ret=mark_ptr(ex, n)) for (n, _, _), g in zip(MARKS, gs)] + [Case("not a mark", b_not(b_or(*gs)), ret=NULL)]

    def setup(ex, st):
        kana_world(ex, st)
        return [sym_int(ex, st, "type", 8), sym_str(ex, st, "s")]
    return Fn(K + "Kana::findIterationMark", [CT, STR], 'ptr', setup, cases, srcs=SRC, title="findIterationMark", nocall=True)


def mk_mark_get():
    def each(ex, st):
        for i, (n, _, _) in enumerate(MARKS):
            for h in [None] + list(ex.kana):
                if h is None or h in REF:
                    yield f"{n}, after {h}", [mark_ptr(ex, n), sym_int(ex, st, "type", 8), sym_int(ex, st, "flags", 8), NULL if h is None else ex.kana[h]]

    def cases(ex, st, this, t, flags, prev):
        i = mark_of(ex, this)
        _, h, k = MARKS[i]
        alts = [(cmp('eq', t, HIRAGANA, 8), h), (cmp('eq', t, KATAKANA, 8), k)]
        if prev.obj == 0:
            alts.append((cmp('eq', t, ROMAJI, 8), ""))
        else:
            p = kana_of(ex, prev)
            q = VOICED.get(p, p) if i else PLAIN.get(p, p)
            alts += [(b_and(cmp('eq', t, ROMAJI, 8), c), r) for c, r in flag_alts(q, flags)]
        return [Case("mark or repeated reading", 1, ret=lambda ex, st, oc: text_of(ex, st, oc, f"IterationMark::get{ex.label}: as specified", alts))]
    return Fn(K + "Kana::IterationMark::get", [CT, FL, "kanji_tools::Kana const*"], 'any', lambda ex, st: kana_world(ex, st), cases, srcs=SRC,
              each=each, title="IterationMark::get", nocall=True, mode='unroll', cost=8, pre=lambda ex, st, this, t, f, p: char_type(ex, st, t))


def mk_special(name, h):
    def setup(ex, st):
        kana_world(ex, st)
        return []
    return Fn(K + "vc" + name, [], 'ptr', setup, lambda ex, st: [Case(name, 1, ret=ex.kana.get(h, NULL))], srcs=SRC, title=name, cmd="special kana", nocall=True)


def mk_link(name, table):
    """virtual: the linked kana"""
    return Fn(K + name, None, 'ptr', lambda ex, st: kana_world(ex, st), voice_cases(table, False), srcs=SRC, each=each_kana(lambda ex, st: []),
              nocall=True, title=name[2:] + " kana", cmd="linked kana", mode='unroll', cost=3)


MEMBERS += [mk_link("vcPlain", PLAIN), mk_link("vcDakuten", VOICED), mk_link("vcHanDakuten", SEMI)]
ITEMS = MAPS + MEMBERS + [mk_eq(), mk_matches(), mk_find(), mk_mark_get(), mk_special("SmallTsu", "っ"), mk_special("N", "ん")]
