"""Conversion between kana and romaji."""
from contract import *
import lockstep
import kanatab
import maps
import strings
from kanatab import K, KANASRC

SRC = ["libs/kana/src/Converter.cpp", "libs/utils/src/EnumContainer.cpp", "libs/utils/src/Exception.cpp", "libs/kana/src/Utf8Char.cpp"] + KANASRC
HIRAGANA, KATAKANA, ROMAJI = 0, 1, 2
NAME = ["Hiragana", "Katakana", "Romaji"]
PROLONG = "ー".encode()
CONV = K + "Converter::"
CT, STR, FL = "kanji_tools::CharType", "std::string const&", "kanji_tools::ConvertFlags"


def lit(b):
    return Rope(1, (Lit(tuple(b)),)) if b else Rope(1)


def one_of(bs, words):
    """the bytes are one of the words"""
    return b_or(*[b_and(*[eq(x, y, 8) for x, y in zip(bs, w)]) for w in words if len(w) == len(bs)])


def bytes_of(r):
    """the elements of a text of constant length"""
    out = []
    for x in r.p:
        if not isinstance(x, Lit):
            return None
        out += x.e
    return out


# ------------------------------------------------------------------ the kana tables as seen by the converter (proved for C17)
class Kanas:
    """the entries of a kana table: which texts are entries is known exactly; an entry is known by its key and its readings are
    functions of it"""

    def __init__(self, ex, st):
        kanatab.world(ex, st, tokens=True)
        self.keys = [sorted(k for k, _ in kanatab.entries(ex, st, NAME[t])) for t in range(3)]
        self.texts, self.objs = {}, {}
        ex.kanas = self

    def has(self, t, key):
        b = bytes_of(key)
        if b is not None:
            return one_of(b, self.keys[t])
        return b_or(*[rope_eq(self.ex, None, key, lit(k)) for k in self.keys[t]])

    def obj(self, ex, st, t, key):
        """the kana of an entry"""
        k = (t, repr_key(key))
        i = self.objs.setdefault(k, len(self.objs))
        oid = ('kana', i)
        if oid not in st.mem:
            o = st.mem[oid] = Obj('cells', None, 'kana')
            o.const = True
            o.cells = {}
        ex.__dict__.setdefault('kana_key', {})[oid] = (t, key)
        return Ptr(oid)

    def text(self, ex, st, name, lo, hi):
        """an arbitrary text that depends only on `name`"""
        if name not in self.texts:
            arr = ex.fresh_arr("text", 1)
            n = ex.fresh("text.len", 64)
            self.texts[name] = (arr, n, b_and(cmp('ule', lo, n, 64), cmp('ule', n, hi, 64), z3.Select(arr, n) == 0))
        arr, n, f = self.texts[name]
        if not any(x is y for x in f.children() for y in st.pc[-60:]):
            st.assume(f)
        return Rope(1, (Sl(arr_src(arr, n), 0, n),))

    def get(self, ex, st, p, target, flags):
        """the text of a kana for a target"""
        t, key = ex.kana_key[p.obj]
        if target == ROMAJI:
            return self.text(ex, st, ('reading', p.obj, _kk(flags)), 1, 4)
        if target == t:
            return key
        if t == ROMAJI:
            b = self.text(ex, st, ('kana', p.obj, target), 3, 6)
            return b
        b = bytes_of(key)
        if b is None:
            raise Unsupported("kana of unknown size")
        out = []
        for i in range(0, len(b), 3):
            one = b[i:i + 3]
            k = ('conv', target, tuple(_kk(x) for x in one))
            if all(is_c(x) for x in one):
                out += list(shifted(bytes(one), target))
                continue
            if k not in self.texts:
                self.texts[k] = [ex.fresh("conv", 8) for _ in range(3)]
            out += self.texts[k]
        return lit(out)

    def ref(self, ex, st, key, r):
        """a reference to the text"""
        i = self.objs.setdefault(('ref', key), len(self.objs))
        oid = ('text', i)
        if oid not in st.mem:
            st.mem[oid] = Obj('cells', 32, 'text')
            st.owned.add(oid)
            w, st.wlog = st.wlog, None
            ex.set_rope(st, Ptr(oid), r)
            st.wlog = w
        return Ptr(oid)


def _kk(v):
    return v if is_c(v) or isinstance(v, str) else v.sexpr()


def shifted(b, target):
    """the counterpart of a kana text in the other syllabary"""
    d = 0x60 if target == KATAKANA else -0x60
    return "".join(chr(ord(c) + d) for c in b.decode()).encode()


def is_kana(p):
    return isinstance(p, Ptr) and isinstance(p.obj, tuple) and p.obj[0] == 'kana'


def h_get_map(ex, st, a, ps, full, ins):
    t = a[0]
    if not is_c(t):
        raise Unsupported("table of an unknown type")
    oid = ('kanamap', t)
    if oid not in st.mem:
        st.mem[oid] = Obj('cells', maps.MAPSZ, NAME[t] + " table")
        st.owned.add(oid)
        kn = ex.kanas
        b = maps.Base("table%d" % t, lambda ex, st, key: {0: (8, kn.obj(ex, st, t, key))}, lambda ex, st, key: kn.has(t, key))
        w, st.wlog = st.wlog, None
        ex.store_raw(st, Ptr(oid), maps.MAPSZ, maps.MapV(b, (), 'std::string', 'kanji_tools::Kana const*'))
        st.wlog = w
    return Ptr(oid)


def h_kana_get(ex, st, a, ps, full, ins):
    if not is_kana(a[0]):
        return NotImplemented
    return target_ref(ex, st, a[0], a[1], a[2])


def target_ref(ex, st, p, t, flags):
    if not is_c(t):
        raise Unsupported("unknown target")
    return ex.kanas.ref(ex, st, (p.obj, t, _kk(flags)), ex.kanas.get(ex, st, p, t, flags))


def h_romaji(ex, st, a, ps, full, ins):
    return target_ref(ex, st, a[0], ROMAJI, 'unique') if is_kana(a[0]) else NotImplemented


def h_get_romaji(ex, st, a, ps, full, ins):
    return target_ref(ex, st, a[0], ROMAJI, a[1]) if is_kana(a[0]) else NotImplemented


def sokuon(ex, st, p, flags):
    r = ex.kanas.get(ex, st, p, ROMAJI, flags)
    f = r.at(0, 8)
    return lit([b_ite(eq(f, ord('c'), 8), ord('t'), f, 8)]) + r


def h_sokuon(ex, st, a, ps, full, ins):
    if not is_kana(a[1]):
        return NotImplemented
    ex.set_rope(st, a[0], sokuon(ex, st, a[1], a[2]))
    return Ret(None)


def repeated(ex, st, mark, p, flags):
    """the reading written for an iteration mark after a kana"""
    if p.obj == 0:
        return Rope(1)
    return ex.kanas.text(ex, st, ('repeat', mark.obj, p.obj, _kk(flags)), 1, 4)


def h_mark_get(ex, st, a, ps, full, ins):
    this, t, flags, prev = a
    if not is_c(t) or t != ROMAJI or not is_kana(prev):
        return NotImplemented
    return ex.kanas.ref(ex, st, (this.obj, prev.obj, _kk(flags)), repeated(ex, st, this, prev, flags))


def h_iter_ctor(ex, st, a, ps, full, ins):
    r = ex.rope(st, a[1])
    want = st.ghost.get('input')
    if want is None or not lockstep_same(ex, st, r, want):
        raise Unsupported("characters of another text")
    ex.set_rope(st, a[0], r)
    lockstep.open_stream(ex, st)
    return Ret(None)


def lockstep_same(ex, st, a, b):
    c = rope_eq(ex, st, a, b)
    return bool(c) if is_c(c) else ex.valid(st, c)[0]


def h_next(ex, st, a, ps, full, ins):
    if not is_c(a[2]) or a[2]:
        raise Unsupported("iteration over multi-byte characters only")
    out = []
    for s, item in lockstep.take(ex, st):
        if item is None:
            out.append((s, Ret(0)))
        else:
            ex.set_rope(s, a[1], item.text)
            out.append((s, Ret(1)))
    return out


def h_lower(ex, st, a, ps, full, ins):
    b = bytes_of(ex.rope(st, a[1]))
    if b is None:
        return NotImplemented
    ex.set_rope(st, a[0], lit([low(x) for x in b]))
    return Ret(None)


HANDLERS = {K + "toLower": h_lower, K + "Kana::getMap": h_get_map, K + "Kana::get": h_kana_get, K + "Kana::romaji": h_romaji, K + "Kana::getRomaji": h_get_romaji,
            K + "Kana::getSokuonRomaji": h_sokuon, K + "Kana::IterationMark::get": h_mark_get,
            K + "Utf8Char::Utf8Char": h_iter_ctor, K + "Utf8Char::next": h_next}


# ------------------------------------------------------------------ the characters of a text (proved for C16)
class Item:
    def __init__(self, kind, text):
        self.kind, self.text = kind, text


def sym_bytes(ex, st, n, *fs):
    b = [ex.fresh("c", 8) for _ in range(n)]
    for f in fs:
        st.assume(f(b))
    return lit(b)


MARKS = {HIRAGANA: ["ゝ", "ゞ"], KATAKANA: ["ヽ", "ヾ"]}
SMALL_TSU = {HIRAGANA: "っ", KATAKANA: "ッ"}
THE_N = {HIRAGANA: "ん", KATAKANA: "ン"}
SMALL = {HIRAGANA: "ぁぃぅぇぉゃゅょゎ"}
AFTER_N = {HIRAGANA: "あいうえおやゆよ"}
SMALL[KATAKANA], AFTER_N[KATAKANA] = [shifted(x[HIRAGANA].encode(), KATAKANA).decode() for x in (SMALL, AFTER_N)]
DELIMS = dict(zip("　！”＃＄％＆（）＊＋、。・０１２３４５６７８９：；＜＝＞？＠「￥」＾＿｀『｜』〜",
                  " !\"#$%&()*+,./0123456789:;<=>?@[\\]^_`{|}~"))
NOTSPECIAL = "bcdfghjkmpqrstvwyz"          # the consonants that are repeated for a small tsu


def utf8s(s):
    return [c.encode() for c in s]


class FromKana(lockstep.Spec):
    """kana text to the other syllabary or to romaji: the text is cut into groups (a kana with a following small kana, either with a
    small tsu before it, or a single kana), each group is written for the target"""
    roles = ('grp', 'out', 'prev')

    def __init__(self, ex, source, target, flags):
        self.src, self.tgt, self.flags = source, target, flags
        self.mono = [k for k in ex.kanas.keys[source] if len(k) == 3]

    def start(self, ex, st):
        return {'out': Rope(1), 'grp': (), 'mode': 'new', 'prev': NULL}

    # items
    def kind_text(self, ex, st, kind):
        s = self.src
        if kind == 'tsu':
            return lit(SMALL_TSU[s].encode())
        if kind == 'n':
            return lit(THE_N[s].encode())
        if kind == 'small':
            return sym_bytes(ex, st, 3, lambda b: one_of(b, utf8s(SMALL[s])))
        if kind == 'kana':
            no = utf8s(SMALL[s] + SMALL_TSU[s] + THE_N[s])
            return sym_bytes(ex, st, 3, lambda b: one_of(b, [k for k in self.mono if k not in no]))
        raise Unsupported(kind)

    def items(self, ex, st):
        s = self.src
        special = utf8s("ー" + "".join(MARKS[s])) + self.mono
        out = [(k, lambda ex, st, k=k: Item(k, self.kind_text(ex, st, k))) for k in ('tsu', 'n', 'small', 'kana')]
        out.append(('prolong', lambda ex, st: Item('prolong', lit(PROLONG))))
        for i, m in enumerate(MARKS[s]):
            out.append((m, lambda ex, st, i=i, m=m: Item(('mark', i), lit(m.encode()))))
        out.append(('wide delimiter', lambda ex, st: Item('other', sym_bytes(ex, st, 3, lambda b: one_of(b, utf8s("".join(DELIMS)))))))
        out.append(('other character of 3 bytes', lambda ex, st: Item('other', sym_bytes(
            ex, st, 3, lambda b: b_not(one_of(b, special)), lambda b: b_not(one_of(b, utf8s("".join(DELIMS))))))))
        out.append(('3 bytes and selector', lambda ex, st: Item('other', sym_bytes(
            ex, st, 6, lambda b: b_and(eq(b[3], 0xEF, 8), eq(b[4], 0xB8, 8), cmp('uge', b[5], 0x80, 8), cmp('ule', b[5], 0x8F, 8))))))
        for n in (1, 2, 4, 5, 7):
            out.append((f'other of {n} bytes', lambda ex, st, n=n: Item('other', sym_bytes(ex, st, n))))
        return out

    # groups
    def text(self, ex, st, p):
        return ex.kanas.get(ex, st, p, self.tgt, self.flags)

    def lengthened(self, ex, st, r, prolong):
        """[(condition, text)]"""
        if not prolong:
            return [(1, r)]
        if self.tgt != ROMAJI:
            return [(1, r + lit(PROLONG))]
        out = []
        n = r.length()
        last = r.at(sub64(n, 1), 8)
        stem = stl.substr(ex, st, r, 0, sub64(n, 1)) if hasattr(stl, 'substr') else None
        no = 1
        for v, m in zip("aiueo", "āīūēō"):
            c = eq(last, ord(v), 8)
            out.append((c, stem + lit(m.encode())))
            no = b_and(no, b_not(c))
        out.append((no, r + lit(PROLONG)))
        return out

    def written(self, ex, st, grp, prolong, prev):
        """[(condition, text, last kana)] of a group"""
        kn = ex.kanas
        if not grp:
            return [(1, lit(PROLONG) if prolong else Rope(1), prev)]
        whole = join(grp)
        if self.tgt != ROMAJI:                # one kana of the other syllabary for each
            return [(1, join([(0, self.text(ex, st, kn.obj(ex, st, self.src, t))) for _, t in grp]) + (lit(PROLONG) if prolong else Rope(1)), NULL)]
        out = []

        def entry(cond, key, text=None, before=None):
            p = kn.obj(ex, st, self.src, key)
            r = (text or self.text)(ex, st, p)
            for c, t in self.lengthened(ex, st, r, prolong):
                out.append((b_and(cond, c), t if before is None else before + t, NULL if prolong else p))
        known = kn.has(self.src, whole)
        if not is_c(known) or known:
            entry(known, whole)
        if len(grp) == 1 or is_c(known) and known:
            return out
        rest = join(grp[1:])
        hr = kn.has(self.src, rest)
        c = b_and(b_not(known), hr)
        if not is_c(c) or c:
            rep = 0
            if self.tgt == ROMAJI and grp[0][0] == 'tsu':
                first = kn.get(ex, st, kn.obj(ex, st, self.src, rest), ROMAJI, 'unique').at(0, 8)
                rep = b_or(*[eq(first, ord(x), 8) for x in NOTSPECIAL])
                entry(b_and(c, rep), rest, lambda ex, st, p: sokuon(ex, st, p, self.flags))
            c2 = b_and(c, b_not(rep))
            if not is_c(c2) or c2:
                for c3, t, _ in self.written(ex, st, grp[:1], False, prev):
                    entry(b_and(c2, c3), rest, None, t)
        c = b_and(b_not(known), b_not(hr))
        if not is_c(c) or c:
            for c1, t1, _ in self.written(ex, st, grp[:-1], False, prev):
                for c2, t2, p2 in self.written(ex, st, grp[-1:], prolong, prev):
                    out.append((b_and(c, c1, c2), t1 + t2, p2))
        return out

    def flush(self, ex, st, gh, prolong=False, nxt=None):
        """[(condition, state with the group written)]"""
        out = []
        for c, t, p in self.written(ex, st, gh['grp'], prolong, gh['prev']):
            g = dict(gh, out=gh['out'] + t, grp=(), mode='new', prev=p)
            if self.tgt == ROMAJI and len(gh['grp']) == 1 and gh['grp'][0][0] == 'n' and nxt is not None:
                a = one_of(bytes_of(nxt.text), utf8s(AFTER_N[self.src]))
                out.append((b_and(c, a), dict(g, out=g['out'] + lit(b"'"))))
                c = b_and(c, b_not(a))
            out.append((c, g))
        return out

    def step(self, ex, st, gh, item):
        k = item.kind
        me = ((k, item.text),)
        if k == 'prolong':
            return self.flush(ex, st, gh, True)
        if k in ('tsu', 'n'):
            return [(c, dict(g, grp=me, mode='tsu' if k == 'tsu' else 'done')) for c, g in self.flush(ex, st, gh)]
        if k in ('small', 'kana'):
            if gh['mode'] != 'done':
                if k == 'small':
                    return [(1, dict(gh, grp=gh['grp'] + me, mode='done'))]
                if len(gh['grp']) <= (1 if gh['mode'] == 'tsu' else 0):
                    return [(1, dict(gh, grp=gh['grp'] + me))]
            return [(c, dict(g, grp=me)) for c, g in self.flush(ex, st, gh, False, item)]
        out = []
        for c, g in self.flush(ex, st, gh):
            if k == 'other':
                add = [(1, item.text)]
                if self.tgt == ROMAJI and bytes_of(item.text) is not None and len(bytes_of(item.text)) == 3:
                    b = bytes_of(item.text)
                    hit = one_of(b, utf8s("".join(DELIMS)))
                    n = 0
                    for w, a in DELIMS.items():
                        n = b_ite(one_of(b, [w.encode()]), ord(a), n, 8)
                    add = [(hit, lit([n if is_c(n) else simp(n)])), (b_not(hit), item.text)]
            elif self.tgt == ROMAJI:
                m = kanatab.glob(ex, K + "Kana::" + ("RepeatPlain", "RepeatAccented")[k[1]])
                add = [(1, repeated(ex, st, m, g['prev'], self.flags))]
            else:
                add = [(1, lit(MARKS[self.tgt][k[1]].encode()))]
            for c2, t in add:
                out.append((b_and(c, c2), dict(g, out=g['out'] + t)))
        return out

    def fin(self, ex, st, gh):
        return [(c, g['out']) for c, g in self.flush(ex, st, gh)]

    # relation
    def comps(self, ex, st, gh):
        return {'out': gh['out'], 'grp': join(gh['grp']), 'prev': gh['prev']}

    def shape(self, gh):
        return (tuple(k for k, _ in gh['grp']), gh['mode'], gh['prev'].obj != 0)

    def havoc(self, ex, st, shape):
        ks, mode, prev = shape
        n = ex.fresh("out.len", 64)
        st.assume(z3.ULT(n, MAXLEN))
        arr = ex.fresh_arr("out", 1)
        grp = tuple((k, self.kind_text(ex, st, k)) for k in ks)
        p = ex.kanas.obj(ex, st, self.src, lit([ex.fresh("prev", 8) for _ in range(3)])) if prev else NULL
        return {'out': Rope(1, (Sl(arr_src(arr, n), 0, n),)), 'grp': grp, 'mode': mode, 'prev': p}


def join(grp):
    r = Rope(1)
    for _, t in grp:
        r = r + t
    return r


def converter(ex, st, target, flags):
    p = ex.new_obj(st, 'cells', 2, 'converter')
    ex.store_raw(st, p, 1, target)
    ex.store_raw(st, p + 1, 1, flags)
    return p


def mk_from_kana(source, target):
    def setup(ex, st):
        Kanas(ex, st).ex = ex
        ex.contracts.update(HANDLERS)
        flags = sym_int(ex, st, "flags", 8)
        p = converter(ex, st, target, flags)
        s = sym_str(ex, st, "input")
        st.ghost['input'] = ex.rope(st, s)
        ex.lock = FromKana(ex, source, target, flags)
        return [p, source, s]

    def want(ex, st):
        if 'spec' not in st.ghost:
            raise Unsupported("the characters of the text are not taken one by one")
        return ex.lock.fin(ex, st, st.ghost['spec'])
    return Fn(CONV + "convert", ["kanji_tools::CharType", "std::string const&"], 'str', setup,
              lambda ex, st, this, t, s: [Case("converted", 1, ret=want)], srcs=SRC, full="const\0", mode='inv',
              title=f"convert {NAME[source]} to {NAME[target]}", cmd=f"convert {NAME[source]} to {NAME[target]}", nocall=True, cost=20)


FROM_KANA = [mk_from_kana(s, t) for s in (HIRAGANA, KATAKANA) for t in (HIRAGANA, KATAKANA, ROMAJI) if s != t]


# ------------------------------------------------------------------ romaji
def low(b):
    r = strings.conv(b, False)
    return r if is_c(r) else simp(r)


def is_n(b):
    return b_or(eq(b, ord('n'), 8), eq(b, ord('N'), 8))


MACRONS = dict(zip("āīūēō", zip("aiueo", "あいうえお")))


class ToKana(lockstep.Spec):
    """romaji to kana, one letter after the other: at most two letters wait for the ones that complete them"""
    roles = ('let', 'out')

    def __init__(self, ex, target, flags):
        self.tgt, self.flags = target, flags
        self.tsu, self.n = lit(SMALL_TSU[target].encode()), lit(THE_N[target].encode())

    def start(self, ex, st):
        return {'out': Rope(1), 'let': ()}

    def letter(self, ex, st, kind):
        b = ex.fresh("c", 8)
        if kind == 'n':
            st.assume(is_n(b))
        else:
            st.assume(b_and(b_not(is_n(b)), cmp('ult', 0, b, 8), cmp('ult', b, 0x80, 8)))
        return b

    def items(self, ex, st):
        out = []
        for k in ('n', 'c'):
            def mk(ex, st, k=k):
                b = self.letter(ex, st, k)
                return Item((k, b), lit([b]))
            out.append((k, mk))
        for m in MACRONS:
            out.append((m, lambda ex, st, m=m: Item(('macron', m), lit(m.encode()))))
        for n in range(2, 8):
            out.append((f"{n} bytes", lambda ex, st, n=n: Item(('other',), sym_bytes(
                ex, st, n, lambda b: b_and(cmp('uge', b[0], 0x80, 8), b_not(one_of(b, utf8s("".join(MACRONS)))))))))
        return out

    def proc(self, ex, st, let, depth=0):
        """[(condition, text, remaining letters)]: the letters as one kana, or the first of three split off"""
        kn = ex.kanas
        if not let:
            return [(1, Rope(1), let)]
        ls = [low(b) for _, b in let]
        key = lit(ls)
        known = kn.has(ROMAJI, key)
        out = [(known, kn.get(ex, st, kn.obj(ex, st, ROMAJI, key), self.tgt, self.flags), ())]
        no = b_not(known)
        if len(let) < 3:
            return out + [(no, Rope(1), let)]
        n = eq(ls[0], ord('n'), 8)
        rep = b_and(b_or(eq(ls[0], ls[1], 8), b_and(eq(ls[0], ord('t'), 8), eq(ls[1], ord('c'), 8))), one_of([ls[0]], [x.encode() for x in NOTSPECIAL]))
        for c, t in ((n, self.n), (b_and(b_not(n), rep), self.tsu), (b_and(b_not(n), b_not(rep)), lit([let[0][1]]))):
            for c2, t2, l2 in self.proc(ex, st, let[1:]):
                out.append((b_and(no, c, c2), t + t2, l2))
        return [(c, t, l) for c, t, l in out if not is_c(c) or c]

    def done(self, ex, st, let):
        """[(condition, text)] of the remaining letters when none follow"""
        if not let:
            return [(1, Rope(1))]
        if len(let) == 1:
            return [(1, self.n if let[0][0] == 'n' else lit([let[0][1]]))]
        out = []
        for c, t, l in self.proc(ex, st, let[1:]):
            out += [(b_and(c, c2), lit([let[0][1]]) + t + t2) for c2, t2 in self.done(ex, st, l)]
        return out

    def step(self, ex, st, gh, item):
        k = item.kind
        let, out = gh['let'], gh['out']
        if k[0] == 'n':
            if let and let[0][0] == 'n' and len(let) == 1:
                return [(1, dict(gh, out=out + self.n))]
            return [(1, dict(out=out + lit([b for _, b in let]), let=(k,)))]
        if k[0] == 'c':
            return [(c, dict(out=out + t, let=l)) for c, t, l in self.proc(ex, st, let + (k,))]
        if k[0] == 'macron':
            v, double = MACRONS[k[1]]
            me = ('c', ord(v))
            r = []
            for c, t, l in self.proc(ex, st, let + (me,)):
                if not l:
                    longv = [(1, lit(PROLONG))]
                    if self.tgt == HIRAGANA:
                        f = eq(z3.Extract(2, 2, bv(self.flags, 8)), 1, 1)
                        longv = [(f, lit(double.encode())), (b_not(f), lit(PROLONG))]
                    r += [(b_and(c, c2), dict(out=out + t + t2, let=())) for c2, t2 in longv]
                else:
                    for c2, t2, l2 in self.proc(ex, st, (me,)):
                        r.append((b_and(c, c2), dict(out=out + t + lit([b for _, b in l[:-1]]) + t2, let=l2)))
            return [(c, g) for c, g in r if not is_c(c) or c]
        return [(c, dict(out=out + t + item.text, let=())) for c, t in self.done(ex, st, let)]

    def fin(self, ex, st, gh):
        return [(c, gh['out'] + t) for c, t in self.done(ex, st, gh['let'])]

    def comps(self, ex, st, gh):
        return {'out': gh['out'], 'let': lit([b for _, b in gh['let']])}

    def shape(self, gh):
        return tuple(k for k, _ in gh['let'])

    def havoc(self, ex, st, shape):
        return {'out': any_text(ex, st), 'let': tuple((k, self.letter(ex, st, k)) for k in shape)}


def any_text(ex, st):
    n = ex.fresh("out.len", 64)
    st.assume(z3.ULT(n, MAXLEN))
    return Rope(1, (Sl(arr_src(ex.fresh_arr("out", 1), n), 0, n),))


def final(ex, st):
    if 'spec' not in st.ghost:
        raise Unsupported("the characters of the text are not taken one by one")
    return ex.lock.fin(ex, st, st.ghost['spec'])


def target_of(ex, st, this):
    t = ex.load(st, this, maps._IT[1])
    return t, ex.load(st, this + 1, maps._IT[1])


def mk_to_kana(target):
    def setup(ex, st):
        Kanas(ex, st).ex = ex
        ex.contracts.update(HANDLERS)
        flags = sym_int(ex, st, "flags", 8)
        p = converter(ex, st, target, flags)
        s = sym_str(ex, st, "input")
        st.ghost['input'] = ex.rope(st, s)
        ex.lock = ToKana(ex, target, flags)
        return [p, s]

    def cases(ex, st, this, s):
        if ex.ver:
            return [Case("converted", 1, ret=final)]
        t, f = target_of(ex, st, this)
        return [Case("converted", 1, ret=lambda ex, st: word(ex, st, t, f, ex.rope(st, s)))]
    return Fn(CONV + "toKana", ["std::string const&"], 'str', setup, cases, srcs=SRC, title=f"a romaji word to {NAME[target]}", cmd=f"convert Romaji to {NAME[target]}",
              nocall=target != HIRAGANA, cost=20)


def word(ex, st, target, flags, r):
    """the kana for a romaji word"""
    return ex.kanas.text(ex, st, ('word', _kk(target), _kk(flags), repr_key(r)), 0, 1 << 38)


TO_KANA = [mk_to_kana(HIRAGANA), mk_to_kana(KATAKANA)]


# ------------------------------------------------------------------ romaji text: words between delimiters
class Words(lockstep.Spec):
    """the text is cut at every delimiter; the words are converted and the delimiters (without apostrophe and dash, and without
    spaces if these are removed) become wide"""
    roles = ('out', 'pos')

    def __init__(self, ex, target, flags, text):
        self.tgt, self.flags, self.text = target, flags, text
        self.marks = [ord(c) for c in DELIMS.values()] + [ord("'"), ord("-")]

    def start(self, ex, st):
        return {'out': Rope(1), 'pos': 0}

    def is_delim(self, b):
        return b_or(*[eq(b, m, 8) for m in self.marks])

    def items(self, ex, st):
        def mk(ex, st):
            p = ex.fresh("delim.pos", 64)
            q = st.ghost['spec']['pos']
            st.assume(b_and(cmp('ule', q, p, 64), cmp('ult', p, self.text.length(), 64), self.is_delim(self.text.at(p, 8))))
            return p
        return [("delimiter", mk)]

    def word(self, ex, st, a, b):
        return word(ex, st, self.tgt, self.flags, stl.substr(ex, st, self.text, a, sub64(b, a)))

    def step(self, ex, st, gh, p):
        d = self.text.at(p, 8)
        wide = [0, 0, 0]
        for w, a in DELIMS.items():
            c = eq(d, ord(a), 8)
            wide = [b_ite(c, x, y, 8) for x, y in zip(w.encode(), wide)]
        drop = b_or(eq(d, ord("'"), 8), eq(d, ord("-"), 8), b_and(eq(d, 32, 8), eq(z3.Extract(3, 3, bv(self.flags, 8)), 1, 1)))
        out = gh['out'] + self.word(ex, st, gh['pos'], p)
        n = add64(p, 1)
        return [(drop, {'out': out, 'pos': n}), (b_not(drop), {'out': out + lit([x if is_c(x) else simp(x) for x in wide]), 'pos': n})]

    def fin(self, ex, st, gh):
        return [(1, gh['out'] + self.word(ex, st, gh['pos'], self.text.length()))]

    def comps(self, ex, st, gh):
        return {'out': gh['out'], 'pos': gh['pos']}

    def shape(self, gh):
        return ()

    def havoc(self, ex, st, shape):
        p = ex.fresh("pos", 64)
        st.assume(cmp('ule', p, self.text.length(), 64))
        return {'out': any_text(ex, st), 'pos': p}


def h_find_first_of(ex, st, a, ps, full, ins):
    """the next delimiter (trusted meaning of find_first_of: the first position from `pos` on that holds one of the characters)"""
    sp = ex.lock
    if not isinstance(sp, Words) or not lockstep_same(ex, st, ex.rope(st, a[0]), sp.text):
        return NotImplemented
    cs = ex.rope(st, a[1]).conc()
    if cs is None or not all(is_c(c) for c in cs) or 'string' not in ps[0] or len(a) < 3:
        return NotImplemented
    ex.oblige(st.fork(), int(sorted(set(cs)) == sorted(sp.marks)), "the text is cut at the specified delimiters", "postcondition")
    if 'spec' in st.ghost and not ex.valid(st, cmp('eq', a[2], st.ghost['spec']['pos'], 64))[0]:
        ex.fail(st, "the search for the next delimiter starts after the previous one")
        raise PathEnd()
    return [(s, Ret((1 << 64) - 1 if p is None else p)) for s, p in lockstep.take(ex, st)]


def mk_words(target):
    def setup(ex, st):
        Kanas(ex, st).ex = ex
        ex.contracts.update(HANDLERS)
        for q in ("std::string::find_first_of",):
            ex.contracts[q] = h_find_first_of
        flags = sym_int(ex, st, "flags", 8)
        p = converter(ex, st, target, flags)
        s = sym_str(ex, st, "input")
        ex.lock = Words(ex, target, flags, ex.rope(st, s))
        lockstep.open_stream(ex, st)
        return [p, ROMAJI, s]
    return Fn(CONV + "convert", [CT, STR], 'str', setup, lambda ex, st, this, t, s: [Case("converted", 1, ret=final)], srcs=SRC, full="const\0",
              title=f"convert Romaji to {NAME[target]}", cmd=f"convert Romaji to {NAME[target]}", nocall=True, cost=5)


WORDS = [mk_words(HIRAGANA), mk_words(KATAKANA)]


# ------------------------------------------------------------------ all together
def converted(ex, st, source, target, flags, r):
    """the text with the characters of one type converted"""
    if is_c(source) and is_c(target) and source == target:
        return r
    return ex.kanas.text(ex, st, ('all', _kk(source), _kk(target), _kk(flags), repr_key(r)), 0, 1 << 38)


def mk_convert_one():
    """also the contract at call sites, justified by the ones for each source and target above"""
    def setup(ex, st):
        Kanas(ex, st).ex = ex
        t = sym_int(ex, st, "type", 8)
        st.assume(cmp('ule', t, ROMAJI, 8))
        p = converter(ex, st, t, sym_int(ex, st, "flags", 8))
        return [p, t, sym_str(ex, st, "input")]

    def cases(ex, st, this, s, text):
        t, f = target_of(ex, st, this)
        if ex.ver:
            return [Case("unchanged", 1, ret=lambda ex, st: ex.rope(st, text))]
        same = cmp('eq', t, s, 8)
        r = ex.rope(st, text)
        if not is_c(t) or not is_c(s):
            raise Unsupported("conversion of an unknown type")
        return [Case("converted", 1, ret=lambda ex, st: converted(ex, st, s, t, f, r))]
    return Fn(CONV + "convert", [CT, STR], 'str', setup, cases, srcs=SRC, full="const\0", title="convert to the same type", cmd="convert all")


def mk_all(params, full, target, flags_arg):
    n = len(params)

    def setup(ex, st):
        Kanas(ex, st).ex = ex
        flags = sym_int(ex, st, "flags", 8)
        s = sym_str(ex, st, "input")
        if n == 1:
            return [converter(ex, st, target, flags), s]
        p = converter(ex, st, sym_int(ex, st, "old target", 8), sym_int(ex, st, "old flags", 8))
        return [p, s, target, flags] if n == 3 else [p, flags_arg, s, target, flags]

    def cases(ex, st, this, *a):
        if n == 1:
            (s,), w = a, []
            t, f = target_of(ex, st, this)
        else:
            s, t, f = a if n == 3 else a[1:]
            w = [(this, 1, t), (this + 1, 1, f)]
        r = ex.rope(st, s)

        def ret(ex, st):
            v = r
            for src in ((HIRAGANA, KATAKANA, ROMAJI) if n < 4 else (a[0],)):
                v = converted(ex, st, src, t, f, v)
            return v
        return [Case("converted", 1, ret=ret, writes=w)]
    return Fn(CONV + "convert", params, 'str', setup, cases, srcs=SRC, full=full, nocall=True, cmd="convert all", mode='unroll',
              title=f"convert {'everything' if n < 4 else NAME[flags_arg]} to {NAME[target]}" + (", setting it" if n > 1 else ""))


ALL = [mk_convert_one()] + [mk_all([STR], "const\0", t, None) for t in range(3)] + [mk_all([STR, CT, FL], None, t, None) for t in range(3)] + \
      [mk_all([CT, STR, CT, FL], None, t, s) for s in range(3) for t in range(3)]
FLAGS = [(1, "Hepburn"), (2, "Kunrei"), (4, "NoProlongMark"), (8, "RemoveSpaces")]


def mk_flags():
    def cases(ex, st, this):
        f = ex.load(st, this + 1, maps._IT[1])
        out = [Case("none", eq(f, 0, 8), ret=lit(b"None"))]
        for m in range(16):
            g = b_and(b_not(eq(f, 0, 8)), eq(z3.Extract(3, 0, bv(f, 8)), m, 4))
            out.append(Case(f"flags {m}", g, ret=lit("|".join(n for b, n in FLAGS if m & b).encode())))
        return out
    return Fn(CONV + "flagString", [], 'str', lambda ex, st: [converter(ex, st, sym_int(ex, st, "target", 8), sym_int(ex, st, "flags", 8))], cases, srcs=SRC,
              title="flagString", cmd="flagString", nocall=True)


FLAG = [mk_flags()]
KANA_KANA = [f for f in FROM_KANA if "Romaji" not in f.title]
KANA_ROMAJI = [f for f in FROM_KANA if "Romaji" in f.title]
ITEMS = FROM_KANA + TO_KANA + WORDS + ALL + FLAG
