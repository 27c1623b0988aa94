"""Trusted contracts of std::map / std::set at the call boundary.  A map is a list of known entries (newest last, keys
pairwise different) over an optional unknown base map; the base answers each key with an arbitrary but fixed entry."""
import re
import z3
from values import *
from engine import Ret, Throw, Obj, canon, cmp, ZERO, FnPtr, _IT
import stl
from stl import model, M

MAPSZ = 48
INTSZ = {'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'int': 4, 'unsigned int': 4,
         'char32_t': 4, 'wchar_t': 4, 'long': 8, 'unsigned long': 8, 'size_t': 8}


class Base:
    """unknown contents. gen(ex, st, key) -> cells of the mapped value {offset in the value: (size, v)}; has(ex, st, key) ->
    formula (a fresh boolean for each key without it)"""

    def __init__(self, name, gen=None, has=None, size=None):
        self.name, self.gen, self.has, self.size = name, gen, has, size


class MapV:
    def __init__(self, base, entries, kt=None, vt=None):
        self.base, self.entries, self.kt, self.vt = base, tuple(entries), kt, vt

    def __repr__(self):
        return f"MapV({self.base and self.base.name},{len(self.entries)})"


def targs(full):
    """template arguments of the first template in a demangled name"""
    i = full.find('<')
    depth, cur, out = 0, "", []
    for c in full[i:]:
        if c == '<':
            depth += 1
            if depth == 1:
                continue
        elif c == '>':
            depth -= 1
            if depth == 0:
                break
        if c == ',' and depth == 1:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    out.append(cur.strip())
    return out


def name_at(full):
    """where the name begins in a demangled name that may start with a return type"""
    depth = 0
    at = 0
    for i, c in enumerate(full):
        if c in '<(':
            if c == '(' and depth == 0:
                break
            depth += 1
        elif c in '>)':
            depth -= 1
        elif c == ' ' and depth == 0 and not full.startswith(('const', '&', '*', '>'), i + 1):
            at = i + 1
    return at


def struct_size(ex, t):
    t = t.removesuffix(' const').strip()
    if t.endswith('*'):
        return 8
    if t in INTSZ:
        return INTSZ[t]
    if t == 'std::string':
        return 32
    if t.startswith('std::pair<'):
        a, b = targs(t)
        o = voff(ex, a, b)
        n = o + (struct_size(ex, b) or 1)
        al = 8 if n > 8 else max(struct_size(ex, a) or 1, struct_size(ex, b) or 1)
        return (n + al - 1) // al * al
    if t.startswith(('std::vector<', 'std::shared_ptr<')):
        return 24 if t.startswith('std::vector<') else 16
    memo = ex.__dict__.setdefault('structsizes', {})
    if t not in memo:
        memo[t] = None
        for m in ex.modules:
            for nm in ("class." + t, "struct." + t):
                ty = m.named(nm)
                if ty is not None and ty.size:
                    memo[t] = ty.size
                    return ty.size
    return memo[t]


def keysize(ex, t):
    return struct_size(ex, t) or 1         # scoped enums of the project have one byte


PADDED = ('kanji_tools::MorohashiId',)    # two fields, then a byte of padding


def load_key(ex, st, p, t):
    if t == 'std::string':
        return ex.rope(st, p)
    n = keysize(ex, t)
    if n not in (1, 2, 4, 8):
        raise Unsupported("map key of type " + t)
    if t in PADDED:                     # the bytes its comparison looks at
        return binop('or', zext(ex.load(st, p, _IT[2]), 16, 32), binop('shl', zext(ex.load(st, p + 2, _IT[1]), 8, 32), 16, 32), 32)
    return ex.load(st, p, _IT[n])


def key_eq(ex, st, a, b, t):
    if t == 'std::string':
        return stl.rope_cmp_eq(ex, st, a, b)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        raise Unsupported("pointer keys")
    return eq(a, b, 8 * keysize(ex, t))


def krepr(k):
    from contract import repr_key, _k
    return repr_key(k) if isinstance(k, Rope) else _k(k)


def voff(ex, kt, vt):
    ks = keysize(ex, kt)
    vs = struct_size(ex, vt) or 1
    al = vs if vs in (1, 2, 4) else 8
    return (ks + al - 1) // al * al


def getm(ex, st, p, full):
    v = ex.load_raw(st, p, MAPSZ)
    if not isinstance(v, MapV):
        raise Unsupported(f"no map at {p}")
    return v


def setm(ex, st, p, v):
    ex.store_raw(st, p, MAPSZ, v)


def types(full):
    """key and mapped type (None for a set) of the container in a constructor's name"""
    t = targs(full)
    return t[0].removesuffix(' const'), (None if full.startswith('std::set') else t[1])


def new_node(ex, st, key, kt):
    n = ex.new_obj(st, 'cells', None, 'node')
    if isinstance(key, Rope):
        ex.set_rope(st, n, key)
    else:
        ex.store_raw(st, n, keysize(ex, kt), key)
    return n


def end_of(p):
    return p + 8


def basenode(ex, st, b, key, kt, vt):
    """(is present, node) of a key in the unknown base"""
    memo = ex.__dict__.setdefault('basememo', {})
    k = (b.name, krepr(key))
    if k not in memo:
        memo[k] = (ex.fresh("has_" + b.name, 1) if b.has is None else None, len(memo))
    has, i = memo[k]
    if b.has is not None:
        has = b.has(ex, st, key)
    oid = ('m', b.name, i)
    if oid not in st.mem:
        st.mem[oid] = Obj('cells', None, f"entry of {b.name}")
        st.owned.add(oid)
        n = Ptr(oid)
        if isinstance(key, Rope):
            ex.set_rope(st, n, key)
        else:
            ex.store_raw(st, n, keysize(ex, kt), key)
        if b.gen is not None:
            w, st.wlog = st.wlog, None
            for o, (sz, v) in b.gen(ex, st, key).items():
                ex.store_raw(st, n + (voff(ex, kt, vt) + o), sz, v)
            st.wlog = w
    return has, Ptr(oid)


def kv(ex, st, p, full):
    mv = getm(ex, st, p, full)
    return mv.kt, mv.vt


def constant(r):
    b = r.conc()
    return b is not None and all(is_c(x) for x in b)


def joined(ex, st, mv, key):
    """the lookup of an unknown key in a table of constants as one entry whose value depends on the key"""
    kt, vt = mv.kt, mv.vt
    if isinstance(key, Rope) and constant(key) or is_c(key):
        return None
    conds = [key_eq(ex, st, key, k, kt) for k, _ in mv.entries]
    vals = []
    if vt is not None:
        o = voff(ex, kt, vt)
        for _, n in mv.entries:
            if vt == 'std::string':
                b = ex.rope(st, n + o).conc()
                if b is None or not all(is_c(x) for x in b) or vals and len(vals[0]) != len(b):
                    return None
                vals.append(list(b))
            elif (struct_size(ex, vt) or 0) in (1, 2, 4, 8) and not vt.endswith('*'):
                v = ex.load(st, n + o, _IT[struct_size(ex, vt)])
                if not is_c(v):
                    return None
                vals.append([v])
            else:
                return None
    out = []
    hit = b_or(*conds)
    if ex.feasible(st, hit):
        s = st.fork()
        s.assume(hit)
        node = new_node(ex, s, key, kt)
        if vt is not None:
            w = 8 if vt == 'std::string' else 8 * struct_size(ex, vt)
            r = []
            for i in range(len(vals[0])):
                e = vals[-1][i]
                for c, v in list(zip(conds, vals))[-2::-1]:
                    e = b_ite(c, v[i], e, w)
                r.append(e if is_c(e) else simp(e))
            if vt == 'std::string':
                ex.set_rope(s, node + o, Rope(1, (Lit(tuple(r)),)))
            else:
                ex.store_raw(s, node + o, struct_size(ex, vt), r[0])
        out.append((s, node))
    if ex.feasible(st, b_not(hit)):
        s = st.fork()
        s.assume(b_not(hit))
        out.append((s, None))
    return out


def lookup(ex, st, p, key, full):
    """[(state, node or None)]"""
    mv = getm(ex, st, p, full)
    kt, vt = mv.kt, mv.vt
    out = []
    s = st
    j = joined(ex, st, mv, key) if mv.base is None and len(mv.entries) > 8 else None
    if j is not None:
        return j
    for k, n in mv.entries:
        c = key_eq(ex, s, key, k, kt)
        if is_c(c):
            if c:
                out.append((s, n))
                return out
            continue
        if ex.feasible(s, c):
            s2 = s.fork()
            s2.assume(c)
            out.append((s2, n))
            s = s.fork()
            s.assume(b_not(c))
            if len(mv.entries) < 16 and not ex.feasible(s, 1):
                return out
    if len(mv.entries) >= 16 and out and not ex.feasible(s, 1):
        return out
    if mv.base is None:
        out.append((s, None))
        return out
    has, n = basenode(ex, s, mv.base, key, kt, vt)
    for c, r in ((has, n), (b_not(has), None)):
        if ex.feasible(s, c):
            s2 = s.fork()
            s2.assume(c)
            out.append((s2, r))
    return out


def MS(*ms):
    return [f"{k}::{m}" for k in ("std::map", "std::set") for m in ms]


@model("std::map::map", "std::set::set")
def map_ctor(ex, st, a, ps, full, ins):
    kt, vt = types(full)
    if not ps:
        setm(ex, st, a[0], MapV(None, (), kt, vt))
        return None
    if ps[0].startswith('std::initializer_list'):
        return map_init(ex, st, a, kt, vt, vt is not None)
    if len(ps) == 1 and ('&&' in ps[0] or 'const&' in ps[0]):
        v = getm(ex, st, a[1], full)
        setm(ex, st, a[0], v)
        if '&&' in ps[0]:
            setm(ex, st, a[1], MapV(None, (), kt, vt))
        return None
    raise Unsupported("map constructor " + str(ps))


def map_init(ex, st, a, kt, vt, is_map):
    p, n = a[1], a[2]
    if not is_c(n):
        raise Unsupported("initializer list of unknown size")
    vs = (struct_size(ex, vt) or 1) if is_map else 0
    vo = voff(ex, kt, vt) if is_map else 0
    al = 8 if kt == 'std::string' or vs >= 8 else max(keysize(ex, kt), vs if vs in (1, 2, 4) else 1)
    es = (max(vo + vs, keysize(ex, kt)) + al - 1) // al * al
    ents = []
    for i in range(n):
        q = p + i * es
        key = load_key(ex, st, q, kt)
        dup = 0
        for k, _ in ents:
            c = key_eq(ex, st, key, k, kt)
            if not is_c(c):
                raise Unsupported("symbolic keys in an initializer list")
            dup |= c
        if dup:
            continue
        node = new_node(ex, st, key, kt)
        if is_map:
            ex.memcpy(st, node + vo, q + vo, vs, strings=True)
        ents.append((key, node))
    setm(ex, st, a[0], MapV(None, ents, kt, vt))
    return None


@model(*MS("~map", "~set"))
def map_dtor(ex, st, a, ps, full, ins):
    return None


@model(*MS("end", "cend"))
def map_end(ex, st, a, ps, full, ins):
    return Ret(end_of(a[0]))


@model(*MS("find"))
def map_find(ex, st, a, ps, full, ins):
    kt, vt = kv(ex, st, a[0], full)
    r = lookup(ex, st, a[0], load_key(ex, st, a[1], kt), full)
    return [(s, Ret(end_of(a[0]) if n is None else n)) for s, n in r]


@model(*MS("count", "contains"))
def map_count(ex, st, a, ps, full, ins):
    kt, vt = kv(ex, st, a[0], full)
    mv = getm(ex, st, a[0], full)
    key = load_key(ex, st, a[1], kt)
    if mv.base is None:
        c = b_or(*[key_eq(ex, st, key, k, kt) for k, _ in mv.entries])
        if 'contains' in full.split('(')[0] or is_c(c):
            return Ret(int(c) if is_c(c) else c)
        return Ret(b_ite(c, 1, 0, 64))
    r = lookup(ex, st, a[0], key, full)
    return [(s, Ret(int(n is not None))) for s, n in r]


@model(*MS("empty"))
def map_empty(ex, st, a, ps, full, ins):
    mv = getm(ex, st, a[0], full)
    if mv.entries:
        return Ret(0)
    if mv.base is None:
        return Ret(1)
    raise Unsupported("size of an unknown map")


@model(*MS("size"))
def map_size(ex, st, a, ps, full, ins):
    mv = getm(ex, st, a[0], full)
    if mv.base is None:
        return Ret(len(mv.entries))
    if mv.base.size is not None:
        return Ret(add64(mv.base.size, len(mv.entries)))
    raise Unsupported("size of an unknown map")


@model(*MS("erase"))
def map_erase(ex, st, a, ps, full, ins):
    if len(ps) != 1 or 'iterator' not in ps[0]:
        return NotImplemented
    mv = getm(ex, st, a[0], full)
    p = a[1] if isinstance(a[1], Ptr) and not isinstance(ex.load_raw(st, a[1], 8), Ptr) else ex.load_raw(st, a[1], 8)
    left = [e for e in mv.entries if e[1].obj != p.obj]
    if mv.base is not None or len(left) != len(mv.entries) - 1:
        raise Unsupported("erase from an unknown map")
    setm(ex, st, a[0], MapV(None, left, mv.kt, mv.vt))
    return Ret(NULL)


@model(*MS("clear"))
def map_clear(ex, st, a, ps, full, ins):
    mv = getm(ex, st, a[0], full)
    setm(ex, st, a[0], MapV(None, (), mv.kt, mv.vt))
    return None


@model("std::map::at")
def map_at(ex, st, a, ps, full, ins):
    kt, vt = kv(ex, st, a[0], full)
    out = []
    for s, n in lookup(ex, st, a[0], load_key(ex, st, a[1], kt), full):
        out.append((s, Ret(n + voff(ex, kt, vt)) if n is not None else ex.throw_std(s, "_ZTISt12out_of_range")))
    return out


def zero_value(ex, st, p, vt):
    if vt == 'std::string':
        ex.set_rope(st, p, Rope(1))
    elif vt.endswith('*'):
        ex.store_raw(st, p, 8, NULL)
    elif vt.startswith('std::map<') or vt.startswith('std::set<'):
        kt, v2 = types(vt)
        setm(ex, st, p, MapV(None, (), kt, v2))
    elif vt.startswith('std::vector<'):
        for k in range(3):
            ex.store_raw(st, p + 8 * k, 8, NULL)
    else:
        n = struct_size(ex, vt) or 1
        if n not in (1, 2, 4, 8):
            raise Unsupported("default value of " + vt)
        ex.store_raw(st, p, n, 0)


def insert(ex, s, p, key, full, fill):
    mv = getm(ex, s, p, full)
    kt, vt = mv.kt, mv.vt
    node = new_node(ex, s, key, kt)
    fill(s, node)
    setm(ex, s, p, MapV(mv.base, mv.entries + ((key, node),), kt, vt))
    return node


@model("std::map::operator[]")
def map_index(ex, st, a, ps, full, ins):
    kt, vt = kv(ex, st, a[0], full)
    key = load_key(ex, st, a[1], kt)
    out = []
    for s, n in lookup(ex, st, a[0], key, full):
        if n is None:
            n = insert(ex, s, a[0], key, full, lambda s, nd: zero_value(ex, s, nd + voff(ex, kt, vt), vt))
        out.append((s, Ret(n + voff(ex, kt, vt))))
    return out


def conv_key(ex, st, p, ty, kt):
    """key constructed from an argument of (reference) type ty"""
    t = ty.rstrip('&').strip().removesuffix(' const').strip()
    if t == kt:
        return load_key(ex, st, p, kt)
    if kt == 'std::string' and (t in ('char const*', 'char*') or re.fullmatch(r'char (const )?(\(&\)\s*)?\[\d+\]|char const \(\)\s*\[\d+\]', t)):
        return stl.cstr(ex, st, ex.load_raw(st, p, 8) if '[' not in t else p)
    if 'char' in t and '[' in t and kt == 'std::string':
        return stl.cstr(ex, st, p)
    raise Unsupported(f"map key made from {ty}")


def emplace(ex, st, a, ps, full, ins, try_=False):
    kt, vt = kv(ex, st, a[0], full)
    if len(ps) == 2:
        key = conv_key(ex, st, a[1], ps[0], kt)

        def fill(s, nd):
            t = ps[1].rstrip('&').strip().removesuffix(' const').strip()
            d = nd + voff(ex, kt, vt)
            if t == vt.removesuffix(' const') or t.endswith('*') and vt.endswith('*'):     # (single inheritance)
                n = struct_size(ex, vt) or 1
                ex.memcpy(s, d, a[2], n, strings=True)
            elif vt == 'std::string':
                ex.set_rope(s, d, conv_key(ex, s, a[2], ps[1], 'std::string'))
            elif vt in INTSZ and t in INTSZ:
                n, w = INTSZ[t], INTSZ[vt]
                v = ex.load(s, a[2], _IT[n])
                if w < n:
                    v = trunc(v, 8 * n, 8 * w)
                elif w > n:
                    v = (sext if t in SIGNED else zext)(v, 8 * n, 8 * w)
                ex.store_raw(s, d, w, v)
            else:
                raise Unsupported(f"emplace of {vt} from {ps[1]}")
    elif len(ps) == 1 and vt is None:
        key = conv_key(ex, st, a[1], ps[0], kt)

        def fill(s, nd):
            pass
    elif len(ps) == 1:
        if 'pair' not in ps[0]:
            raise Unsupported("insert from " + ps[0])
        key = load_key(ex, st, a[1], kt)

        def fill(s, nd):
            o = voff(ex, kt, vt)
            ex.memcpy(s, nd + o, a[1] + o, struct_size(ex, vt) or 1, strings=True)
    else:
        raise Unsupported("emplace " + str(ps))
    out = []
    for s, n in lookup(ex, st, a[0], key, full):
        if n is not None:
            out.append((s, Ret((n, 0))))
        else:
            n = insert(ex, s, a[0], key, full, fill)
            out.append((s, Ret((n, 1))))
    return out


@model(*MS("emplace", "insert"))
def map_emplace(ex, st, a, ps, full, ins):
    return emplace(ex, st, a, ps, full, ins)


def iter_val(ex, st, p):
    v = ex.load_raw(st, p, 8)
    if not isinstance(v, Ptr):
        raise Unsupported("iterator")
    return v


@model("std::_Rb_tree_iterator::operator->", "std::_Rb_tree_const_iterator::operator->", "std::_Rb_tree_iterator::operator*",
       "std::_Rb_tree_const_iterator::operator*")
def it_deref(ex, st, a, ps, full, ins):
    v = iter_val(ex, st, a[0])
    o = st.mem.get(v.obj)
    if o is None or o.name not in ('node',) and not (isinstance(v.obj, tuple) and v.obj[0] == 'm'):
        ex.fail(st, "map iterator dereferenced at an element")
        raise Unsupported("dereference of a past-the-end iterator")
    return Ret(v)


@model("std::_Rb_tree_const_iterator::_Rb_tree_const_iterator", "std::_Rb_tree_iterator::_Rb_tree_iterator")
def it_ctor(ex, st, a, ps, full, ins):
    if not ps:
        ex.store_raw(st, a[0], 8, NULL)
        return None
    if '_Rb_tree_iterator' in ps[0] or '_Rb_tree_const_iterator' in ps[0]:
        ex.store_raw(st, a[0], 8, iter_val(ex, st, a[1]))
        return None
    return NotImplemented


OLD_EQ = M["std::operator=="]


@model("std::operator==", "std::operator!=")
def it_eq(ex, st, a, ps, full, ins):
    if ps and '_Rb_tree' in ps[0].split('<')[0] and 'iterator' in ps[0].split('<')[0]:
        x, y = iter_val(ex, st, a[0]), iter_val(ex, st, a[1])
        r = int(x.obj == y.obj and (x.off - y.off).conc() == 0)
        return Ret(1 - r if 'operator!=' in full.split('(')[0] else r)
    return OLD_EQ(ex, st, a, ps, full, ins)


SIGNED = ('char', 'signed char', 'short', 'int', 'long')
UNSIGNED = ('unsigned char', 'bool', 'unsigned short', 'unsigned int', 'char32_t', 'unsigned long', 'size_t')


def ordered(ex, mv):
    """the nodes of a map with constant keys in iteration order"""
    if mv.base is not None:
        raise Unsupported("iteration over an unknown map")

    def key(k):
        if mv.kt == 'std::string':
            b = k.conc() if isinstance(k, Rope) else None
            if b is None or not all(is_c(x) for x in b):
                raise Unsupported("iteration over a map with unknown keys")
            return bytes(b)
        if not is_c(k) or mv.kt not in SIGNED + UNSIGNED:
            raise Unsupported("iteration over a map with keys of type " + str(mv.kt))
        n = 8 * keysize(ex, mv.kt)
        return k - (1 << n) if mv.kt in SIGNED and k >> (n - 1) else k
    return [n for _, n in sorted(mv.entries, key=lambda e: key(e[0]))]


@model(*MS("begin", "cbegin"))
def map_begin(ex, st, a, ps, full, ins):
    mv = getm(ex, st, a[0], full)
    o = ordered(ex, mv)
    return Ret(o[0] if o else end_of(a[0]))


def map_of(st, oid):
    """(address, value) of the map that holds a node"""
    for k, o in st.mem.items():
        for off, c in (o.cells.items() if o.kind == 'cells' else ()):
            v = c[1]
            if isinstance(v, MapV) and any(n.obj == oid for _, n in v.entries):
                yield Ptr(k, off), v


def it_step(post):
    def f(ex, st, a, ps, full, ins):
        v = iter_val(ex, st, a[0])
        found = list(map_of(st, v.obj))
        if len(found) > 1:
            raise Unsupported("iteration over a copied map")
        for p, mv in found:
            o = ordered(ex, mv)
            i = [n.obj for n in o].index(v.obj)
            ex.store_raw(st, a[0], 8, o[i + 1] if i + 1 < len(o) else end_of(p))
            return Ret(v if ps else a[0])
        raise Unsupported("increment of an iterator")
    return f


M["std::_Rb_tree_iterator::operator++"] = M["std::_Rb_tree_const_iterator::operator++"] = it_step(False)
