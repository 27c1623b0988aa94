"""Trusted model of the allocating operations of std::vector.  The object keeps libstdc++'s layout (begin, end, end of storage), so
that size(), operator[], iterators, front(), back() ... are the library's own code, executed like any other."""
import math
from values import *
from engine import Ret, Ptr, Obj, cmp
import stl
import maps
from stl import model, M


def elem(ex, full):
    t = maps.targs(full[max(full.find('std::vector<', maps.name_at(full)), 0):])[0].strip()
    n = maps.struct_size(ex, t)
    if n is None:
        raise Unsupported("vector of " + t)
    return t, n


def parts(ex, st, p):
    b, e = ex.load_raw(st, p, 8), ex.load_raw(st, p + 8, 8)
    if not isinstance(b, Ptr) or not isinstance(e, Ptr):
        raise Unsupported("vector of unknown contents")
    return b, e


def count(ex, st, p, sz):
    b, e = parts(ex, st, p)
    if b.obj == 0 and e.obj == 0:
        return 0
    n = (e.off - b.off).conc()
    if n is None or b.obj != e.obj:
        raise Unsupported("vector of symbolic size")
    return n // sz


def setv(ex, st, p, b, n, sz, cap=None):
    ex.store_raw(st, p, 8, b)
    ex.store_raw(st, p + 8, 8, b + n * sz)
    ex.store_raw(st, p + 16, 8, b + (cap or n) * sz)


def put(ex, st, d, s, t, sz):
    """copy one element"""
    if t == 'std::string':
        ex.set_rope(st, d, ex.rope(st, s))
    else:
        if t.startswith(('std::', 'kanji_tools::')) and not t.endswith('*') and not t.startswith('std::shared_ptr<') and sz not in (1, 2, 4, 8):
            raise Unsupported("copy of a " + t)
        ex.memcpy(st, d, s, sz)


def places(ex, st, p):
    """the places a symbolic address may be"""
    o = st.mem[p.obj]
    g = 0
    for _, co in p.off.t:
        g = math.gcd(g, abs(co))
    if o.size is None or not g:
        raise Unsupported("list at an unknown place")
    return [Ptr(p.obj, Lin(k)) for k in range(p.off.c % g, o.size, g) if ex.feasible(st, cmp('eq', p.off.val(), k, 64))]


def alloc(ex, st, n, sz):
    return ex.new_obj(st, 'cells', n * sz, 'heap') if n else NULL


@model("std::vector::vector")
def vec_ctor(ex, st, a, ps, full, ins):
    if ps and ps[0].startswith('std::initializer_list'):
        t, sz = elem(ex, full)
        p, n = a[1], a[2]
        if not is_c(n):
            raise Unsupported("initializer list of unknown size")
        b = alloc(ex, st, n, sz)
        for i in range(n):
            put(ex, st, b + i * sz, p + i * sz, t, sz)
        setv(ex, st, a[0], b, n, sz)
        return None
    if len(ps) == 1 and ps[0].endswith('const&') and 'vector' in ps[0]:
        t, sz = elem(ex, full)
        n = count(ex, st, a[1], sz)
        src = parts(ex, st, a[1])[0]
        b = alloc(ex, st, n, sz)
        for i in range(n):
            put(ex, st, b + i * sz, src + i * sz, t, sz)
        setv(ex, st, a[0], b, n, sz)
        return None
    if not ps:
        for k in range(3):
            ex.store_raw(st, a[0] + 8 * k, 8, NULL)
        return None
    if len(ps) == 1 and ps[0].endswith('&&'):
        for k in range(3):
            ex.store_raw(st, a[0] + 8 * k, 8, ex.load_raw(st, a[1] + 8 * k, 8))
            ex.store_raw(st, a[1] + 8 * k, 8, NULL)
        return None
    return NotImplemented


@model("std::vector::~vector")
def vec_dtor(ex, st, a, ps, full, ins):
    return None


@model("std::vector::reserve", "std::vector::shrink_to_fit")
def vec_noop(ex, st, a, ps, full, ins):
    return None


@model("std::vector::clear")
def vec_clear(ex, st, a, ps, full, ins):
    ex.store_raw(st, a[0] + 8, 8, ex.load_raw(st, a[0], 8))
    return None


@model("std::vector::push_back", "std::vector::emplace_back")
def vec_push(ex, st, a, ps, full, ins):
    t, sz = elem(ex, full)
    if len(ps) != 1:
        return NotImplemented
    if a[0].off.conc() is None:                                  # one of several lists
        out = []
        for q in places(ex, st, a[0]):
            s = st.fork()
            s.assume(cmp('eq', a[0].off.val(), q.off.c, 64))
            r = vec_push(ex, s, [q] + list(a[1:]), ps, full, ins)
            out.append((s, r))
        return out
    s = ps[0].rstrip('&').strip().removesuffix(' const').strip()
    if s != t and not (t == 'std::string'):
        raise Unsupported(f"vector<{t}>::push_back({s})")
    b0, e0 = parts(ex, st, a[0])
    if st.mem[b0.obj].kind == 'src' and s == t and (sz == 8 or sz == 16 and t.startswith('std::shared_ptr<')):      # unknown contents: remember what is added
        o = st.mem[b0.obj]
        b = ex.new_obj(st, 'src', None, o.name)
        d = st.mem[b.obj]
        d.src, d.ew, d.ptrs, d.const, d.n = o.src, o.ew, o.ptrs, o.const, add64(o.n, 1)
        base, more = o.tail or (b0.obj, ())
        d.tail = (base, more + (ex.load_raw(st, a[1], 8),))
        last = Ptr(b.obj, e0.off - b0.off)
        ex.store_raw(st, a[0], 8, b)
        ex.store_raw(st, a[0] + 8, 8, last + sz)
        ex.store_raw(st, a[0] + 16, 8, last + sz)
        return Ret(last)
    if b0.obj and st.mem[b0.obj].texts is not None and t == 'std::string':
        o = st.mem[b0.obj]
        b = ex.new_obj(st, 'src', None, o.name)
        d = st.mem[b.obj]
        d.ew, d.const, d.n, base = o.ew, o.const, add64(o.n, 1), o.n if o.tail is None else o.tail[0]
        new = o.tail[1] if o.tail else ()
        new += (ex.rope(st, a[1]) if s == t else maps.conv_key(ex, st, a[1], ps[0], 'std::string'),)
        d.tail, old = (base, new), o.texts

        def texts(ex, st, k, old=old, base=base, new=new):
            raise Unsupported("text of a list that has grown")
        d.texts = texts
        last = Ptr(b.obj, e0.off - b0.off)
        ex.store_raw(st, a[0], 8, b)
        ex.store_raw(st, a[0] + 8, 8, last + sz)
        ex.store_raw(st, a[0] + 16, 8, last + sz)
        return Ret(last)
    n = count(ex, st, a[0], sz)
    b = alloc(ex, st, n + 1, sz)
    for i in range(n):
        put(ex, st, b + i * sz, b0 + i * sz, t, sz)
    if s == t:
        put(ex, st, b + n * sz, a[1], t, sz)
    else:
        ex.set_rope(st, b + n * sz, maps.conv_key(ex, st, a[1], ps[0], 'std::string'))
    setv(ex, st, a[0], b, n + 1, sz)
    return Ret(b + n * sz)
