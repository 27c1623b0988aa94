"""Trusted contracts of C++ standard library / runtime functions that appear at the call boundary of the
functions under contract.  Each handler: (engine, state, args, param_types, full_name, instr) -> outcomes."""
import z3
from values import *
import engine
from engine import Ret, Throw, Obj, canon, rope_eq, cmp, PtrInt, ZERO, FnPtr

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


EW = {'std::string': 1, 'std::u32string': 4, 'std::wstring': 4}
MAXLEN = 1 << 40


def ew_of(full):
    for k in ('std::string', 'std::u32string', 'std::wstring'):
        if k in full.split('(')[0]:
            return EW[k]
    return 1


def cstr(ex, st, p, ew=1):
    """rope of the NUL terminated buffer at p (C string)"""
    o = st.mem.get(p.obj)
    if p.obj == 0:
        ex.fail(st, "C string is not null")
        raise Unsupported("null C string")
    if o.kind == 'cells':
        c = p.off.conc()
        if c is None:
            raise Unsupported("C string at symbolic offset")
        out = []
        from engine import _IT
        k = c
        while True:
            if o.size is not None and k + ew > o.size:
                ex.fail(st, "C string is NUL terminated")
                raise Unsupported("unterminated")
            v = ex._load_c(st, p.obj, o, k, _IT[ew])
            if not is_c(v):
                raise Unsupported("symbolic char buffer")
            if v == 0:
                break
            out.append(v)
            k += ew
        return Rope(ew, (Lit(out),))
    if o.kind == 'view':
        r = ex.rope(st, Ptr(o.ref[0], o.ref[1]))
        i = p.off.div(o.ew)
        ex.oblige(st, cmp('ule', i.val(), r.length(), 64), "C string pointer within its buffer")
        return substr(ex, st, r, i.val(), sub64(r.length(), i.val()))
    if o.kind == 'src':
        i = p.off.div(o.ew).val()
        n = sub64(o.n, 1)
        ex.oblige(st, cmp('ule', i, n, 64), "C string pointer within its buffer")
        return Rope(ew, (Sl(o.src, i, sub64(n, i)),))
    raise Unsupported("C string in " + o.kind)


def buf(ex, st, p, n, ew=1):
    """rope of n elements starting at p"""
    o = st.mem.get(p.obj)
    if is_c(n) and n == 0:
        return Rope(ew)
    if o is None:
        raise Unsupported("buffer")
    if o.kind == 'cells':
        c = p.off.conc()
        if c is None or not is_c(n):
            raise Unsupported("symbolic buffer")
        from engine import _IT
        return Rope(ew, (Lit([ex._load_c(st, p.obj, o, c + k * ew, _IT[ew]) for k in range(n)]),))
    i = p.off.div(o.ew).val()
    if o.kind == 'view':
        r = ex.rope(st, Ptr(o.ref[0], o.ref[1]))
        ex.oblige(st, b_and(cmp('ule', i, r.length(), 64), cmp('ule', n, sub64(r.length(), i), 64)), "range within the string")
        return substr(ex, st, r, i, n)
    ex.oblige(st, b_and(cmp('ule', i, o.n, 64), cmp('ule', n, sub64(o.n, i), 64)), "range within the buffer")
    return Rope(ew, (Sl(o.src, i, n),))


def substr(ex, st, r, i, n):
    """r[i, i+n), i+n <= length"""
    if is_c(i) and i == 0 and Lin.of(n).same(Lin.of(r.length())):
        return r
    out = []
    pieces = list(r.p)
    # drop i from the front
    while pieces:
        x = pieces[0]
        ln = len(x.e) if isinstance(x, Lit) else x.len
        if is_c(i) and i == 0:
            break
        if isinstance(x, Lit) and is_c(i):
            if i >= len(x.e):
                i -= len(x.e)
                pieces.pop(0)
                continue
            pieces[0] = Lit(x.e[i:])
            i = 0
            break
        if isinstance(x, Sl):
            if len(pieces) == 1 or ex.valid(st, cmp('ule', i, x.len, 64))[0]:
                pieces[0] = Sl(x.src, add64(x.start, i), sub64(x.len, i))
                i = 0
                break
        if ex.valid(st, cmp('uge', i, ln, 64))[0]:
            i = sub64(i, ln)
            pieces.pop(0)
            continue
        raise Unsupported("substring of composite string")
    while pieces:
        if is_c(n) and n == 0:
            break
        x = pieces.pop(0)
        ln = len(x.e) if isinstance(x, Lit) else x.len
        d = sub64(n, ln)
        if is_c(d) and d == 0:
            out.append(x)
            n = 0
            break
        if isinstance(x, Lit) and is_c(n):
            if n <= len(x.e):
                out.append(Lit(x.e[:n]))
                n = 0
                break
            out.append(x)
            n -= len(x.e)
            continue
        if not pieces or ex.valid(st, cmp('ule', n, ln, 64))[0]:
            if isinstance(x, Sl):
                out.append(Sl(x.src, x.start, n))
            else:
                v, key = x, ('litsub', tuple(id(z) if not is_c(z) else z for z in x.e))
                if isinstance(x, Lit):
                    rr = Rope(r.ew, (x,))
                    out.append(Sl(Src(key, lambda k, rr=rr: rr.at(k, 8 * rr.ew)), 0, n))
                else:
                    raise Unsupported("substring of generated")
            n = 0
            break
        if ex.valid(st, cmp('uge', n, ln, 64))[0]:
            out.append(x)
            n = d
            continue
        raise Unsupported("substring of composite string")
    return Rope(r.ew, out)


def setr(ex, st, p, r):
    ex.set_rope(st, p, r)


def S(*ms):
    return [f"{k}::{m}" for k in EW for m in ms]


def ctorname(k):
    return "basic_string"


@model(*S("basic_string"))
def string_ctor(ex, st, a, ps, full, ins):
    ew = ew_of(full)
    p = a[0]
    t = [x for x in ps if not x.startswith("std::allocator")]
    SN = {1: 'std::string'}.get(ew)
    if not t:
        setr(ex, st, p, Rope(ew))
    elif len(t) == 1 and ('string const&' in t[0] or 'string&&' in t[0]) and 'view' not in t[0]:
        r = ex.rope(st, a[1])
        setr(ex, st, p, r)
        if '&&' in t[0]:
            setr(ex, st, a[1], Rope(ew))
    elif len(t) == 1 and t[0] in ('char const*', 'char32_t const*', 'wchar_t const*'):
        setr(ex, st, p, cstr(ex, st, a[1], ew))
    elif len(t) == 2 and t[0] in ('unsigned long', 'size_t') and t[1] in ('char', 'char32_t', 'wchar_t'):
        setr(ex, st, p, fill(ex, st, a[1], a[2], ew))
    elif len(t) == 2 and t[0].endswith('const*') and t[1] == 'unsigned long':
        setr(ex, st, p, buf(ex, st, a[1], a[2], ew))
    elif len(t) == 1 and t[0].startswith("std::initializer_list"):
        setr(ex, st, p, buf(ex, st, a[1], a[2], ew))
    elif len(t) == 1 and ('string_view const&' in t[0]):
        setr(ex, st, p, sv(ex, st, a[1], ew))
    elif len(t) == 3 and 'string const&' in t[0]:
        r = ex.rope(st, a[1])
        setr(ex, st, p, clip(ex, st, r, a[2], a[3]))
    elif len(t) == 2 and t[0] == t[1] and ('__normal_iterator' in t[0] or t[0].endswith('*')):
        n = (a[2].off - a[1].off).div(ew).val()
        setr(ex, st, p, buf(ex, st, a[1], n, ew))
    else:
        raise Unsupported("string constructor " + str(ps))
    return None


def fill(ex, st, n, c, ew):
    if is_c(n) and n <= 64:
        return Rope(ew, (Lit([c] * n),))
    key = ('fill', c if is_c(c) else c.get_id())
    keep = c
    return Rope(ew, (Sl(Src(key, lambda i, keep=keep: keep), 0, n),))


def sv(ex, st, p, ew):
    """rope of the string_view object at p {len, ptr}"""
    from engine import _IT
    n = ex.load(st, p, _IT[8])
    q = ex.load_raw(st, p + 8, 8)
    return buf(ex, st, q, n, ew)


def clip(ex, st, r, pos, n):
    L = r.length()
    ex.oblige(st, cmp('ule', pos, L, 64), "substr position within the string (std::out_of_range otherwise)")
    avail = sub64(L, pos)
    if is_c(n) and n == mask(64):
        m = avail
    else:
        c = cmp('ult', n, avail, 64)
        if not is_c(c):
            if ex.valid(st, c)[0]:
                c = 1
            elif ex.valid(st, b_not(c))[0]:
                c = 0
        m = b_ite(c, n, avail, 64)
        m = m if is_c(m) else simp(m)
    return substr(ex, st, r, pos, m)


@model(*S("~basic_string"))
def string_dtor(ex, st, a, ps, full, ins):
    return None


@model(*S("size", "length"))
def string_size(ex, st, a, ps, full, ins):
    return Ret(ex.rope(st, a[0]).length())


@model(*S("empty"))
def string_empty(ex, st, a, ps, full, ins):
    return Ret(cmp('eq', ex.rope(st, a[0]).length(), 0, 64))


@model(*S("c_str", "data", "begin", "cbegin"))
def string_begin(ex, st, a, ps, full, ins):
    ew = ew_of(full)
    ex.rope(st, a[0], ew)
    return Ret(ex.view(st, a[0], ew))


@model(*S("end", "cend"))
def string_end(ex, st, a, ps, full, ins):
    ew = ew_of(full)
    r = ex.rope(st, a[0], ew)
    return Ret(ex.view(st, a[0], ew) + Lin.of(r.length()).scale(ew))


@model(*S("operator[]"))
def string_index(ex, st, a, ps, full, ins):
    ew = ew_of(full)
    r = ex.rope(st, a[0], ew)
    ex.oblige(st, cmp('ule', a[1], r.length(), 64), "string index not past the end")
    return Ret(ex.view(st, a[0], ew) + Lin.of(a[1]).scale(ew))


@model(*S("at"))
def string_at(ex, st, a, ps, full, ins):
    ew = ew_of(full)
    r = ex.rope(st, a[0], ew)
    c = cmp('ult', a[1], r.length(), 64)
    outs = []
    if ex.feasible(st, b_not(c)):
        s2 = st.fork()
        s2.assume(b_not(c))
        outs.append((s2, ex.throw_std(s2, "_ZTISt12out_of_range")))
    if ex.feasible(st, c):
        st.assume(c)
        outs.append((st, Ret(ex.view(st, a[0], ew) + Lin.of(a[1]).scale(ew))))
    return outs


@model(*S("front"))
def string_front(ex, st, a, ps, full, ins):
    ew = ew_of(full)
    ex.oblige(st, cmp('ne', ex.rope(st, a[0]).length(), 0, 64), "front() of a non-empty string")
    return Ret(ex.view(st, a[0], ew))


@model(*S("back"))
def string_back(ex, st, a, ps, full, ins):
    ew = ew_of(full)
    n = ex.rope(st, a[0]).length()
    ex.oblige(st, cmp('ne', n, 0, 64), "back() of a non-empty string")
    return Ret(ex.view(st, a[0], ew) + Lin.of(sub64(n, 1)).scale(ew))


@model(*S("reserve", "shrink_to_fit"))
def string_nop(ex, st, a, ps, full, ins):
    return None


@model(*S("clear"))
def string_clear(ex, st, a, ps, full, ins):
    setr(ex, st, a[0], Rope(ew_of(full)))
    return None


@model(*S("push_back"))
def string_push(ex, st, a, ps, full, ins):
    r = ex.rope(st, a[0])
    setr(ex, st, a[0], r + Rope(r.ew, (Lit([a[1]]),)))
    return None


@model(*S("pop_back"))
def string_pop(ex, st, a, ps, full, ins):
    r = ex.rope(st, a[0])
    ex.oblige(st, cmp('ne', r.length(), 0, 64), "pop_back() of a non-empty string")
    setr(ex, st, a[0], substr(ex, st, r, 0, sub64(r.length(), 1)))
    return None


def argrope(ex, st, t, args, ew):
    """rope denoted by an argument of type t"""
    if t in ('char', 'char32_t', 'wchar_t'):
        return Rope(ew, (Lit([args[0]]),))
    if t.endswith('const*'):
        return cstr(ex, st, args[0], ew)
    if 'string_view' in t:
        if t.endswith('&'):
            return sv(ex, st, args[0], ew)
        return buf(ex, st, args[1], args[0], ew)
    if 'string' in t and '&' in t:
        return ex.rope(st, args[0], ew)
    if t.startswith('std::initializer_list'):
        return buf(ex, st, args[0], args[1], ew)
    raise Unsupported("string argument " + t)


@model(*S("operator+=", "append"))
def string_append(ex, st, a, ps, full, ins):
    ew = ew_of(full)
    r = ex.rope(st, a[0], ew)
    if len(ps) == 1:
        x = argrope(ex, st, ps[0], a[1:], ew)
    elif len(ps) == 2 and ps[0].endswith('const*') and ps[1] == 'unsigned long':
        x = buf(ex, st, a[1], a[2], ew)
    elif len(ps) == 2 and ps[0] == 'unsigned long':
        x = fill(ex, st, a[1], a[2], ew)
    elif len(ps) == 3:
        x = clip(ex, st, ex.rope(st, a[1]), a[2], a[3])
    elif len(ps) == 2 and ps[0] == ps[1]:
        x = buf(ex, st, a[1], (a[2].off - a[1].off).div(ew).val(), ew)
    else:
        raise Unsupported("append " + str(ps))
    setr(ex, st, a[0], r + x)
    return Ret(a[0])


@model(*S("operator=", "assign"))
def string_assign(ex, st, a, ps, full, ins):
    ew = ew_of(full)
    if len(ps) == 1:
        x = argrope(ex, st, ps[0], a[1:], ew)
        if ps[0].endswith('&&') and not (a[0].obj == a[1].obj and a[0].off.same(a[1].off)):
            setr(ex, st, a[1], Rope(ew))
    elif len(ps) == 2 and ps[0].endswith('const*') and ps[1] == 'unsigned long':
        x = buf(ex, st, a[1], a[2], ew)
    elif len(ps) == 2 and ps[0] == 'unsigned long':
        x = fill(ex, st, a[1], a[2], ew)
    else:
        raise Unsupported("assign " + str(ps))
    setr(ex, st, a[0], x)
    return Ret(a[0])


@model(*S("swap"))
def string_swap(ex, st, a, ps, full, ins):
    x, y = ex.rope(st, a[0]), ex.rope(st, a[1])
    setr(ex, st, a[0], y)
    setr(ex, st, a[1], x)
    return None


@model(*S("insert"))
def string_insert(ex, st, a, ps, full, ins):
    ew = ew_of(full)
    r = ex.rope(st, a[0], ew)
    if '__normal_iterator' in ps[0]:
        i = a[1].off.div(ew).val()
        if len(ps) == 2 and ps[1] in ('char', 'char32_t', 'wchar_t'):
            x = Rope(ew, (Lit([a[2]]),))
        elif len(ps) == 3 and ps[1] == 'unsigned long':
            x = fill(ex, st, a[2], a[3], ew)
        else:
            raise Unsupported("insert " + str(ps))
        res = Ret(a[1])
    elif ps[0] == 'unsigned long':
        i = a[1]
        if len(ps) == 2:
            x = argrope(ex, st, ps[1], a[2:], ew)
        elif len(ps) == 3 and ps[1] == 'unsigned long':
            x = fill(ex, st, a[2], a[3], ew)
        elif len(ps) == 3 and ps[1].endswith('*'):
            x = buf(ex, st, a[2], a[3], ew)
        else:
            raise Unsupported("insert " + str(ps))
        res = Ret(a[0])
    else:
        raise Unsupported("insert " + str(ps))
    ex.oblige(st, cmp('ule', i, r.length(), 64), "insert position within the string")
    setr(ex, st, a[0], substr(ex, st, r, 0, i) + x + substr(ex, st, r, i, sub64(r.length(), i)))
    return res


@model(*S("erase"))
def string_erase(ex, st, a, ps, full, ins):
    ew = ew_of(full)
    r = ex.rope(st, a[0], ew)
    if len(ps) == 1 and '__normal_iterator' in ps[0]:
        i = a[1].off.div(ew).val()
        ex.oblige(st, cmp('ult', i, r.length(), 64), "erase position within the string")
        n = 1
        res = a[1]
    elif len(ps) == 2 and ps[0] == 'unsigned long':
        i = a[1]
        ex.oblige(st, cmp('ule', i, r.length(), 64), "erase position within the string")
        av = sub64(r.length(), i)
        n = b_ite(cmp('ult', a[2], av, 64), a[2], av, 64)
        res = a[0]
    else:
        raise Unsupported("erase " + str(ps))
    j = add64(i, n)
    setr(ex, st, a[0], substr(ex, st, r, 0, i) + substr(ex, st, r, j, sub64(r.length(), j)))
    return Ret(res)


@model(*S("substr"))
def string_substr(ex, st, a, ps, full, ins):
    # sret: a[0] result, a[1] this
    r = ex.rope(st, a[1])
    L = r.length()
    c = cmp('ule', a[2], L, 64)
    outs = []
    if not (is_c(c) and c) and ex.feasible(st, b_not(c)):
        s2 = st.fork()
        s2.assume(b_not(c))
        outs.append((s2, ex.throw_std(s2, "_ZTISt12out_of_range")))
        if not ex.feasible(st, c):
            return outs
        st.assume(c)
    setr(ex, st, a[0], clip(ex, st, r, a[2], a[3]))
    outs.append((st, Ret(None)))
    return outs


def at_eq(ex, st, r, i, v):
    return eq(r.at(i, 8 * r.ew), v, 8 * r.ew)


@model(*S("starts_with"))
def string_starts(ex, st, a, ps, full, ins):
    ew = ew_of(full)
    r = ex.rope(st, a[0], ew)
    x = argrope(ex, st, ps[0], a[1:], ew)
    return Ret(prefix_cond(ex, st, r, x))


def prefix_cond(ex, st, r, x, suffix=False):
    c = x.conc()
    if c is None:
        raise Unsupported("starts_with of symbolic string")
    n = len(c)
    if n == 0:
        return 1
    L = r.length()
    ge = cmp('uge', L, n, 64)
    if is_c(ge) and not ge:
        return 0
    if not is_c(ge) and not ex.feasible(st, ge):
        return 0
    cs = [ge]
    for k, v in enumerate(c):
        i = add64(sub64(L, n), k) if suffix else k
        cs.append(at_eq(ex, st, r, i, v))
    return b_and(*cs)


@model(*S("ends_with"))
def string_ends(ex, st, a, ps, full, ins):
    ew = ew_of(full)
    r = ex.rope(st, a[0], ew)
    x = argrope(ex, st, ps[0], a[1:], ew)
    return Ret(prefix_cond(ex, st, r, x, True))


@model("std::operator+")
def string_plus(ex, st, a, ps, full, ins):
    if 'string' not in " ".join(ps):
        return NotImplemented
    ew = 1
    for p in ps:
        if 'u32string' in p or 'wstring' in p:
            ew = 4
    x = argrope(ex, st, ps[0], a[1:], ew)
    y = argrope(ex, st, ps[1], a[2:], ew)
    for p, q in ((ps[0], a[1]), (ps[1], a[2])):
        if p.endswith('&&'):
            setr(ex, st, q, Rope(ew))
    setr(ex, st, a[0], x + y)
    return None


@model("std::operator==", "std::operator!=")
def string_eq(ex, st, a, ps, full, ins):
    if not any('string' in p for p in ps) or any('map' in p or 'vector' in p or 'optional' in p for p in ps):
        return NotImplemented
    ew = 4 if any('u32string' in p or 'wstring' in p for p in ps) else 1
    if any('string_view' in p or '__type_identity' in p for p in ps):
        # by-value views: (len,ptr,len,ptr)
        x = buf(ex, st, a[1], a[0], ew)
        y = buf(ex, st, a[3], a[2], ew)
    else:
        x = argrope(ex, st, ps[0], a[0:], ew)
        y = argrope(ex, st, ps[1], a[1:], ew)
    c = rope_cmp_eq(ex, st, x, y)
    return Ret(b_not(c) if '!=' in full.split('(')[0] else c)


def rope_cmp_eq(ex, st, x, y):
    """equality of two strings as a branch condition"""
    sx, sy = x.single(), y.single()
    if sx is not None and sy is not None and sx.src.key != sy.src.key and \
            getattr(ex, 'str_eq', None) is not None:
        return ex.str_eq(ex, st, x, y)
    return rope_eq(ex, st, x, y, exact=True)


def nosv(ps):
    return ps


@model(*S("compare"))
def string_compare(ex, st, a, ps, full, ins):
    ew = ew_of(full)
    x = ex.rope(st, a[0], ew)
    y = argrope(ex, st, ps[0], a[1:], ew)
    return Ret(str_cmp3(ex, st, x, y))


def str_cmp3(ex, st, x, y):
    f = getattr(ex, 'str_cmp', None)
    if f is None:
        raise Unsupported("ordering of strings")
    return f(ex, st, x, y)


@model("std::operator<", "std::operator>", "std::operator<=", "std::operator>=")
def string_lt(ex, st, a, ps, full, ins):
    if not any(p.startswith('std::string const&') for p in ps):
        return NotImplemented
    x = argrope(ex, st, ps[0], a, 1)
    y = argrope(ex, st, ps[1], a[1:], 1)
    r = str_cmp3(ex, st, x, y)
    n = full.split('(')[0]
    op = 'sle' if 'operator<=' in n else 'sge' if 'operator>=' in n else 'slt' if 'operator<' in n else 'sgt'
    return Ret(cmp(op, r, 0, 32))


@model("std::operator<=>")
def string_ss(ex, st, a, ps, full, ins):
    if not any('string' in p for p in ps):
        return NotImplemented
    if any('pair' in p or 'tuple' in p for p in ps):
        return NotImplemented
    x = argrope(ex, st, ps[0], a, 1)
    y = argrope(ex, st, ps[1], a[1:], 1)
    r = str_cmp3(ex, st, x, y)
    return Ret(b_ite(cmp('slt', r, 0, 32), 0xff, b_ite(cmp('eq', r, 0, 32), 0, 1, 8), 8))


@model(*S("find"))
def string_find(ex, st, a, ps, full, ins):
    r = ex.rope(st, a[0])
    x = argrope(ex, st, ps[0], a[1:], r.ew)
    pos = a[-1] if len(ps) > 1 else 0
    n = x.conc()
    # result: npos, or an index at which the text is found (first such index)
    f = ex.fresh("find", 64)
    npos = mask(64)
    L = r.length()
    if n is None or len(n) == 0:
        raise Unsupported("find of symbolic string")
    here = b_and(*[at_eq(ex, st, r, add64(f, k), v) for k, v in enumerate(n)])
    st.assume(b_or(cmp('eq', f, npos, 64),
                   b_and(cmp('ule', pos, f, 64), cmp('ult', f, L, 64), cmp('ule', add64(f, len(n)), L, 64), here)))
    st.events = st.events + (('find', r, n, pos, f),)
    return Ret(f)


# ---------------------------------------------------------------- C runtime
@model("strlen", "std::strlen")
def strlen(ex, st, a, ps, full, ins):
    return Ret(cstr(ex, st, a[0]).length())


@model("std::char_traits::length")
def ct_length(ex, st, a, ps, full, ins):
    return Ret(cstr(ex, st, a[0], 4 if ('char32_t' in full or 'wchar_t' in full) else 1).length())


@model("isupper", "islower", "tolower", "toupper", "isspace", "isdigit", "isxdigit")
def ctype(ex, st, a, ps, full, ins):
    c = a[0]
    n = full.split('(')[0]
    sx = lambda lo, hi: b_and(cmp('uge', c, lo, 32), cmp('ule', c, hi, 32))
    # precondition of <cctype>: EOF or representable as unsigned char (glibc also accepts signed char values)
    ex.oblige(st, b_and(cmp('sge', c, (-128) & mask(32), 32), cmp('sle', c, 255, 32)), "argument of " + n + " in range")
    up, lo = sx(65, 90), sx(97, 122)
    if n == 'tolower':
        return Ret(b_ite(up, binop('add', c, 32, 32), c, 32))
    if n == 'toupper':
        return Ret(b_ite(lo, binop('sub', c, 32, 32), c, 32))
    cond = {'isupper': up, 'islower': lo, 'isdigit': sx(48, 57),
            'isspace': b_or(eq(c, 32, 32), sx(9, 13)),
            'isxdigit': b_or(sx(48, 57), sx(65, 70), sx(97, 102))}[n]
    v = ex.fresh(n, 32)
    st.assume(cond == (v != 0) if not is_c(cond) else (cmp('ne', v, 0, 32) if cond else cmp('eq', v, 0, 32)))
    return Ret(v)


def guarded(p):
    """name of the static variable a guard variable belongs to"""
    if not (isinstance(p.obj, tuple) and p.obj[0] == 'g' and p.obj[2].startswith('_ZGV')):
        raise Unsupported("guard of an unknown variable")
    return '_Z' + p.obj[2][4:]


@model("__cxa_guard_acquire")
def guard_acquire(ex, st, a, ps, full, ins):
    st.ghost['sinit'] = st.ghost.get('sinit', ()) + (guarded(a[0]),)
    return Ret(1)


@model("__cxa_guard_release")
def guard_release(ex, st, a, ps, full, ins):
    """the static is now initialised; its value has to be the same on every call"""
    from engine import _IT
    n = guarded(a[0])
    for k, o in st.mem.items():
        if isinstance(k, tuple) and k[0] == 'g' and k[2] == n:
            for off, (sz, v) in o.cells.items():
                if not constant(v):
                    raise Unsupported("static variable initialised from something that is not constant")
    st.ghost['sinit'] = tuple(x for x in st.ghost.get('sinit', ()) if x != n)
    if not st.ghost['sinit']:
        del st.ghost['sinit']
    ex.store(st, a[0], 1, _IT[1])
    return Ret(0)


def constant(v):
    if isinstance(v, Rope):
        c = v.conc()
        return c is not None and all(is_c(x) for x in c)
    if isinstance(v, tuple):
        return all(constant(x) for x in v)
    return not z3.is_expr(v)


@model("__cxa_guard_abort", "__cxa_atexit", "__cxa_end_catch", "llvm.lifetime", "llvm.dbg",
       "llvm.assume", "operator delete", "operator delete[]", "__cxa_free_exception", "llvm.experimental", "llvm.donothing",
       "std::ios_base::Init::Init", "std::allocator::allocator", "std::allocator::~allocator",
       "std::__new_allocator::__new_allocator", "llvm.trap")
def nop(ex, st, a, ps, full, ins):
    return Ret(0)


@model("__cxa_allocate_exception")
def cxa_alloc(ex, st, a, ps, full, ins):
    return Ret(ex.new_obj(st, 'cells', 256, 'exception'))


@model("__cxa_throw")
def cxa_throw(ex, st, a, ps, full, ins):
    ti = a[1].obj[2]
    return Throw(ti, a[0])


@model("__cxa_begin_catch")
def cxa_begin(ex, st, a, ps, full, ins):
    st.caught = st.caught + (st.exc,)
    return Ret(a[0])


@model("__cxa_rethrow")
def cxa_rethrow(ex, st, a, ps, full, ins):
    t = st.caught[-1]
    return t


@model("llvm.eh.typeid")
def typeid(ex, st, a, ps, full, ins):
    return Ret(ex._tid(a[0].obj[2]))


@model("__clang_call_terminate", "std::terminate", "abort")
def terminate(ex, st, a, ps, full, ins):
    ex.fail(st, "no exception leaves a noexcept function (std::terminate not reached)")
    return []


@model("std::__throw_out_of_range_fmt", "std::__throw_out_of_range")
def thr_oor(ex, st, a, ps, full, ins):
    return ex.throw_std(st, "_ZTISt12out_of_range")


@model("std::__throw_logic_error")
def thr_le(ex, st, a, ps, full, ins):
    return ex.throw_std(st, "_ZTISt11logic_error")


@model("std::__throw_length_error")
def thr_len(ex, st, a, ps, full, ins):
    return ex.throw_std(st, "_ZTISt12length_error")


@model("std::__throw_bad_optional_access")
def thr_boa(ex, st, a, ps, full, ins):
    return ex.throw_std(st, "_ZTISt19bad_optional_access")


@model("llvm.memcpy", "llvm.memmove", "memcpy", "memmove")
def memcpy(ex, st, a, ps, full, ins):
    ex.memcpy(st, a[0], a[1], a[2])
    return Ret(a[0])


@model("llvm.memset")
def memset(ex, st, a, ps, full, ins):
    if not is_c(a[2]) or not is_c(a[1]):
        raise Unsupported("symbolic memset")
    if a[1] != 0:
        for k in range(a[2]):
            ex.store_raw(st, a[0] + k, 1, a[1])
        return None
    if a[2]:
        o = st.wobj(a[0].obj)
        c = a[0].off.conc()
        for k in [k for k in o.cells if c <= k < c + a[2]]:
            del o.cells[k]
        ex.store_raw(st, a[0], a[2], ZERO)
    return None


@model("llvm.ctlz")
def ctlz(ex, st, a, ps, full, ins):
    w = ins.ty.w
    x = a[0]
    if is_c(x):
        return Ret(w - x.bit_length())
    r = w
    for k in range(w):
        r = b_ite(eq(z3.Extract(k, k, bv(x, w)), 1, 1) if False else simpb(z3.Extract(k, k, bv(x, w)) == 1), w - 1 - k, r, w)
    return Ret(r)


@model("llvm.cttz")
def cttz(ex, st, a, ps, full, ins):
    w = ins.ty.w
    x = a[0]
    if is_c(x):
        return Ret((x & -x).bit_length() - 1 if x else w)
    r = w
    for k in range(w - 1, -1, -1):
        r = b_ite(simpb(z3.Extract(k, k, bv(x, w)) == 1), k, r, w)
    return Ret(r)


@model("llvm.umax", "llvm.umin", "llvm.smax", "llvm.smin")
def minmax(ex, st, a, ps, full, ins):
    w = ins.ty.w
    p = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[full.split('.')[1]]
    return Ret(b_ite(cmp(p, a[0], a[1], w), a[0], a[1], w))


@model("llvm.abs")
def labs(ex, st, a, ps, full, ins):
    w = ins.ty.w
    return Ret(b_ite(cmp('slt', a[0], 0, w), binop('sub', 0, a[0], w), a[0], w))


@model("operator new", "operator new[]")
def op_new(ex, st, a, ps, full, ins):
    return Ret(ex.new_obj(st, 'cells', a[0] if is_c(a[0]) else None, 'heap'))


# ---------------------------------------------------------------- number <-> text
def dec_digits_src(ex, v, w, signed):
    """decimal text of v as an opaque generated string (injective, never empty)"""
    key = ('dec', 's' if signed else 'u', w, v if is_c(v) else v.get_id())
    return key


_keep = []


@model("std::to_string")
def to_string(ex, st, a, ps, full, ins):
    v = a[1]
    t = ps[0]
    w = 64 if 'long' in t else 32
    signed = 'unsigned' not in t
    setr(ex, st, a[0], decimal(ex, st, v, w, signed))
    return None


def decimal(ex, st, v, w, signed):
    if is_c(v):
        return lit(str(sgn(v, w) if signed else v))
    # a value with known zero high bits has one name, whatever integer type it was converted through
    x = z3.simplify(v)
    if z3.is_bv_value(x):
        return lit(str(sgn(x.as_long(), w) if signed else x.as_long()))
    if z3.is_app_of(x, z3.Z3_OP_ZERO_EXT):
        x = x.arg(0)
        signed = False
    elif z3.is_app_of(x, z3.Z3_OP_CONCAT) and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0:
        x = z3.simplify(z3.Extract(v.size() - x.arg(0).size() - 1, 0, v))
        signed = False
    v, w = x, x.size()
    if not signed and w < 64:
        v, w = z3.ZeroExt(64 - w, v), 64
    _keep.append(v)
    f = z3.Function(f"declen_{'s' if signed else 'u'}{w}", z3.BitVecSort(w), z3.BitVecSort(64))
    ln = f(v)
    st.assume(z3.And(z3.UGE(ln, 1), z3.ULE(ln, 20)))
    k = ('dec', signed, w, v.sexpr())
    engine.DECIMALS[k] = z3.SignExt(65 - w, v) if signed else z3.ZeroExt(65 - w, v)
    return Rope(1, (Gen(k, ln),))


# exceptions of the repository: the message text is kept for the replay, nothing depends on it
def exc_ctor(ex, st, a, ps, full, ins):
    return None


for _t in ("kanji_tools::DomainError::DomainError", "kanji_tools::RangeError::RangeError",
           "std::domain_error::domain_error", "std::range_error::range_error", "std::invalid_argument::invalid_argument"):
    M[_t] = exc_ctor
for _t in ("kanji_tools::DomainError::~DomainError", "kanji_tools::RangeError::~RangeError", "std::domain_error::~domain_error",
           "std::range_error::~range_error"):
    M[_t] = exc_ctor


@model("llvm.fshl", "llvm.fshr")
def fsh_(ex, st, a, ps, full, ins):
    w = ins.ty.w
    x, y, c = a[:3]
    if not is_c(c):
        raise Unsupported("funnel shift by an unknown amount")
    c %= w
    if ins.x['callee'][1].startswith("llvm.fshr"):
        c = (w - c) % w
        if c == 0:
            return Ret(y)
    if c == 0:
        return Ret(x)
    if is_c(x) and is_c(y):
        return Ret(((x << c) | (y >> (w - c))) & ((1 << w) - 1))
    return Ret(simp(z3.Concat(z3.Extract(w - 1 - c, 0, bv(x, w)), z3.Extract(w - 1, w - c, bv(y, w)))))
