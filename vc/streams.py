"""Trusted models of reading lines and fields: std::getline on a file and on a std::stringstream made from one line, and of
std::from_chars, std::stoul and std::stoi.

A line has `n` pieces (what successive calls of getline with the delimiter read: the texts between delimiters, without an empty one
at the very end); a piece is an arbitrary text.  The file gives an arbitrary next line or none."""
import z3
from values import *
from engine import Ret, Obj, cmp
import lockstep
from stl import model, MAXLEN


class Line(lockstep.Spec):
    """the specification's state: how many pieces were read"""
    roles = ('count', 'piece')

    def __init__(self, ex, st, delim):
        self.delim = delim
        arr, n = ex.fresh_arr("line", 1), ex.fresh("line.len", 64)
        st.assume(z3.ULT(n, MAXLEN))
        st.assume(z3.Select(arr, n) == 0)
        self.arr, self.len = arr, n
        self.text = Rope(1, (Sl(arr_src(arr, n), 0, n),))
        self.n = ex.fresh("pieces", 64)
        self.FA = z3.Const(f"piece!{id(self)}", z3.ArraySort(z3.BitVecSort(64), z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8))))
        self.FL = z3.Const(f"piecelen!{id(self)}", z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(64)))
        self.empty = cmp('eq', n, 0, 64)
        self.open_end = b_or(self.empty, cmp('eq', z3.Select(arr, n - 1), delim, 8))      # an empty value follows the pieces
        st.assume(cmp('ule', self.n, n, 64))
        st.assume(cmp('eq', b_ite(cmp('eq', self.n, 0, 64), 1, 0, 8), b_ite(self.empty, 1, 0, 8), 8))
        st.assume(b_imp(self.open_end, z3.Select(self.FL, self.n) == 0))

    def piece(self, ex, st, k):
        k = z3.BitVecVal(k, 64) if is_c(k) else k
        arr, n = z3.Select(self.FA, k), z3.Select(self.FL, k)
        st.assume(z3.ULT(n, MAXLEN))
        st.assume(z3.Select(arr, n) == 0)
        return Rope(1, (Sl(arr_src(arr, n), 0, n),))

    def start(self, ex, st):
        return {'count': 0}

    def items(self, ex, st):
        return [("piece", lambda ex, st: self.piece(ex, st, st.ghost['spec']['count']))]

    def step(self, ex, st, gh, item):
        return [(cmp('ult', gh['count'], self.n, 64), {'count': add64(gh['count'], 1)})]

    def comps(self, ex, st, gh):
        return {'count': gh['count'], 'piece': Rope(1) if is_c(gh['count']) and not gh['count'] else
                self.piece(ex, st, sub64(gh['count'], 1))}

    def shape(self, gh):
        return 'fields'

    def havoc(self, ex, st, shape):
        k = ex.fresh("count", 64)
        st.assume(cmp('ule', k, self.n, 64))
        return {'count': k}


def stream(ex, st, ok):
    """the stream a call of getline returns"""
    vt = ex.new_obj(st, 'cells', 24, "vtable")
    ex.store_raw(st, vt, 8, 0)                       # offset of the virtual base
    p = ex.new_obj(st, 'cells', 16, "stream")
    ex.store_raw(st, p, 8, vt + 24)
    ex.store_raw(st, p + 8, 8, int(ok))
    return Ret(p)


@model("std::ios::operator bool", "std::basic_ios::operator bool")
def ios_bool(ex, st, a, ps, full, ins):
    v = ex.load_raw(st, a[0] + 8, 8)
    if v is None:
        raise Unsupported("state of an unknown stream")
    return Ret(v)


@model("std::ios::operator!", "std::basic_ios::operator!")
def ios_not(ex, st, a, ps, full, ins):
    v = ex.load_raw(st, a[0] + 8, 8)
    if v is None:
        raise Unsupported("state of an unknown stream")
    return Ret(1 - v)


@model("std::basic_stringstream::basic_stringstream", "std::stringstream::stringstream", "std::basic_istringstream::basic_istringstream")
def ss_ctor(ex, st, a, ps, full, ins):
    if not ps or ps[0] != 'std::string const&' or not isinstance(ex.lock, Line):
        raise Unsupported("string stream")
    import contract
    if contract.repr_key(ex.rope(st, a[1])) != contract.repr_key(ex.lock.text):
        raise Unsupported("string stream of another text")
    lockstep.open_stream(ex, st)
    st.ghost['ss'] = (a[0].obj, a[0].off.conc())
    return None


@model("std::basic_stringstream::~basic_stringstream", "std::stringstream::~stringstream", "std::basic_istringstream::~basic_istringstream")
def ss_dtor(ex, st, a, ps, full, ins):
    return None


@model("std::getline")
def getline(ex, st, a, ps, full, ins):
    l = ex.lock
    if not isinstance(l, Line):
        raise Unsupported("unknown stream")
    if len(ps) == 2:
        if st.ghost.get('file') != (a[0].obj, a[0].off.conc()):
            raise Unsupported("unknown stream")
        s1, s2 = st.fork(), st.fork()
        s1.assume(s1.ghost['more'])
        s2.assume(b_not(s2.ghost['more']))
        s1.ghost['file'] = None                      # (one line per call of the function under contract)
        ex.set_rope(s1, a[1], l.text)
        ex.set_rope(s2, a[1], unknown(ex, s2))
        return [(s1, stream(ex, s1, 1)), (s2, stream(ex, s2, 0))]
    if st.ghost.get('ss') != (a[0].obj, a[0].off.conc()):
        raise Unsupported("unknown stream")
    ex.oblige(st, cmp('eq', a[2], l.delim, 8), "lines are split at the file's delimiter", "postcondition")
    out = []
    for s, item in lockstep.take(ex, st):
        if item is None:
            s.assume(cmp('eq', s.ghost['spec']['count'], l.n, 64))
            ex.set_rope(s, a[1], unknown(ex, s))
        else:
            ex.set_rope(s, a[1], item)
        out.append((s, stream(ex, s, item is not None)))
    return out


def unknown(ex, st):
    n = ex.fresh("any.len", 64)
    arr = ex.fresh_arr("any", 1)
    st.assume(z3.ULT(n, MAXLEN))
    st.assume(z3.Select(arr, n) == 0)
    return Rope(1, (Sl(arr_src(arr, n), 0, n),))


# ------------------------------------------------------------------ numbers
def decimal(ex, r):
    """(is a non-empty sequence of digits, fits 64 bits, value): unknown functions of the text"""
    from contract import repr_key
    m = ex.__dict__.setdefault('decimals', {})
    k = repr_key(r)
    if k not in m:
        m[k] = (r, ex.fresh("digits", 1), ex.fresh("fits", 1), ex.fresh("value", 64))
    r0, d, f, v = m[k]
    return b_and(cmp('eq', d, 1, 1), cmp('ne', r.length(), 0, 64)), cmp('eq', f, 1, 1), v


@model("std::from_chars")
def from_chars(ex, st, a, ps, full, ins):
    t = ps[2].rstrip('&').strip()
    w = {'unsigned long': 64, 'unsigned int': 32, 'unsigned short': 16}.get(t)
    if w is None or len(a) > 3 and a[3] != 10 or a[0].obj != a[1].obj or st.mem[a[0].obj].kind != 'view':
        raise Unsupported("from_chars")
    o = st.mem[a[0].obj]
    r = ex.rope(st, Ptr(o.ref[0], o.ref[1]))
    if a[0].off.conc() != 0 or not ex.valid(st, cmp('eq', a[1].off.val(), r.length(), 64))[0]:
        raise Unsupported("from_chars of a part of a text")
    d, f, v = decimal(ex, r)
    if w < 64:
        f = b_and(f, cmp('ule', v, mask(w), 64))
    out = []

    def way(c, ptr, ec, val):
        if ex.feasible(st, c):
            s = st.fork()
            s.assume(c)
            if val is not None:
                ex.store(s, a[2], trunc(val, 64, w) if w < 64 else val, _IT[w // 8])
            out.append((s, Ret((ptr, ec))))
    way(b_and(d, f), a[1], 0, v)
    way(b_and(d, b_not(f)), a[1], 34, None)
    q = ex.fresh("parsed", 64)
    bad = b_not(d)
    way(b_and(bad, cmp('ult', q, r.length(), 64), cmp('eq', q, 0, 64)), a[0], 22, None)
    way(b_and(bad, cmp('eq', r.length(), 0, 64)), a[0], 22, None)
    way(b_and(bad, cmp('ult', q, r.length(), 64), cmp('ne', q, 0, 64)), Ptr(a[0].obj, a[0].off + Lin.of(q)), 0, ex.fresh("prefix", 64))
    way(b_and(bad, cmp('ult', q, r.length(), 64), cmp('ne', q, 0, 64)), Ptr(a[0].obj, a[0].off + Lin.of(q)), 34, None)
    return out


from engine import _IT
_U64 = _IT[8]


@model("std::stoul", "std::stoull")
def stoul(ex, st, a, ps, full, ins):
    if len(a) > 1 and (a[1].obj != 0 or a[2] != 10):
        raise Unsupported("stoul")
    r = ex.rope(st, a[0])
    d, f, v = decimal(ex, r)
    out = []

    def way(c, val, exc):
        if ex.feasible(st, c):
            s = st.fork()
            s.assume(c)
            out.append((s, Ret(val) if exc is None else ex.throw_std(s, exc)))
    way(b_and(d, f), v, None)
    way(b_and(d, b_not(f)), None, "_ZTISt12out_of_range")
    way(b_not(d), ex.fresh("prefix", 64), None)
    way(b_not(d), None, "_ZTISt12out_of_range")
    way(b_not(d), None, "_ZTISt16invalid_argument")
    return out


@model("std::stoi")
def stoi(ex, st, a, ps, full, ins):
    if a[1].obj != 0 or a[2] != 16:
        raise Unsupported("stoi")
    r = ex.rope(st, a[0])
    n = r.length()
    for lo, hi in ((1, 7),):
        if not ex.valid(st, b_and(cmp('ule', lo, n, 64), cmp('ule', n, hi, 64)))[0]:
            raise Unsupported("stoi of a text of unknown length")
    v, ok = hexvalue(r, n, 7)
    if not ex.valid(st, ok)[0]:
        out = [(st.fork(), Ret(ex.fresh("prefix", 32))), (st.fork(), ex.throw_std(st, "_ZTISt16invalid_argument"))]
        return [(out[0][0], out[0][1]), (st, out[1][1])]
    return Ret(v)


def hexvalue(r, n, most):
    """(value, all are hexadecimal digits) of the first `most` characters, of which n count"""
    v, ok = 0, 1
    for i in range(most):
        c = r.at(i, 8)
        dig, up, lo = (b_and(cmp('ule', a, c, 8), cmp('ule', c, b, 8)) for a, b in ((48, 57), (65, 70), (97, 102)))
        x = zext(b_ite(dig, binop('sub', c, 48, 8), b_ite(up, binop('sub', c, 55, 8), binop('sub', c, 87, 8), 8), 8), 8, 32)
        inside = cmp('ult', i, n, 64)
        v = b_ite(inside, binop('add', binop('mul', v, 16, 32), x, 32), v, 32)
        ok = b_and(ok, b_or(b_not(inside), dig, up, lo))
    return v, ok


# ------------------------------------------------------------------ the values of a row
def row_store(ex, st, p, r):
    """writes a value of the row at a symbolic position: the row is described by how many of its values (from the first on) are the
    fields of the line"""
    l = ex.lock
    if not isinstance(l, Line):
        raise Unsupported("row values outside of a line")
    o = st.mem[p.obj]
    i = p.off.div(32).val()
    c = o.cells[0][1]
    ex.oblige(st, cmp('ult', i, o.n, 64), "row value within the row", "safety")
    if not ex.valid(st, cmp('eq', i, c, 64))[0]:
        raise Unsupported("row values in another order")
    import contract
    from engine import rope_eq
    w = l.piece(ex, st, c)
    good = contract.repr_key(r) == contract.repr_key(w) or ex.valid(st, rope_eq(ex, st, r, w))[0]
    ex.store_raw(st, Ptr(p.obj, 0), 8, add64(c, 1))
    if not good:
        ex.store_raw(st, Ptr(p.obj, 8), 8, 1)
