"""Value domain of the symbolic executor: machine integers (Python int or z3 bit-vector), pointers
(object, linear offset), ropes (abstract std::basic_string contents)."""
import z3


class Unsupported(Exception):
    """the function left the verifier's fragment: the obligation is undecided (never a violation)"""


def is_c(x):
    return isinstance(x, int)


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def bv(x, w):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return x


def tobool(x):
    """i1 value (int or Bool) -> z3 Bool"""
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    return x


def simp(t):
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    if z3.is_true(t):
        return 1
    if z3.is_false(t):
        return 0
    return t


def simpb(t):
    """simplify a Bool"""
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_true(t):
        return 1
    if z3.is_false(t):
        return 0
    return t


def b_not(a):
    if is_c(a):
        return 1 - a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    r = []
    for a in xs:
        if is_c(a):
            if not a:
                return 0
        else:
            r.append(a)
    if not r:
        return 1
    return r[0] if len(r) == 1 else z3.And(*r)


def b_or(*xs):
    r = []
    for a in xs:
        if is_c(a):
            if a:
                return 1
        else:
            r.append(a)
    if not r:
        return 0
    return r[0] if len(r) == 1 else z3.Or(*r)


def b_imp(a, b):
    return b_or(b_not(a), b)


def b_ite(c, a, b, w=None):
    """if-then-else over ints (width w) or bools (w None)"""
    if is_c(c):
        return a if c else b
    if is_c(a) and is_c(b) and a == b:
        return a
    if w is None:
        return simpb(z3.If(c, tobool(a), tobool(b)))
    return z3.If(c, bv(a, w), bv(b, w))


def eq(a, b, w):
    if is_c(a) and is_c(b):
        return int(a == b)
    if w == 1 and not (z3.is_bv(a) or z3.is_bv(b)):
        if is_c(b):
            a, b = b, a
        if is_c(a):
            return b if a else b_not(b)
        return simpb(a == b)
    return simpb(bv(a, w) == bv(b, w))


def binop(op, a, b, w):
    if w == 1:
        if op == 'and':
            return b_and(a, b)
        if op == 'or':
            return b_or(a, b)
        if op in ('xor', 'add', 'sub'):
            if is_c(a) and is_c(b):
                return a ^ b
            if is_c(b):
                a, b = b, a
            if is_c(a):
                return b_not(b) if a else b
            return z3.Xor(a, b)
        raise Unsupported("i1 " + op)
    m = mask(w)
    if is_c(a) and is_c(b):
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return (a << b) & m if b < w else 0
        if op == 'lshr':
            return a >> b if b < w else 0
        if op == 'ashr':
            return (sgn(a, w) >> min(b, w - 1)) & m
        if op == 'udiv':
            return a // b if b else 0
        if op == 'urem':
            return a % b if b else 0
        if op in ('sdiv', 'srem'):
            x, y = sgn(a, w), sgn(b, w)
            if y == 0:
                return 0
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return (q if op == 'sdiv' else x - q * y) & m
    if op in ('add', 'or', 'xor', 'sub', 'shl', 'lshr', 'ashr') and is_c(b) and b == 0:
        return a
    if op in ('add', 'or', 'xor') and is_c(a) and a == 0:
        return b
    if op in ('and', 'mul') and ((is_c(a) and a == 0) or (is_c(b) and b == 0)):
        return 0
    if op == 'mul' and is_c(b) and b == 1:
        return a
    x, y = bv(a, w), bv(b, w)
    if op == 'add':
        r = x + y
    elif op == 'sub':
        r = x - y
    elif op == 'mul':
        r = x * y
    elif op == 'and':
        r = x & y
    elif op == 'or':
        r = x | y
    elif op == 'xor':
        r = x ^ y
    elif op == 'shl':
        r = x << y
    elif op == 'lshr':
        r = z3.LShR(x, y)
    elif op == 'ashr':
        r = x >> y
    elif op == 'udiv':
        r = z3.UDiv(x, y)
    elif op == 'urem':
        r = z3.URem(x, y)
    elif op == 'sdiv':
        r = x / y
    elif op == 'srem':
        r = z3.SRem(x, y)
    else:
        raise Unsupported(op)
    return simp(r)


def add64(a, b):
    return binop('add', a, b, 64)


def sub64(a, b):
    return binop('sub', a, b, 64)


def cmp(pred, a, b, w):
    if w == 1:
        if pred in ('eq', 'ne'):
            r = eq(a, b, 1)
            return r if pred == 'eq' else b_not(r)
        raise Unsupported("i1 cmp " + pred)
    if is_c(a) and is_c(b):
        x, y = (sgn(a, w), sgn(b, w)) if pred[0] == 's' else (a, b)
        p = pred[-2:]
        return int({'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[p])
    x, y = bv(a, w), bv(b, w)
    if pred == 'eq':
        r = x == y
    elif pred == 'ne':
        r = x != y
    elif pred == 'ugt':
        r = z3.UGT(x, y)
    elif pred == 'uge':
        r = z3.UGE(x, y)
    elif pred == 'ult':
        r = z3.ULT(x, y)
    elif pred == 'ule':
        r = z3.ULE(x, y)
    elif pred == 'sgt':
        r = x > y
    elif pred == 'sge':
        r = x >= y
    elif pred == 'slt':
        r = x < y
    elif pred == 'sle':
        r = x <= y
    return simpb(r)


def zext(a, w, w2):
    if is_c(a):
        return a
    if w == 1:
        return simp(z3.If(a, z3.BitVecVal(1, w2), z3.BitVecVal(0, w2)))
    return simp(z3.ZeroExt(w2 - w, a))


def sext(a, w, w2):
    if is_c(a):
        return sgn(a, w) & mask(w2)
    if w == 1:
        return simp(z3.If(a, z3.BitVecVal(mask(w2), w2), z3.BitVecVal(0, w2)))
    return simp(z3.SignExt(w2 - w, a))


def trunc(a, w, w2):
    if is_c(a):
        return a & mask(w2)
    if w2 == 1:
        return simpb(z3.Extract(0, 0, a) == 1)
    return simp(z3.Extract(w2 - 1, 0, a))


# ---------------------------------------------------------------- linear offsets
class Lin:
    """const + sum coeff*term (terms: 64 bit z3 bit-vectors)"""
    __slots__ = ("c", "t")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t  # tuple of (term, coeff) sorted by ast id

    @staticmethod
    def of(x, k=1):
        """linear view of a 64-bit value times k"""
        if is_c(x):
            return Lin(sgn(x, 64) * k if x >> 63 else x * k)
        if isinstance(x, Lin):
            return x.scale(k)
        d = {}
        c = _lin(x, k, d)
        return Lin._mk(c, d)

    @staticmethod
    def _mk(c, d):
        t = tuple(sorted(((tm, co) for tm, co in d.values() if co), key=lambda p: p[0].get_id()))
        c &= mask(64)
        return Lin(sgn(c, 64), t)

    def scale(self, k):
        return Lin(self.c * k, tuple((t, c * k) for t, c in self.t if c * k))

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        d = {}
        for t, c in self.t + o.t:
            k = t.get_id()
            d[k] = (t, d[k][1] + c if k in d else c)
        return Lin._mk(self.c + o.c, d)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + o.scale(-1)

    def conc(self):
        return self.c if not self.t else None

    def div(self, k):
        if k == 1:
            return self
        if self.c % k or any(c % k for _, c in self.t):
            return None
        return Lin(self.c // k, tuple((t, c // k) for t, c in self.t))

    def val(self):
        """as 64-bit value"""
        if not self.t:
            return self.c & mask(64)
        r = z3.BitVecVal(self.c & mask(64), 64)
        for t, c in self.t:
            r = r + (t if c == 1 else t * z3.BitVecVal(c & mask(64), 64))
        return simp(r)

    def same(self, o):
        return self.c == o.c and len(self.t) == len(o.t) and \
            all(a[1] == b[1] and a[0].eq(b[0]) for a, b in zip(self.t, o.t))

    def __repr__(self):
        return f"{self.c}" + "".join(f"+{c}*{t}" for t, c in self.t)


def _lin(x, k, d):
    if z3.is_bv_value(x):
        return x.as_long() * k
    if z3.is_app(x):
        dk = x.decl().kind()
        if dk == z3.Z3_OP_BADD:
            return sum(_lin(a, k, d) for a in x.children())
        if dk == z3.Z3_OP_BSUB:
            r = _lin(x.arg(0), k, d)
            for a in x.children()[1:]:
                r += _lin(a, -k, d)
            return r
        if dk == z3.Z3_OP_BNEG:
            return _lin(x.arg(0), -k, d)
        if dk == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(0)):
            m = x.arg(0).as_long()
            return _lin(x.arg(1), k * sgn(m, 64), d)
    i = x.get_id()
    d[i] = (x, d[i][1] + k if i in d else k)
    return 0


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off if isinstance(off, Lin) else Lin(off)

    def __add__(self, k):
        return Ptr(self.obj, self.off + k)

    def null(self):
        return self.obj == 0

    def __repr__(self):
        return f"Ptr({self.obj},{self.off})"


class FnPtr:
    __slots__ = ("name", "mod")

    def __init__(self, name, mod=None):
        self.name = name
        self.mod = mod

    def __repr__(self):
        return f"FnPtr({self.name})"


NULL = Ptr(0)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Opaque:
    """value the verifier does not look into (doubles, streams, ...)"""
    __slots__ = ("what", "data")

    def __init__(self, what, data=None):
        self.what, self.data = what, data

    def __repr__(self):
        return f"<{self.what} {self.data if self.data is not None else ''}>"


# ---------------------------------------------------------------- ropes
class Src:
    """indexable source of characters"""

    def __init__(self, key, at, nul=None):
        self.key = key
        self._at = at
        self.nul = nul  # length value at which the source is known to hold 0 (NUL terminated)

    def at(self, i):
        return self._at(i)

    def __repr__(self):
        return f"Src{self.key}"


def arr_src(arr, nul=None):
    return Src(('arr', arr.get_id()), lambda i: simp(z3.Select(arr, bv(i, 64))), nul)


class Lit:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        if all(is_c(x) and 32 <= x < 127 for x in self.e):
            return repr("".join(map(chr, self.e)))
        return "Lit" + str(self.e)


class Sl:
    """src[start, start+len)"""
    __slots__ = ("src", "start", "len")

    def __init__(self, src, start, ln):
        self.src, self.start, self.len = src, start, ln

    def __repr__(self):
        return f"{self.src}[{self.start}:+{self.len}]"


class Gen:
    """opaque generated sequence identified by key, with known symbolic length"""
    __slots__ = ("key", "len")

    def __init__(self, key, ln):
        self.key, self.len = key, ln

    def __repr__(self):
        return f"Gen{self.key}"


class Rope:
    __slots__ = ("ew", "p")

    def __init__(self, ew, pieces=()):
        self.ew = ew
        out = []
        for x in pieces:
            if isinstance(x, Lit):
                if not x.e:
                    continue
                if out and isinstance(out[-1], Lit):
                    out[-1] = Lit(out[-1].e + x.e)
                    continue
            elif is_c(x.len) and x.len == 0:
                continue
            elif isinstance(x, Sl) and is_c(x.len) and x.len <= 16:
                e = tuple(x.src.at(add64(x.start, i)) for i in range(x.len))
                if out and isinstance(out[-1], Lit):
                    out[-1] = Lit(out[-1].e + e)
                else:
                    out.append(Lit(e))
                continue
            elif isinstance(x, Sl) and out and isinstance(out[-1], Sl) and out[-1].src.key == x.src.key and \
                    Lin.of(add64(out[-1].start, out[-1].len)).same(Lin.of(x.start)):
                out[-1] = Sl(x.src, out[-1].start, add64(out[-1].len, x.len))
                continue
            out.append(x)
        self.p = tuple(out)

    def __add__(self, o):
        return Rope(self.ew, self.p + o.p)

    def length(self):
        r = 0
        for x in self.p:
            r = add64(r, len(x.e) if isinstance(x, Lit) else x.len)
        return r

    def conc(self):
        """tuple of element values when the length is concrete, else None"""
        r = []
        for x in self.p:
            if not isinstance(x, Lit):
                return None
            r.extend(x.e)
        return tuple(r)

    def pystr(self):
        c = self.conc()
        if c is None or not all(is_c(x) for x in c):
            return None
        return bytes(c).decode('utf-8', 'replace') if self.ew == 1 else "".join(map(chr, c))

    def single(self):
        return self.p[0] if len(self.p) == 1 and isinstance(self.p[0], Sl) else None

    def nul_at_end(self):
        s = self.single()
        return s is not None and s.src.nul is not None and Lin.of(add64(s.start, s.len)).same(Lin.of(s.src.nul))

    def at(self, i, w):
        """element i; caller has shown i < length (or i == length, reading NUL)"""
        if self.nul_at_end():
            s = self.p[0]
            return s.src.at(add64(s.start, i))
        if not self.p:
            return 0
        pos = 0
        res = []
        for x in self.p:
            n = len(x.e) if isinstance(x, Lit) else x.len
            rel = sub64(i, pos)
            if isinstance(x, Lit):
                if is_c(rel):
                    if rel < n:
                        v = x.e[rel]
                    else:
                        v = None
                    if v is None:
                        pos = add64(pos, n)
                        continue
                    if is_c(pos):
                        if not res:
                            return v
                else:
                    v = x.e[-1]
                    for k in range(n - 2, -1, -1):
                        v = b_ite(eq(rel, k, 64), x.e[k], v, w)
                    if n > 4000:
                        raise Unsupported("long literal index")
            elif isinstance(x, Sl):
                v = x.src.at(add64(x.start, rel))
            else:
                v = ('gen', x.key)
            end = add64(pos, n)
            inr = cmp('ult', i, end, 64)
            if is_c(inr):
                if inr and not res:
                    if isinstance(v, tuple):
                        raise Unsupported("element of generated sequence")
                    return v
                if not inr:
                    pos = end
                    continue
            if isinstance(v, tuple):
                raise Unsupported("element of generated sequence")
            res.append((inr, v))
            pos = end
        out = 0
        for c, v in reversed(res):
            out = b_ite(c, v, out, w)
        return simp(out) if not is_c(out) else out

    def __repr__(self):
        return f"Rope<{self.ew}>" + "+".join(map(repr, self.p)) if self.p else f"Rope<{self.ew}>''"


def lit(s, ew=1):
    if isinstance(s, str):
        s = s.encode() if ew == 1 else [ord(c) for c in s]
    return Rope(ew, (Lit(tuple(s)),))
