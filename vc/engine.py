"""Symbolic executor / verification-condition generator over LLVM IR.

A function under verification is executed symbolically from its precondition; each callee is either
replaced by its contract (never its body), by a model of the C++ standard library (trusted), or - when it
has no contract of its own (small helpers, lambdas, template glue) - inlined.  Loops whose trip count is a
constant are executed completely; other loops are cut at their header by an inductive invariant (found by
Houdini over candidates made from the specification's ghost state)."""
import re
import time
import z3
import llvmc
from llvmc import demangle, Module
from values import *

FIRST_TIMEOUT = 1500
Z3_TIMEOUT = 30000


class Ret:
    __slots__ = ("v",)

    def __init__(self, v=None):
        self.v = v

    def __repr__(self):
        return f"Ret({self.v})"


class Throw:
    __slots__ = ("ti", "ptr")

    def __init__(self, ti, ptr=NULL):
        self.ti, self.ptr = ti, ptr

    @property
    def type(self):
        d = demangle(self.ti)
        return d.replace("typeinfo for ", "")

    def __repr__(self):
        return f"Throw({self.type})"


class Obj:
    __slots__ = ("kind", "size", "cells", "src", "ew", "ref", "const", "lazy", "name", "n", "ptrs", "tail", "texts", "fields")

    def __init__(self, kind, size=None, name="", **k):
        self.kind, self.size, self.name = kind, size, name
        self.cells = {}
        self.src = self.ew = self.ref = self.lazy = self.n = self.ptrs = self.tail = self.texts = self.fields = None
        self.const = False
        for a, b in k.items():
            setattr(self, a, b)

    def copy(self):
        o = Obj(self.kind, self.size, self.name)
        o.cells = dict(self.cells)
        o.src, o.ew, o.ref, o.const, o.lazy, o.n, o.ptrs, o.tail, o.texts, o.fields = self.src, self.ew, self.ref, self.const, self.lazy, self.n, self.ptrs, self.tail, self.texts, self.fields
        return o


class Zero:
    """zero-filled run of bytes"""

    def __repr__(self):
        return "ZERO"


ZERO = Zero()


class State:
    __slots__ = ("mem", "pc", "owned", "exc", "caught", "ghost", "wlog", "events", "trace")

    def __init__(self):
        self.mem = {}
        self.pc = ()
        self.owned = set()
        self.exc = None
        self.caught = ()
        self.ghost = {}
        self.wlog = None
        self.events = ()
        self.trace = ()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.owned = set()
        self.owned = set()
        s.exc = self.exc
        s.caught = self.caught
        s.ghost = dict(self.ghost)
        s.wlog = self.wlog
        s.events = self.events
        s.trace = self.trace
        return s

    def wobj(self, i):
        o = self.mem[i]
        if i not in self.owned:
            o = o.copy()
            self.mem[i] = o
            self.owned.add(i)
        return o

    def assume(self, c):
        if is_c(c):
            if not c:
                self.pc = self.pc + (z3.BoolVal(False),)
            return
        if z3.is_and(c):
            self.pc = self.pc + tuple(c.children())
        else:
            self.pc = self.pc + (c,)


class Oblig:
    __slots__ = ("name", "status", "where", "time", "backend", "model", "why", "kind", "replay")

    def __init__(self, name, kind, where):
        self.name, self.kind, self.where = name, kind, where
        self.status, self.time, self.backend, self.model, self.why, self.replay = None, 0.0, "", None, "", None


_cn_rep = [("(anonymous namespace)", "{anon}"), ("operator()", "operator{call}"), ("operator<=>", "operator{ss}"),
           ("operator<<=", "operator{shleq}"), ("operator>>=", "operator{shreq}"),
           ("operator<<", "operator{shl}"), ("operator>>", "operator{shr}"), ("operator<=", "operator{le}"),
           ("operator>=", "operator{ge}"), ("operator->", "operator{arrow}"), ("operator<", "operator{lt}"),
           ("operator>", "operator{gt}")]
_strs = [
    ("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "std::string"),
    ("std::__cxx11::basic_string<char32_t, std::char_traits<char32_t>, std::allocator<char32_t> >", "std::u32string"),
    ("std::__cxx11::basic_string<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t> >", "std::wstring"),
    ("std::basic_string_view<char, std::char_traits<char> >", "std::string_view"),
    ("std::basic_string_view<char32_t, std::char_traits<char32_t> >", "std::u32string_view"),
    ("std::basic_ostream<char, std::char_traits<char> >", "std::ostream"),
    ("std::basic_istream<char, std::char_traits<char> >", "std::istream"),
    ("std::basic_ios<char, std::char_traits<char> >", "std::ios"),
    ("kanji_tools::String", "std::string"),
]
_canon_cache = {}


def canon(mangled):
    """mangled name -> (qualified name without template arguments, parameter text list, full demangled)"""
    r = _canon_cache.get(mangled)
    if r:
        return r
    d = demangle(mangled)
    full = d
    d = re.sub(r"\[abi:\w+\]", "", d)
    for a, b in _strs:
        d = d.replace(a, b)
    full = d
    for a, b in _cn_rep:
        d = d.replace(a, b)
    d = re.sub(r"(operator\{\w+\}) <", r"\1<", d)
    # locate the parameter list
    depth = 0
    pstart = None
    i = 0
    while i < len(d):
        c = d[i]
        if c == '<':
            depth += 1
        elif c == '>' and not (i and d[i - 1] == '-'):
            depth -= 1
        elif c == '(' and depth == 0:
            # nested "(...)" as part of a local scope name, e.g. f(int)::{lambda}  -> continue after it
            j, dd = i, 0
            while j < len(d):
                if d[j] == '(':
                    dd += 1
                elif d[j] == ')':
                    dd -= 1
                    if dd == 0:
                        break
                j += 1
            rest = d[j + 1:]
            if rest.startswith(" const::") or rest.startswith("::") or rest.startswith("#"):
                i = j + 1
                continue
            pstart = i
            break
        i += 1
    if pstart is None:
        name, params = d, ""
    else:
        name = d[:pstart]
        params = d[pstart + 1:j]
    # strip template arguments and the return type
    out, depth = [], 0
    pd = 0
    for i, c in enumerate(name):
        if c == '<':
            depth += 1
        elif c == '>' and not (i and name[i - 1] == '-'):
            depth -= 1
        elif depth == 0:
            if c == '(':
                pd += 1
            elif c == ')':
                pd -= 1
            if c == ' ' and pd == 0:
                tail = "".join(out)
                if tail.endswith("operator") or tail.endswith("operator new") or tail.endswith("operator delete"):
                    out.append(c)
                elif name[i:i + 6] == " const":
                    out.append(c)
                else:
                    out = []
            else:
                out.append(c)
    q = "".join(out)
    q = q.replace("std::__cxx11::", "std::")
    for a, b in _cn_rep[1:]:
        q = q.replace(b, a)
    ps, depth, cur = [], 0, ""
    for c in params:
        if c in "<(":
            depth += 1
        elif c in ">)":
            depth -= 1
        if c == ',' and depth == 0:
            ps.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        ps.append(cur.strip())
    r = (q.strip(), ps, full)
    _canon_cache[mangled] = r
    return r


STD_BASES = {
    "_ZTISt12domain_error": "_ZTISt11logic_error", "_ZTISt16invalid_argument": "_ZTISt11logic_error",
    "_ZTISt12out_of_range": "_ZTISt11logic_error", "_ZTISt12length_error": "_ZTISt11logic_error",
    "_ZTISt11range_error": "_ZTISt13runtime_error", "_ZTISt14overflow_error": "_ZTISt13runtime_error",
    "_ZTISt11logic_error": "_ZTISt9exception", "_ZTISt13runtime_error": "_ZTISt9exception",
    "_ZTISt9bad_alloc": "_ZTISt9exception", "_ZTISt8bad_cast": "_ZTISt9exception",
    "_ZTISt19bad_optional_access": "_ZTISt9exception"}


class Budget(Exception):
    pass


class LoopInfo:
    pass


class Engine:
    lock = None
    def __init__(self, modules, models, opts=None):
        self.modules = modules
        self.models = models          # STL models: qualname -> handler
        self.contracts = {}           # qualname -> handler (contract of repo function)
        self.contract_uses = {}
        self.model_uses = {}
        self.inlined = {}
        self.obligations = []
        self.record = True
        self.counter = 0
        self.frame = 0
        self.depth = 0
        self.fnmap = {}
        self.gmap = {}
        for m in modules:
            for n, f in m.functions.items():
                if not f.decl and not f.internal and n not in self.fnmap:
                    self.fnmap[n] = f
            for n, g in m.globals.items():
                if not g.decl and not g.internal and n not in self.gmap:
                    self.gmap[n] = g
        self.opts = {'mode': 'inv', 'unroll': 300, 'max_paths': 4000, 'deadline': None, 'unroll_fns': ()}
        self.opts.update(opts or {})
        self.ghost_specs = []   # list of GhostLoop
        self.queries = 0
        self.solver_time = 0.0
        self.by_backend = {}
        self.cur = "?"
        self._satcache = {}
        self.loops_seen = {}
        self.where = ""
        self.reach = 0
        self.collect_smt = None
        self.paths = 0
        self.ver = False
        self.inputs = []
        self.hints = []
        self._dyn, self._inits = {}, {}

    # ------------------------------------------------------------ fresh symbols
    elems = {}

    def fresh(self, name, w):
        self.counter += 1
        n = f"{name}!{self.counter}"
        return z3.Bool(n) if w == 1 else z3.BitVec(n, w)

    def fresh_arr(self, name, ew):
        self.counter += 1
        return z3.Array(f"{name}!{self.counter}", z3.BitVecSort(64), z3.BitVecSort(8 * ew))

    def new_obj(self, st, kind, size=None, name="", **k):
        self.counter += 1
        i = self.counter + 1000
        st.mem[i] = Obj(kind, size, name, **k)
        st.owned.add(i)
        return Ptr(i)

    # ------------------------------------------------------------ solving
    def _solve(self, cs, timeout=None):
        self.queries += 1
        if self.opts['deadline'] and time.time() > self.opts['deadline']:
            raise Budget("time budget exhausted")
        t0 = time.time()
        s = z3.SimpleSolver()           # congruence reasoning first: most obligations need little bit-level work
        s.set("timeout", FIRST_TIMEOUT)
        s.add(*cs)
        r = s.check()
        if r == z3.unknown:
            s = z3.Solver()
            s.set("timeout", timeout or Z3_TIMEOUT)
            s.add(*cs)
            r = s.check()
        self.solver_time += time.time() - t0
        return r, s

    def feasible(self, st, c=None):
        if is_c(c):
            if not c:
                return False
            c = None
        if c is None:
            if not st.pc:
                return True
            cs = list(st.pc)
        else:
            cs = list(st.pc) + [c]
        key = tuple(x.get_id() for x in cs)
        e = self._satcache.get(key)
        if e is not None:
            return e[0]
        r, _ = self._solve(cs, 5000)
        res = r != z3.unsat
        self._satcache[key] = (res, cs)
        return res

    def valid(self, st, c):
        """pc => c ?  returns (True/False/None, model)"""
        if is_c(c) and c:
            return True, None
        nc = b_not(c)
        cs = list(st.pc) + ([] if is_c(nc) else [nc])
        r, s = self._solve(cs)
        if r == z3.unsat:
            return True, None
        if r == z3.sat:
            return False, s.model()
        r2 = cvc5_check(s.to_smt2())
        if r2 == 'unsat':
            return True, None
        return None, None

    def oblige(self, st, c, name, kind="safety", where=None):
        """emit one obligation; afterwards the path assumes it"""
        if self.record:
            o = Oblig(name, kind, where or self.where)
            t0 = time.time()
            if is_c(c) and c:
                o.status, o.backend = "proved", "trivial"
            else:
                nc = b_not(c)
                cs = list(st.pc) + ([] if is_c(nc) else [nc])
                r, s = self._solve(cs)
                if r == z3.sat:
                    for gs in self.ghost_specs:
                        if gs.name in st.ghost:
                            self.hint(s.model(), st.ghost[gs.name])
                if r == z3.unsat:
                    o.status, o.backend = "proved", "z3"
                    if self.collect_smt is not None:
                        self.collect_smt.append((name, s.to_smt2()))
                elif r == z3.sat:
                    o.status, o.backend, o.model = "failed", "z3", s.model()
                else:
                    r2 = cvc5_check(s.to_smt2())
                    if r2 == 'unsat':
                        o.status, o.backend = "proved", "cvc5"
                    else:
                        o.status, o.why = "unknown", "z3: " + s.reason_unknown() + ", cvc5: " + str(r2)
            o.time = time.time() - t0
            self.obligations.append(o)
            if o.status != "proved":
                o.why = o.why or ("counterexample" if o.model is not None else "")
                o.replay = (st, c)
        if not (is_c(c) and c):
            st.assume(c)

    def hint(self, m, gvars):
        """candidate failing inputs from a model of a failed induction step: the text starting at the position the
        specification has reached"""
        if len(self.hints) > 40:
            return
        pos = gvars.get('p', gvars.get('g'))
        if pos is None:
            return
        p0 = m.eval(bv(pos, 64), model_completion=True).as_long()
        out = []
        for i in self.inputs:
            if i[1] == 'str':
                n = m.eval(i[3], model_completion=True).as_long()
                ch = []
                for k in range(p0, min(n, p0 + 12)):
                    c = m.eval(z3.Select(i[2], z3.BitVecVal(k, 64)), model_completion=True).as_long()
                    ch.append(c)
                out.append((i[0], ch))
            elif i[1] == 'int':
                v = m.eval(tobool(i[2]) if i[3] == 1 else bv(i[2], i[3]), model_completion=True)
                out.append((i[0], int(z3.is_true(v)) if i[3] == 1 else v.as_long()))
            else:
                out.append((i[0], i[2]))
        if out not in self.hints:
            self.hints.append(out)

    def fail(self, st, name, kind="safety"):
        self.oblige(st, 0, name, kind)

    # ------------------------------------------------------------ globals
    def resolve_fn(self, name, mod):
        f = mod.functions.get(name) if mod else None
        if f is not None and not f.decl:
            return f
        if mod and name in mod.aliases:
            return self.resolve_fn(mod.aliases[name], mod)
        g = self.fnmap.get(name)
        if g is not None:
            return g
        for m in self.modules:
            if name in m.aliases:
                return self.resolve_fn(m.aliases[name], m)
        return f

    def resolve_global(self, name, mod):
        g = mod.globals.get(name) if mod else None
        if g is not None and not g.decl:
            return g
        return self.gmap.get(name, g)

    def global_ptr(self, st, name, mod):
        if name in (mod.functions if mod else {}) or name in self.fnmap:
            return FnPtr(name, mod)
        if mod and name in mod.aliases:
            return self.global_ptr(st, mod.aliases[name], mod)
        g = self.resolve_global(name, mod)
        if g is None:
            raise Unsupported("unknown global " + name)
        key = ('g', g.mod.label if g.internal else '', name)
        if key not in st.mem:
            o = Obj('cells', g.ty.size, name)
            o.const = g.const
            if g.decl:
                o.lazy = 'extern'
            else:
                self._init_cells(st, o, 0, g.init, g.ty, g.mod)
            st.mem[key] = o
            st.owned.add(key)
            if not g.const and not g.decl and not name.startswith(('_ZZ', '_ZGV')):
                self._variable(st, key, o, g)
        return Ptr(key)

    def _variable(self, st, key, o, g):
        """a namespace-scope variable or static member that is not constant for the compiler: the value its initialiser
        gives (run here), provided nothing but that initialiser writes it; otherwise unknown contents"""
        us = self._dyn.get((g.mod.label, g.name))
        if us is None:
            us = llvmc.uses(g.ref)
            self._dyn[(g.mod.label, g.name)] = us
        inits = sorted({f for op, f in us if op != 'load' and f.startswith('__cxx_global_var_init')})
        others = [f for op, f in us if op != 'load' and not f.startswith('__cxx_global_var_init')]
        if not inits:
            if others:
                o.cells.clear()
                o.lazy = 'extern'
            return
        val = None
        for f in inits:
            val = self._initial(g, f)
            if val is not None:
                break
        o.cells.clear()
        if val is None:
            o.lazy = 'extern'
        else:
            o.cells.update(val)

    def _initial(self, g, f):
        """cells of a variable after its initialiser ran (None when that is not a single constant outcome)"""
        k = (g.mod.label, g.name, f)
        if k in self._inits:
            return self._inits[k]
        self._inits[k] = None
        sub = Engine(self.modules, self.models, {'max_paths': 50, 'unroll': 40, 'mode': 'unroll',
                                                 'deadline': time.time() + 5})
        sub.fnmap, sub.gmap, sub._inits, sub._dyn = self.fnmap, self.gmap, self._inits, self._dyn
        sub.record = False
        st = State()
        st.mem[0] = Obj('null')
        key = ('g', g.mod.label if g.internal else '', g.name)
        o = Obj('cells', g.ty.size, g.name)
        self._init_cells(st, o, 0, g.init, g.ty, g.mod)
        st.mem[key] = o
        st.owned.add(key)
        st.ghost['sinit'] = (g.name,)
        try:
            outs = sub.call_fn(st, g.mod.functions[f], [])
        except (Unsupported, Budget, PathEnd, ForkOn, RecursionError, AttributeError, TypeError, KeyError, IndexError, ValueError):
            return None
        if len(outs) == 1 and not isinstance(outs[0][1], Throw):
            cells = outs[0][0].mem[key].cells
            if all(stl_constant(v) for sz, v in cells.values()):
                self._inits[k] = dict(cells)
        return self._inits[k]

    def _init_cells(self, st, o, off, c, ty, mod):
        k = c[0]
        if k == 'c':
            o.cells[off] = ((c[2] + 7) // 8, c[1])
        elif k == 'zero':
            if ty.size:
                o.cells[off] = (ty.size, ZERO)
        elif k == 'undef':
            if ty.size:
                o.cells[off] = (ty.size, UNDEF)
        elif k == 'str':
            o.cells[off] = (len(c[1]), c[1])
        elif k == 'agg':
            t = c[1]
            if t.kind == 'struct':
                for e, et, eo in zip(c[2], t.elems, t.offs):
                    self._init_cells(st, o, off + eo, e, et, mod)
            else:
                for i, e in enumerate(c[2]):
                    self._init_cells(st, o, off + i * t.elem.size, e, t.elem, mod)
        elif k == 'null':
            o.cells[off] = (8, NULL)
        elif k in ('g', 'gep'):
            o.cells[off] = (8, ('lazyconst', c, mod))
        elif k == 'fp':
            o.cells[off] = (ty.size, Opaque('fp', c[1]))
        else:
            o.cells[off] = (ty.size or 8, ('lazyconst', c, mod))

    def const(self, st, c, mod, ty=None):
        k = c[0]
        if k == 'c':
            return c[1]
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_ptr(st, c[1], mod)
        if k == 'gep':
            p = self.const(st, c[1], mod)
            return self.gep(p, c[2], [self.const(st, x, mod) for x in c[3]], [64] * len(c[3]),
                            [x for x in c[3]])
        if k == 'zero':
            return self.zero(c[1])
        if k == 'undef':
            return UNDEF
        if k == 'agg':
            return tuple(self.const(st, x, mod) for x in c[2])
        if k == 'str':
            return tuple(c[1])
        if k == 'fp':
            return Opaque('fp', c[1])
        if k == 'meta':
            return None
        raise Unsupported("constant " + str(c[:2]))

    def zero(self, ty):
        if ty.kind == 'int':
            return 0
        if ty.kind == 'ptr':
            return NULL
        if ty.kind == 'struct':
            return tuple(self.zero(e) for e in ty.elems)
        if ty.kind in ('array', 'vector'):
            return tuple(self.zero(ty.elem) for _ in range(ty.n))
        if ty.kind == 'float':
            return Opaque('fp', '0')
        raise Unsupported("zero of " + str(ty))

    # ------------------------------------------------------------ pointers and memory
    def gep(self, p, ty, idx, ws, raw=None):
        if isinstance(p, Undef):
            raise Unsupported("gep of undef")
        if not isinstance(p, Ptr):
            raise Unsupported("gep of " + repr(p))
        off = p.off + Lin.of(self._sx(idx[0], ws[0])).scale(ty.size)
        t = ty
        for k, i in enumerate(idx[1:], 1):
            if t.kind == 'struct':
                off = off + t.offs[i]
                t = t.elems[i]
            elif t.kind in ('array', 'vector'):
                off = off + Lin.of(self._sx(i, ws[k])).scale(t.elem.size)
                t = t.elem
            else:
                raise Unsupported("gep into " + str(t))
        return Ptr(p.obj, off)

    @staticmethod
    def _sx(i, w):
        if isinstance(i, PtrInt):
            raise Unsupported("gep by pointer integer")
        return sext(i, w, 64) if w != 64 else i

    def view(self, st, p, ew):
        """pointer to the first character of the string object at p"""
        c = p.off.conc()
        if c is None:
            raise Unsupported("string at symbolic offset")
        key = ('v', p.obj, c)
        if key not in st.mem:
            o = Obj('view', None, "chars")
            o.ref, o.ew = (p.obj, c), ew
            st.mem[key] = o
        return Ptr(key)

    def elem_value(self, src, what, w):
        """an unknown value determined by an element of a list of texts"""
        n, k = self.elems[src.key]
        return z3.Function(f"{what}:{n}", z3.BitVecSort(64), z3.BitVecSort(w))(k)

    def fresh_texts(self, name):
        """an unbounded list of arbitrary texts: index -> rope"""
        self.counter += 1
        n = f"{name}!{self.counter}"
        B = z3.BitVecSort(64)
        F, L = z3.Function("chars:" + n, B, B, z3.BitVecSort(8)), z3.Function("len:" + n, B, B)

        def at(ex, st, k):
            kz = bv(k, 64)
            ln = L(kz)
            st.assume(z3.ULT(ln, 1 << 40))
            st.assume(F(kz, ln) == 0)
            ex.elems[('elem', n, kz.sexpr())] = (n, kz)
            return Rope(1, (Sl(Src(('elem', n, kz.sexpr()), lambda i: F(kz, bv(i, 64)), ln), 0, ln),))
        return at

    def rope(self, st, p, ew=None):
        o = st.mem.get(p.obj)
        if o is not None and o.texts is not None:
            return o.texts(self, st, p.off.div(o.ew).val())
        if o is not None and o.fields is not None:
            r = o.fields(self, st, p.off, None)
            if r is not None:
                return r
        v = self.load_raw(st, p, 32)
        if isinstance(v, Ptr):
            v = self._sso(st, p, v) or v
        if not isinstance(v, Rope):
            raise Unsupported(f"no string at {p}: {v}")
        if ew and v.ew != ew:
            raise Unsupported("string element width")
        return v

    def _sso(self, st, p, q):
        """constant-initialised std::basic_string: {pointer to own buffer, length, buffer}"""
        o = st.mem[p.obj]
        c = p.off.conc()
        if q.obj != p.obj or q.off.conc() != c + 16 or not isinstance(p.obj, tuple):
            return None
        n = o.cells.get(c + 8)
        if n is None or not isinstance(n[1], int):
            return None
        ew = 1
        e = o.cells.get(c + 16)
        if e is not None and isinstance(e[1], int):
            ew = e[0]
        elif e is not None and e[1] is ZERO or e is None:
            nm = canon(p.obj[2])[0] if p.obj[2].startswith('_Z') else ''
            ew = self._static_ew(p.obj)
        elif isinstance(e[1], bytes):
            ew = 1
        t = _IT[ew]
        r = Rope(ew, (Lit([self._load_c(st, p.obj, o, c + 16 + ew * i, t) for i in range(n[1])]),))
        if not all(is_c(x) for x in r.conc()):
            return None
        o = st.wobj(p.obj)
        self._clear(o, c, 32)
        o.cells[c] = (32, r)
        return r

    def _static_ew(self, key):
        for m in self.modules:
            g = m.globals.get(key[2])
            if g is not None and 'char32_t' in repr(g.ty):
                return 4
        return 4 if 'IDiSt' in key[2] or 'U32' in key[2] else 1

    def set_rope(self, st, p, r):
        self.store_raw(st, p, 32, r)

    def load_raw(self, st, p, size, ty=None):
        c = p.off.conc()
        o = st.mem.get(p.obj)
        if o is None:
            raise Unsupported("load from unknown object")
        if c is None:
            raise Unsupported("symbolic offset of abstract value")
        e = o.cells.get(c)
        if e is not None:
            return self._delazy(st, p.obj, c, e)
        if o.lazy and o.lazy != 'extern':
            v = o.lazy(self, st, p.obj, c, size, ty)
            if v is not None:
                st.wobj(p.obj).cells[c] = (size, v)
                return v
        return None

    def _delazy(self, st, obj, c, e):
        v = e[1]
        if isinstance(v, tuple) and len(v) == 3 and v[0] == 'lazyconst':
            v = self.const(st, v[1], v[2])
            st.wobj(obj).cells[c] = (e[0], v)
        return v

    def store_raw(self, st, p, size, v):
        c = p.off.conc()
        if isinstance(v, Rope) and st.mem[p.obj].kind == 'rows':
            import streams
            return streams.row_store(self, st, p, v)
        if c is None:
            raise Unsupported("store of abstract value at symbolic offset")
        o = st.wobj(p.obj)
        if st.wlog is not None and not self._initing(st, p.obj):
            st.wlog.add((p.obj, c, size))
        self._clear(o, c, size)
        o.cells[c] = (size, v)

    @staticmethod
    def _initing(st, obj):
        """obj is a function-local static that is being initialised (between guard acquire and release)"""
        if not isinstance(obj, tuple) or obj[0] != 'g':
            return False
        return obj[2].startswith('_ZGV') or obj[2] in st.ghost.get('sinit', ())

    def _clear(self, o, c, size):
        e = o.cells.get(c)
        if e is not None and e[0] == size:
            return
        for k in [k for k, (s, _) in o.cells.items() if k < c + size and c < k + s]:
            s, v = o.cells.pop(k)
            if v is ZERO or isinstance(v, bytes) or v is UNDEF:
                if k < c:
                    o.cells[k] = (c - k, v if not isinstance(v, bytes) else v[:c - k])
                if k + s > c + size:
                    o.cells[c + size] = (k + s - c - size, v if not isinstance(v, bytes) else v[c + size - k:])
            elif isinstance(v, int) or z3.is_bv(v):
                for b in range(s):
                    if not c <= k + b < c + size:
                        o.cells[k + b] = (1, trunc(binop('lshr', v, 8 * b, 8 * s), 8 * s, 8) if s > 1 else v)
            elif not (c <= k and k + s <= c + size):
                raise Unsupported("partial overwrite of " + repr(v)[:60])

    def load(self, st, p, ty):
        if ty.kind == 'struct':
            return tuple(self.load(st, p + o, t) for o, t in zip(ty.offs, ty.elems))
        if ty.kind == 'array':
            return tuple(self.load(st, p + i * ty.elem.size, ty.elem) for i in range(ty.n))
        if not isinstance(p, Ptr):
            raise Unsupported("load through " + repr(p))
        if p.obj == 0:
            self.fail(st, "no null dereference")
            raise PathEnd()
        o = st.mem.get(p.obj)
        if o is None:
            raise Unsupported("load from dead object")
        size = ty.size
        if o.kind in ('src', 'view'):
            return self._load_elem(st, p, o, ty)
        c = p.off.conc()
        if o.fields is not None:          # one of many objects of a kind: what a member of it holds
            v = o.fields(self, st, p.off, ty)
            if v is not None:
                return v
        if c is None:
            return self._load_sym(st, p, o, ty)
        if o.size is not None and (c < 0 or c + size > o.size):
            self.fail(st, "memory access within bounds")
            raise PathEnd()
        return self._load_c(st, p.obj, o, c, ty)

    def _load_c(self, st, oid, o, c, ty):
        size = ty.size
        e = o.cells.get(c)
        if e is not None and (e[0] == size):
            v = self._delazy(st, oid, c, e)
            if v is ZERO:
                return self.zero(ty)
            if isinstance(v, bytes):
                v = int.from_bytes(v, 'little')
            return self._coerce(v, ty)
        # inside a zero run or byte string, or composed of smaller cells
        for k, (s, v) in o.cells.items():
            if k <= c and c + size <= k + s:
                if v is ZERO:
                    return self.zero(ty)
                if isinstance(v, bytes):
                    return self._coerce(int.from_bytes(v[c - k:c - k + size], 'little'), ty)
                if v is UNDEF:
                    return UNDEF
                if (isinstance(v, int) or z3.is_bv(v)) and ty.kind == 'int':
                    return self._coerce(trunc(binop('lshr', v, 8 * (c - k), 8 * s), 8 * s, 8 * size), ty)
                if isinstance(v, tuple) and v and v[0] == 'lazyconst':
                    break
        if o.lazy:
            if o.lazy == 'extern':
                raise Unsupported("read of external object " + str(o.name))
            v = o.lazy(self, st, oid, c, size, ty)
            if v is not None:
                st.wobj(oid).cells[c] = (size, v)
                return v
        parts = []
        k = c
        while k < c + size:
            e = o.cells.get(k)
            if e is None or k + e[0] > c + size:
                # try to cut a zero/byte run
                hit = None
                for kk, (s, v) in o.cells.items():
                    if kk <= k < kk + s and (v is ZERO or isinstance(v, bytes)):
                        hit = (kk, s, v)
                if hit is None:      # an indeterminate byte next to defined ones: any value
                    if e is not None and not isinstance(e[1], Undef):
                        return UNDEF
                    n = 1 if e is None else min(e[0], c + size - k)
                    parts.append((n, None))
                    k += n
                    continue
                kk, s, v = hit
                n = min(kk + s, c + size) - k
                parts.append((n, 0 if v is ZERO else int.from_bytes(v[k - kk:k - kk + n], 'little')))
                k += n
                continue
            v = self._delazy(st, oid, k, e)
            if v is ZERO:
                v = 0
            if isinstance(v, bytes):
                v = int.from_bytes(v, 'little')
            if isinstance(v, Undef):
                v = None
            elif not (isinstance(v, int) or z3.is_bv(v)):
                return self._unsup("partial read of " + repr(v)[:80])
            parts.append((e[0], v))
            k += e[0]
        if ty.kind != 'int' or all(v is None for _, v in parts):
            if any(v is None for _, v in parts):
                return UNDEF
        parts = [(n, self.fresh("indeterminate", 8 * n) if v is None else v) for n, v in parts]
        if all(is_c(v) for _, v in parts):
            r, sh = 0, 0
            for n, v in parts:
                r |= v << sh
                sh += 8 * n
        else:
            r = simp(z3.Concat(*[bv(v, 8 * n) for n, v in reversed(parts)]))
        if ty.kind == 'ptr':
            if r == 0:
                return NULL
            raise Unsupported("pointer from bytes")
        return self._coerce(r, ty)

    def _unsup(self, m):
        raise Unsupported(m)

    def _coerce(self, v, ty):
        if ty.kind == 'int' and ty.w == 1 and not is_c(v) and z3.is_bv(v):
            return simpb(z3.Extract(0, 0, v) == 1)
        if ty.kind == 'int' and ty.w > 1 and not is_c(v) and not isinstance(v, (Ptr, Undef, Opaque, PtrInt)) \
                and z3.is_bool(v):
            return bv(v, ty.w)
        if ty.kind == 'int' and isinstance(v, Ptr):
            return PtrInt(v)
        if ty.kind == 'ptr' and isinstance(v, PtrInt):
            return v.p
        if ty.kind == 'ptr' and is_c(v) and v == 0:
            return NULL
        return v

    def elem_count(self, st, o):
        if o.kind == 'view':
            return add64(self.rope(st, Ptr(o.ref[0], o.ref[1])).length(), 1)
        return o.n

    def _load_elem(self, st, p, o, ty):
        ew = o.ew
        ptrs = o.ptrs if ty.kind == 'ptr' else None
        if ptrs and ew == 16:       # shared pointers: the object, then its reference count (not looked at)
            if p.off.c % 16 == 8 and (p.off - 8).div(16) is not None:
                return NULL
        if (ty.kind != 'int' or ty.w != 8 * ew) and not ptrs:
            raise Unsupported(f"{ty} read from elements of {ew} bytes")
        idx = p.off.div(ew)
        if idx is None:
            raise Unsupported("misaligned element")
        i = idx.val()
        n = self.elem_count(st, o)
        self.oblige(st, cmp('ult', i, n, 64), "read within the buffer, not past its terminating NUL")
        if o.kind == 'src':
            v = o.src.at(i)
            if ptrs:            # an array of arbitrary addresses: offsets into one object standing for all memory
                return Ptr(ptrs, Lin.of(v))
            if o.lazy == 'cstr' and not is_c(v):
                # C string: no NUL before its end
                st.assume(b_imp(cmp('ult', i, sub64(n, 1), 64), cmp('ne', v, 0, 8 * ew)))
            return v
        r = self.rope(st, Ptr(o.ref[0], o.ref[1]))
        return r.at(i, 8 * ew)

    def _load_sym(self, st, p, o, ty):
        size = ty.size
        if o.size is None:
            raise Unsupported("symbolic offset in unsized object")
        g = 0
        import math
        for _, co in p.off.t:
            g = math.gcd(g, abs(co))
        g = max(g, 1)
        offs = [k for k in range(p.off.c % g, o.size - size + 1, g)]
        v64 = p.off.val()
        inb = b_or(*[cmp('eq', v64, k, 64) for k in offs]) if len(offs) <= 64 else \
            cmp('ule', v64, o.size - size, 64)
        q = p.off.div(g) if p.off.c % g == 0 else None
        if q is not None:
            inb = cmp('ule', q.val(), (o.size - size) // g, 64)
        self.oblige(st, inb, "array index within bounds")
        if len(offs) > 2048:
            raise Unsupported("large symbolic table")
        try:
            vals = [self._load_c(st, p.obj, o, k, ty) for k in offs]
        except Unsupported:
            offs = [k for k in offs if self.feasible(st, cmp('eq', v64, k, 64))]
            vals = [self._load_c(st, p.obj, o, k, ty) for k in offs]
        if all(is_c(v) or (not isinstance(v, (Ptr, Rope, tuple, Opaque, Undef)) and z3.is_expr(v)) for v in vals):
            w = ty.w
            r = vals[-1]
            for k, v in zip(reversed(offs[:-1]), reversed(vals[:-1])):
                sel = cmp('eq', q.val(), k // g, 64) if q is not None else cmp('eq', v64, k, 64)
                r = b_ite(sel, v, r, None if w == 1 else w)
            return r
        live = [(k, v) for k, v in zip(offs, vals) if self.feasible(st, cmp('eq', v64, k, 64))]
        if len(live) == 1:
            return live[0][1]
        raise ForkOn([(cmp('eq', v64, k, 64), v) for k, v in live])

    def store(self, st, p, v, ty):
        if ty.kind == 'struct':
            for i, (o, t) in enumerate(zip(ty.offs, ty.elems)):
                self.store(st, p + o, UNDEF if isinstance(v, Undef) else v[i], t)
            return
        if ty.kind == 'array':
            for i in range(ty.n):
                self.store(st, p + i * ty.elem.size, UNDEF if isinstance(v, Undef) else v[i], ty.elem)
            return
        if not isinstance(p, Ptr):
            raise Unsupported("store through " + repr(p))
        if p.obj == 0:
            self.fail(st, "no null dereference")
            raise PathEnd()
        o = st.mem.get(p.obj)
        if o is None:
            raise Unsupported("store to dead object")
        if o.const:
            self.fail(st, "no write to constant memory")
            raise PathEnd()
        if o.kind in ('src', 'view'):
            ew = o.ew
            idx = p.off.div(ew)
            if idx is None or ty.kind != 'int' or ty.w != 8 * ew:
                raise Unsupported("odd element store")
            i = idx.val()
            if o.kind == 'src':
                raise Unsupported("store into source buffer")
            sp = Ptr(o.ref[0], o.ref[1])
            r = self.rope(st, sp)
            self.oblige(st, cmp('ult', i, r.length(), 64), "write within the string")
            self.set_rope(st, sp, rope_set(r, i, v, 8 * ew))
            return
        c = p.off.conc()
        if c is None:
            import math
            g = 0
            for _, co in p.off.t:
                g = math.gcd(g, abs(co))
            if o.size is None or not g:
                raise Unsupported("symbolic store")
            v64 = p.off.val()
            offs = [k for k in range(p.off.c % g, o.size - ty.size + 1, g)]
            q = p.off.div(g) if p.off.c % g == 0 else None
            self.oblige(st, cmp('ule', q.val(), (o.size - ty.size) // g, 64) if q is not None else
                        b_or(*[cmp('eq', v64, k, 64) for k in offs]), "array index within bounds")
            live = [k for k in offs if self.feasible(st, cmp('eq', v64, k, 64))]
            if len(live) > 300:
                raise Unsupported("wide symbolic store")
            if ty.kind == 'int' and ty.w > 1 and len(live) > 1 and (is_c(v) or z3.is_bv(v)):
                olds = [self._load_c(st, p.obj, o, k, ty) for k in live]
                if all(is_c(x) or (z3.is_expr(x) and z3.is_bv(x)) for x in olds):
                    for k, x in zip(live, olds):
                        sel = cmp('eq', q.val(), k // g, 64) if q is not None else cmp('eq', v64, k, 64)
                        self.store_raw(st, Ptr(p.obj, k), ty.size, b_ite(sel, v, x, ty.w))
                    return
            if len(live) == 1:
                self.store_raw(st, Ptr(p.obj, live[0]), ty.size, v)
                return
            raise ForkOn([(cmp('eq', v64, k, 64), k) for k in live], lambda k: Ptr(p.obj, k))
        if o.size is not None and (c < 0 or c + ty.size > o.size):
            self.fail(st, "memory access within bounds")
            raise PathEnd()
        self.store_raw(st, p, ty.size, v)

    def memcpy(self, st, d, s, n, strings=False):
        if not is_c(n):
            raise Unsupported("memcpy of symbolic size")
        if n == 0:
            return
        so = st.mem.get(s.obj)
        do = st.mem.get(d.obj)
        sc, dc = s.off.conc(), d.off.conc()
        if so is None or do is None or sc is None or dc is None or so.kind != 'cells' or do.kind != 'cells':
            raise Unsupported("memcpy shape")
        if so.size is not None and (sc < 0 or sc + n > so.size) or do.size is not None and (dc < 0 or dc + n > do.size):
            self.fail(st, "memcpy within bounds")
            raise PathEnd()
        items = []
        for k, (z, v) in sorted(so.cells.items()):
            if sc <= k and k + z <= sc + n:
                items.append((k - sc, z, self._delazy(st, s.obj, k, (z, v))))
            elif k < sc + n and sc < k + z:
                if v is ZERO or v is UNDEF or isinstance(v, bytes):
                    a, b = max(k, sc), min(k + z, sc + n)
                    items.append((a - sc, b - a, v[a - k:b - k] if isinstance(v, bytes) else v))
                else:
                    raise Unsupported("memcpy cuts a value")
        if so.lazy and so.lazy != 'extern':
            covered = sum(z for _, z, _ in items)
            if covered < n:
                v = so.lazy(self, st, s.obj, sc, n, None)
                if v is None:
                    raise Unsupported("memcpy of lazy object")
        w = st.wobj(d.obj)
        self._clear(w, dc, n)
        for k in [k for k in w.cells if dc <= k < dc + n]:
            del w.cells[k]
        for k, z, v in items:
            if isinstance(v, Rope) and not strings:
                raise Unsupported("memcpy of a string object")
            w.cells[dc + k] = (z, v)
            if st.wlog is not None and not self._initing(st, d.obj):
                st.wlog.add((d.obj, dc + k, z))

    # ------------------------------------------------------------ executing functions
    def call_fn(self, st, fn, args):
        """inline: returns list of (state, outcome)"""
        if self.depth > 60:
            raise Unsupported("call depth")
        self.depth += 1
        self.frame += 1
        fid = self.frame
        try:
            env = {}
            for (i, ty, nm), a in zip(fn.params, args):
                env[i] = a
            return self._explore(fn, fid, [(0, 0, None, env, st)], None)
        finally:
            self.depth -= 1

    def _explore(self, fn, fid, work, loopctx):
        res = []
        blocks = fn.blocks
        loops = fn.mod._loops_of(fn)
        entries = {}
        unroll = {}
        work = list(work)
        npaths = 0
        while work:
            bi, ii, prev, env, st = work.pop()
            npaths += 1
            if npaths > self.opts['max_paths']:
                raise Budget("path budget in " + fn.name)
            try:
                self._run(fn, fid, bi, ii, prev, env, st, work, res, loopctx, loops, blocks)
            except PathEnd:
                pass
        return res

    def _val(self, o, env, st, mod):
        if o[0] == 'l':
            return env[o[1]]
        return self.const(st, o, mod)

    def _goto(self, fn, fid, frm, to, env, st, work, res, loopctx, loops):
        """transfer along CFG edge frm->to, handling loop headers"""
        if loopctx is not None:
            if to == loopctx.header and frm in loopctx.body:
                res.append(('back', st, env, frm))
                return
            if to not in loopctx.body:
                res.append(('exit', st, env, frm, to))
                return
        for h, b in loops.items():
            if frm in b and to not in b:
                st.ghost.pop(('loop', fid, h), None)
        body = loops.get(to)
        if body is not None:
            inside = frm in body
            if not inside:
                st.ghost.pop(('loop', fid, to), None)
                st.ghost.pop(('cnt', fid, to), None)
                if self.lock is not None and self._lockstep().wants(self, st):
                    self._lockstep().enter(self, fn, fid, frm, to, body, env, st, work, res)
                    return
                if self._want_inv(fn, fid, frm, to, body, env, st):
                    self._enter_inv(fn, fid, frm, to, body, env, st, work, res, loopctx)
                    return
            else:
                li = st.ghost.get(('loop', fid, to))
                if li is not None:
                    self._check_back(li, fn, env, st, frm)
                    return
                k = st.ghost.get(('cnt', fid, to), 0) + 1
                st.ghost[('cnt', fid, to)] = k
                if k > self.opts['unroll']:
                    raise Unsupported(f"loop in {canon(fn.name)[0]} exceeds {self.opts['unroll']} iterations without an invariant")
        work.append((to, 0, frm, env, st))

    def _run(self, fn, fid, bi, ii, prev, env, st, work, res, loopctx, loops, blocks):
        mod = fn.mod
        bl = blocks[bi]
        if ii == 0:
            new = {}
            for ins in bl.instrs:
                if ins.op != 'phi':
                    break
                if (bi, 'pre') in env:
                    continue
                for pb, o in ins.x:
                    if pb == prev:
                        new[ins.id] = self._val(o, env, st, mod)
                        break
            if (bi, 'pre') in env:
                env = dict(env)
                del env[(bi, 'pre')]
            elif new:
                env = dict(env)
                env.update(new)
        n = len(bl.instrs)
        env = dict(env)
        while ii < n:
            ins = bl.instrs[ii]
            op = ins.op
            if op == 'phi':
                ii += 1
                continue
            if ins.line:
                self.where = f"{canon(fn.name)[0]}:{ins.line}"
            if op == 'br':
                if not ins.ops:
                    self._goto(fn, fid, bi, ins.x[0], env, st, work, res, loopctx, loops)
                    return
                c = self._val(ins.ops[0], env, st, mod)
                if isinstance(c, Undef):
                    self.fail(st, "no branch on an uninitialised value")
                    return
                c = simpb(c)
                if loopctx is not None and loopctx.probe is not None and bi in loopctx.body and \
                        any(s not in loopctx.body for s in ins.x) and self._varies(fn, loopctx.body, ins.ops[0], env):
                    loopctx.probe.append((bi, is_c(c)))
                if is_c(c):
                    self._goto(fn, fid, bi, ins.x[0 if c else 1], env, st, work, res, loopctx, loops)
                    return
                t, f = self.feasible(st, c), None
                nc = b_not(c)
                f = self.feasible(st, nc) if t else True
                if t and f:
                    j = self._diamond(fn, bi, ins.x, blocks, loops, loopctx)
                    if j is not None:
                        env2 = self._join_diamond(fn, bi, j, ins.x, c, nc, env, st, blocks, mod)
                        if env2 is not None:
                            work.append((j, 0, bi, env2, st))
                            return
                    st2 = st.fork()
                    st2.assume(nc)
                    self._goto(fn, fid, bi, ins.x[1], env, st2, work, res, loopctx, loops)
                    st.assume(c)
                    self._goto(fn, fid, bi, ins.x[0], dict(env), st, work, res, loopctx, loops)
                elif t:
                    st.assume(c)
                    self._goto(fn, fid, bi, ins.x[0], env, st, work, res, loopctx, loops)
                elif self.feasible(st, nc):
                    st.assume(nc)
                    self._goto(fn, fid, bi, ins.x[1], env, st, work, res, loopctx, loops)
                return
            if op == 'switch':
                c = self._val(ins.ops[0], env, st, mod)
                w = ins.x and None
                dflt, cases = ins.x
                if is_c(c):
                    to = dflt
                    for k, b in cases:
                        if k == c:
                            to = b
                            break
                    self._goto(fn, fid, bi, to, env, st, work, res, loopctx, loops)
                    return
                if isinstance(c, (Undef, Opaque)):
                    raise Unsupported("switch on " + repr(c))
                w = c.size()
                rest = []
                bytgt = {}
                for k, b in cases:
                    bytgt.setdefault(b, []).append(k)
                    rest.append(cmp('ne', c, k, w))
                for b, ks in bytgt.items():
                    cc = b_or(*[cmp('eq', c, k, w) for k in ks])
                    if self.feasible(st, cc):
                        s2 = st.fork()
                        s2.assume(cc)
                        self._goto(fn, fid, bi, b, dict(env), s2, work, res, loopctx, loops)
                cc = b_and(*rest)
                if self.feasible(st, cc):
                    st.assume(cc)
                    self._goto(fn, fid, bi, dflt, env, st, work, res, loopctx, loops)
                return
            if op == 'ret':
                self.paths += 1
                res.append((st, Ret(self._val(ins.ops[0], env, st, mod) if ins.ops else None)))
                return
            if op == 'unreachable':
                # after a noreturn call; reaching it is undefined behaviour
                self.fail(st, "unreachable code not reached")
                return
            if op == 'resume':
                t = st.exc
                res.append((st, t))
                return
            if op in ('call', 'invoke'):
                outs = self._call(fn, ins, env, st)
                first = None
                for st2, oc in outs:
                    if isinstance(oc, Ret):
                        env2 = dict(env)
                        env2[ins.id] = oc.v
                        if op == 'call':
                            if len(outs) == 1:
                                first = (env2, st2)
                            else:
                                work.append((bi, ii + 1, prev, env2, st2))
                        else:
                            self._goto(fn, fid, bi, ins.x['normal'], env2, st2, work, res, loopctx, loops)
                    elif isinstance(oc, Throw):
                        if op == 'call':
                            res.append((st2, oc))
                        else:
                            lp = [i for i in blocks[ins.x['unwind']].instrs if i.op == 'landingpad'][0]
                            if lp.x[0] or any(self._match(oc.ti, c, mod) for c in lp.x[1]):
                                st2.exc = oc
                                self._goto(fn, fid, bi, ins.x['unwind'], dict(env), st2, work, res, loopctx, loops)
                            else:
                                res.append((st2, oc))
                    else:
                        raise Unsupported("outcome " + repr(oc))
                if first is None:
                    return
                env, st = first
                ii += 1
                continue
            try:
                env[ins.id] = self._simple(fn, ins, env, st, mod)
            except ForkOn as fo:
                for c, v in fo.cases:
                    s2 = st.fork()
                    s2.assume(c)
                    if not self.feasible(s2):
                        continue
                    e2 = dict(env)
                    if op == 'store':
                        self.store(s2, fo.mk(v), self._val(ins.ops[0], env, s2, mod), ins.x)
                    else:
                        e2[ins.id] = v
                    work.append((bi, ii + 1, prev, e2, s2))
                return
            ii += 1

    PURE = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'zext', 'sext',
            'trunc', 'icmp', 'select', 'freeze'}

    def _diamond(self, fn, bi, succ, blocks, loops, loopctx):
        """join block of a branch whose arms only compute values (no memory, calls or loops), else None"""
        d = fn.__dict__.setdefault('dia', {}) if hasattr(fn, '__dict__') else self._dia.setdefault(id(fn), {})
        if bi in d:
            return d[bi]
        j = None

        def arm(b):
            ii = blocks[b].instrs
            if any(i.op not in self.PURE for i in ii[:-1]) or ii[-1].op != 'br' or ii[-1].ops:
                return None
            return ii[-1].x[0]
        t, f = succ[0], succ[1]
        at, af = arm(t), arm(f)
        if t == f:
            j = None
        elif at is not None and at == af:
            j = at
        elif at is not None and at == f:
            j = f
        elif af is not None and af == t:
            j = t
        if j is not None:
            ph = blocks[j].instrs
            arms = [x for x in (t, f) if x != j]
            if j in loops or any(x in loops for x in arms) or j == bi or \
                    any((x in body) != (bi in body) for body in loops.values() for x in arms + [j]) or \
                    not any(i.op == 'phi' for i in ph):
                j = None
        d[bi] = j
        return j

    _dia = {}

    def _join_diamond(self, fn, bi, j, succ, c, nc, env, st, blocks, mod):
        vals = []
        for to, cond in ((succ[0], c), (succ[1], nc)):
            e, prev = env, bi
            if to != j:
                s = st.fork()
                s.assume(cond)
                e = dict(env)
                for i in blocks[to].instrs[:-1]:
                    if i.line:
                        self.where = f"{canon(fn.name)[0]}:{i.line}"
                    try:
                        e[i.id] = self._simple(fn, i, e, s, mod)
                    except ForkOn:
                        return None
                prev = to
            vals.append((e, prev))
        out = dict(env)
        for ins in blocks[j].instrs:
            if ins.op != 'phi':
                break
            vs = []
            for e, prev in vals:
                vs.append(next(self._val(o, e, st, mod) for pb, o in ins.x if pb == prev))
            a, b = vs
            if not all(is_c(v) or z3.is_expr(v) for v in vs):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.off.same(b.off):
                    out[ins.id] = a
                    continue
                return None
            w = ins.ty.w
            out[ins.id] = simp(b_ite(c, a, b, w)) if w != 1 else simpb(b_or(b_and(c, a), b_and(nc, b)))
        out[(j, 'pre')] = 1
        return out

    def _match(self, ti, clause, mod):
        if clause[0] == 'null' or clause[0] == 'c':
            return True
        if clause[0] != 'g':
            return False
        return self.derives(ti, clause[1])

    def derives(self, ti, base):
        seen = 0
        while ti and seen < 20:
            if ti == base:
                return True
            nxt = STD_BASES.get(ti)
            if nxt is None:
                for m in self.modules:
                    g = m.globals.get(ti)
                    if g is not None and not g.decl and g.init[0] == 'agg' and len(g.init[2]) >= 3:
                        b = g.init[2][2]
                        nxt = b[1] if b[0] == 'g' else None
                        break
            ti = nxt
            seen += 1
        return False

    def _simple(self, fn, ins, env, st, mod):
        op = ins.op
        V = lambda k: self._val(ins.ops[k], env, st, mod)
        if op == 'load':
            p = V(0)
            v = self.load(st, p, ins.ty)
            return v
        if op == 'store':
            self.store(st, V(1), V(0), ins.x)
            return None
        if op == 'gep':
            p = V(0)
            idx = [V(k) for k in range(1, len(ins.ops))]
            ws = []
            for k in range(1, len(ins.ops)):
                o = ins.ops[k]
                ws.append(o[2] if o[0] == 'c' else (64 if is_c(idx[k - 1]) or isinstance(idx[k - 1], (PtrInt, Undef)) else
                                                    idx[k - 1].size()))
            # concrete indices that came from locals of width 32 were already sign extended by clang
            return self.gep(p, ins.x, idx, ws)
        if op == 'icmp':
            return self._icmp(st, ins.x[0], V(0), V(1), ins.x[1])
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            return self._arith(st, ins, V(0), V(1))
        if op in ('zext', 'sext', 'trunc'):
            a = V(0)
            if isinstance(a, Undef):
                return UNDEF
            if isinstance(a, PtrInt):
                raise Unsupported("cast of pointer integer")
            if isinstance(a, Opaque):
                raise Unsupported("cast of opaque")
            return {'zext': zext, 'sext': sext, 'trunc': trunc}[op](a, ins.x.w, ins.ty.w)
        if op == 'select':
            c = V(0)
            if isinstance(c, Undef):
                raise Unsupported("select on undef")
            a, b = V(1), V(2)
            if is_c(c):
                return a if c else b
            if isinstance(a, (Ptr, FnPtr, tuple, Rope, Opaque, PtrInt, Undef)) or isinstance(b, (Ptr, FnPtr, tuple, Opaque, PtrInt, Undef)):
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.off.same(b.off):
                    return a
                raise ForkOn([(c, a), (b_not(c), b)])
            return b_ite(c, a, b, None if ins.ty.w == 1 else ins.ty.w)
        if op == 'alloca':
            return self.new_obj(st, 'cells', ins.x.size, f"local")
        if op == 'extractvalue':
            a = V(0)
            for i in ins.x:
                if isinstance(a, Undef):
                    return UNDEF
                a = a[i]
            return a
        if op == 'insertvalue':
            a, v = V(0), V(1)

            def upd(a, path, ty):
                if isinstance(a, Undef):
                    a = tuple([UNDEF] * (len(ty.elems) if ty.kind == 'struct' else ty.n))
                l = list(a)
                if len(path) == 1:
                    l[path[0]] = v
                else:
                    l[path[0]] = upd(l[path[0]], path[1:], ty.elems[path[0]] if ty.kind == 'struct' else ty.elem)
                return tuple(l)
            return upd(a, ins.x, ins.ty)
        if op == 'landingpad':
            t = st.exc
            sel = 0
            for c in ins.x[1]:
                if self._match(t.ti, c, mod):
                    sel = 1 if c[0] != 'g' else self._tid(c[1])
                    break
            return (Ptr(t.ptr.obj, t.ptr.off) if isinstance(t.ptr, Ptr) else t.ptr, sel)
        if op == 'ptrtoint':
            p = V(0)
            if isinstance(p, Ptr):
                return 0 if p.obj == 0 and p.off.conc() == 0 else PtrInt(p)
            raise Unsupported("ptrtoint")
        if op == 'inttoptr':
            a = V(0)
            if isinstance(a, PtrInt):
                return a.p
            if is_c(a) and a == 0:
                return NULL
            raise Unsupported("inttoptr")
        if op in ('bitcast', 'freeze'):
            v = V(0)
            return v
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
            return Opaque('fp', (op,) + tuple(V(k) for k in range(len(ins.ops))))
        if op in ('fptoui', 'fptosi'):
            return self.fresh('fp', ins.ty.w)
        if op == 'fcmp':
            return self.fresh('fcmp', 1)
        if op == 'fence':
            return None
        raise Unsupported("instruction " + op)

    _tids = {}

    def _tid(self, n):
        return self._tids.setdefault(n, len(self._tids) + 2)

    def _icmp(self, st, pred, a, b, ty):
        if isinstance(a, PtrInt):
            a = a.p
            ty = _PT
            if is_c(b) and b == 0:
                b = NULL
        if isinstance(b, PtrInt):
            b = b.p
            ty = _PT
            if is_c(a) and a == 0:
                a = NULL
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                return int(same == (pred == 'eq'))
            if a.obj != b.obj:
                if pred == 'eq':
                    return 0
                if pred == 'ne':
                    return 1
                raise Unsupported("ordering of unrelated pointers")
            d = a.off - b.off
            c = d.conc()
            if c is not None:
                if pred in ('eq', 'ne'):
                    return int((c == 0) == (pred == 'eq'))
                return int({'ult': c < 0, 'ule': c <= 0, 'ugt': c > 0, 'uge': c >= 0}.get(pred))
            import math
            g = 0
            for _, co in a.off.t + b.off.t:
                g = math.gcd(g, abs(co))
            g = math.gcd(g, abs(a.off.c))
            g = math.gcd(g, abs(b.off.c)) or 1
            return cmp(pred, a.off.div(g).val(), b.off.div(g).val(), 64)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("compare opaque")
        return cmp(pred, a, b, ty.w)

    def _arith(self, st, ins, a, b):
        w = ins.ty.w
        op = ins.op
        if w is None:
            raise Unsupported("vector arithmetic")
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                if a.p.obj != b.p.obj:
                    raise Unsupported("difference of unrelated pointers")
                return (a.p.off - b.p.off).val()
            if op in ('add', 'sub') and isinstance(a, PtrInt) and not isinstance(b, PtrInt):
                return PtrInt(a.p + (Lin.of(b) if op == 'add' else Lin.of(b, -1)))
            raise Unsupported("pointer arithmetic " + op)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported("arith on opaque")
        if op in ('add', 'sub', 'mul') and ins.x[0] and w > 1:
            if is_c(a) and is_c(b):
                x, y = sgn(a, w), sgn(b, w)
                r = x + y if op == 'add' else x - y if op == 'sub' else x * y
                ok = int(-(1 << (w - 1)) <= r < (1 << (w - 1)))
            else:
                x, y = bv(a, w), bv(b, w)
                if op == 'add':
                    ok = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
                elif op == 'sub':
                    ok = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
                else:
                    ok = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
                ok = simpb(ok)
            if not (is_c(ok) and ok):
                self.oblige(st, ok, "no signed overflow")
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            nz = cmp('ne', b, 0, w)
            if not (is_c(nz) and nz):
                self.oblige(st, nz, "no division by zero")
            if op == 'sdiv' and is_c(b) and ins.x and b and not is_c(a):
                q = Lin.of(a).div(sgn(b, w)) if w == 64 else None
                if q is not None:
                    return q.val()
        if op in ('shl', 'lshr', 'ashr') and not is_c(b):
            self.oblige(st, cmp('ult', b, w, w), "shift amount below the width")
        if op == 'ashr' and is_c(b) and ins.x and not is_c(a) and w == 64:
            q = Lin.of(a).div(1 << b)
            if q is not None:
                return q.val()
        return binop(op, a, b, w)

    # ------------------------------------------------------------ calls
    def _call(self, fn, ins, env, st):
        mod = fn.mod
        cal = ins.x['callee']
        if cal[0] == 'asm':
            raise Unsupported("inline asm")
        if cal[0] == 'g':
            name = cal[1]
        else:
            f = self._val(cal, env, st, mod)
            if not isinstance(f, FnPtr):
                raise Unsupported("indirect call through " + repr(f))
            name = f.name
            mod = f.mod or mod
        args = [self._val(o, env, st, mod) if o[0] != 'meta' else None for o in ins.ops]
        return self.call(st, name, args, mod, ins)

    def call(self, st, name, args, mod=None, ins=None):
        q, ps, full = canon(name)
        w0 = self.where
        c = self.contracts.get(q)
        if c is not None:
            r = c(self, st, args, ps, full, ins)
            if r is not NotImplemented:
                self.contract_uses[q] = self.contract_uses.get(q, 0) + 1
                return self._norm(r, st)
        h = self.models.get(q)
        if h is None and name.startswith("llvm."):
            h = self.models.get(".".join(name.split(".")[:2])) or self.models.get(".".join(name.split(".")[:3]))
        if h is not None:
            r = h(self, st, args, ps, full, ins)
            if r is not NotImplemented:
                self.model_uses[q] = self.model_uses.get(q, 0) + 1
                return self._norm(r, st)
        f = self.resolve_fn(name, mod)
        if f is None or f.decl:
            raise Unsupported("no contract, model or body for " + full)
        self.inlined[q] = self.inlined.get(q, 0) + 1
        pre = set(st.mem)
        f0 = self.frame
        r = self.call_fn(st, f, args)
        self.where = w0
        if len(r) > 1:
            r = self.merge(pre, f0, r, f.retty)
        return r

    def merge(self, pre, f0, outs, retty):
        """join the paths of an inlined call that return a machine value and leave the same memory"""
        groups, rest = [], []
        for s, o in outs:
            if not isinstance(o, Ret) or not (o.v is None or is_c(o.v) or z3.is_expr(o.v)):
                rest.append((s, o))
                continue
            for g in groups:
                if self._same_state(pre, f0, g[0][0], s) and (o.v is None) == (g[0][1].v is None):
                    g.append((s, o))
                    break
            else:
                groups.append([(s, o)])
        res = rest
        for g in groups:
            if len(g) == 1:
                res.append(g[0])
                continue
            pcs = [s.pc for s, _ in g]
            n = 0
            m = min(len(p) for p in pcs)
            while n < m and all(p[n] is pcs[0][n] or p[n].eq(pcs[0][n]) for p in pcs):
                n += 1
            sufs = [b_and(*p[n:]) for p in pcs]
            s0, o0 = g[-1]
            st = s0.fork()
            st.pc = pcs[0][:n]
            ids = [i for i in st.mem if all(i in s.mem and s.mem[i] is st.mem[i] for s, _ in g)]
            st.mem = {i: st.mem[i] for i in ids}
            anyc = b_or(*sufs)
            if not (is_c(anyc) and anyc):
                ok, _ = self.valid(st, anyc)
                if not ok:
                    st.assume(anyc)
            v = o0.v
            if v is not None:
                w = next((None if z3.is_bool(o.v) else o.v.size() for _, o in g if not is_c(o.v)), 0)
                if w == 0 and all(o.v == v for _, o in g):
                    pass
                else:
                    if w == 0:
                        w = retty.w
                        if not w:
                            res += g
                            continue
                        w = None if w == 1 else w
                    for (s, o), c in zip(reversed(g[:-1]), reversed(sufs[:-1])):
                        v = b_ite(c, o.v, v, w)
                    if not is_c(v) and w is not None:
                        v = simp(v)
            res.append((st, Ret(v)))
        return res

    @staticmethod
    def _same_state(pre, f0, a, b):
        if a.exc is not b.exc or a.caught != b.caught or a.events != b.events:
            return False
        live = lambda s: {k: v for k, v in s.ghost.items() if not (isinstance(k, tuple) and len(k) > 1 and isinstance(k[1], int) and k[1] > f0)}
        ga, gb = live(a), live(b)
        if set(ga) != set(gb) or any(ga[k] is not gb[k] and not (isinstance(ga[k], int) and ga[k] == gb[k]) for k in ga):
            return False
        for i in set(a.mem) | set(b.mem):
            x, y = a.mem.get(i), b.mem.get(i)
            if x is y:
                continue
            if i in pre:
                return False
            for o in (x, y):
                if o is not None and not (o.const or o.name == 'local' or o.kind == 'view' or o.name == 'exc' or o.name == 'exception'):
                    return False
        return True

    @staticmethod
    def _norm(r, st):
        if isinstance(r, list):
            return r
        if isinstance(r, (Ret, Throw)):
            return [(st, r)]
        return [(st, Ret(r))]

    def throw_std(self, st, ti):
        return Throw(ti, self.new_obj(st, 'cells', 64, 'exc'))

    # ------------------------------------------------------------ loops
    @staticmethod
    def _lockstep():
        import lockstep
        return lockstep

    def _want_inv(self, fn, fid, frm, hdr, body, env, st):
        q = canon(fn.name)[0]
        if self.opts['mode'] == 'unroll' or any(re.search(x, q) for x in self.opts['unroll_fns']):
            return False
        if self.ghost_specs and any(isinstance(k, tuple) and k[0] == 'loop' for k in st.ghost):
            return False        # the specification belongs to the loop around this one
        if self.ghost_specs and not any(g.applies(self, st, fn) and g.name not in st.ghost for g in self.ghost_specs):
            return False        # no specification left for this loop
        # probe one iteration: an exit test that is decided by constants means a constant trip count
        lc = LoopInfo()
        lc.header, lc.body, lc.probe = hdr, body, []
        rec, self.record = self.record, False
        w0 = self.where
        n0 = len(self.obligations)
        try:
            s2 = st.fork()
            s2.wlog = set()
            s2.ghost[('loop', fid, hdr)] = lc
            e2 = dict(env)
            back = []
            try:
                back = [r for r in self._explore(fn, fid, [(hdr, 0, frm, e2, s2)], lc) if r[0] == 'back']
            except PathEnd:
                pass
            one = {b for b, k in lc.probe if k}
            if one and back and len(one) < len(lc.probe):
                # decided by chance in the first iteration?  decided tests stay decided in the second
                n1 = len(lc.probe)
                for r in back[:2]:
                    r[1].ghost[('loop', fid, hdr)] = lc
                    try:
                        self._explore(fn, fid, [(hdr, 0, r[3], dict(r[2]), r[1])], lc)
                    except PathEnd:
                        pass
                one -= {b for b, k in lc.probe[n1:] if not k}
        finally:
            self.record = rec
            self.where = w0
        return bool(lc.probe) and not one

    @staticmethod
    def _varies(fn, body, op, env=None):
        """may the value differ between iterations (it depends on a phi, a load or a call inside the loop)"""
        defs = {}
        for bi in body:
            for i in fn.blocks[bi].instrs:
                defs[i.id] = i
        memo = {}

        def const(o):
            if o[0] == 'l':
                v = env.get(o[1]) if env is not None else None
                return v if isinstance(v, (int, bool)) else None
            return o[1] if o[0] in ('i', 'c') and isinstance(o[1], int) else None

        def go(o):
            if o[0] != 'l' or o[1] not in defs:
                return False
            if o[1] in memo:
                return memo[o[1]]
            memo[o[1]] = False
            i = defs[o[1]]
            if i.op in ('phi', 'load', 'call', 'invoke'):
                r = True
            elif i.op == 'select' and not go(i.ops[0]) and const(i.ops[0]) is not None:
                r = go(i.ops[1 if const(i.ops[0]) else 2])
            else:
                r = any(go(x) for x in i.ops if isinstance(x, tuple))
            memo[o[1]] = r
            return r
        return go(op)

    def _phis(self, fn, hdr):
        return [i for i in fn.blocks[hdr].instrs if i.op == 'phi']

    def _enter_inv(self, fn, fid, frm, hdr, body, env, st, work, res, loopctx):
        gs = None
        for g in self.ghost_specs:
            if g.applies(self, st, fn) and g.name not in st.ghost:
                gs = g
                break
        li = LoopInfo()
        li.fn, li.hdr, li.body, li.fid, li.gs = fn, hdr, body, fid, gs
        li.name = f"{canon(fn.name)[0]} loop@{fn.blocks[hdr].name}"
        # initial values
        phis = self._phis(fn, hdr)
        init = {}
        for ins in phis:
            for pb, o in ins.x:
                if pb == frm:
                    init[ins.id] = self._val(o, env, st, fn.mod)
        li.init = init
        li.phis = {p.id: p for p in phis}
        li.st0 = st
        li.preobjs = set(st.mem.keys())
        li.mod = set()
        li.tmpl = {}
        li.dead = set()
        rec, self.record = self.record, False
        w0 = self.where
        rounds = 0
        try:
            while True:
                rounds += 1
                if rounds > 60:
                    raise Unsupported("no inductive invariant found for " + li.name)
                again = False
                hst, henv, cands = self._havoc(li, env, st)
                # initiation
                todo = [(key, init_f) for key, txt, f, init_f in cands if key not in li.dead]
                while todo:
                    ok, m = self.valid(st, b_and(*[f for _, f in todo]))
                    if ok:
                        break
                    rest = []
                    for key, f in todo:
                        if (is_c(f) and not f) or (m is not None and not is_c(f) and
                                                   z3.is_false(m.eval(f, model_completion=True))):
                            li.dead.add(key)
                        else:
                            rest.append((key, f))
                    if len(rest) == len(todo):
                        for key, f in todo:
                            if not self.valid(st, f)[0]:
                                li.dead.add(key)
                        break
                    todo = rest
                hst, henv, cands = self._havoc(li, env, st)
                live = [(k, t, f, i) for k, t, f, i in cands if k not in li.dead]
                for k, t, f, i in live:
                    hst.assume(f)
                lc = LoopInfo()
                lc.header, lc.body, lc.probe = hdr, body, None
                hst.wlog = set()
                hst.ghost[('loop', fid, hdr)] = li
                henv = dict(henv)
                henv[(hdr, 'pre')] = 1
                outs = self._explore(fn, fid, [(hdr, 0, frm, henv, hst)], lc)
                # discover writes
                for o in outs:
                    s = o[1] if o[0] in ('back', 'exit') else o[0]
                    for (ob, c, z) in s.wlog:
                        if ob in li.preobjs and not self._covered(li.mod, ob, c):
                            li.mod.add((ob, c, z))
                            again = True
                if again:
                    continue
                backs = [o for o in outs if o[0] == 'back']
                for o in backs:
                    _, s, e, pb = o
                    for key, ok, why in self._preserved(li, live, s, e, pb):
                        if not ok:
                            if key[0] == 'T':      # template of a cell: try the next one
                                li.tmpl[key[1]] = li.tmpl.get(key[1], 0) + 1
                                again = True
                                break
                            if key not in li.dead:
                                li.dead.add(key)
                                again = True
                    if again and any(True for _ in ()):
                        break
                if not again:
                    break
        finally:
            self.record = rec
            self.where = w0
        # final pass: recorded
        hst, henv, cands = self._havoc(li, env, st)
        live = [(k, t, f, i) for k, t, f, i in cands if k not in li.dead]
        for k, t, f, i in live:
            self.oblige(st.fork(), i, f"{li.name}: invariant holds on entry: {t}", "loop-init")
            hst.assume(f)
        li.live = live
        li.inv_txt = [t for _, t, _, _ in live]
        self.loops_seen[li.name] = {"invariant": li.inv_txt, "templates": {str(k): v for k, v in li.tmpl.items()}}
        hst.ghost[('loop', fid, hdr)] = li
        henv = dict(henv)
        henv[(hdr, 'pre')] = 1
        hst.wlog = st.wlog
        if st.wlog is not None:
            for m in li.mod:
                st.wlog.add(m)
        work.append((hdr, 0, frm, henv, hst))

    @staticmethod
    def _mapped(v0, fn, g):
        w = 8 * v0.ew
        n = v0.length()
        _upd_counter[0] += 1
        p = g['g']
        src = Src(('map', _upd_counter[0]), lambda i: b_ite(cmp('ult', i, p, 64), fn(i), v0.at(i, w), w), None)
        return Rope(v0.ew, (Sl(src, 0, n),))

    @staticmethod
    def _covered(mod, ob, c):
        return any(m[0] == ob and m[1] <= c < m[1] + m[2] for m in mod)

    def _havoc(self, li, env, st):
        """fresh loop-header state; candidates = list of (key, text, formula at header, formula at entry)"""
        hst = st.fork()
        henv = dict(env)
        cands = []
        gs = li.gs
        if gs is not None:
            if not hasattr(li, 'gvars'):
                li.gvars = gs.fresh(self)
                li.ginit = gs.init(self, st)
            hst.ghost[gs.name] = dict(li.gvars)
            for gn in gs.gens:
                hst.assume(cmp('ult', li.gvars['len:' + gn], 1 << 40, 64))      # texts are shorter than 2^40
            for key, txt, fn_ in gs.facts(self, st):
                cands.append((('G', key), txt, fn_(li.gvars), fn_(li.ginit)))
        g = li.gvars['g'] if gs else None
        if not hasattr(li, 'hv'):
            li.hv = {}
        for pid, ins in li.phis.items():
            v0 = li.init[pid]
            hv = li.hv.get(('P', pid))
            if hv is None:
                hv = li.hv[('P', pid)] = self._hvar(li, v0, ins.ty.w if ins.ty.kind == 'int' else None, f"%{ins.name or pid}", st)
            henv[pid] = self._known(li, ('P', pid), hv, v0, ins.ty.w if ins.ty.kind == 'int' else None, st)
            cands += self._guarded(li, self._cands(li, ('P', pid), f"v{list(li.phis).index(pid)}", hv, v0,
                                                   ins.ty.w if ins.ty.kind == 'int' else None, st))
        for k, (ob, c, z) in enumerate(sorted(li.mod, key=str)):
            o = st.mem[ob]
            e = o.cells.get(c)
            if o.kind != 'cells':
                raise Unsupported("loop writes to a buffer")
            v0 = e[1] if e is not None and e[0] == z else None
            if v0 is None:
                if e is None:
                    # uninitialised or lazily created: havoc
                    v0 = self._load_c(st, ob, o, c, _IT[z]) if z in _IT else UNDEF
                else:
                    raise Unsupported("loop writes part of a value")
            if v0 is ZERO:
                v0 = 0
            key = ('M', ob, c, z)
            if isinstance(v0, Rope):
                opts = []
                if gs is not None:
                    opts = list(gs.gens.keys())
                t = li.tmpl.get(key, 0)
                if t < len(opts):
                    gen = opts[t]
                    ln = li.gvars['len:' + gen]
                    r = Rope(v0.ew, v0.p + (gs.gen_piece(gen, li.gvars),))
                    self.store_raw(hst, Ptr(ob, c), z, r)
                    cands.append((('T', key), f"string {k} == initial ++ {gen}[0..g)", 1, 1))
                    continue
                t -= len(opts)
                maps = gs.maps if gs is not None else []
                if t < len(maps):
                    self.store_raw(hst, Ptr(ob, c), z, self._mapped(v0, maps[t], li.gvars))
                    cands.append((('T', key), f"string {k} == initial with its first g elements mapped", 1, 1))
                    continue
                t -= len(maps)
                heads = gs.heads if gs is not None else []
                if t < len(heads):
                    self.store_raw(hst, Ptr(ob, c), z, v0 + heads[t](li.gvars))
                    cands.append((('T', key), f"string {k} == initial ++ the specified text up to g", 1, 1))
                    continue
                t -= len(heads)
                if t == 0:
                    self.store_raw(hst, Ptr(ob, c), z, v0)
                    cands.append((('T', key), f"string {k} keeps its value", 1, 1))
                    continue
                t -= 1
                hk = ('R', key, t)
                if t == 0:
                    # length preserved
                    if hk not in li.hv:
                        li.hv[hk] = self.fresh_arr("chars", v0.ew)
                    arr = li.hv[hk]
                    self.store_raw(hst, Ptr(ob, c), z, Rope(v0.ew, (Sl(arr_src(arr), 0, v0.length()),)))
                    cands.append((('T', key), f"string {k} keeps its length", 1, 1))
                    continue
                if t == 1:
                    if hk not in li.hv:
                        li.hv[hk] = (self.fresh_arr("chars", v0.ew), self.fresh("len", 64))
                    arr, ln = li.hv[hk]
                    hst.assume(cmp('ult', ln, 1 << 40, 64))
                    self.store_raw(hst, Ptr(ob, c), z, Rope(v0.ew, (Sl(arr_src(arr), 0, ln),)))
                    cands += self._cands(li, key + ('len',), f"length of string {k}", ln, v0.length(), 64, st)
                    continue
                raise Unsupported("no template for string modified in loop")
            if isinstance(v0, Undef):
                self.store_raw(hst, Ptr(ob, c), z, UNDEF)
                continue
            w = None if isinstance(v0, Ptr) else 8 * z
            hv = li.hv.get(key)
            if hv is None:
                hv = li.hv[key] = self._hvar(li, v0, w, f"mem{k}", st)
            self.store_raw(hst, Ptr(ob, c), z, self._known(li, key, hv, v0, w, st))
            cands += self._guarded(li, self._cands(li, key, f"mem{k}", hv, v0, w, st))
        return hst, henv, cands

    @staticmethod
    def _guarded(li, cs):
        """candidates weakened by the specification's case distinctions"""
        out = list(cs)
        if li.gs is not None:
            for gi, (txt, g) in enumerate(li.gs.guards):
                if is_c(g):
                    continue
                for key, t, f, i in cs:
                    out.append((key + ('if', gi), f"{txt} => {t}", b_imp(g, f), b_imp(g, i)))
                    out.append((key + ('ifnot', gi), f"not ({txt}) => {t}", b_or(g, f), b_or(g, i)))
        return out

    def _hvar(self, li, v0, w, name, st):
        if isinstance(v0, Ptr):
            if v0.obj == 0:
                raise Unsupported("loop-carried null pointer")
            o = st.mem.get(v0.obj)
            ew = o.ew if o is not None and o.kind in ('src', 'view') else None
            if ew is None:
                raise Unsupported("loop-carried pointer into " + (o.kind if o else "?"))
            k = self.fresh("idx", 64)
            return Ptr(v0.obj, v0.off + Lin.of(k).scale(ew))
        if isinstance(v0, (Undef,)):
            return UNDEF
        if isinstance(v0, (Rope, tuple, FnPtr, Opaque, PtrInt)):
            raise Unsupported("loop-carried " + type(v0).__name__)
        return self.fresh(name, w)

    def _known(self, li, key, hv, v0, w, st):
        """the value itself where a (not refuted) candidate says what it is; otherwise the loop's variable"""
        gs = li.gs
        live = lambda *k: key + k not in li.dead
        if isinstance(hv, Undef):
            return hv
        if isinstance(hv, Ptr):
            for gn in gs.pos if gs else ():
                for k, v in (('pos', li.gvars[gn]), ('neg', sub64(0, li.gvars[gn]))):
                    if live(k, gn):
                        return Ptr(v0.obj, v0.off + Lin.of(v).scale(st.mem[hv.obj].ew))
            return hv
        b = w == 1 or (not is_c(hv) and z3.is_bool(hv))
        if not b and w is None:
            return hv
        if live('const'):
            return v0
        if gs:
            for gn in gs.bools:
                if live('b', gn):
                    return li.gvars[gn] if b else zext(li.gvars[gn], 1, w)
            for gn, gw in gs.ints.items() if not b else ():
                if live('eq', gn):
                    v = li.gvars[gn]
                    return v if gw == w else trunc(v, gw, w) if gw > w else zext(v, gw, w)
        return hv

    def _cands(self, li, key, nm, hv, v0, w, st):
        out = []
        gs = li.gs
        if isinstance(hv, Undef):
            return out
        if isinstance(hv, Ptr):
            o = st.mem[hv.obj]
            ew = o.ew
            k = (hv.off - v0.off).div(ew).val()
            idx = hv.off.div(ew).val()
            idx0 = v0.off.div(ew).val()
            n = self.elem_count(st, o)
            out.append((key + ('inb',), f"{nm} stays within its buffer", cmp('ult', idx, n, 64), cmp('ult', idx0, n, 64)))
            if gs:
                G = li.gvars
                I = li.ginit
                for gn in gs.pos:
                    out.append((key + ('pos', gn), f"{nm} == start + {gn}", cmp('eq', k, G[gn], 64), cmp('eq', 0, I[gn], 64)))
                    out.append((key + ('neg', gn), f"{nm} == start - {gn}", cmp('eq', k, sub64(0, G[gn]), 64),
                                cmp('eq', 0, I[gn], 64)))
            return out
        if w == 1 or (not is_c(hv) and z3.is_bool(hv)):
            out.append((key + ('const',), f"{nm} keeps its initial value", eq(hv, v0, 1), 1))
            if gs:
                for gn in gs.bools:
                    out.append((key + ('b', gn), f"{nm} == {gn}", eq(hv, li.gvars[gn], 1), eq(v0, li.ginit[gn], 1)))
                    out.append((key + ('nb', gn), f"{nm} == !{gn}", eq(hv, b_not(li.gvars[gn]), 1),
                                eq(v0, b_not(li.ginit[gn]), 1)))
            return out
        if w is None:
            return out
        out.append((key + ('const',), f"{nm} keeps its initial value", cmp('eq', hv, v0, w), 1))
        if w == 8:
            out.append((key + ('bool',), f"{nm} is 0 or 1", cmp('ule', hv, 1, w), cmp('ule', v0, 1, w)))
        if gs:
            G, I = li.gvars, li.ginit
            for gn in gs.bools:
                gz, iz = zext(G[gn], 1, w), zext(I[gn], 1, w)
                out.append((key + ('b', gn), f"{nm} == {gn}", cmp('eq', hv, gz, w), cmp('eq', v0, iz, w)))
                out.append((key + ('nb', gn), f"{nm} == !{gn}", cmp('eq', hv, zext(b_not(G[gn]), 1, w), w),
                            cmp('eq', v0, zext(b_not(I[gn]), 1, w), w)))
            for gn, gw in gs.ints.items():
                def conv(x):
                    return x if gw == w else (trunc(x, gw, w) if gw > w else zext(x, gw, w))
                a, i0 = conv(G[gn]), conv(I[gn])
                out.append((key + ('eq', gn), f"{nm} == {gn}", cmp('eq', hv, a, w), cmp('eq', v0, i0, w)))
                if not (is_c(v0) and v0 == 0 and is_c(i0) and i0 == 0):
                    out.append((key + ('off', gn), f"{nm} - initial == {gn} - its initial",
                                cmp('eq', binop('sub', hv, v0, w), binop('sub', a, i0, w), w), 1))
                out.append((key + ('noff', gn), f"initial - {nm} == {gn} - its initial",
                            cmp('eq', binop('sub', v0, hv, w), binop('sub', a, i0, w), w), 1))
        return out

    def _preserved(self, li, live, s, e, pb):
        """check candidate invariants at the back edge; yields (key, ok, why)"""
        sub = []
        gs = li.gs
        phis = li.phis
        newv = {}
        for pid, ins in phis.items():
            for b, o in ins.x:
                if b == pb:
                    newv[pid] = self._val(o, e, s, li.fn.mod)
        newg = gs.step(self, s, li.gvars) if gs else None
        pairs = []
        for pid in phis:
            hv = li.hv[('P', pid)]
            nv = newv[pid]
            self._pair(hv, nv, pairs)
        out = []
        for m in sorted(li.mod, key=str):
            key = ('M',) + m
            ob, c, z = m
            cur = s.mem[ob].cells.get(c)
            if any(k[0] == ('T') and k[1] == key for k, *_ in live):
                nv = cur[1] if cur else None
                st0 = li.st0.mem[ob].cells[c][1]
                t = li.tmpl.get(key, 0)
                opts = list(gs.gens.keys()) if gs else []
                if not isinstance(nv, Rope):
                    out.append((('T', key), False, "not a string"))
                    continue
                if t < len(opts):
                    want = st0 + Rope(st0.ew, (gs.gen_piece(opts[t], li.gvars),))
                    # the generated sequence grows by the piece the specification prescribes
                    cases = gs.gen_step(self, s, opts[t], li.gvars)
                    cond = b_or(*[b_and(g, rope_eq(self, s, nv, want + r)) for g, r in cases])
                    ok, m = self.valid(s, cond)
                    if not ok and m is not None:
                        self.hint(m, li.gvars)
                    out.append((('T', key), bool(ok), ""))
                elif gs and t < len(opts) + len(gs.maps):
                    want = self._mapped(st0, gs.maps[t - len(opts)], newg)
                    if is_c(st0.length()) and st0.length() <= 16:
                        out.append((('T', key), False, "short string"))
                        continue
                    ok, m = self.valid(s, rope_eq(self, s, nv, want))
                    if not ok and m is not None:
                        self.hint(m, li.gvars)
                    out.append((('T', key), bool(ok), ""))
                elif gs and t < len(opts) + len(gs.maps) + len(gs.heads):
                    ok, m = self.valid(s, rope_eq(self, s, nv, st0 + gs.heads[t - len(opts) - len(gs.maps)](newg)))
                    if not ok and m is not None:
                        self.hint(m, li.gvars)
                    out.append((('T', key), bool(ok), ""))
                elif t == len(opts) + (len(gs.maps) + len(gs.heads) if gs else 0):
                    ok, _ = self.valid(s, rope_eq(self, s, nv, st0))
                    out.append((('T', key), bool(ok), ""))
                else:
                    ok, _ = self.valid(s, cmp('eq', nv.length(), st0.length(), 64))
                    out.append((('T', key), bool(ok), ""))
                continue
            if key not in li.hv:
                hk = ('R', key, 1)
                for k in li.hv:
                    if isinstance(k, tuple) and k[0] == 'R' and k[1] == key and isinstance(li.hv[k], tuple):
                        pairs.append((li.hv[k][1], bv(cur[1].length(), 64)))
                continue
            if cur is None or cur[0] != z:
                v = self._load_c(s, ob, s.mem[ob], c, _IT[z])
            else:
                v = cur[1]
            self._pair(li.hv[key], v, pairs, 8 * z)
        if gs:
            for n, v in li.gvars.items():
                if not is_c(v):
                    pairs.append((v, gs.z(n, newg[n])))
        todo = []
        for key, txt, f, i in live:
            if key[0] == 'T':
                continue
            f2 = f if is_c(f) else (simpb(z3.substitute(f, *pairs)) if pairs else f)
            if is_c(f2):
                out.append((key, bool(f2), ""))
            else:
                todo.append((key, f2))
        while todo:
            conj = b_and(*[f2 for _, f2 in todo])
            ok, m = self.valid(s, conj)
            if ok:
                out += [(k, True, "") for k, _ in todo]
                break
            rest = []
            if m is not None:
                for k, f2 in todo:
                    if z3.is_false(m.eval(f2, model_completion=True)):
                        out.append((k, False, ""))
                    else:
                        rest.append((k, f2))
            if m is None or len(rest) == len(todo):
                for k, f2 in todo:
                    ok, _ = self.valid(s, f2)
                    out.append((k, bool(ok), ""))
                break
            todo = rest
        self._last_pairs = pairs
        return out

    def _pair(self, hv, nv, pairs, w=None):
        if isinstance(hv, Undef):
            return
        if isinstance(hv, Ptr):
            if not isinstance(nv, Ptr) or nv.obj != hv.obj:
                raise Unsupported("loop-carried pointer changes object")
            # hv.off = init + ew*k ; find the fresh k
            k, co = [t for t in hv.off.t if str(t[0]).startswith("idx!")][-1]
            rest = nv.off - Lin(hv.off.c, tuple(t for t in hv.off.t if not t[0].eq(k)))
            q = rest.div(co)
            if q is None:
                raise Unsupported("pointer step")
            pairs.append((k, bv(q.val(), 64)))
            return
        if isinstance(nv, Undef):
            raise Unsupported("loop carries undef")
        if z3.is_bool(hv):
            pairs.append((hv, tobool(nv) if not (not is_c(nv) and z3.is_bv(nv)) else nv == 1))
        else:
            if isinstance(nv, (Ptr, Opaque, PtrInt)):
                raise Unsupported("loop-carried value changes kind")
            pairs.append((hv, bv(nv, hv.size())))

    def _check_back(self, li, fn, env, st, frm):
        """final pass: back edge reached, discharge the invariants as obligations"""
        for key, ok, why in self._preserved(li, li.live, st, env, frm):
            txt = [t for k, t, f, i in li.live if k == key][0]
            o = Oblig(f"{li.name}: invariant preserved: {txt}", "loop-step", self.where)
            o.status = "proved" if ok else "unknown"
            o.backend = "z3"
            if self.record:
                self.obligations.append(o)
        if li.gs is not None and self.record:
            for nm, c in li.gs.progress(self, st, li.gvars):
                self.oblige(st.fork(), c, f"{li.name}: {nm}", "termination")


def stl_constant(v):
    import stl
    if isinstance(v, Ptr):
        return v.obj == 0 or isinstance(v.obj, tuple)
    return stl.constant(v)


class PtrInt:
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return f"int({self.p})"


class _T:
    pass


_PT = _T()
_PT.w = None
_PT.kind = 'ptr'
_IT = {}
for _z in (1, 2, 4, 8):
    _t = _T()
    _t.kind, _t.w, _t.size = 'int', 8 * _z, _z
    _IT[_z] = _t


class PathEnd(Exception):
    pass


class ForkOn(Exception):
    def __init__(self, cases, mk=None):
        self.cases, self.mk = cases, mk


# ---------------------------------------------------------------- rope equality / helpers
def rope_set(r, i, v, w):
    c = r.conc()
    if c is not None and is_c(i):
        l = list(c)
        l[i] = v
        return Rope(r.ew, (Lit(l),))
    # functional update over a single source of the same length
    base = r
    n = r.length()

    def at(j, base=base, i=i, v=v):
        return b_ite(cmp('eq', j, i, 64), v, base.at(j, w), w)
    _upd_counter[0] += 1
    return Rope(r.ew, (Sl(Src(('upd', _upd_counter[0]), at), 0, n),))


_upd_counter = [0]
_same_keys = {}


def _lk(v):
    return v if is_c(v) else z3.simplify(bv(v, 64)).sexpr()


DECIMALS = {}          # key of a decimal text -> its number


def rope_eq(ex, st, a, b, exact=False):
    """z3 condition that is sufficient for equality; with exact=True also necessary (else Unsupported)"""
    w = 8 * a.ew
    conds = []
    pa, pb = list(a.p), list(b.p)
    while pa and pb:
        x, y = pa[0], pb[0]
        if isinstance(x, Lit) and isinstance(y, Lit):
            n = min(len(x.e), len(y.e))
            for u, v in zip(x.e[:n], y.e[:n]):
                c = eq(u, v, w)
                if is_c(c) and not c:
                    return 0
                conds.append(c)
            pa[0:1] = [Lit(x.e[n:])] if len(x.e) > n else []
            pb[0:1] = [Lit(y.e[n:])] if len(y.e) > n else []
            continue
        if isinstance(x, Gen) and isinstance(y, Gen) and x.key == y.key:
            pa.pop(0)
            pb.pop(0)
            continue
        if isinstance(x, Gen) and isinstance(y, Gen) and x.key in DECIMALS and y.key in DECIMALS and not exact:
            conds.append(cmp('eq', DECIMALS[x.key], DECIMALS[y.key], 65))       # decimal texts of the same number
            pa.pop(0)
            pb.pop(0)
            continue
        if isinstance(x, Sl) and isinstance(y, Sl):
            if x.src.key == y.src.key and len(pa) + len(pb) > 2 and Lin.of(x.start).same(Lin.of(y.start)) and not Lin.of(x.len).same(Lin.of(y.len)):
                # the same text from the same place on: drop the shorter part from both
                le = cmp('ule', x.len, y.len, 64)
                if ex.valid(st, le)[0]:
                    pa.pop(0)
                    pb[0] = Sl(y.src, add64(y.start, x.len), sub64(y.len, x.len))
                    continue
                if ex.valid(st, b_not(le))[0]:
                    pb.pop(0)
                    pa[0] = Sl(x.src, add64(x.start, y.len), sub64(x.len, y.len))
                    continue
            if x.src.key == y.src.key and not (exact and not (Lin.of(x.start).same(Lin.of(y.start)) and
                                                               (len(pa) == len(pb) == 1 or Lin.of(x.len).same(Lin.of(y.len))))):
                conds.append(cmp('eq', x.start, y.start, 64))
                conds.append(cmp('eq', x.len, y.len, 64))
                pa.pop(0)
                pb.pop(0)
                continue
            # extensional equality at an arbitrary index (sound when proved valid)
            if exact:
                ok1, _ = ex.valid(st, cmp('ne', x.len, y.len, 64))
                if ok1 and len(pa) == 1 and len(pb) == 1:
                    return 0
                if len(pa) == 1 and len(pb) == 1 and len(a.p) == len(b.p) == 1:
                    # an uninterpreted truth value per pair of texts (with equal lengths when true)
                    k = tuple(sorted(str((z.src.key, _lk(z.start), _lk(z.len))) for z in (x, y)))
                    t = z3.Bool("same" + str(abs(hash(k))))
                    _same_keys.setdefault(str(t), k)
                    if _same_keys[str(t)] != k:
                        raise Unsupported("key collision")
                    return b_and(cmp('eq', x.len, y.len, 64), t)
                raise Unsupported("equality of two symbolic strings")
            k = ex.fresh("k", 64)
            conds.append(cmp('eq', x.len, y.len, 64))
            conds.append(b_imp(cmp('ult', k, x.len, 64),
                               eq(x.src.at(add64(x.start, k)), y.src.at(add64(y.start, k)), w)))
            pa.pop(0)
            pb.pop(0)
            continue
        if isinstance(x, Sl) and isinstance(y, Lit) or isinstance(x, Lit) and isinstance(y, Sl):
            if isinstance(x, Lit):
                pa, pb = pb, pa
                x, y = y, x
            # x slice, y literal: the slice covers the whole literal when it is the last piece on both sides
            if len(pa) == 1 and len(pb) == 1:
                conds.append(cmp('eq', x.len, len(y.e), 64))
                for k, u in enumerate(y.e):
                    conds.append(eq(x.src.at(add64(x.start, k)), u, w))
                pa, pb = [], []
                continue
            if len(pb) == 1 and len(pa) > 1:
                # x ++ rest == literal; try: lengths of the rest are literal
                rest = Rope(a.ew, pa[1:])
                c = rest.conc()
                if c is not None and len(c) <= len(y.e):
                    m = len(y.e) - len(c)
                    conds.append(cmp('eq', x.len, m, 64))
                    for k in range(m):
                        conds.append(eq(x.src.at(add64(x.start, k)), y.e[k], w))
                    for u, v in zip(c, y.e[m:]):
                        conds.append(eq(u, v, w))
                    pa, pb = [], []
                    continue
            # peel one element when the slice is known to be non-empty
            ok, _ = ex.valid(st, cmp('uge', x.len, 1, 64))
            if ok:
                conds.append(eq(x.src.at(x.start), y.e[0], w))
                pa[0] = Sl(x.src, add64(x.start, 1), sub64(x.len, 1))
                pb[0:1] = [Lit(y.e[1:])] if len(y.e) > 1 else []
                continue
            ok, _ = ex.valid(st, cmp('eq', x.len, 0, 64))
            if ok:
                pa.pop(0)
                continue
        if exact:
            raise Unsupported("undecided string equality")
        return 0
    rest = pa or pb
    for x in rest:
        if isinstance(x, Lit):
            return 0
        conds.append(cmp('eq', x.len, 0, 64))
    return b_and(*conds)


def cvc5_check(smt2, timeout=20):
    import subprocess
    import tempfile
    import os
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + smt2)
        r = subprocess.run(["cvc5", f"--tlimit={timeout * 1000}", f.name], capture_output=True, text=True,
                           timeout=timeout + 10)
        return r.stdout.strip().split("\n")[0] if r.stdout.strip() else "error"
    except Exception as e:  # noqa
        return "error " + type(e).__name__
    finally:
        try:
            os.unlink(f.name)
        except Exception:
            pass
