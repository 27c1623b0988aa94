"""Contracts on functions of /repo: precondition (setup/pre), case-wise postcondition (cases), frame.
`verify` checks a body against its contract; `handler` is what callers get instead of the body."""
import time
import z3
from values import *
from engine import (Engine, State, Obj, Ret, Throw, Oblig, Budget, canon, cmp, rope_eq, PtrInt, ZERO, _IT, PathEnd)
import stl
import maps
import vecs
import streams
import output

MAXLEN = 1 << 40
TI = {"DomainError": "_ZTIN11kanji_tools11DomainErrorE", "RangeError": "_ZTIN11kanji_tools10RangeErrorE",
      "out_of_range": "_ZTISt12out_of_range", "invalid_argument": "_ZTISt16invalid_argument"}


def full_ok(want, full):
    """`want` occurs in the demangled name (a trailing NUL anchors it at the end)"""
    return want is None or (want[-1] == '\0' and full.endswith(want[:-1])) or want in full


class Case:
    """guard => (throws E | returns ret), having made exactly `writes`"""

    def __init__(self, name, guard=1, ret=None, throws=None, writes=(), via=None, owns=()):
        """owns: [(pointer, size)] cells that `ret` (of kind 'any') decides"""
        self.name, self.guard, self.ret, self.throws, self.writes, self.via = name, guard, ret, throws, list(writes), via
        self.owns = list(owns)


class Fn:
    """contract of one function. kind: int width, 'bool', 'str', 'void', 'ptr', 'any'"""

    def __init__(self, q, params, kind, setup, cases, pre=None, auto=None, srcs=(), mode='inv', ew=1, title=None,
                 full=None, unroll=None, inline=(), opts=None, ghost_only=False, tag=None, nocall=False, frame=True, cmd=None, cost=1, each=None, bound=None):
        """each(ex, st): [(label, arguments)], one obligation set per instance (instead of setup's one list of arguments)"""
        self.each = each
        self.bound = bound           # not a proof for all inputs: what it is bounded to
        self.q, self.params, self.kind = q, params, kind
        self.setup, self.cases_fn, self.pre_fn, self.auto = setup, cases, pre, auto
        self.srcs, self.mode, self.ew, self.full = list(srcs), mode, ew, full
        self.title = title or f"{q}({', '.join(params or ())})"
        self.unroll, self.inline, self.opts, self.tag = unroll, inline, opts or {}, tag
        self.nocall, self.frame = nocall, frame
        self.cmd = cmd if cmd is not None else self.title.replace(' on null', '')
        self.cost = cost

    def cases(self, ex, st, args):
        return self.cases_fn(ex, st, *args)

    def pre(self, ex, st, args):
        return self.pre_fn(ex, st, *args) if self.pre_fn else []

    def matches(self, q, ps, full):
        if q != self.q:
            return False
        if self.params is not None and list(self.params) != list(ps):
            return False
        return full_ok(self.full, full)


def new_state():
    st = State()
    st.mem[0] = Obj('null')
    return st


# ------------------------------------------------------------------ symbolic inputs
class Inputs(list):
    pass


def inp(ex):
    if not hasattr(ex, 'inputs'):
        ex.inputs = []
    return ex.inputs


def sym_int(ex, st, name, w):
    v = ex.fresh(name, w)
    inp(ex).append((name, 'int', v, w))
    return v


def sym_str(ex, st, name, ew=1):
    """std::basic_string object of arbitrary contents and length (embedded NULs allowed)"""
    arr = ex.fresh_arr(name, ew)
    n = ex.fresh(name + ".len", 64)
    st.assume(z3.ULT(n, MAXLEN))
    st.assume(z3.Select(arr, n) == 0)
    p = ex.new_obj(st, 'cells', 32, name)
    ex.set_rope(st, p, Rope(ew, (Sl(arr_src(arr, n), 0, n),)))
    inp(ex).append((name, 'str', arr, n, ew))
    return p


def sym_cstr(ex, st, name, ew=1):
    """NUL terminated buffer; its first NUL is at index n (instantiated at every access)"""
    arr = ex.fresh_arr(name, ew)
    n = ex.fresh(name + ".len", 64)
    st.assume(z3.ULT(n, MAXLEN))
    st.assume(z3.Select(arr, n) == 0)
    p = ex.new_obj(st, 'src', None, name)
    o = st.mem[p.obj]
    o.src, o.ew, o.n = arr_src(arr, n), ew, add64(n, 1)
    o.const, o.lazy = True, 'cstr'
    inp(ex).append((name, 'str', arr, n, ew))
    return p


def out_cell(ex, st, size, name, init=None):
    p = ex.new_obj(st, 'cells', size, name)
    v = ex.fresh(name, 8 * size) if init is None else init
    ex.store_raw(st, p, size, v)
    return p


def text_at(ex, st, p):
    """(src, start, nulIndex) of the NUL terminated text at char pointer p"""
    o = st.mem.get(p.obj)
    if o is None:
        raise Unsupported("text pointer")
    if o.kind == 'src':
        return o.src, p.off.div(o.ew).val(), sub64(o.n, 1)
    if o.kind == 'view':
        r = ex.rope(st, Ptr(o.ref[0], o.ref[1]))
        src, start, n = rope_src(ex, st, r)
        return src, add64(start, p.off.div(o.ew).val()), add64(start, n)
    if o.kind == 'cells':
        r = stl.cstr(ex, st, p)
        return rope_src(ex, st, r)
    raise Unsupported("text pointer into " + o.kind)


def rope_src(ex, st, r):
    """(src, start, len): view a rope as an indexable NUL terminated source"""
    s = r.single()
    if s is not None and r.nul_at_end():
        return s.src, s.start, s.len
    n = r.length()
    key = ('rope', repr_key(r))
    w = 8 * r.ew
    return Src(key, lambda i, r=r, n=n: simp_ite(cmp('ult', i, n, 64), lambda: r.at(i, w), w), n), 0, n


def simp_ite(c, f, w):
    if is_c(c):
        return f() if c else 0
    return b_ite(c, f(), 0, w)


def repr_key(r):
    out = []
    for x in r.p:
        if isinstance(x, Lit):
            out.append(('L',) + tuple(e if is_c(e) else e.sexpr() for e in x.e))
        elif isinstance(x, Sl):
            out.append(('S', x.src.key, _k(x.start), _k(x.len)))
        else:
            out.append(('G', x.key, _k(x.len)))
    return tuple(out)


def _k(v):
    return v if is_c(v) else v.sexpr()


def global_named(ex, q):
    """mangled name of the global variable with this qualified name"""
    for m in ex.modules:
        for n, g in m.globals.items():
            if n.startswith('_Z') and not n.startswith('_ZGV') and canon(n)[0] == q and (q.replace('{anon}', '(anonymous namespace)') in canon(n)[2]):
                return n, g
    raise Unsupported("no variable " + q)


def preset(ex, st, n, g):
    """the statically initialised contents of a variable"""
    key = ('g', g.mod.label if g.internal else '', n)
    o = Obj('cells', g.ty.size, n)
    ex._init_cells(st, o, 0, g.init, g.ty, g.mod)
    st.mem[key] = o
    st.owned.add(key)
    return Ptr(key)


def run_initialiser(ex, st, names, first=()):
    """executes the dynamic initialiser of namespace-scope variables in `st`, as program start-up does; the variables
    `first` have their static initial value before"""
    import llvmc
    out = []
    for n, g in first:
        preset(ex, st, n, g)
    for n, g in names:
        p = preset(ex, st, n, g)
        fs = sorted({f for op, f in llvmc.uses(g.ref) if op != 'load' and f.startswith('__cxx_global_var_init')})
        if len(fs) != 1:
            raise Unsupported("initialiser of " + n)
        st.ghost['sinit'] = (n,)
        outs = ex.call_fn(st, g.mod.functions[fs[0]], [])
        if len(outs) != 1 or isinstance(outs[0][1], Throw):
            raise Unsupported("initialiser of " + n + " does not finish normally")
        s = outs[0][0]
        for a in ('mem', 'pc', 'owned', 'exc', 'caught', 'ghost', 'events', 'trace'):
            setattr(st, a, getattr(s, a))
        st.ghost.pop('sinit', None)
        out.append(p)
    return out


# ------------------------------------------------------------------ specification automata (loops)
class Auto:
    """deterministic specification automaton: a loop of the implementation is proved to simulate it.
    vars: name -> ('int', w) | ('bool',) ; pos: names that may be matched with pointer positions;
    init/run/step: functions of (ghost valuation); gens: name -> (key, out(g) -> [(cond, Rope)], len var or None)"""

    def __init__(self, name, vars, init, run, step, gens=None, pos=(), facts=(), variant=None, when=None, maxunfold=2,
                 guards=(), maps=(), heads=()):
        self.maps, self.heads = list(maps), list(heads)
        self.name, self.vars, self._init, self._step = name, vars, init, step
        self.runs = list(run) if isinstance(run, (list, tuple)) else [run]
        self.run = lambda g: b_and(*[r(g) for r in self.runs])
        self.guards = list(guards)
        self.gens_ = gens or {}
        self.pos, self._facts, self.variant, self.when = list(pos), list(facts), variant, when
        self.bools = [n for n, t in vars.items() if t[0] == 'bool']
        self.ints = {n: t[1] for n, t in vars.items() if t[0] == 'int'}
        self.gens = self.gens_
        self.maxunfold = maxunfold
        for g, (key, out, lv) in self.gens_.items():
            if lv is None:
                self.ints['len:' + g] = 64

    def applies(self, ex, st, fn):
        return self.when is None or self.when(ex, st, fn)

    def fresh(self, ex):
        r = {}
        for n, t in self.vars.items():
            r[n] = ex.fresh("gh_" + n, 1 if t[0] == 'bool' else t[1])
        for g, (key, out, lv) in self.gens_.items():
            if lv is None:
                r['len:' + g] = ex.fresh("gh_len_" + g, 64)
            else:
                r['len:' + g] = r[lv]
        if 'g' not in r:
            r['g'] = ex.fresh("gh_g", 64)
        return r

    def init(self, ex, st):
        r = dict(self._init)
        for g, (key, out, lv) in self.gens_.items():
            r['len:' + g] = 0 if lv is None else r[lv]
        r.setdefault('g', 0)
        return r

    def facts(self, ex, st):
        fs = [(f"run{k}", "the specification has not stopped" + (f" ({k})" if len(self.runs) > 1 else ""), r)
              for k, r in enumerate(self.runs)]
        for i, (txt, f) in enumerate(self._facts):
            fs.append((i, txt, f))
        return fs

    def gen_piece(self, gen, g):
        return Gen(self.gens_[gen][0], g['len:' + gen])

    def gen_step(self, ex, st, gen, g):
        return self.gens_[gen][1](g)

    def step(self, ex, st, g):
        n = self._step(g)
        r = dict(g)
        r.update(n)
        if 'g' not in self.vars:
            r['g'] = add64(g['g'], 1)
        for gn, (key, out, lv) in self.gens_.items():
            if lv is None:
                ln = None
                for c, rope in reversed(out(g)):
                    l = rope.length()
                    ln = l if ln is None else b_ite(c, l, ln, 64)
                r['len:' + gn] = add64(g['len:' + gn], ln)
            else:
                r['len:' + gn] = r[lv]
        return r

    def z(self, name, v):
        t = self.vars.get(name, ('int', 64))
        return tobool(v) if t[0] == 'bool' else bv(v, t[1])

    def progress(self, ex, st, g):
        out = [("the specification takes a step where the code does", self.run(g))]
        if self.variant:
            n = self.step(ex, st, g)
            out.append(("the loop's measure decreases", cmp('ult', self.variant(n), self.variant(g), 64)))
        return out

    def finals(self, ex, st):
        """possible final valuations: [(condition that the spec has stopped there, valuation, {gen: extra ropes})]"""
        g = st.ghost.get(self.name)
        if g is None:
            g = self.init(ex, st)
        out = []
        pre = 1
        base = g
        extra = {k: [(1, Rope(1))] for k in self.gens_}
        extra = {k: None for k in self.gens_}
        for j in range(self.maxunfold + 1):
            out.append((b_and(pre, b_not(self.run(g))), g, base, extra))
            pre = b_and(pre, self.run(g))
            if is_c(pre) and not pre:
                break
            ne = {}
            for k, (key, o, lv) in self.gens_.items():
                alts = o(g)
                cur = extra[k] or [(1, None)]
                ne[k] = [(b_and(c1, c2), r2 if r1 is None else r1 + r2) for c1, r1 in cur for c2, r2 in alts]
            extra = ne
            g = self.step(ex, st, g)
        return out


class Via:
    """the result is a function of the final state of the automaton.  value(final) -> value, or for strings
    pieces(final) -> list of ropes / ('gen', name)"""

    def __init__(self, auto, value=None, pieces=None, alt=None, throws=None):
        """throws: (exception, final -> condition under which it is thrown instead of returning)"""
        self.auto, self.value, self.pieces, self.alt, self.throws = auto, value, pieces, alt, throws


# ------------------------------------------------------------------ call sites
def make_handler(fns):
    def handler(ex, st, a, ps, full, ins):
        q = canon_q(full)
        for f in fns:
            if f.nocall or (f.params is not None and list(f.params) != list(ps)):
                continue
            if not full_ok(f.full, full):
                continue
            return apply_contract(f, ex, st, a)
        return NotImplemented
    return handler


def canon_q(full):
    return full


def apply_contract(f, ex, st, a):
    sret = None
    if f.kind == 'str' or f.kind == 'sret':
        sret, a = a[0], a[1:]
    for t, c in f.pre(ex, st, a):
        ex.oblige(st, c, f"precondition of {f.q}: {t}", "precondition")
    outs = []
    cases = []
    for c in f.cases(ex, st, a):
        if isinstance(c.ret, list) and f.kind == 'str':
            cases += [Case(c.name, b_and(c.guard, g), ret=r, throws=c.throws, writes=c.writes) for g, r in c.ret]
        else:
            cases.append(c)
    for c in cases:
        g = c.guard
        if is_c(g) and not g:
            continue
        if not ex.feasible(st, g):
            continue
        s2 = st.fork() if len(cases) > 1 else st
        s2.assume(g)
        if c.throws:
            outs.append((s2, ex.throw_std(s2, TI.get(c.throws, c.throws))))
            continue
        ret = c.ret(ex, s2) if callable(c.ret) else c.ret
        for p, size, v in c.writes:
            v = v(ex, s2) if callable(v) else v
            ex.store_raw(s2, p, size, v)
        if f.kind == 'str':
            ex.set_rope(s2, sret, ret)
            outs.append((s2, Ret(None)))
        elif f.kind == 'sret':
            for off, size, v in ret:
                ex.store_raw(s2, sret + off, size, v)
            outs.append((s2, Ret(None)))
        else:
            outs.append((s2, Ret(ret)))
    return outs


# ------------------------------------------------------------------ verification of a body
class Result:
    def __init__(self, fn):
        self.fn = fn
        self.obligations = []
        self.status = None       # proved / failed / undecided
        self.why = ""
        self.failures = []
        self.time = self.solver_time = 0.0
        self.queries = self.paths = 0
        self.models, self.contracts, self.inlined, self.loops = {}, {}, {}, {}
        self.smt = []


def find_fn(modules, q, params, full=None):
    best = None
    for m in modules:
        for n, f in m.functions.items():
            if f.decl or not n.startswith('_'):
                continue
            cq, ps, fu = canon(n)
            if cq == q and (params is None or list(params) == list(ps)) and full_ok(full, fu):
                return f
    return None


def handlers(fns, skip=None):
    by = {}
    for f in fns:
        if f is not skip and not (skip is not None and f.q == skip.q and f.params == skip.params and f.full == skip.full):
            by.setdefault(f.q, []).append(f)
    return {q: make_handler(l) for q, l in by.items()}


def verify_one(fn, f, ex, st, args):
    for t, c in fn.pre(ex, st, args):
        st.assume(c)
    ex.where = fn.q
    # vacuity: the precondition is satisfiable
    r, _ = ex._solve(list(st.pc))
    o = Oblig("precondition is satisfiable", "vacuity", fn.q)
    o.status = "proved" if r == z3.sat else ("failed" if r == z3.unsat else "unknown")
    o.backend = "z3"
    ex.obligations.append(o)
    ex.ver = True
    cases = fn.cases(ex, st, args)
    ex.ver = False
    ex.oblige(st.fork(), b_or(*[c.guard for c in cases]), "the contract's cases are exhaustive", "vacuity")
    autos = fn.auto(ex, st, args) if fn.auto else []
    for c in cases:
        if c.via is not None and c.via.auto not in autos:
            autos = autos + [c.via.auto]
    ex.ghost_specs = autos
    st0 = st.fork()
    st.wlog = set()
    callargs = list(args)
    sret = None
    if fn.kind in ('str', 'sret'):
        sret = ex.new_obj(st, 'cells', None, 'result')
        callargs = [sret] + callargs
    outs = ex.call_fn(st, f, callargs)
    ex.where = fn.q
    reached = set()
    for s2, oc in outs:
        for ci in feasible_alts(ex, s2, [c.guard for c in cases]):
            c = cases[ci]
            s3 = s2.fork()
            s3.assume(c.guard)
            reached.add(ci)
            check_case(ex, fn, c, s3, oc, sret, st0)
    for ci, c in enumerate(cases):
        if ci not in reached and ex.feasible(st0, c.guard):
            o = Oblig(f"case '{c.name}' terminates normally on some path", "vacuity", fn.q)
            o.status, o.why = "failed", "no execution path of the body covers this case"
            ex.obligations.append(o)
    if fn.frame:
        check_frame(ex, fn, cases, st, st0, outs)


def verify(fn, modules, fns, deadline=None, collect=False, extra_models=None):
    res = Result(fn)
    t0 = time.time()
    opts = {'mode': fn.mode, 'deadline': deadline}
    if fn.unroll:
        opts['unroll'] = fn.unroll
    opts.update(fn.opts)
    models = dict(stl.M)
    models.update(extra_models or {})
    ex = Engine(modules, models, opts)
    ex.inputs = []
    if collect:
        ex.collect_smt = []
    inl = set(fn.inline)
    ex.contracts = handlers([f for f in fns if f.q not in inl], fn)
    try:
        f = find_fn(modules, fn.q, fn.params, fn.full)
        if f is None:
            raise Unsupported("function not found in the current sources")
        st = new_state()
        if fn.each is None:
            verify_one(fn, f, ex, st, fn.setup(ex, st))
        else:
            fn.setup(ex, st)
            for label, args in fn.each(ex, st):
                ex.label = f" [{label}]"
                verify_one(fn, f, ex, st.fork(), args)
        res.status = "proved"
    except Unsupported as e:
        res.status, res.why = "undecided", "outside the verifier's fragment: " + str(e) + " [" + str(ex.where) + "]"
    except Budget as e:
        res.status, res.why = "undecided", "budget: " + str(e)
    except PathEnd:
        res.status, res.why = "undecided", "path ended"
    except RecursionError:
        res.status, res.why = "undecided", "recursion limit"
    except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError, z3.Z3Exception) as e:
        import traceback
        res.status, res.why = "undecided", "verifier error: " + repr(e) + " " + "|".join(
            traceback.format_exc().strip().split("\n")[-5:])
    res.obligations = ex.obligations
    res.failures = [o for o in ex.obligations if o.status == 'failed']
    unk = [o for o in ex.obligations if o.status == 'unknown']
    if res.failures:
        res.status = "failed"
    elif unk and res.status == "proved":
        res.status, res.why = "undecided", "solver gave no answer for: " + unk[0].name + " (" + unk[0].why + ")"
    res.time = time.time() - t0
    res.solver_time, res.queries, res.paths = ex.solver_time, ex.queries, ex.paths
    res.models, res.contracts, res.inlined, res.loops = ex.model_uses, ex.contract_uses, ex.inlined, ex.loops_seen
    res.inputs = ex.inputs
    res.smt = ex.collect_smt or []
    res.ex = ex
    return res


def feasible_alts(ex, st, guards):
    """indices of the guards consistent with the path condition (found through models of it)"""
    open_ = [i for i, g in enumerate(guards) if not (is_c(g) and not g)]
    if len(open_) <= 6:
        return [i for i in open_ if ex.feasible(st, guards[i])]
    s = z3.Solver()
    s.set("timeout", 10000)
    s.add(*st.pc)
    out = []
    while True:
        t0 = time.time()
        ex.queries += 1
        if ex.opts['deadline'] and t0 > ex.opts['deadline']:
            raise Budget("time budget exhausted")
        r = s.check()
        ex.solver_time += time.time() - t0
        if r == z3.unsat:
            return sorted(out)
        if r != z3.sat:
            return [i for i in open_ if i in out or ex.feasible(st, guards[i])]
        m = s.model()
        hit = None
        for i in open_:
            if i not in out and (is_c(guards[i]) or z3.is_true(m.eval(guards[i], model_completion=True))):
                hit = i
                break
        if hit is None or is_c(guards[hit]):
            return [i for i in open_ if i in out or ex.feasible(st, guards[i])]
        out.append(hit)
        s.add(z3.Not(guards[hit]))


def veq(ex, st, a, b, w):
    """equality of two machine values"""
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.obj != b.obj:
            return 0
        return cmp('eq', (a.off - b.off).val(), 0, 64)
    if isinstance(a, Undef) or isinstance(b, Undef):
        return 0
    if isinstance(a, Rope):
        return rope_eq(ex, st, a, b)
    if a is ZERO:
        a = 0
    if b is ZERO:
        b = 0
    if isinstance(a, (Opaque, PtrInt)) or isinstance(b, (Opaque, PtrInt)):
        raise Unsupported("comparison of opaque results")
    return eq(a, b, w)


def check_case(ex, fn, c, st, oc, sret, st0):
    nm = f"{fn.q}{getattr(ex, 'label', '')}: case '{c.name}'"
    if isinstance(oc, Throw):
        if c.via is not None and c.via.throws:
            want, when = c.via.throws
            ex.oblige(st.fork(), int(ex.derives(oc.ti, TI.get(want, want))), f"{nm}: throws {want} (threw {oc.type})", "postcondition")
            alts = [b_and(cond, when(g)) for cond, g, base, extra in c.via.auto.finals(ex, st) if not (is_c(cond) and not cond)]
            ex.oblige(st.fork(), b_or(*alts), f"{nm}: throws only where specified", "postcondition")
            return
        if not c.throws:
            ex.oblige(st.fork(), 0, f"{nm}: returns normally (threw {oc.type})", "postcondition")
            return
        ex.oblige(st.fork(), int(ex.derives(oc.ti, TI.get(c.throws, c.throws))),
                  f"{nm}: throws {c.throws} (threw {oc.type})", "postcondition")
        return
    if c.throws:
        ex.oblige(st.fork(), 0, f"{nm}: throws {c.throws}", "postcondition")
        return
    if c.via is not None:
        v = c.via
        alts = []
        act = ex.rope(st, sret) if fn.kind == 'str' else oc.v
        if v.alt is not None:
            want = v.alt(ex, st)
            alts.append(rope_eq(ex, st, act, want) if isinstance(want, Rope) else
                        veq(ex, st, act, want, fn.kind if isinstance(fn.kind, int) else 1))
        for cond, g, base, extra in v.auto.finals(ex, st):
            if is_c(cond) and not cond:
                continue
            if v.throws:
                cond = b_and(cond, b_not(v.throws[1](g)))
            if v.pieces is not None:
                for c2, want in via_ropes(v, g, base, extra, fn.ew):
                    alts.append(b_and(cond, c2, rope_eq(ex, st, act, want)))
            else:
                want = v.value(g)
                alts.append(b_and(cond, veq(ex, st, act, want, fn.kind if isinstance(fn.kind, int) else 1)))
        ex.oblige(st.fork(), b_or(*alts), f"{nm}: result is the specified function of the input", "postcondition")
    elif fn.kind == 'str':
        act = ex.rope(st, sret)
        want = c.ret(ex, st) if callable(c.ret) else c.ret
        if isinstance(want, list):
            for i in feasible_alts(ex, st, [g for g, r in want]):
                s3 = st.fork()
                s3.assume(want[i][0])
                ex.oblige(s3, rope_eq(ex, s3, act, want[i][1]), f"{nm}: returned text is as specified", "postcondition")
            ex.oblige(st.fork(), b_or(*[g for g, r in want]), f"{nm}: the specified results cover the path", "postcondition")
        elif want is not None:
            ex.oblige(st.fork(), rope_eq(ex, st, act, want), f"{nm}: returned text is as specified", "postcondition")
    elif fn.kind == 'sret':
        want = c.ret(ex, st) if callable(c.ret) else c.ret
        for off, size, v in want:
            cur = ex.load_raw(st, sret + off, size)
            if cur is None and not isinstance(v, Rope):
                cur = ex._load_c(st, sret.obj, st.mem[sret.obj], off, _IT[size])
            if cur is None:
                raise Unsupported("result member not materialised")
            ex.oblige(st.fork(), veq(ex, st, cur, v, 8 * size), f"{nm}: result member at {off} as specified", "postcondition")
    elif fn.kind not in ('void', 'any'):
        want = c.ret(ex, st) if callable(c.ret) else c.ret
        if want is not None:
            w = fn.kind if isinstance(fn.kind, int) else 1
            ex.oblige(st.fork(), veq(ex, st, oc.v, want, w), f"{nm}: returned value is as specified", "postcondition")
    elif fn.kind == 'any' and c.ret is not None:
        c.ret(ex, st, oc)
    for p, size, v in c.writes:
        want = v(ex, st) if callable(v) else v
        cur = cell_value(ex, st, p, size)
        ex.oblige(st.fork(), veq(ex, st, cur, want, 8 * size), f"{nm}: effect on {st0.mem[p.obj].name} as specified",
                  "postcondition")


def cell_value(ex, st, p, size):
    o = st.mem[p.obj]
    c = p.off.conc()
    e = o.cells.get(c)
    if e is not None and e[0] == size:
        v = ex._delazy(st, p.obj, c, e)
        return 0 if v is ZERO else v
    if size in _IT:
        return ex._load_c(st, p.obj, o, c, _IT[size])
    raise Unsupported("effect cell")


def via_ropes(v, g, base, extra, ew):
    """expand pieces into [(cond, rope)]"""
    out = [(1, Rope(ew))]
    for p in v.pieces(g):
        if isinstance(p, tuple) and p[0] == 'gen':
            name = p[1]
            alts = extra[name] or [(1, Rope(ew))]
            gp = Rope(ew, (v.auto.gen_piece(name, base),))
            out = [(b_and(c, c2), r + gp + r2) for c, r in out for c2, r2 in alts]
        else:
            out = [(c, r + p) for c, r in out]
    return out


def fixed(ex, st, p):
    """the pointer with the one offset it can have on this path"""
    if p.off.conc() is not None:
        return p
    v = p.off.val()
    r, m = ex._solve(list(st.pc))
    if r != z3.sat:
        return p
    k = m.model().eval(v, model_completion=True).as_long()
    if ex.valid(st, cmp('eq', v, k, 64))[0]:
        return Ptr(p.obj, k)
    raise Unsupported("pointer with several targets")


def is_static(key, o):
    return isinstance(key, tuple) and key[0] == 'g'


def check_frame(ex, fn, cases, st, st0, outs):
    allowed = set()
    for c in cases:
        for p, size, v in c.writes:
            allowed.add((p.obj, p.off.conc(), size))
    for (ob, off, size) in sorted(st.wlog or (), key=str):
        if isinstance(ob, tuple) and ob[0] == 'g' and ob not in st0.mem:
            raise Unsupported("writes to the static variable " + ob[2])
        if ob not in st0.mem:
            continue
        if any(a[0] == ob and a[1] <= off and off + size <= a[1] + a[2] for a in allowed):
            # case-wise: on paths of a case that does not list the cell it must be unchanged
            pass
        o0 = st0.mem[ob]
        e0 = o0.cells.get(off)
        for s2, oc in outs:
            for c in cases:
                if any(p.obj == ob and p.off.conc() is not None and p.off.conc() <= off and
                       off + size <= p.off.conc() + sz for p, sz in [(p, z) for p, z, v in c.writes] + c.owns):
                    continue
                if is_c(c.guard) and not c.guard or not ex.feasible(s2, c.guard):
                    continue
                s3 = s2.fork()
                s3.assume(c.guard)
                cur = cell_value(ex, s3, Ptr(ob, off), size)
                old = cell_value(ex, st0.fork(), Ptr(ob, off), size)
                if isinstance(cur, Undef) and isinstance(old, Undef):
                    continue
                ex.oblige(s3, veq(ex, s3, cur, old, 8 * size), f"{fn.q}: case '{c.name}': frame: {o0.name} unchanged", "frame")


# ------------------------------------------------------------------ lemmas over specifications
class Lemma:
    def __init__(self, name, build):
        self.name, self.build = name, build
        self.title = "lemma: " + name
        self.q = "lemma"

    def run(self, deadline=None, collect=False):
        res = Result(self)
        t0 = time.time()
        ex = Engine([], {}, {'deadline': deadline})
        ex.inputs = []
        if collect:
            ex.collect_smt = []
        st = new_state()
        ex.where = self.name
        try:
            self.build(ex, st)
            res.status = "proved"
        except Unsupported as e:
            res.status, res.why = "undecided", str(e)
        res.obligations = ex.obligations
        res.failures = [o for o in ex.obligations if o.status == 'failed']
        if res.failures:
            res.status = "failed"
        elif any(o.status == 'unknown' for o in ex.obligations):
            res.status = "undecided"
            res.why = "solver gave no answer"
        res.time, res.solver_time, res.queries = time.time() - t0, ex.solver_time, ex.queries
        res.inputs = ex.inputs
        res.smt = ex.collect_smt or []
        res.ex = ex
        return res


# ------------------------------------------------------------------ counterexamples
def counterexample(res, o):
    """concrete inputs {name: value} of a failed obligation, short strings preferred"""
    if o.replay is None or not res.inputs:
        return None
    st, c = o.replay
    nc = b_not(c)
    base = list(st.pc) + ([] if is_c(nc) else [nc])
    lens = [i[3] for i in res.inputs if i[1] == 'str']
    for bound in (4, 8, 24, 100, 600, None):
        s = z3.Solver()
        s.set("timeout", 10000)
        s.add(*base)
        if bound is not None:
            s.add(*[z3.ULE(l, bound) for l in lens])
        if s.check() == z3.sat:
            m = s.model()
            out = []
            for i in res.inputs:
                if i[1] == 'int':
                    v = m.eval(tobool(i[2]) if i[3] == 1 else bv(i[2], i[3]), model_completion=True)
                    out.append((i[0], int(z3.is_true(v)) if i[3] == 1 else v.as_long()))
                elif i[1] == 'str':
                    n = m.eval(i[3], model_completion=True).as_long()
                    if n > 4096:
                        return None
                    ch = [m.eval(z3.Select(i[2], z3.BitVecVal(k, 64)), model_completion=True).as_long() for k in range(n)]
                    out.append((i[0], ch))
                elif i[1] == 'const':
                    out.append((i[0], i[2]))
            return out
        if not lens:
            return None
    return None
