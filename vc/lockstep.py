"""Loops that consume a stream of items, proved to run in lockstep with a specification transducer.

The stream is abstract: each call that takes an item (see `take`) forks into the end of the stream and one path per kind of
item of the specification, and moves the specification along.  The loop around these calls is cut at its header: a header
state is given by the specification's own (arbitrary) state of some shape, the machine integers of the loop, and for every
other location written in the loop the component of the specification state it always equals (its role), inferred from one
unrolled iteration and then kept only if it is inductive over every shape, item and path."""
import z3
from values import *
from engine import Obj, LoopInfo, Oblig, ZERO, canon


class Spec:
    """start() -> state; items(ex, st) -> [(label, item)] (assumptions about a fresh item are made in st by `admit`);
    step(ex, st, gh, item) -> [(condition, state)]; comps(ex, st, gh) -> {name: Rope or Ptr}; shape(gh) -> hashable;
    havoc(ex, st, shape) -> arbitrary state of that shape"""
    roles = ()
    cut = True           # loops are cut (otherwise unrolled)
    invs = ()            # candidate invariants (name, f(ex, st, state) -> formula); the inductive ones are used


def stream_open(st):
    return st.ghost.get('stream') == 'open'


def open_stream(ex, st):
    if 'stream' in st.ghost:
        raise Unsupported("a second stream of items")
    st.ghost['stream'] = 'open'
    st.ghost['spec'] = ex.lock.start(ex, st)


def take(ex, st):
    """[(state, item or None)]"""
    if st.ghost.get('stream') is None:
        raise Unsupported("item of an unknown stream")
    if not stream_open(st):
        return [(st, None)]
    sp = ex.lock
    out = []
    s = st.fork()
    s.ghost['stream'] = 'end'
    out.append((s, None))
    for label, mk in sp.items(ex, st):
        s = st.fork()
        item = mk(ex, s)
        for c, gh in sp.step(ex, s, s.ghost['spec'], item):
            if ex.feasible(s, c):
                s2 = s.fork()
                s2.assume(c)
                s2.ghost['spec'] = gh
                s2.ghost['taken'] = 1
                out.append((s2, item))
    return out


def wants(ex, st):
    return getattr(ex, 'lock', None) is not None and ex.lock.cut and stream_open(st) and 'lock' not in st.ghost


def simple(v):
    """a value that is part of the mode as it is"""
    if v is ZERO:
        return 0
    if is_c(v) and not isinstance(v, bool):
        return v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, Ptr) and (v.obj == 0 or isinstance(v.obj, tuple) and v.obj[0] == 'g') and v.off.conc() is not None:
        return ('ptr', v.obj, v.off.conc())
    return None


def unsimple(k):
    return Ptr(k[1], k[2]) if isinstance(k, tuple) else k


class Cut:
    def __init__(self, ex, fn, fid, frm, hdr, body, env, st):
        self.ex, self.fn, self.fid, self.frm, self.hdr, self.body, self.env, self.st0 = ex, fn, fid, frm, hdr, body, env, st
        self.name = f"{canon(fn.name)[0]} loop@{fn.blocks[hdr].name}"
        self.phis = ex._phis(fn, hdr)
        self.pre = set(st.mem)
        self.mod = []
        self.alive = {}
        self.invs = list(ex.lock.invs)

    def phi_vals(self, env, st, pb):
        out = {}
        for p in self.phis:
            for b, o in p.x:
                if b == pb:
                    out[('P', p.id)] = self.ex._val(o, env, st, self.fn.mod)
        return out

    def value(self, st, phis, loc):
        if loc[0] == 'P':
            return phis[loc]
        o = st.mem.get(loc[1])
        if o is None:
            return None
        e = o.cells.get(loc[2])
        if e is None or e[0] != loc[3]:
            return None
        return self.ex._delazy(st, loc[1], loc[2], e)

    def explore(self, st, env):
        lc = LoopInfo()
        lc.header, lc.body, lc.probe = self.hdr, self.body, None
        st.ghost['lock'] = 1
        st.ghost.pop('taken', None)
        env = dict(env)
        env[(self.hdr, 'pre')] = 1
        st.wlog = set()
        return self.ex._explore(self.fn, self.fid, [(self.hdr, 0, self.frm, env, st)], lc)

    def note(self, outs):
        """records the locations written; true if there are new ones"""
        new = False
        for o in outs:
            s = o[1] if o[0] in ('back', 'exit') else o[0]
            for ob, c, z in sorted(s.wlog, key=str):
                if ob in self.pre and not any(m[0] == 'M' and m[1] == ob and m[2] <= c and c + z <= m[2] + m[3] for m in self.mod):
                    self.mod = [m for m in self.mod if not (m[0] == 'M' and m[1] == ob and c <= m[2] and m[2] + m[3] <= c + z)]
                    if any(m[0] == 'M' and m[1] == ob and m[2] < c + z and c < m[2] + m[3] for m in self.mod):
                        raise Unsupported("overlapping writes in a loop")
                    self.mod.append(('M', ob, c, z))
                    new = True
        return new

    def candidates(self, st, v):
        """roles a value can play in this state"""
        ex = self.ex
        if simple(v) is not None:
            out = ['const']
        else:
            out = []
        if isinstance(v, (Rope, Ptr)) or is_c(v) or z3.is_expr(v):
            for nm, w in ex.lock.comps(ex, st, st.ghost['spec']).items():
                if self.same(st, v, w):
                    out.append(nm)
        return out

    def same(self, st, v, w):
        from contract import veq
        if isinstance(v, (Rope, Ptr)) or isinstance(w, (Rope, Ptr)):
            if type(v) is not type(w):
                return False
        elif any(z3.is_expr(x) and (z3.is_bool(x) or x.size() != 64) for x in (v, w)):
            return False
        c = veq(self.ex, st, v, w, 64)
        if is_c(c):
            return bool(c)
        return self.ex.valid(st, c)[0]

    def plays(self, st, v, role):
        if role == 'any':
            return True
        if role == 'const':
            return simple(v) is not None
        if not (isinstance(v, (Rope, Ptr)) or is_c(v) or z3.is_expr(v)):
            return False
        return self.same(st, v, self.ex.lock.comps(self.ex, st, st.ghost['spec'])[role])

    def role(self, loc):
        return self.alive[loc][0]

    def infer(self, arrivals):
        order = list(self.ex.lock.roles) + ['const']
        for loc in self.mod + [('P', p.id) for p in self.phis]:
            if loc in self.alive:
                continue
            c = None
            for s, ph in arrivals:
                r = set(self.candidates(s, self.value(s, ph, loc)))
                c = r if c is None else c & r
            self.alive[loc] = [r for r in order if r in c] + ['any']

    def key(self, st, ph):
        ex = self.ex
        return (ex.lock.shape(st.ghost['spec']),) + tuple(
            (loc, simple(self.value(st, ph, loc))) for loc in sorted(self.alive, key=str) if self.role(loc) == 'const')

    def header(self, key):
        ex = self.ex
        st = self.st0.fork()
        gh = ex.lock.havoc(ex, st, key[0])
        st.ghost['spec'] = gh
        for _, f in self.invs:
            st.assume(f(ex, st, gh))
        comps = ex.lock.comps(ex, st, gh)
        vals = dict(key[1:])
        env = dict(self.env)
        for loc in sorted(self.alive, key=str):
            r = self.role(loc)
            if r == 'const':
                v = unsimple(vals[loc])
            elif r == 'any':
                v = self.unknown(loc)
            else:
                v = comps[r]
            if loc[0] == 'P':
                env[loc[1]] = v
            else:
                ex.store_raw(st, Ptr(loc[1], loc[2]), loc[3], v)
        return st, env

    def unknown(self, loc):
        ex = self.ex
        if loc[0] == 'P':
            p = [p for p in self.phis if p.id == loc[1]][0]
            return ex.fresh("any", p.ty.w) if p.ty.kind == 'int' else UNDEF
        v0 = self.value(self.st0, {}, loc)
        if isinstance(v0, Rope):
            n = ex.fresh("any.len", 64)
            return Rope(v0.ew, (Sl(arr_src(ex.fresh_arr("any", v0.ew), n), 0, n),))
        if v0 is not None and (is_c(v0) or z3.is_expr(v0)) and loc[3] in (1, 2, 4, 8):
            return ex.fresh("any", 8 * loc[3])
        return UNDEF

    def run(self, work, res):
        ex = self.ex
        n0 = len(ex.obligations)
        ph0 = self.phi_vals(self.env, self.st0, self.frm)
        # one unrolled iteration from the entry
        env = dict(self.env)
        env.update({k[1]: v for k, v in ph0.items()})
        s = self.st0.fork()
        rec, ex.record = ex.record, False
        try:
            outs = self.explore(s, env)
            self.note(outs)
            first = [(self.st0, ph0)] + [(o[1], self.phi_vals(o[2], o[1], o[3])) for o in outs if o[0] == 'back']
            self.infer(first)
        finally:
            ex.record = rec
        for rounds in range(40):
            del ex.obligations[n0:]
            again, exits = self.pass_(ph0)
            if not again:
                break
        else:
            raise Unsupported("no inductive relation found for " + self.name)
        txt = [f"{self.loc_name(l)} = {self.role(l)}" for l in sorted(self.alive, key=str) if self.role(l) not in ('any', 'const')]
        ex.loops_seen[self.name] = {"invariant": txt + [f"{self.modes} shapes of the specification's state, each preserved by every item"],
                                    "templates": {}}
        for o in exits:
            if o[0] == 'exit':
                _, s, e, frm, to = o
                s.ghost.pop('lock', None)
                s.wlog = self.wlog(s)
                work.append((to, 0, frm, e, s))
            else:
                o[0].wlog = self.wlog(o[0])
                res.append(o)

    def wlog(self, s):
        w = self.st0.wlog
        if w is not None:
            w |= set((m[1], m[2], m[3]) for m in self.mod)
        return w

    def loc_name(self, l):
        return f"%{l[1]}" if l[0] == 'P' else f"{self.st0.mem[l[1]].name}+{l[2]}"

    def arrive(self, s, ph, modes, todo, what):
        """a state at the header: false if some role is lost"""
        ex = self.ex
        for i, (nm, f) in enumerate(self.invs):
            if not ex.valid(s, f(ex, s, s.ghost['spec']))[0]:
                del self.invs[i]
                return False
            if ex.record:
                o = Oblig(f"{self.name}: {nm} {what}", "loop-step", ex.where)
                o.status, o.backend = "proved", "z3"
                ex.obligations.append(o)
        for loc in sorted(self.alive, key=str):
            r = self.role(loc)
            if r == 'any':
                continue
            if not self.plays(s, self.value(s, ph, loc), r):
                self.alive[loc].pop(0)
                return False
            if r != 'const':
                o = Oblig(f"{self.name}: {self.loc_name(loc)} = {r} of the specification {what}", "loop-step", ex.where)
                o.status, o.backend = "proved", "z3"
                if ex.record:
                    ex.obligations.append(o)
        k = self.key(s, ph)
        if k not in modes:
            if len(modes) > 120:
                raise Unsupported("too many states of " + self.name)
            modes.add(k)
            todo.append(k)
        return True

    def pass_(self, ph0):
        ex = self.ex
        modes, todo, exits = set(), [], []
        if not self.arrive(self.st0, ph0, modes, todo, "on entry"):
            return True, None
        while todo:
            k = todo.pop(0)
            st, env = self.header(k)
            outs = self.explore(st, env)
            if self.note(outs):
                self.infer([(self.st0, ph0)] + [(o[1], self.phi_vals(o[2], o[1], o[3])) for o in outs if o[0] == 'back'])
                return True, None
            for o in outs:
                if o[0] != 'back':
                    exits.append(o)
                    continue
                _, s, e, pb = o
                if 'taken' not in s.ghost:
                    ex.fail(s, f"{self.name}: every iteration takes an item")
                if not self.arrive(s, self.phi_vals(e, s, pb), modes, todo, "after an item"):
                    return True, None
        self.modes = len(modes)
        return False, exits


def enter(ex, fn, fid, frm, hdr, body, env, st, work, res):
    Cut(ex, fn, fid, frm, hdr, body, env, st).run(work, res)
