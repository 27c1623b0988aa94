"""Symbols: names interned as numbers."""
from contract import *
import maps
import stl

K = "kanji_tools::"
SRC = ["tu/symbol.cpp", "libs/utils/src/Symbol.cpp", "libs/utils/src/String.cpp"]
MAX = 65534
BASE = maps.Base("symbols", gen=lambda ex, st, key: {0: (2, ex.fresh("id", 16))})


def table(ex, st, m, l):
    """any table of symbols: an unknown map from names to numbers, and the list of its `size` names by number"""
    n = sym_int(ex, st, "size", 64)
    st.assume(cmp('ule', n, MAX, 64))
    ex.store_raw(st, m, 48, maps.MapV(BASE, (), 'std::string', 'unsigned short'))
    arr = ex.fresh_arr("names", 8)
    a = ex.new_obj(st, 'src', None, "list of names")
    o = st.mem[a.obj]
    o.src, o.ew, o.n, o.const = arr_src(arr, n), 8, n, True
    o.ptrs = ex.new_obj(st, 'cells', None, "names").obj
    ex.store_raw(st, l, 8, a)
    end = Ptr(a.obj, Lin.of(n, 8))
    ex.store_raw(st, l + 8, 8, end)
    ex.store_raw(st, l + 16, 8, end)
    return n, a


def known(ex, st, name):
    """(is a symbol, its number) of a text; the table's invariant for it: the number is one of 1 .. size"""
    return maps.basenode(ex, st, BASE, ex.rope(st, name), 'std::string', 'unsigned short')


def prepare(ex, st, m, l, name):
    n, a = table(ex, st, m, l)
    has, node = known(ex, st, name)
    i = ex.load_raw(st, node + 32, 2)
    st.assume(b_imp(has, b_and(cmp('ne', i, 0, 16), cmp('ule', zext(i, 16, 64), n, 64))))
    st.ghost['symtab'] = (m, l, n, a)


def parts(ex, st, name):
    m, l, n, a = st.ghost['symtab']
    has, node = known(ex, st, name)
    return m, l, n, a, has, ex.load_raw(st, node + 32, 2)


def unchanged(ex, st, m, l, n, a, what):
    mv = ex.load_raw(st, m, 48)
    same = isinstance(mv, maps.MapV) and mv.base is BASE and not mv.entries
    ex.oblige(st.fork(), int(same), what + ": the map is unchanged", "postcondition")
    b, e = ex.load_raw(st, l, 8), ex.load_raw(st, l + 8, 8)
    ex.oblige(st.fork(), b_and(veq(ex, st, b, a, 64), veq(ex, st, e, Ptr(a.obj, Lin.of(n, 8)), 64)), what + ": the list is unchanged", "postcondition")


def added(ex, st, name, m, l, n, a, what):
    mv = ex.load_raw(st, m, 48)
    one = isinstance(mv, maps.MapV) and mv.base is BASE and len(mv.entries) == 1
    ex.oblige(st.fork(), int(one), what + ": one entry is added to the map", "postcondition")
    if not one:
        return
    k, node = mv.entries[0]
    ex.oblige(st.fork(), rope_eq(ex, st, k, ex.rope(st, name)), what + ": its key is the name", "postcondition")
    ex.oblige(st.fork(), cmp('eq', ex.load_raw(st, node + 32, 2), trunc(add64(n, 1), 64, 16), 16), what + ": its number is the next one", "postcondition")
    b, e = ex.load_raw(st, l, 8), ex.load_raw(st, l + 8, 8)
    o = st.mem.get(b.obj) if isinstance(b, Ptr) else None
    tail = getattr(o, 'tail', None) if o is not None else None
    ok = tail is not None and tail[0] == a.obj and len(tail[1]) == 1
    ex.oblige(st.fork(), int(ok), what + ": one name is added at the end of the list", "postcondition")
    if ok:
        ex.oblige(st.fork(), veq(ex, st, tail[1][0], node, 64), what + ": it is the name in the map", "postcondition")
        ex.oblige(st.fork(), cmp('eq', (e.off - b.off).val(), binop('mul', add64(n, 1), 8, 64), 64), what + ": the list is one longer", "postcondition")


def intern(get, this=None):
    """cases of making a symbol; get(ex, st, oc): the number it got"""
    def cases(ex, st, name):
        m, l, n, a, has, i = parts(ex, st, name)
        empty = cmp('eq', ex.rope(st, name).length(), 0, 64)
        full = cmp('eq', n, MAX, 64)
        own = [(this(st), 2)] if this else []

        def ret(what, value, change):
            def f(ex, st, oc):
                ex.oblige(st.fork(), cmp('eq', get(ex, st, oc), value, 16), what + ": the number", "postcondition")
                change(ex, st)
            return f
        keep = lambda what: lambda ex, st: unchanged(ex, st, m, l, n, a, what)
        mine = [(m, 48), (l, 8), (l + 8, 8), (l + 16, 8)]
        return [Case("empty", empty, ret=ret("empty", 0, keep("empty")), owns=own),
                Case("known", b_and(b_not(empty), has), ret=ret("known", i, keep("known")), owns=own),
                Case("new", b_and(b_not(empty), b_not(has), b_not(full)),
                     ret=ret("new", trunc(add64(n, 1), 64, 16), lambda ex, st: added(ex, st, name, m, l, n, a, "new")), owns=own + mine),
                Case("no room", b_and(b_not(empty), b_not(has), full), throws="DomainError", owns=own)]
    return cases


def statics(ex, st, name):
    """the symbol table of VcSymbol"""
    out = []
    for q in ("_map", "_list"):
        for mod in ex.modules:
            for n, g in mod.globals.items():
                if n.startswith('_ZN11kanji_tools6SymbolINS_8VcSymbolEE') and canon(n)[0].endswith("::" + q):
                    hit = n
        key = ('g', '', hit)
        st.mem[key] = Obj('cells', 48 if q == "_map" else 24, hit)
        st.owned.add(key)
        out.append(Ptr(key))
    prepare(ex, st, out[0], out[1], name)


def mk_ctor():
    def setup(ex, st):
        this = ex.new_obj(st, 'cells', 2, "symbol")
        ty, name = sym_str(ex, st, "type"), sym_str(ex, st, "name")
        m, l = ex.new_obj(st, 'cells', 48, "map"), ex.new_obj(st, 'cells', 24, "list")
        prepare(ex, st, m, l, name)
        return [this, ty, name, m, l]

    def cases(ex, st, this, ty, name, m, l):
        return intern(lambda ex, st, oc: ex.load_raw(st, this, 2), lambda st: this)(ex, st, name)
    return Fn(K + "BaseSymbol::BaseSymbol", None, 'any', setup, cases, srcs=SRC, nocall=True, title="symbol of a name", cmd="symbol", full="std::map")


def with_table(ex, st):
    name = sym_str(ex, st, "name")
    statics(ex, st, name)
    return name


def a_symbol(ex, st, n):
    p = ex.new_obj(st, 'cells', 2, n)
    ex.store_raw(st, p, 2, sym_int(ex, st, n, 16))
    return p


def mk_id():
    return Fn(K + "vcSymbolId", None, 'any', lambda ex, st: [with_table(ex, st)],
              lambda ex, st, name: intern(lambda ex, st, oc: trunc(oc.v, 32, 16))(ex, st, name), srcs=SRC, nocall=True,
              title="number of a new symbol", cmd="symbol", frame=False)


def mk_exists():
    def cases(ex, st, name):
        m, l, n, a, has, i = parts(ex, st, name)
        return [Case("exists", 1, ret=b_and(has, cmp('ne', ex.rope(st, name).length(), 0, 64)))]
    return Fn(K + "vcSymbolExists", None, 'bool', lambda ex, st: [with_table(ex, st)], cases, srcs=SRC, nocall=True, title="symbol exists",
              cmd="symbol")


def mk_size():
    def setup(ex, st):
        with_table(ex, st)
        return []
    return Fn(K + "vcSymbolSize", None, 64, setup, lambda ex, st: [Case("size", 1, ret=st.ghost['symtab'][2])], srcs=SRC, nocall=True,
              title="number of symbols", cmd="symbol")


def mk_name():
    def setup(ex, st):
        with_table(ex, st)
        return [a_symbol(ex, st, "symbol")]

    def cases(ex, st, x):
        m, l, n, a = st.ghost['symtab']
        i = cell_value(ex, st, x, 2)
        o = st.mem[a.obj]
        z = cmp('eq', i, 0, 16)
        return [Case("name", b_not(z), ret=lambda ex, s: Ptr(o.ptrs, Lin.of(o.src.at(sub64(zext(i, 16, 64), 1)))))]

    def pre(ex, st, x):
        i = cell_value(ex, st, x, 2)
        return [("the number of a symbol", b_and(cmp('ule', zext(i, 16, 64), st.ghost['symtab'][2], 64), cmp('ne', i, 0, 16)))]
    return Fn(K + "vcSymbolName", None, 'ptr', setup, cases, pre=pre, srcs=SRC, nocall=True, title="name of a symbol", cmd="symbol")


def mk_noname():
    def setup(ex, st):
        with_table(ex, st)
        p = ex.new_obj(st, 'cells', 2, "symbol")
        ex.store_raw(st, p, 2, 0)
        return [p]

    def ret(ex, st, oc):
        ex.oblige(st.fork(), cmp('eq', ex.rope(st, oc.v).length(), 0, 64), "the name of the empty symbol is empty", "postcondition")
    return Fn(K + "vcSymbolName", None, 'any', setup, lambda ex, st, x: [Case("empty", 1, ret=ret)], srcs=SRC, nocall=True,
              title="name of the empty symbol", cmd="symbol")


def mk_rel():
    def cases(ex, st, a, b):
        x, y = cell_value(ex, st, a, 2), cell_value(ex, st, b, 2)
        e = cmp('eq', x, y, 16)
        v = binop('or', b_ite(e, 1, 2, 32), b_ite(cmp('ne', x, 0, 16), 4, 0, 32), 32)
        return [Case("relations", 1, ret=v)]
    return Fn(K + "vcSymbolRelations", None, 32, lambda ex, st: [a_symbol(ex, st, "a"), a_symbol(ex, st, "b")], cases, srcs=SRC, nocall=True,
              title="equal and set symbols", cmd="symbol")


def lem():
    """the invariant of the table is kept, and makes names and numbers one-to-one for good"""
    def build(ex, st):
        N = z3.DeclareSort("Name")
        B, I = z3.BoolSort(), z3.IntSort()
        has, num, at = z3.Function("has", N, B), z3.Function("num", N, I), z3.Function("at", I, N)
        n, a, b, c = z3.Int("n"), z3.Const("a", N), z3.Const("b", N), z3.Const("c", N)
        x, i = z3.Const("x", N), z3.Int("i")

        def inv(has, num, at, n):
            return z3.And(n >= 0, z3.ForAll([x], z3.Implies(has(x), z3.And(1 <= num(x), num(x) <= n, at(num(x)) == x))),
                          z3.ForAll([i], z3.Implies(z3.And(1 <= i, i <= n), z3.And(has(at(i)), num(at(i)) == i))))
        I0 = inv(has, num, at, n)
        has2 = lambda y: z3.Or(y == a, has(y))
        num2 = lambda y: z3.If(y == a, n + 1, num(y))
        at2 = lambda j: z3.If(j == n + 1, a, at(j))
        ex.oblige(st.fork(), inv(lambda y: z3.BoolVal(False), num, at, z3.IntVal(0)), "the empty table", "lemma")
        s = st.fork()
        s.assume(I0)
        s.assume(z3.Not(has(a)))
        ex.oblige(s, z3.ForAll([x], z3.Implies(has2(x), z3.And(1 <= num2(x), num2(x) <= n + 1, at2(num2(x)) == x))), "numbers after adding a name", "lemma")
        ex.oblige(s.fork(), z3.ForAll([i], z3.Implies(z3.And(1 <= i, i <= n + 1), z3.And(has2(at2(i)), num2(at2(i)) == i))), "names after adding a name", "lemma")
        ex.oblige(s.fork(), z3.Implies(has(b), z3.And(num2(b) == num(b), at2(num(b)) == b)), "earlier symbols keep number and name", "lemma")
        s = st.fork()
        s.assume(I0)
        s.assume(z3.And(has(b), has(c)))
        ex.oblige(s, (num(b) == num(c)) == (b == c), "same number exactly for the same name", "lemma")
        ex.oblige(s.fork(), at(num(b)) == b, "a symbol's name is the one it was made from", "lemma")
    return Lemma("names and numbers are one-to-one", build)


SYMBOL = [mk_ctor(), mk_id(), mk_exists(), mk_size(), mk_name(), mk_noname(), mk_rel(),
          Fn(K + "vcSymbolNone", None, 32, lambda ex, st: [], lambda ex, st: [Case("none", 1, ret=0)], srcs=SRC, nocall=True, title="no symbol", cmd="symbol")]
LEM = [lem()]
