"""Column files: the values of a row and what they are converted to, the next row, the numbers of columns."""
from contract import *
from engine import rope_eq, canon, Obj
import maps
import stl
import streams
import strings

K = "kanji_tools::"
SRC = ["tu/column.cpp", "libs/utils/src/ColumnFile.cpp", "libs/utils/src/String.cpp"]
NONE = mask(64)


def layout(ex, name):
    if not hasattr(ex, 'offsets'):
        ex.offsets = {}
    if name not in ex.offsets:
        f = find_fn(ex.modules, K + ("vc" if name.startswith("Size") else "vcOff") + name, [])
        if f is None:
            raise Unsupported("layout of " + name)
        w = ex.where
        ex.offsets[name] = ex.call_fn(new_state(), f, [])[0][1].v
        ex.where = w
    return ex.offsets[name]


def text(ex, st, p, n):
    q = sym_str(ex, st, n)
    ex.set_rope(st, p, ex.rope(st, q))


def a_column(ex, st):
    p = ex.new_obj(st, 'cells', layout(ex, "SizeColumn"), "column")
    ex.store_raw(st, p + layout(ex, "ColumnNumber"), 8, sym_int(ex, st, "column", 64))
    text(ex, st, p + layout(ex, "ColumnName"), "column.name")
    return p


def a_file(ex, st, column=None, rows=False):
    """any column file; `column`: the column whose value is looked at"""
    p = ex.new_obj(st, 'cells', layout(ex, "SizeColumnFile"), "file")
    off = lambda x: p + layout(ex, x)
    n, m = sym_int(ex, st, "columns", 64), sym_int(ex, st, "known columns", 64)
    st.assume(cmp('ule', 1, n, 64))
    st.assume(cmp('ult', n, MAXLEN, 64))
    st.assume(cmp('ult', m, MAXLEN, 64))
    ex.store_raw(st, off("CurrentRow"), 8, sym_int(ex, st, "row", 64))
    ex.store_raw(st, off("Delimiter"), 1, sym_int(ex, st, "delimiter", 8))
    arr = ex.fresh_arr("positions", 8)
    a = ex.new_obj(st, 'src', None, "positions")
    o = st.mem[a.obj]
    o.src, o.ew, o.n, o.const = arr_src(arr, m), 8, m, True
    for k, v in enumerate((a, Ptr(a.obj, Lin.of(m, 8)), Ptr(a.obj, Lin.of(m, 8)))):
        ex.store_raw(st, off("Positions") + 8 * k, 8, v)
    if column is not None:
        at = o.src.at(cell_value(ex, st, column + layout(ex, "ColumnNumber"), 8))
        st.assume(b_or(cmp('eq', at, NONE, 64), cmp('ult', at, n, 64)))
        t = ex.new_obj(st, 'cells', 32, "value")
        text(ex, st, t, "value")
        b = Ptr(t.obj, Lin.of(at, -32))              # the value at that position is the text t
    else:
        b = ex.new_obj(st, 'rows', None, "values")
        r = st.mem[b.obj]
        r.n = n
        ex.store_raw(st, b, 8, 0)
        ex.store_raw(st, b + 8, 8, 0)
    e = Ptr(b.obj, b.off + Lin.of(n, 32))
    for k, v in enumerate((b, e, e)):
        ex.store_raw(st, off("RowValues") + 8 * k, 8, v)
    text(ex, st, off("FileName"), "file name")
    return p


def field(ex, st, p, nm, size=8):
    return cell_value(ex, st, p + layout(ex, nm), size)


def value_of(ex, st, f, c):
    """(errors [(name, guard)], pointer to the value)"""
    row, num = field(ex, st, f, "CurrentRow"), field(ex, st, c, "ColumnNumber")
    pb, pe = (ex.load_raw(st, f + (layout(ex, "Positions") + k), 8) for k in (0, 8))
    rb = ex.load_raw(st, f + layout(ex, "RowValues"), 8)
    m = (pe.off - pb.off).div(8).val()
    at = st.mem[pb.obj].src.at(num)
    e1 = cmp('eq', row, 0, 64)
    e2 = cmp('ule', m, num, 64)
    e3 = cmp('eq', at, NONE, 64)
    errs = [("no row yet", e1), ("column made later", b_and(b_not(e1), e2)), ("column of another file", b_and(b_not(e1), b_not(e2), e3))]
    return errs, b_not(b_or(e1, e2, e3)), Ptr(rb.obj, rb.off + Lin.of(at, 32))


def with_value(cases):
    """cases(ex, st, rope) -> [Case] of the value; before them the errors of get"""
    def f(ex, st, f, c, *a):
        errs, ok, p = value_of(ex, st, f, c)
        out = [Case(n, g, throws="DomainError") for n, g in errs]
        for x in cases(ex, st, ex.rope(st, p), *a):
            x.guard = b_and(ok, x.guard)
            out.append(x)
        return out
    return f


def setup(*more):
    def f(ex, st):
        c = a_column(ex, st)
        p = a_file(ex, st, c)
        # the value comes first in replays
        i = [x[0] for x in inp(ex)].index("value")
        inp(ex).insert(0, inp(ex).pop(i))
        return [p, c] + [m(ex, st) for m in more]
    return f


def number(r, ex, most):
    d, fits, v = streams.decimal(ex, r)
    ok = b_and(d, fits, b_or(cmp('eq', most, 0, 64), cmp('ule', v, most, 64)))
    return ok, v


def max_arg(ex, st):
    v = sym_int(ex, st, "max", 64)
    inp(ex).insert(1, inp(ex).pop())
    return v


def mk_get():
    def cases(ex, st, f, c):
        errs, ok, p = value_of(ex, st, f, c)
        return [Case(n, g, throws="DomainError") for n, g in errs] + [Case("value", ok, ret=p)]
    return Fn(K + "ColumnFile::get", None, 'ptr', setup(), cases, srcs=SRC, title="value of a column", cmd="column value")


def mk_empty():
    return Fn(K + "ColumnFile::isEmpty", None, 'bool', setup(), with_value(lambda ex, st, r: [Case("empty", 1, ret=cmp('eq', r.length(), 0, 64))]),
              srcs=SRC, nocall=True, title="value is empty", cmd="column value")


def mk_u64():
    def cs(ex, st, r, most):
        ok, v = number(r, ex, most)
        return [Case("number", ok, ret=v), Case("not a number in range", b_not(ok), throws="DomainError")]
    return Fn(K + "ColumnFile::getU64", None, 64, setup(max_arg), with_value(cs), srcs=SRC, title="value as a number", cmd="column value")


def mk_uint(name, w):
    def cs(ex, st, r):
        ok, v = number(r, ex, (1 << w) - 1)
        return [Case("number", ok, ret=zext(trunc(v, 64, w), w, 32) if w < 32 else trunc(v, 64, 32)),
                Case("not a number in range", b_not(ok), throws="DomainError")]
    return Fn(K + name, None, 32, setup(), with_value(cs), srcs=SRC, nocall=True, title=f"value as a number of {w} bits", cmd="column value")


def mk_opt(name, w):
    def cs(ex, st, r, *a):
        out = a[-1]
        ok, v = number(r, ex, a[0] if w == 64 else (1 << w) - 1)
        e = cmp('eq', r.length(), 0, 64)
        return [Case("empty", e, ret=0), Case("number", b_and(b_not(e), ok), ret=1, writes=[(out, 8, v)]),
                Case("not a number in range", b_and(b_not(e), b_not(ok)), throws="DomainError")]
    cell = lambda ex, st: out_cell(ex, st, 8, "number")
    return Fn(K + name, None, 'bool', setup(*([max_arg, cell] if w == 64 else [cell])), with_value(cs), srcs=SRC, nocall=True,
              title=f"value as an optional number of {w} bits", cmd="column value")


def mk_bool():
    def cs(ex, st, r):
        one = cmp('eq', r.length(), 1, 64)
        ch = r.at(0, 8)
        is_ = lambda s: b_and(one, b_or(*[cmp('eq', ch, ord(x), 8) for x in s]))
        e = cmp('eq', r.length(), 0, 64)
        return [Case("true", is_("YT"), ret=1), Case("false", b_or(e, is_("NF")), ret=0),
                Case("neither", b_not(b_or(e, is_("YTNF"))), throws="DomainError")]
    return Fn(K + "ColumnFile::getBool", None, 'bool', setup(), with_value(cs), srcs=SRC, nocall=True, title="value as a truth value",
              cmd="column value")


def code_cases(ex, st, r):
    n = r.length()
    size = b_and(cmp('ule', 4, n, 64), cmp('ule', n, 5, 64))
    v, hexa = streams.hexvalue(r, n, 5)
    up = b_and(*[b_or(cmp('ule', n, i, 64), cmp('ule', r.at(i, 8), 70, 8)) for i in range(5)])
    ok = b_and(size, hexa, up)
    return [Case("code", ok, ret=v), Case("not a code", b_not(ok), throws="DomainError")]


def mk_code():
    return Fn(K + "ColumnFile::getChar32", [K + "ColumnFile::Column const&"], 32, setup(), with_value(code_cases), srcs=SRC,
              nocall=True, title="value as a Unicode number", cmd="column value")


def mk_code2():
    def setup2(ex, st):
        s = sym_str(ex, st, "text")
        c = a_column(ex, st)
        return [a_file(ex, st, c), c, s]
    return Fn(K + "ColumnFile::getChar32", [K + "ColumnFile::Column const&", "std::string const&"], 32, setup2,
              lambda ex, st, f, c, s: code_cases(ex, st, ex.rope(st, s)), srcs=SRC, title="text as a Unicode number", cmd="column code",
              mode='unroll')


def mk_msg():
    def setup_(ex, st):
        m = sym_str(ex, st, "message")
        return [a_file(ex, st), m]

    def cases(ex, st, f, m):
        row = field(ex, st, f, "CurrentRow")
        base = ex.rope(st, m) + Rope(1, (Lit(b" - file: "),)) + ex.rope(st, f + layout(ex, "FileName"))
        z = cmp('eq', row, 0, 64)
        return [Case("no row", z, ret=base), Case("row", b_not(z), ret=base + Rope(1, (Lit(b", row: "),)) + streams_dec(ex, st, row))]
    return Fn(K + "ColumnFile::errorMsg", None, 'str', setup_, cases, srcs=SRC, title="text of an error", cmd="column value")


def mk_next():
    def setup_(ex, st):
        f = a_file(ex, st)
        l = ex.lock = streams.Line(ex, st, field(ex, st, f, "Delimiter", 1))
        n = st.mem[ex.load_raw(st, f + layout(ex, "RowValues"), 8).obj].n
        l.invs = [("no more values than columns", lambda ex, st, gh: cmp('ule', gh['count'], n, 64))]
        i = {x[0]: x for x in inp(ex)}
        inp(ex)[:0] = [("line", 'str', l.arr, l.len, 1), i["columns"], i["delimiter"]]
        st.ghost['file'] = (f.obj, layout(ex, "File"))
        st.ghost['more'] = cmp('eq', sym_int(ex, st, "more", 1), 1, 1)
        return [f]

    def cases(ex, st, f):
        l, n = ex.lock, st.mem[ex.load_raw(st, f + layout(ex, "RowValues"), 8).obj].n
        m = add64(l.n, b_ite(l.open_end, 1, 0, 64))
        fits = b_or(cmp('eq', m, n, 64), b_and(cmp('eq', l.n, n, 64), l.open_end))
        row = (f + layout(ex, "CurrentRow"), 8)
        rows = ex.load_raw(st, f + layout(ex, "RowValues"), 8)

        def ret(ex, s, oc):
            ex.oblige(s.fork(), cmp('eq', zext(oc.v, 1, 8) if not is_c(oc.v) else oc.v, 1, 8), "row: true", "postcondition")
            cells = s.mem[rows.obj].cells
            ex.oblige(s.fork(), cmp('eq', cells[0][1], n, 64), "row: every column has a new value", "postcondition")
            ex.oblige(s.fork(), cmp('eq', cells[8][1], 0, 64), "row: the values are the fields of the line in order", "postcondition")
            ex.oblige(s.fork(), cmp('eq', field(ex, s, f, "CurrentRow"), add64(field(ex, st, f, "CurrentRow"), 1), 64), "row: it is counted", "postcondition")

        def no(ex, s, oc):
            ex.oblige(s.fork(), cmp('eq', zext(oc.v, 1, 8) if not is_c(oc.v) else oc.v, 0, 8), "end: false", "postcondition")
        more = st.ghost['more']
        own = [row, (rows, 16)]
        return [Case("end", b_not(more), ret=no), Case("row", b_and(more, fits), ret=ret, owns=own),
                Case("wrong number of values", b_and(more, b_not(fits)), throws="DomainError", owns=own)]
    return Fn(K + "ColumnFile::nextRow", None, 'any', setup_, cases, srcs=SRC, nocall=True, title="next row", cmd="column row")


def mk_number():
    """the number of a column: names known so far are 0 .. size - 1"""
    def setup_(ex, st):
        name = sym_str(ex, st, "name")
        n = sym_int(ex, st, "names", 64)
        st.assume(cmp('ult', n, MAXLEN, 64))

        def gen(ex, st, key):
            i = ex.fresh("number", 64)
            return {0: (8, i)}
        base = ex.names = maps.Base("columns", gen=gen, size=n)
        hit = [g for m in ex.modules for g in m.globals if canon(g)[0] == K + "ColumnFile::_allColumns"]
        key = ('g', '', hit[0])
        st.mem[key] = Obj('cells', 48, hit[0])
        st.owned.add(key)
        ex.store_raw(st, Ptr(key), 48, maps.MapV(base, (), 'std::string', 'unsigned long'))
        has, node = maps.basenode(ex, st, base, ex.rope(st, name), 'std::string', 'unsigned long')
        st.assume(b_imp(has, cmp('ult', ex.load_raw(st, node + 32, 8), n, 64)))
        st.ghost['names'] = (Ptr(key), has, ex.load_raw(st, node + 32, 8), n)
        return [name]

    def cases(ex, st, name):
        m, has, i, n = st.ghost['names']

        def ret(value, new):
            def f(ex, s, oc):
                ex.oblige(s.fork(), cmp('eq', oc.v, value, 64), "the number", "postcondition")
                mv = ex.load_raw(s, m, 48)
                ok = isinstance(mv, maps.MapV) and mv.base is ex.names and len(mv.entries) == new
                ex.oblige(s.fork(), int(ok), "the names are those before" + (" and the new one" if new else ""), "postcondition")
                if ok and new:
                    k, node = mv.entries[0]
                    ex.oblige(s.fork(), rope_eq(ex, s, k, ex.rope(s, name)), "its key is the name", "postcondition")
                    ex.oblige(s.fork(), cmp('eq', ex.load_raw(s, node + 32, 8), value, 64), "it keeps its number", "postcondition")
            return f
        return [Case("known", has, ret=ret(i, 0)), Case("new", b_not(has), ret=ret(n, 1), owns=[(m, 48)])]
    return Fn(K + "vcColumnNumber", None, 'any', setup_, cases, srcs=SRC, nocall=True, title="number of a column", cmd="column number", frame=False)


NAMES = ["A", "Bc", "A "]
NUMBERS = [3, 0, 2]


def mk_header(n):
    names = [x.encode() for x in NAMES[:n]]

    def is_name(ex, st, r, b):
        return rope_eq(ex, st, r, Rope(1, (Lit(b),)), exact=True)

    def str_eq(ex, st, x, y):
        """two texts of which one is known to be one of the names"""
        for r, o in ((y, x), (x, y)):
            for b in names:
                if ex.valid(st, is_name(ex, st, r, b))[0]:
                    return is_name(ex, st, o, b)
        raise Unsupported("comparison of two unknown texts")

    def setup_(ex, st):
        f = a_file(ex, st)
        ex.str_eq = str_eq
        l = ex.lock = streams.Line(ex, st, field(ex, st, f, "Delimiter", 1))
        l.cut = False
        i = {x[0]: x for x in inp(ex)}
        inp(ex)[:0] = [("header", 'str', l.arr, l.len, 1), i["delimiter"]]
        line = ex.new_obj(st, 'cells', 32, "header")
        ex.set_rope(st, line, l.text)
        a = ex.new_obj(st, 'cells', 40, "positions")
        for i in range(5):
            ex.store_raw(st, a + 8 * i, 8, NONE)
        for k, v in enumerate((a, a + 40, a + 40)):
            ex.store_raw(st, f + (layout(ex, "Positions") + 8 * k), 8, v)
        ents = []
        for b, k in zip(names, NUMBERS):
            node = ex.new_obj(st, 'cells', None, 'node')
            ex.set_rope(st, node, Rope(1, (Lit(b),)))
            ex.set_rope(st, node + (32 + layout(ex, "ColumnName")), Rope(1, (Lit(b),)))
            ex.store_raw(st, node + (32 + layout(ex, "ColumnNumber")), 8, k)
            ents.append((Rope(1, (Lit(b),)), node))
        m = ex.new_obj(st, 'cells', 48, "columns")
        ex.store_raw(st, m, 48, maps.MapV(None, ents, 'std::string', K + "ColumnFile::Column"))
        return [f, line, m]

    def cases(ex, st, f, line, m):
        l = ex.lock
        P = [l.piece(ex, st, k) for k in range(n)]
        inside = [cmp('ult', k, l.n, 64) for k in range(n)]
        isn = [[is_name(ex, st, P[k], b) for b in names] for k in range(n)]
        ok = [cmp('ule', l.n, n, 64)]
        for k in range(n):
            ok.append(b_imp(inside[k], b_or(*isn[k])))
            for h in range(k):
                ok += [b_imp(b_and(inside[k], isn[k][j]), b_not(isn[h][j])) for j in range(n)]
        a = ex.load_raw(st, f + layout(ex, "Positions"), 8)

        def ret(ex, s, oc):
            left = [bytes(x.conc()) for x, _ in ex.load_raw(s, m, 48).entries]
            for i in range(5):
                want = NONE
                if i in NUMBERS[:n]:
                    j = NUMBERS.index(i)
                    for k in range(n):
                        want = b_ite(b_and(inside[k], isn[k][j]), k, want, 64)
                    here = b_or(*[b_and(inside[k], isn[k][j]) for k in range(n)])
                    ex.oblige(s.fork(), b_not(here) if names[j] in left else here, f"column {j} is left over exactly if no header has its name", "postcondition")
                ex.oblige(s.fork(), cmp('eq', cell_value(ex, s, a + 8 * i, 8), want, 64), f"position of column number {i}", "postcondition")
        own = [(m, 48), (a, 40)] + [(a + 8 * i, 8) for i in range(5)]
        return [Case("header", b_and(*ok), ret=ret, owns=own), Case("unknown or repeated header", b_not(b_and(*ok)), throws="DomainError", owns=own)]
    return Fn(K + "ColumnFile::processHeaderRow", None, 'any', setup_, cases, srcs=SRC, nocall=True, title=f"header of {n} columns",
              cmd="column header", mode='unroll', bound="any header line, for a file of %d columns with these names: %s" % (n, names))


def mk_left(k):
    """the columns without a header"""
    def setup_(ex, st):
        f = a_file(ex, st)
        ents = []
        for b in NAMES[:k]:
            node = ex.new_obj(st, 'cells', None, 'node')
            ex.set_rope(st, node, Rope(1, (Lit(b.encode()),)))
            ents.append((Rope(1, (Lit(b.encode()),)), node))
        m = ex.new_obj(st, 'cells', 48, "columns")
        ex.store_raw(st, m, 48, maps.MapV(None, ents, 'std::string', K + "ColumnFile::Column"))
        return [f, m]
    return Fn(K + "ColumnFile::verifyHeaderColumns", None, 'void', setup_,
              lambda ex, st, f, m: [Case("complete" if not k else "incomplete", 1, **({'throws': "DomainError"} if k else {}))], srcs=SRC,
              nocall=True, title=f"{k} columns without a header", cmd="column header", mode='unroll', bound=f"{k} columns left over")


def streams_dec(ex, st, v):
    return stl.decimal(ex, st, v, 64, False)


NEXT = mk_next()
HEADER = [mk_number()] + [mk_header(n) for n in (1, 2, 3)] + [mk_left(k) for k in (0, 1, 2)]
VALUES = [mk_msg(), mk_get(), mk_empty(), mk_u64(), mk_opt("vcOptU64", 64), mk_uint("vcU8", 8), mk_uint("vcU16", 16), mk_uint("vcU32", 32),
          mk_opt("vcOptU8", 8), mk_opt("vcOptU16", 16), mk_bool(), mk_code(), mk_code2()]
