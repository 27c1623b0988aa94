"""Contracts of the enum containers (kt_utils/EnumContainer.h, EnumList.h, EnumMap.h) for every scoped enum of the project."""
from contract import *

K = "kanji_tools::"
SRC = ["tu/enums.cpp", "libs/utils/src/EnumContainer.cpp"]
# enum -> (values of the list including None, names, number of values a map holds or None)
LISTS = {"CharType": (3, 3), "KanjiTypes": (9, 8), "KanjiGrades": (8, 7), "JlptLevels": (6, 5), "KenteiKyus": (13, 12),
         "JinmeiReasons": (7, 6), "Ucd::LinkTypes": (12, 11)}
MAPS = {"KanjiTypes": 8, "KanjiGrades": 7, "JlptLevels": 5, "KenteiKyus": 12}
INTS = {"int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False),
        "short": (16, True), "signed char": (8, True), "unsigned char": (8, False), "unsigned short": (16, False)}


def u8(n):
    return f"(unsigned char){n}"


def wide(v, w, signed):
    """the mathematical value of a machine integer, in 72 bits"""
    return sext(v, w, 72) if signed else zext(v, w, 72)


def within(v, lo, hi):
    """lo <= v <= hi for a 72 bit mathematical integer"""
    return b_and(cmp('sge', v, lo, 72), cmp('sle', v, hi, 72))


# ------------------------------------------------------------------ index checks
def index_cases(ex, st, i, w, signed, n, ok):
    good = within(wide(i, w, signed), 0, n - 1)
    return [Case("in range", good, ret=ok), Case("out of range", b_not(good), throws="RangeError")]


def mk_check(T, n, ty, w, signed):
    full = f"EnumContainer<{K}{T}, {u8(n)}>::checkIndex<{ty if ty in INTS else K + T}>"

    def setup(ex, st):
        return [sym_int(ex, st, "i", w), sym_str(ex, st, "name")]
    return Fn(K + "EnumContainer::checkIndex", None, 8, setup,
              lambda ex, st, i, nm: index_cases(ex, st, i, w, signed, n, trunc(i, w, 8) if w > 8 else i),
              srcs=SRC, full=full, title=f"{T}[{n}] index check of {ty}", cmd=f"index {T} {ty}" if ty in INTS else f"name {T}", nocall=True)


def names_obj(ex, st, T, m, none):
    """an EnumList object: the array of names follows the map of BaseEnumList"""
    p = ex.new_obj(st, 'cells', 4096, "list")
    return p


def mk_at(T, n, m, ty):
    w, signed = INTS[ty]
    full = f"EnumListContainer<{K}{T}, {u8(n)}, {u8(m)}>::operator[]<{ty}>"
    return Fn(K + "EnumListContainer::operator[]", None, 8, lambda ex, st: [names_obj(ex, st, T, m, 0), sym_int(ex, st, "i", w)],
              lambda ex, st, s, i: index_cases(ex, st, i, w, signed, n, trunc(i, w, 8) if w > 8 else i),
              srcs=SRC, full=full, title=f"list of {T} at {ty}", cmd=f"index {T} {ty}", nocall=True)


def mk_getindex(T, n):
    return Fn(K + "EnumContainer::getIndex", None, 8, lambda ex, st: [sym_int(ex, st, "x", 8)],
              lambda ex, st, x: index_cases(ex, st, x, 8, False, n, x), srcs=SRC, full=f"EnumContainer<{K}{T}, {u8(n)}>::getIndex",
              title=f"{T}[{n}] index of a value", cmd=f"name {T}" if n == LISTS[T][0] else f"map {T}", nocall=True)


# ------------------------------------------------------------------ iterators
def it_obj(ex, st, name, n, is_map, mp=None):
    p = ex.new_obj(st, 'cells', 16 if is_map else 1, name)
    v = sym_int(ex, st, name, 8)
    st.assume(cmp('ule', v, n, 8))           # representation invariant: never beyond the end position
    ex.store_raw(st, p, 1, v)
    if is_map:
        ex.store_raw(st, p + 8, 8, mp)
    return p


def idx(ex, st, p):
    return cell_value(ex, st, p, 1)


def it_ret(ex, st, is_map, want):
    """checks an iterator returned by value"""
    def chk(ex, s, oc):
        v = oc.v
        if is_map:
            a = v[0] if isinstance(v, (list, tuple)) else v
            ex.oblige(s.fork(), veq(ex, s, trunc(a, 64, 8) if not isinstance(a, Undef) else a, want, 8), "returned position", "postcondition")
            ex.oblige(s.fork(), veq(ex, s, v[1], cell_value(ex, s, is_map + 8, 8), 64), "returned collection", "postcondition")
        else:
            ex.oblige(s.fork(), veq(ex, s, v, want, 8), "returned position", "postcondition")
    return chk


def step_cases(n, what):
    """(valid, new index) of moving by a mathematical distance"""
    def f(i, d):
        t = binop('add', zext(i, 8, 72), d, 72)
        return within(t, 0, n), trunc(t, 72, 8)
    return f


def mk_iter(T, n, m, is_map):
    base = f"EnumContainer<{K}{T}, {u8(n)}>::Iterator<{K}" + \
        (f"EnumMap<{K}{T}, int, {u8(n)}>::ConstIterator>::" if is_map else f"EnumListContainer<{K}{T}, {u8(n)}, {u8(m)}>::ConstIterator>::")
    kind = "map" if is_map else "list"
    move = step_cases(n, "")
    out = []
    q = K + "EnumContainer::Iterator::"

    def setup(ex, st):
        mp = ex.new_obj(st, 'cells', 4 * n, "collection") if is_map else None
        return it_obj(ex, st, "position", n, is_map, mp)

    def post(op, params, dist, by_value, postfix):
        """dist(args) -> the mathematical distance moved"""
        def s(ex, st):
            p = setup(ex, st)
            a = [p]
            if params:
                a.append(sym_int(ex, st, "n", 64 if params == ["long"] else 32))
            return a

        def cases(ex, st, p, *a):
            i = idx(ex, st, p)
            ok, new = move(i, dist(*a))
            if by_value and not postfix:
                return [Case("within", ok, ret=it_ret(ex, st, p if is_map else None, new)), Case("beyond an end", b_not(ok), throws="RangeError")]
            if postfix:
                return [Case("within", ok, ret=it_ret(ex, st, p if is_map else None, i), writes=[(p, 1, new)]),
                        Case("beyond an end", b_not(ok), throws="RangeError")]
            return [Case("within", ok, ret=p, writes=[(p, 1, new)]), Case("beyond an end", b_not(ok), throws="RangeError")]
        return Fn(q + op, params, 'any' if by_value else 'ptr', s, cases, srcs=SRC, full=base, nocall=True,
                  title=f"{kind} iterator of {T}: {op}" + (" (postfix)" if postfix else ""), cmd=f"{kind} iterator {T}")
    fwd = lambda i: wide(i, 64, True)
    back = lambda i: binop('sub', 0, wide(i, 64, True), 72)
    out.append(post("operator++", [], lambda: 1, False, False))
    out.append(post("operator--", [], lambda: mask(72), False, False))
    out.append(post("operator++", ["int"], lambda i: 1, True, True))
    out.append(post("operator--", ["int"], lambda i: mask(72), True, True))
    out.append(post("operator+=", ["long"], fwd, False, False))
    out.append(post("operator-=", ["long"], back, False, False))
    out.append(post("operator+", ["long"], fwd, True, False))
    out.append(post("operator-", ["long"], back, True, False))
    return out


ENUM = []
for T, (n, m) in LISTS.items():
    for ty, (w, sg) in INTS.items():
        ENUM.append(mk_at(T, n, m, ty))
    ENUM.append(mk_check(T, n, T, 8, False))
    ENUM.append(mk_getindex(T, n))
    ENUM += mk_iter(T, n, m, False)
for T, n in MAPS.items():
    ENUM.append(mk_getindex(T, n))
    ENUM += mk_iter(T, n, 0, True)


# ------------------------------------------------------------------ values and names of the project's lists
NAMES = {"CharType": "Hiragana Katakana Romaji",
         "KanjiTypes": "Jouyou Jinmei LinkedJinmei LinkedOld Frequency Extra Kentei Ucd",
         "KanjiGrades": "G1 G2 G3 G4 G5 G6 S", "JlptLevels": "N5 N4 N3 N2 N1",
         "KenteiKyus": "K10 K9 K8 K7 K6 K5 K4 K3 KJ2 K2 KJ1 K1",
         "JinmeiReasons": "Names Print Variant Moved Simple Other",
         "Ucd::LinkTypes": "Compatibility* Definition* Jinmei* Semantic* Simplified* Traditional* "
                           "Compatibility Definition Jinmei Simplified Traditional"}
LISTVAR = {"CharType": "CharTypes", "Ucd::LinkTypes": "AllUcdLinkTypes"}


def the_list(ex, st, T):
    """the project's list object of T, in the state its initialiser leaves"""
    inst = [(n, g) for m in ex.modules for n, g in m.globals.items()
            if n.startswith('_ZN') and f"BaseEnumList<{K}{T}>::_instance" in canon(n)[2]][:1]
    return run_initialiser(ex, st, [global_named(ex, K + LISTVAR.get(T, "All" + T))], inst)[0]


def name_ret(text):
    def chk(ex, s, oc):
        ex.oblige(s.fork(), rope_eq(ex, s, ex.rope(s, fixed(ex, s, oc.v)), lit(text)), "returned name", "postcondition")
    return chk


def mk_tostring(T, n, m):
    none = n != m
    full = f"EnumListWithNone<{K}{T}, {u8(m)}>::toString" if none else f"EnumListContainer<{K}{T}, {u8(n)}, {u8(m)}>::toString"

    def cases(ex, st, s, x):
        nm = NAMES[T].split() + (["None"] if none else [])
        return [Case(t, cmp('eq', x, i, 8), ret=name_ret(t)) for i, t in enumerate(nm)] + \
            [Case("not a value", cmp('uge', x, n, 8), throws="RangeError")]
    q = K + ("EnumListWithNone" if none else "EnumListContainer") + "::toString"
    return Fn(q, None, 'any', lambda ex, st: [the_list(ex, st, T), sym_int(ex, st, "x", 8)], cases, srcs=SRC, full=full,
              title=f"name of a {T}", cmd=f"name {T}", nocall=True)


def mk_global_tostring(T, n, m):
    def setup(ex, st):
        the_list(ex, st, T)
        return [sym_int(ex, st, "x", 8)]

    def cases(ex, st, x):
        nm = NAMES[T].split() + (["None"] if n != m else [])
        return [Case(t, cmp('eq', x, i, 8), ret=name_ret(t)) for i, t in enumerate(nm)] + \
            [Case("not a value", cmp('uge', x, n, 8), throws="RangeError")]
    return Fn(K + "toString", [K + T], 'any', setup, cases, srcs=SRC, title=f"toString({T})", cmd=f"name {T}", nocall=True)


def text_is(src, start, n, t):
    return b_and(cmp('eq', n, len(t), 64), *[cmp('eq', src.at(add64(start, k)), ord(c), 8) for k, c in enumerate(t)])


def mk_fromstring(T, n, m, fn, empty, nonename):
    full = (f"BaseEnumList<{K}{T}>::" if fn == "fromString" else f"EnumListWithNone<{K}{T}, {u8(m)}>::") + fn + "("
    q = K + ("BaseEnumList::" if fn == "fromString" else "EnumListWithNone::") + fn

    def setup(ex, st):
        p = the_list(ex, st, T)
        return [p, sym_str(ex, st, "name")]

    def cases(ex, st, s, nm):
        src, start, ln = rope_src(ex, st, ex.rope(st, nm))
        out, hit = [], 0
        for i, t in enumerate(NAMES[T].split()):
            c = text_is(src, start, ln, t)
            hit = b_or(hit, c)
            out.append(Case(t, c, ret=i))
        for flag, t in ((empty, ""), (nonename, "None")):
            if flag:
                c = text_is(src, start, ln, t)
                hit = b_or(hit, c)
                out.append(Case(f"'{t}'", c, ret=m))
        return out + [Case("unknown name", b_not(hit), throws="DomainError")]
    return Fn(q, None, 8, setup, cases, srcs=SRC, full=full, title=f"{fn} of {T}", cmd=f"{fn} {T}", nocall=True)


for T, (n, m) in LISTS.items():
    ENUM += [mk_tostring(T, n, m), mk_global_tostring(T, n, m), mk_fromstring(T, n, m, "fromString", 0, 0)]
    if n != m:
        ENUM += [mk_fromstring(T, n, m, "fromStringAllowEmpty", 1, 0), mk_fromstring(T, n, m, "fromStringAllowNone", 0, 1),
                 mk_fromstring(T, n, m, "fromStringAllowEmptyAndNone", 1, 1)]


# ------------------------------------------------------------------ reading and comparing iterators
def it_name(T, n, m, is_map):
    return f"{K}EnumMap<{K}{T}, int, {u8(n)}>::ConstIterator" if is_map else f"{K}EnumListContainer<{K}{T}, {u8(n)}, {u8(m)}>::ConstIterator"


def two(ex, st, n, is_map, same):
    m1 = ex.new_obj(st, 'cells', 4 * n, "collection") if is_map else None
    m2 = m1 if same else ex.new_obj(st, 'cells', 4 * n, "other") if is_map else None
    return [it_obj(ex, st, "a", n, is_map, m1), it_obj(ex, st, "b", n, is_map, m2)]


RELS = {"vcEq": "eq", "vcNe": "ne", "vcLt": "ult", "vcLe": "ule", "vcGt": "ugt", "vcGe": "uge"}


def mk_rel(T, n, m, is_map, op, same=True):
    kind = "map" if is_map else "list"

    def cases(ex, st, a, b):
        if not same:
            return [Case("different collections", 1, throws="DomainError")]
        i, j = idx(ex, st, a), idx(ex, st, b)
        if op == "vcSub":
            return [Case("distance", 1, ret=binop('sub', zext(i, 8, 64), zext(j, 8, 64), 64))]
        return [Case("positions", 1, ret=cmp(RELS[op], i, j, 8))]
    return Fn(K + op, None, 64 if op == "vcSub" else 'bool', lambda ex, st: two(ex, st, n, is_map, same), cases, srcs=SRC,
              full=f"{op}<{it_name(T, n, m, is_map)}>", nocall=True,
              title=f"{kind} iterator of {T}: {op[2:]}" + ("" if same else " of different collections"), cmd=f"{kind} compare {T}")


def mk_list_deref(T, n, m):
    def cases(ex, st, p):
        i = idx(ex, st, p)
        return [Case("within", cmp('ult', i, n, 8), ret=i), Case("at the end", cmp('uge', i, n, 8), throws="RangeError")]
    return Fn(K + "EnumListContainer::ConstIterator::operator*", None, 8, lambda ex, st: [it_obj(ex, st, "position", n, False)], cases,
              srcs=SRC, full=it_name(T, n, m, False), title=f"list iterator of {T}: value", cmd=f"list iterator {T}", nocall=True)


def mk_list_at(T, n, m):
    def cases(ex, st, p, d):
        t = binop('add', zext(idx(ex, st, p), 8, 72), wide(d, 64, True), 72)
        ok = within(t, 0, n - 1)
        return [Case("within", ok, ret=trunc(t, 72, 8)), Case("outside", b_not(ok), throws="RangeError")]
    return Fn(K + "EnumContainer::Iterator::operator[]", ["long"], 8,
              lambda ex, st: [it_obj(ex, st, "position", n, False), sym_int(ex, st, "n", 64)], cases, srcs=SRC,
              full=f"EnumContainer<{K}{T}, {u8(n)}>::Iterator<{it_name(T, n, m, False)}>", title=f"list iterator of {T}: []",
              cmd=f"list iterator {T}", nocall=True)


def mk_list_ends(T, n, m, name, v):
    return Fn(K + "EnumListContainer::" + name, [], 8, lambda ex, st: [], lambda ex, st: [Case("position", 1, ret=v)], srcs=SRC,
              full=f"EnumListContainer<{K}{T}, {u8(n)}, {u8(m)}>::{name}", title=f"{name} of the list of {T}", cmd=f"list iterator {T}", nocall=True)


def map_obj(ex, st, n):
    p = ex.new_obj(st, 'cells', 4 * n, "collection")
    for i in range(n):
        ex.store_raw(st, p + 4 * i, 4, ex.fresh(f"value{i}", 32))
    return p


def elem_ret(p, i, n):
    """the returned reference is to element i (an expression) of the array at p"""
    def chk(ex, s, oc):
        if not isinstance(oc.v, Ptr) or oc.v.obj != p.obj:
            ex.oblige(s.fork(), 0, "reference to an element of the collection", "postcondition")
            return
        ex.oblige(s.fork(), cmp('eq', (oc.v.off - p.off).val(), binop('mul', zext(i, 8, 64), 4, 64), 64),
                  "reference to the element of that value", "postcondition")
    return chk


def empty_ret(p):
    def chk(ex, s, oc):
        ex.oblige(s.fork(), int(isinstance(oc.v, Ptr) and oc.v.obj != p.obj and isinstance(oc.v.obj, tuple) and 'Empty' in oc.v.obj[2]),
                  "reference to the shared empty value", "postcondition")
    return chk


def mk_map_index(T, n, const):
    def cases(ex, st, p, x):
        c = [Case("held", cmp('ult', x, n, 8), ret=elem_ret(p, x, n))]
        if const:
            return c + [Case("None", cmp('eq', x, n, 8), ret=empty_ret(p)), Case("not a value", cmp('ugt', x, n, 8), throws="RangeError")]
        return c + [Case("not held", cmp('uge', x, n, 8), throws="RangeError")]
    return Fn(K + "EnumMap::operator[]", [K + T], 'any', lambda ex, st: [map_obj(ex, st, n), sym_int(ex, st, "x", 8)], cases, srcs=SRC,
              full=f"EnumMap<{K}{T}, int, {u8(n)}>::operator[]({K}{T})" + (" const" if const else "\0"),
              title=f"map of {T}: {'read' if const else 'write'} access", cmd=f"map {T}", nocall=True)


def mk_map_deref(T, n, null):
    def setup(ex, st):
        return [it_obj(ex, st, "position", n, True, NULL if null else map_obj(ex, st, n))]

    def cases(ex, st, p):
        if null:
            return [Case("no collection", 1, throws="DomainError")]
        i = idx(ex, st, p)
        return [Case("within", cmp('ult', i, n, 8), ret=elem_ret(cell_value(ex, st, p + 8, 8), i, n)),
                Case("at the end", cmp('uge', i, n, 8), throws="RangeError")]
    return Fn(K + "EnumMap::ConstIterator::operator*", None, 'any', setup, cases, srcs=SRC, full=it_name(T, n, 0, True),
              title=f"map iterator of {T}: value" + (" without a collection" if null else ""), cmd=f"map iterator {T}", nocall=True)


def mk_map_at(T, n):
    def setup(ex, st):
        return [it_obj(ex, st, "position", n, True, map_obj(ex, st, n)), sym_int(ex, st, "n", 64)]

    def cases(ex, st, p, d):
        t = binop('add', zext(idx(ex, st, p), 8, 72), wide(d, 64, True), 72)
        ok = within(t, 0, n - 1)
        mp = cell_value(ex, st, p + 8, 8)

        def val(ex, s, oc):
            v = None
            for k in reversed(range(n)):
                x = cell_value(ex, s, mp + 4 * k, 4)
                v = x if v is None else b_ite(cmp('eq', t, k, 72), x, v, 32)
            ex.oblige(s.fork(), veq(ex, s, oc.v, v, 32), "the value held there", "postcondition")
        return [Case("within", ok, ret=val), Case("outside", b_not(ok), throws="RangeError")]
    return Fn(K + "EnumContainer::Iterator::operator[]", ["long"], 'any', setup, cases, srcs=SRC,
              full=f"EnumContainer<{K}{T}, {u8(n)}>::Iterator<{it_name(T, n, 0, True)}>", title=f"map iterator of {T}: []",
              cmd=f"map iterator {T}", nocall=True)


def mk_map_ends(T, n, name, v):
    def ret(ex, s, oc):
        pass

    def cases(ex, st, p):
        def chk(ex, s, oc):
            ex.oblige(s.fork(), veq(ex, s, trunc(oc.v[0], 64, 8), v, 8), "position", "postcondition")
            ex.oblige(s.fork(), veq(ex, s, oc.v[1], p, 64), "collection", "postcondition")
        return [Case("position", 1, ret=chk)]
    return Fn(K + "EnumMap::" + name, [], 'any', lambda ex, st: [map_obj(ex, st, n)], cases, srcs=SRC,
              full=f"EnumMap<{K}{T}, int, {u8(n)}>::{name}", title=f"{name} of the map of {T}", cmd=f"map iterator {T}", nocall=True)


for T, (n, m) in LISTS.items():
    ENUM += [mk_list_deref(T, n, m), mk_list_at(T, n, m), mk_list_ends(T, n, m, "begin", 0), mk_list_ends(T, n, m, "end", n)]
    ENUM += [mk_rel(T, n, m, False, op) for op in list(RELS) + ["vcSub"]]
for T, n in MAPS.items():
    ENUM += [mk_map_index(T, n, False), mk_map_index(T, n, True), mk_map_deref(T, n, False), mk_map_deref(T, n, True), mk_map_at(T, n),
             mk_map_ends(T, n, "begin", 0), mk_map_ends(T, n, "end", n)]
    ENUM += [mk_rel(T, n, 0, True, op, same) for op in list(RELS) + ["vcSub"] for same in (True, False)]
