"""Trusted model of writing to a std::ostream: the text written so far.  Only texts, characters, and integers in decimal; a width or
another format is outside the fragment."""
from values import *
from engine import Ret, Ptr
import stl
from stl import model

TEXT = 256        # place of the text in the object that stands for a stream
SIZE = 512
INTS = {'short': (16, True), 'unsigned short': (16, False), 'int': (32, True), 'unsigned int': (32, False), 'long': (64, True),
        'unsigned long': (64, False), 'long long': (64, True), 'unsigned long long': (64, False)}


def new(ex, st, name="output"):
    p = ex.new_obj(st, 'cells', SIZE, name)
    ex.set_rope(st, p + TEXT, Rope(1))
    return p


def written(ex, st, p):
    return ex.rope(st, p + TEXT)


def write(ex, st, p, r):
    if p.obj not in st.mem or st.mem[p.obj].size != SIZE:
        raise Unsupported("output to another stream")
    ex.set_rope(st, p + TEXT, ex.rope(st, p + TEXT) + r)
    return Ret(p)


@model("std::operator<<")
def put_text(ex, st, a, ps, full, ins):
    if len(ps) != 2 or ps[0] not in ('std::ostream&', 'std::basic_ostream&'):
        return NotImplemented
    t = ps[1]
    if t == 'char const*':
        return write(ex, st, a[0], stl.cstr(ex, st, a[1]))
    if t == 'char':
        return write(ex, st, a[0], Rope(1, (Lit([a[1]]),)))
    if t in ('std::string const&', 'std::basic_string const&'):
        return write(ex, st, a[0], ex.rope(st, a[1]))
    return NotImplemented


@model("std::ostream::operator<<", "std::basic_ostream::operator<<")
def put_int(ex, st, a, ps, full, ins):
    if len(ps) != 1 or ps[0] not in INTS:
        return NotImplemented
    w, signed = INTS[ps[0]]
    return write(ex, st, a[0], stl.decimal(ex, st, a[1], w, signed))
