"""Display width: 0 for NUL and non-spacing characters, 2 for East Asian wide characters, 1 for everything else.
The table is a snapshot of the East Asian Width W/F ranges (Unicode 14) that the project documents."""
from contract import *
import utf8
from utf8 import K, _ks, atom
from blocks import inr, NONSP

SRC = ["libs/kana/src/DisplaySize.cpp", "libs/utils/src/Utf8.cpp", "libs/utils/src/String.cpp"]
WIDE = [(0x1100, 0x115F), (0x231A, 0x231B), (0x2329, 0x232A), (0x23E9, 0x23EC), (0x23F0, 0x23F0), (0x23F3, 0x23F3),
        (0x25FD, 0x25FE), (0x2614, 0x2615), (0x2648, 0x2653), (0x267F, 0x267F), (0x2693, 0x2693), (0x26A1, 0x26A1),
        (0x26AA, 0x26AB), (0x26BD, 0x26BE), (0x26C4, 0x26C5), (0x26CE, 0x26CE), (0x26D4, 0x26D4), (0x26EA, 0x26EA),
        (0x26F2, 0x26F3), (0x26F5, 0x26F5), (0x26FA, 0x26FA), (0x26FD, 0x26FD), (0x2705, 0x2705), (0x270A, 0x270B),
        (0x2728, 0x2728), (0x274C, 0x274C), (0x274E, 0x274E), (0x2753, 0x2755), (0x2757, 0x2757), (0x2795, 0x2797),
        (0x27B0, 0x27B0), (0x27BF, 0x27BF), (0x2B1B, 0x2B1C), (0x2B50, 0x2B50), (0x2B55, 0x2B55), (0x2E80, 0x2E99),
        (0x2E9B, 0x2EF3), (0x2F00, 0x2FD5), (0x2FF0, 0x2FFB), (0x3000, 0x303E), (0x3041, 0x3096), (0x3099, 0x30FF),
        (0x3105, 0x312F), (0x3131, 0x318E), (0x3190, 0x31E3), (0x31F0, 0x321E), (0x3220, 0x3247), (0x3250, 0x4DBF),
        (0x4E00, 0xA48C), (0xA490, 0xA4C6), (0xA960, 0xA97C), (0xAC00, 0xD7A3), (0xF900, 0xFAFF), (0xFE10, 0xFE19),
        (0xFE30, 0xFE52), (0xFE54, 0xFE66), (0xFE68, 0xFE6B), (0xFF01, 0xFF60), (0xFFE0, 0xFFE6),
        (0x16FE0, 0x16FE4), (0x16FF0, 0x16FF1), (0x17000, 0x187F7), (0x18800, 0x18CD5), (0x18D00, 0x18D08),
        (0x1AFF0, 0x1AFF3), (0x1AFF5, 0x1AFFB), (0x1AFFD, 0x1AFFE), (0x1B000, 0x1B122), (0x1B150, 0x1B152),
        (0x1B164, 0x1B167), (0x1B170, 0x1B2FB), (0x1F004, 0x1F004), (0x1F0CF, 0x1F0CF), (0x1F18E, 0x1F18E),
        (0x1F191, 0x1F19A), (0x1F200, 0x1F202), (0x1F210, 0x1F23B), (0x1F240, 0x1F248), (0x1F250, 0x1F251),
        (0x1F260, 0x1F265), (0x1F300, 0x1F320), (0x1F32D, 0x1F335), (0x1F337, 0x1F37C), (0x1F37E, 0x1F393),
        (0x1F3A0, 0x1F3CA), (0x1F3CF, 0x1F3D3), (0x1F3E0, 0x1F3F0), (0x1F3F4, 0x1F3F4), (0x1F3F8, 0x1F43E),
        (0x1F440, 0x1F440), (0x1F442, 0x1F4FC), (0x1F4FF, 0x1F53D), (0x1F54B, 0x1F54E), (0x1F550, 0x1F567),
        (0x1F57A, 0x1F57A), (0x1F595, 0x1F596), (0x1F5A4, 0x1F5A4), (0x1F5FB, 0x1F64F), (0x1F680, 0x1F6C5),
        (0x1F6CC, 0x1F6CC), (0x1F6D0, 0x1F6D2), (0x1F6D5, 0x1F6D7), (0x1F6DD, 0x1F6DF), (0x1F6EB, 0x1F6EC),
        (0x1F6F4, 0x1F6FC), (0x1F7E0, 0x1F7EB), (0x1F7F0, 0x1F7F0), (0x1F90C, 0x1F93A), (0x1F93C, 0x1F945),
        (0x1F947, 0x1F9FF), (0x1FA70, 0x1FA74), (0x1FA78, 0x1FA7C), (0x1FA80, 0x1FA86), (0x1FA90, 0x1FAAC),
        (0x1FAB0, 0x1FABA), (0x1FAC0, 0x1FAC5), (0x1FAD0, 0x1FAD9), (0x1FAE0, 0x1FAE7), (0x1FAF0, 0x1FAF6),
        (0x20000, 0x2FFFD), (0x30000, 0x3FFFD)]


def width(c):
    none = b_or(cmp('eq', c, 0, 32), inr(c, NONSP))
    return b_ite(none, 0, b_ite(inr(c, WIDE), 2, 1, 64), 64)


def wid_of(ex, d):
    """the display width of a code sequence, as an abstract value determined by the sequence"""
    src, start, n = rope_src(ex, None, d)
    if is_c(n) and n == 0:
        return 0
    return atom(ex, ('width', src.key, _ks(start), _ks(n)))[1]


def mk_codes():
    def cases(ex, st, s):
        r = ex.rope(st, s)
        src, start, n = rope_src(ex, st, r)
        if not ex.ver:
            return [Case("sum of the widths", 1, ret=wid_of(ex, r))]
        a = Auto("width", {'g': ('int', 64), 'sum': ('int', 64)}, {'g': 0, 'sum': 0}, run=lambda g: cmp('ult', g['g'], n, 64),
                 step=lambda g: {'g': add64(g['g'], 1), 'sum': add64(g['sum'], width(src.at(add64(start, g['g']))))}, pos=['g'],
                 facts=[("position within the text", lambda g: cmp('ule', g['g'], n, 64))], variant=lambda g: sub64(n, g['g']))
        return [Case("sum of the widths", 1, via=Via(a, value=lambda g: g['sum']))]
    return Fn(K + "displaySize", ["std::u32string const&"], 64, lambda ex, st: [sym_str(ex, st, "s", 4)], cases, srcs=SRC,
              title="displaySize(CodeString)")


def text_width(ex, st, s, is_str):
    """width of the text up to its first NUL"""
    if s.obj == 0:
        return 0
    if is_str:
        r = ex.rope(st, s)
        src, start, n = rope_src(ex, st, r)
        return wid_of(ex, utf8.decoded(ex, st, src, start, add64(start, n)))
    src, start, limit = text_at(ex, st, s)
    return wid_of(ex, utf8.decoded(ex, st, src, start, limit))


def mk_text(t, is_str, null=False):
    def setup(ex, st):
        if null:
            inp(ex).append(("s", 'const', None))
            return [NULL]
        return [sym_str(ex, st, "s") if is_str else sym_cstr(ex, st, "s")]
    return Fn(K + "displaySize", [t], 64, setup, lambda ex, st, s: [Case("width of the decoded text", 1, ret=text_width(ex, st, s, is_str))],
              srcs=SRC, nocall=null, title=f"displaySize({'String' if is_str else 'char const*'}){' on null' if null else ''}")


def mk_setw():
    def cases(ex, st, s, n):
        r = ex.rope(st, s)
        v = sub64(add64(n, r.length()), text_width(ex, st, s, True))
        return [Case("bytes beyond columns added", 1, ret=trunc(v, 64, 32))]
    return Fn(K + "wideSetw", ["std::string const&", "unsigned long"], 32,
              lambda ex, st: [sym_str(ex, st, "s"), sym_int(ex, st, "setwLen", 64)], cases, srcs=SRC, title="wideSetw")


WID = [mk_codes(), mk_text("char const*", False), mk_text("char const*", False, True), mk_text("std::string const&", True), mk_setw()]
