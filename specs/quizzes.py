"""How a quiz counts: answers to a question, mistakes, the final score; where it starts; what its options mean."""
from contract import *
import maps
import streams
import stl
import output
import order
from order import layout

K = "kanji_tools::"
SRC = ["tu/quiz.cpp", "tu/order.cpp", "libs/quiz/src/Quiz.cpp", "libs/quiz/src/GroupQuiz.cpp", "libs/quiz/src/ListQuiz.cpp", "libs/quiz/src/QuizLauncher.cpp",
       "libs/kanji/src/KanjiData.cpp", "libs/kanji/src/ListFile.cpp", "libs/kanji/src/Kanji.cpp", "libs/utils/src/String.cpp"]
REVIEW, QUIZ = 0, 1


def T(s):
    return Rope(1, (Lit(list(s.encode())),))


def dec(ex, st, v, w=16):
    return stl.decimal(ex, st, v, w, False)


def texts(ex, st, at, name):
    """a list of any texts"""
    n = sym_int(ex, st, name + ".size", 64)
    st.assume(cmp('ult', n, 1 << 30, 64))
    a = ex.new_obj(st, 'src', None, name)
    o = st.mem[a.obj]
    o.texts, o.ew, o.n, o.const = ex.fresh_texts(name), 32, n, True
    end = Ptr(a.obj, Lin.of(n, 32))
    for k, v in enumerate((a, end, end)):
        ex.store_raw(st, at + 8 * k, 8, v)
    return a, n


def launcher(ex, st):
    """what a quiz gets from its launcher: the mode, the quit option and where to print"""
    q = ex.new_obj(st, 'cells', layout(ex, "SizeLauncher"), "launcher")
    mode = sym_int(ex, st, "mode", 32)
    st.assume(cmp('ule', mode, QUIZ, 32))
    ex.store_raw(st, q + layout(ex, "LauncherMode"), 4, mode)
    quit_ = sym_int(ex, st, "quit", 8)
    c = q + layout(ex, "LauncherChoice") + layout(ex, "ChoiceQuit")
    ex.store_raw(st, c, 1, quit_)
    ex.store_raw(st, c + 1, 1, 1)
    out = output.new(ex, st)
    d = ex.new_obj(st, 'cells', layout(ex, "SizeData"), "data")
    ex.store_raw(st, d + layout(ex, "DataOut"), 8, out)
    g = ex.new_obj(st, 'cells', layout(ex, "SizeGroupData"), "groups")
    ex.store_raw(st, g + layout(ex, "GroupsData"), 8, d)
    ex.store_raw(st, g + layout(ex, "GroupsData") + 8, 8, NULL)
    ex.store_raw(st, q + layout(ex, "LauncherGroups"), 8, g)
    ex.store_raw(st, q + layout(ex, "LauncherGroups") + 8, 8, NULL)
    st.ghost['launcher'] = (q, mode, quit_, out)
    return q


def quiz(ex, st, size):
    """any quiz in progress"""
    p = ex.new_obj(st, 'cells', layout(ex, size), "quiz")
    ex.store_raw(st, p + layout(ex, "QuizLauncher"), 8, launcher(ex, st))
    c, q, m = sym_int(ex, st, "correct", 16), sym_int(ex, st, "question", 16), zext(sym_int(ex, st, "meanings", 1), 1, 8)
    ex.store_raw(st, p + layout(ex, "QuizCorrect"), 2, c)
    ex.store_raw(st, p + layout(ex, "QuizQuestion"), 2, q)
    ex.store_raw(st, p + layout(ex, "QuizMeanings"), 1, m)
    a, n = texts(ex, st, p + layout(ex, "QuizMistakes"), "mistakes")
    st.ghost['quiz'] = (p, c, q, m, a, n)
    return p


def mistakes(ex, st):
    """what was added to the mistakes"""
    p, c, q, m, a, n = st.ghost['quiz']
    b = ex.load_raw(st, p + layout(ex, "QuizMistakes"), 8)
    if b.obj == a.obj:
        return ()
    t = st.mem[b.obj].tail
    return t[1] if t is not None else None


def said(ex, st, text):
    ex.oblige(st.fork(), rope_eq(ex, st, output.written(ex, st, st.ghost['launcher'][3]), text), "the text printed", "postcondition")


def now(ex, st, nm, w):
    return cell_value(ex, st, st.ghost['quiz'][0] + layout(ex, nm), w // 8)


def state_cells(ex, st):
    p, c, q, m, a, n = st.ghost['quiz']
    out = st.ghost['launcher'][3]
    return [(p + layout(ex, "QuizMistakes") + 8 * k, 8) for k in range(3)] + [(p + layout(ex, "QuizCorrect"), 2), (out + output.TEXT, 32)]


def right(ex, st, text=None):
    """one more answer counted right, nothing else"""
    p, c, q, m, a, n = st.ghost['quiz']
    c1 = binop('add', c, 1, 16)
    ex.oblige(st.fork(), cmp('eq', now(ex, st, "QuizCorrect", 16), c1, 16), "one more right answer", "postcondition")
    ex.oblige(st.fork(), int(mistakes(ex, st) == ()), "no mistake is added", "postcondition")
    q1 = binop('add', zext(q, 16, 64), 1, 64)
    said(ex, st, T("  Correct! (") + dec(ex, st, c1) + T("/") + stl.decimal(ex, st, q1, 64, False) + T(")\n"))


def wrong(ex, st, name, text):
    """the question is added to the mistakes, nothing is counted right"""
    p, c, q, m, a, n = st.ghost['quiz']
    ex.oblige(st.fork(), cmp('eq', now(ex, st, "QuizCorrect", 16), c, 16), "no right answer is counted", "postcondition")
    ms = mistakes(ex, st)
    ex.oblige(st.fork(), int(ms is not None and len(ms) == 1), "one mistake is added", "postcondition")
    if ms is not None and len(ms) == 1:
        ex.oblige(st.fork(), rope_eq(ex, st, ms[0], name), "it is the one of the question", "postcondition")
    said(ex, st, T("  Incorrect") + text)


def mk_correct():
    return Fn(K + "Quiz::correctMessage", [], 'any', lambda ex, st: [quiz(ex, st, "SizeGroupQuiz")],
              lambda ex, st, p: [Case("right", 1, ret=lambda ex, s, oc: right(ex, s), owns=state_cells(ex, st))], srcs=SRC, nocall=True,
              title="counting a right answer", cmd="quiz count")


def mk_incorrect():
    def cases(ex, st, p, n):
        name = ex.rope(st, n)
        return [Case("wrong", 1, ret=lambda ex, s, oc: wrong(ex, s, name, Rope(1)), owns=state_cells(ex, st))]
    return Fn(K + "Quiz::incorrectMessage", None, 'any', lambda ex, st: [quiz(ex, st, "SizeGroupQuiz"), sym_str(ex, st, "name")], cases, srcs=SRC, nocall=True,
              title="counting a wrong answer", cmd="quiz count")


def kanjis(ex, st):
    """all kanji: each has a reading and a meaning"""
    p = ex.new_obj(st, 'cells', None, "kanjis")
    o = st.mem[p.obj]
    vt = [(g, m) for m in ex.modules for g in m.globals if g == "_ZTVN11kanji_tools7VcKanjiE"]
    v = ex.global_ptr(st, vt[0][0], vt[0][1]) + 16
    parts = {layout(ex, n): ex.fresh_texts(n) for n in ("Reading", "Meaning")}

    def fields(ex, st, off, ty):
        i = Lin(0, off.t).val() if hasattr(off, 't') else None
        if ty is not None and ty.kind == 'ptr' and off.c == 0:
            return v
        if ty is None and off.c in parts:
            return parts[off.c](ex, st, i)
        return None
    o.fields = fields
    o.const = True
    return p, {n: parts[layout(ex, n)] for n in ("Reading", "Meaning")}


def same_text(ex, st, x, y):
    """texts are told apart by a number each"""
    a, b = x.single(), y.single()
    if a is None or b is None or not (isinstance(a.src.key, tuple) and isinstance(b.src.key, tuple) and a.src.key[0] == b.src.key[0] == 'elem'):
        return rope_eq(ex, st, x, y, exact=True)
    return cmp('eq', ex.elem_value(a.src, "text", 64), ex.elem_value(b.src, "text", 64), 64)


def kanji_list(ex, st, n, of, name):
    a = ex.new_obj(st, 'src', None, name)
    o = st.mem[a.obj]
    o.src, o.ew, o.n, o.const, o.ptrs = arr_src(ex.fresh_arr(name, 8), n), 16, n, True, of.obj
    l = ex.new_obj(st, 'cells', 24, name)
    end = Ptr(a.obj, Lin.of(n, 16))
    for k, v in enumerate((a, end, end)):
        ex.store_raw(st, l + 8 * k, 8, v)
    return l, o.src


def letter(i):
    """choice for place i, the way the readings are listed: a .. z, A .. Z"""
    return b_ite(cmp('ult', i, 26, 8), binop('add', i, 97, 8), binop('add', i, 65 - 26, 8), 8)


def mk_check():
    def setup(ex, st):
        ex.str_eq = same_text
        p = quiz(ex, st, "SizeGroupQuiz")
        ks, parts = kanjis(ex, st)
        n, m = sym_int(ex, st, "members", 64), sym_int(ex, st, "answers", 64)
        st.assume(b_and(cmp('ule', 1, n, 64), cmp('ule', n, 52, 64), cmp('ule', m, n, 64)))
        qs, q = kanji_list(ex, st, n, ks, "questions")
        rs, r = kanji_list(ex, st, n, ks, "readings")
        arr = ex.fresh_arr("answer", 1)

        def place(k):
            v = z3.Select(arr, bv(k, 64))
            return b_ite(cmp('ult', zext(v, 8, 64), n, 64), v, 0, 8)
        a = ex.new_obj(st, 'src', None, "answers")
        o = st.mem[a.obj]
        o.src, o.ew, o.n, o.const = Src(('answers', str(arr)), lambda k: letter(place(k)), m), 1, m, True
        end = Ptr(a.obj, Lin.of(m, 1))
        for k, v in enumerate((a, end, end)):
            ex.store_raw(st, p + layout(ex, "GroupAnswers") + 8 * k, 8, v)
        st.ghost['group'] = (n, m, q, r, place, parts)
        return [p, qs, rs, sym_str(ex, st, "name")]

    def auto(ex, st, args):
        n, m, q, r, place, parts = st.ghost['group']
        show = cmp('ne', st.ghost['quiz'][3], 0, 8)

        def good(k):
            i = zext(place(k), 8, 64)
            x, y = q.at(k), r.at(i)
            same = lambda n: same_text(ex, st, parts[n](ex, st, x), parts[n](ex, st, y))
            return b_and(same("Reading"), b_or(b_not(show), same("Meaning")))
        return [Auto("answers", {'k': ('int', 64), 'c': ('int', 64)}, {'k': 0, 'c': 0}, lambda g: cmp('ult', g['k'], m, 64),
                     lambda g: {'k': add64(g['k'], 1), 'c': add64(g['c'], b_ite(good(g['k']), 1, 0, 64))},
                     pos=["k"], facts=[("position within the answers", lambda g: cmp("ule", g["k"], m, 64)), ("no more right answers than answers", lambda g: cmp("ule", g["c"], g["k"], 64))],
                     variant=lambda g: sub64(m, g["k"]))]

    def cases(ex, st, p, qs, rs, nm):
        m = st.ghost['group'][1]
        name = ex.rope(st, nm)

        def ret(ex, s, oc):
            A = next(a for a in ex.ghost_specs if a.name == "answers")
            for cond, g, base, extra in A.finals(ex, s):
                if not ex.feasible(s, cond):
                    continue
                all_ = cmp('eq', g['c'], m, 64)
                for ok in (True, False):
                    c = b_and(cond, all_ if ok else b_not(all_))
                    if not ex.feasible(s, c):
                        continue
                    s2 = s.fork()
                    s2.assume(c)
                    if ok:
                        right(ex, s2)
                    else:
                        wrong(ex, s2, name, T(" (got ") + stl.decimal(ex, s2, g['c'], 64, False) + T(" right out of ") +
                              stl.decimal(ex, s2, m, 64, False) + T(")\n"))
        return [Case("checked", 1, ret=ret, owns=state_cells(ex, st))]
    return Fn(K + "GroupQuiz::checkAnswers", None, 'any', setup, cases, auto=auto, srcs=SRC, nocall=True, title="checking the answers for a group",
              cmd="quiz group")


def mk_final():
    def setup(ex, st):
        p = quiz(ex, st, "SizeQuiz")
        x, c, q, m, a, n = st.ghost['quiz']
        st.assume(cmp('ule', add64(zext(c, 16, 64), n), zext(q, 16, 64), 64))
        return [p]

    def auto(ex, st, args):
        p, c, q, m, a, n = st.ghost['quiz']
        at = st.mem[a.obj].texts
        return [Auto("names", {'g': ('int', 64)}, {'g': 0}, lambda g: cmp('ult', g['g'], n, 64), lambda g: {'g': add64(g['g'], 1)},
                     gens={'names': ('names', lambda g: [(1, T(" ") + at(ex, st, g['g']))], None)}, pos=['g'],
                     facts=[("position within the mistakes", lambda g: cmp('ule', g['g'], n, 64))], variant=lambda g: sub64(n, g['g']))]

    def cases(ex, st, p):
        x, c, q, m, a, n = st.ghost['quiz']
        mode = st.ghost['launcher'][1]
        out = (st.ghost['launcher'][3] + output.TEXT, 32)
        score = lambda s: T("\nFinal score: ") + dec(ex, s, c) + T("/") + dec(ex, s, q)
        skipped = sub64(sub64(zext(q, 16, 64), zext(c, 16, 64)), n)
        none, some = cmp('eq', q, 0, 16), cmp('ne', skipped, 0, 64)
        sk = lambda s: T(", skipped: ") + stl.decimal(ex, s, skipped, 64, False)
        miss = cmp('ne', n, 0, 64)
        test = cmp('eq', mode, QUIZ, 32)

        def text(f):
            return lambda ex, s, oc: said(ex, s, f(s))

        def listed(pre):
            def ret(ex, s, oc):
                A = next(y for y in ex.ghost_specs if y.name == "names")
                for cond, g, base, extra in A.finals(ex, s):
                    if not ex.feasible(s, cond):
                        continue
                    s2 = s.fork()
                    s2.assume(cond)
                    r = pre(s2) + T(" - mistakes:")
                    if not is_c(base['len:names']):
                        r = r + Rope(1, (A.gen_piece('names', base),))
                    for _, e in extra['names'] or ():
                        r = r + e
                    said(ex, s2, r + T("\n"))
            return ret
        ok = b_and(test, b_not(none))
        return [Case("review", b_not(test), ret=text(lambda s: Rope(1)), owns=[(p, 8)]),
                Case("no questions", b_and(test, none), ret=text(lambda s: score(s) + T("\n")), owns=[out, (p, 8)]),
                Case("perfect", b_and(ok, b_not(some), b_not(miss)), ret=text(lambda s: score(s) + T(" - Perfect!\n")), owns=[out, (p, 8)]),
                Case("skipped", b_and(ok, some, b_not(miss)), ret=text(lambda s: score(s) + sk(s) + T("\n")), owns=[out, (p, 8)]),
                Case("mistakes", b_and(ok, b_not(some), miss), ret=listed(score), owns=[out, (p, 8)]),
                Case("skipped and mistakes", b_and(ok, some, miss), ret=listed(lambda s: score(s) + sk(s)), owns=[out, (p, 8)])]
    return Fn(K + "Quiz::~Quiz", None, 'any', setup, cases, auto=auto, srcs=SRC, nocall=True, title="the final score", cmd="quiz final")


def mk_begin():
    """where a quiz starts: at the given question, counted from one"""
    def cases(ex, st, p, total):
        x, c, q, m, a, n = st.ghost['quiz']
        over = cmp('ult', total, zext(q, 16, 64), 64)
        mode = st.ghost['launcher'][1]
        out = (st.ghost['launcher'][3] + output.TEXT, 32)
        q1 = b_ite(cmp('eq', q, 0, 16), 0, binop('sub', q, 1, 16), 16)
        cs = [Case("beyond the questions", over, throws="DomainError")]
        for v, t in ((QUIZ, "quiz"), (REVIEW, "review")):
            def ret(ex, s, oc, t=t):
                said(ex, s, T(">>>\n>>> Starting " + t + " for ") + stl.decimal(ex, s, total, 64, False) + T(" "))
            cs.append(Case(t, b_and(b_not(over), cmp('eq', mode, v, 32)), ret=ret, owns=[out], writes=[(x + layout(ex, "QuizQuestion"), 2, q1)]))
        return cs
    return Fn(K + "Quiz::beginQuizMessage", None, 'any', lambda ex, st: [quiz(ex, st, "SizeQuiz"), sym_int(ex, st, "questions", 64)], cases, srcs=SRC, nocall=True,
              title="where a quiz starts", cmd="quiz begin")



MEANINGS, PREV, SKIP = ord('-'), ord(','), ord('.')
CHOICES = maps.Base("choices", gen=lambda ex, st, key: {0: (32, any_text(ex, st))})
MAP = "std::map<char, std::string, std::less<char>, std::allocator<std::pair<char const, std::string > > > const&"


def any_text(ex, st):
    arr, n = ex.fresh_arr("text", 1), ex.fresh("text.len", 64)
    st.assume(cmp('ult', n, MAXLEN, 64))
    st.assume(z3.Select(arr, n) == 0)
    return Rope(1, (Sl(arr_src(arr, n), 0, n),))


def choices(ex, st):
    p = ex.new_obj(st, 'cells', 48, "choices")
    ex.store_raw(st, p, 48, maps.MapV(CHOICES, (), 'char', 'std::string'))
    return p


def mapped(ex, st, p, key):
    m = ex.load_raw(st, p, 48)
    for k, node in m.entries:
        if is_c(k) and k == key:
            return ex.rope(st, node + maps.voff(ex, m.kt, m.vt))
    if m.base is None:
        return None
    has, node = maps.basenode(ex, st, m.base, key, m.kt, m.vt)
    return ex.rope(st, node + maps.voff(ex, m.kt, m.vt))


def chosen(ex, st, *a):
    """the user's choice: any character (which ones are offered is up to Choice)"""
    if 'answer' not in st.ghost:
        raise Unsupported("a choice")
    if st.ghost.get('asked'):
        raise Unsupported("asked twice")
    st.ghost['asked'] = True
    return [Case("a choice", cmp('eq', st.ghost['refused'], 0, 1), ret=st.ghost['answer']), Case("no choices", cmp('ne', st.ghost['refused'], 0, 1), throws="DomainError")]


def offered(numbers):
    def pre(ex, st, p, *a):
        if 'list' not in st.ghost:
            return []
        q, end, m = st.ghost['list'][:3]
        mode = cmp('eq', st.ghost['launcher'][1], QUIZ if numbers else REVIEW, 32)
        out = [("the choices fit the mode", mode)]
        if numbers:
            lo, hi = (trunc(a[0], 16, 8), simp(z3.Extract(15, 8, bv(a[0], 16)))) if not isinstance(a[0], Ptr) else (None, None)
            out += [("the answers are numbered from one", cmp('eq', lo, 49, 8)), ("to the number of choices", cmp('eq', hi, end, 8))]
        return out
    return pre


DEPS = [Fn(K + "Choice::get", ["std::pair<char, char>", "std::string const&", MAP], 8, None, chosen, pre=offered(True)),
        Fn(K + "Choice::get", ["std::string const&", "bool", MAP, "std::optional<char>"], 8, None, chosen, pre=offered(False))]


def mk_answer():
    def setup(ex, st):
        p = quiz(ex, st, "SizeListQuiz")
        end = sym_int(ex, st, "last", 8)
        ex.store_raw(st, p + layout(ex, "ListEnd"), 1, end)
        ex.set_rope(st, p + layout(ex, "ListPrompt"), any_text(ex, st))
        m = choices(ex, st)
        stop = out_cell(ex, st, 1, "stop", 0)
        k = sym_int(ex, st, "right", 16)
        st.assume(cmp('ult', k, 9, 16))
        a = st.ghost['answer'] = sym_int(ex, st, "answer", 8)
        st.ghost['refused'] = sym_int(ex, st, "refused", 1)
        quit_ = st.ghost['launcher'][2]
        st.assume(b_and(*[cmp('ne', quit_, x, 8) for x in [MEANINGS, PREV, SKIP] + list(range(49, 58))]))
        st.ghost['list'] = (p, end, m, stop)
        return [p, m, stop, k, sym_str(ex, st, "name")]

    def cases(ex, st, p, m, stop, k, nm):
        x, c, q, sh, lst, n = st.ghost['quiz']
        a, quit_ = st.ghost['answer'], st.ghost['launcher'][2]
        name = ex.rope(st, nm)
        good = binop('add', trunc(k, 16, 8), 49, 8)
        show = x + layout(ex, "QuizMeanings")
        sh1 = binop('xor', sh, 1, 8)

        def is_(*not_these, of=None):
            return b_and(*[cmp('ne', a, y, 8) for y in not_these], cmp('eq', a, of, 8) if of is not None else 1)

        def toggled(ex, s, oc):
            ex.oblige(s.fork(), cmp('eq', oc.v, 0, 1), "the question is repeated", "postcondition")
            for v, t in ((0, "show meanings"), (1, "hide meanings")):
                if ex.feasible(s, cmp('eq', sh1, v, 8)):
                    s2 = s.fork()
                    s2.assume(cmp('eq', sh1, v, 8))
                    ex.oblige(s2.fork(), rope_eq(ex, s2, mapped(ex, s2, m, MEANINGS), T(t)), "the choice says what it will do", "postcondition")
            said(ex, s, Rope(1))

        def then(f):
            def ret(ex, s, oc):
                ex.oblige(s.fork(), cmp('eq', oc.v, 1, 1), "the question is done", "postcondition")
                f(ex, s)
            return ret
        quiet = lambda ex, s: said(ex, s, Rope(1))
        ok = cmp('eq', st.ghost['refused'], 0, 1)
        return [Case("no choices", b_not(ok), throws="DomainError"),
                Case("meanings", b_and(ok, is_(of=MEANINGS)), ret=toggled, writes=[(show, 1, sh1)], owns=[(m, 48)]),
                Case("quit", b_and(ok, is_(of=quit_)), ret=then(quiet), writes=[(stop, 1, 1)]),
                Case("back", b_and(ok, is_(of=PREV)), ret=then(quiet), writes=[(x + layout(ex, "QuizQuestion"), 2, binop('sub', q, 2, 16))]),
                Case("right", b_and(ok, is_(quit_, of=good)), ret=then(right), owns=state_cells(ex, st)),
                Case("skipped", b_and(ok, is_(quit_, of=SKIP)), ret=then(quiet)),
                Case("wrong", b_and(ok, is_(MEANINGS, quit_, PREV, good, SKIP)),
                     ret=then(lambda ex, s: wrong(ex, s, name, T(" (correct answer is ") + Rope(1, (Lit([good]),)) + T(")\n"))), owns=state_cells(ex, st))]
    return Fn(K + "ListQuiz::getAnswer", None, 'any', setup, cases, srcs=SRC, nocall=True, title="the answer to a question of a list", cmd="quiz answer")


def mk_default():
    """the choices every question has"""
    def setup(ex, st):
        p = quiz(ex, st, "SizeQuiz")
        return [p, sym_int(ex, st, "questions", 64)]

    def cases(ex, st, p, total):
        x, c, q, sh, lst, n = st.ghost['quiz']
        test = cmp('eq', st.ghost['launcher'][1], QUIZ, 32)
        last = cmp('eq', add64(zext(q, 16, 64), 1), total, 64)
        out = []
        for sv in (0, 1):
            for sk, g in (("finish", last), ("next", b_and(b_not(last), b_not(test))), ("skip", b_and(b_not(last), test))):
                for back in (False, True):
                    bg = b_and(b_not(test), cmp('ne', q, 0, 16))

                    def ret(ex, s, sv=sv, sk=sk, back=back):
                        want = {MEANINGS: "hide meanings" if sv else "show meanings", SKIP: sk}
                        if back:
                            want[PREV] = "prev"
                        ms = ex.load_raw(s, s.ghost['result'], 48)
                        ex.oblige(s.fork(), int(ms.base is None and sorted(k for k, _ in ms.entries) == sorted(want)), "the choices", "postcondition")
                        for k, t in want.items():
                            v = mapped(ex, s, s.ghost['result'], k)
                            if v is not None:
                                ex.oblige(s.fork(), rope_eq(ex, s, v, T(t)), "what the choice is called", "postcondition")
                    out.append(Case(f"{'hide' if sv else 'show'}, {sk}{', back' if back else ''}", b_and(cmp('eq', sh, sv, 8), g, bg if back else b_not(bg)),
                                    ret=lambda ex, s, oc, ret=ret: ret(ex, s)))
        return out

    def setup2(ex, st):
        r = ex.new_obj(st, 'cells', 48, "result")
        st.ghost['result'] = r
        return [r] + setup(ex, st)
    return Fn(K + "Quiz::getDefaultChoices", None, 'any', setup2, lambda ex, st, r, p, t: [Case(c.name, c.guard, ret=c.ret, owns=[(r, 48)]) for c in cases(ex, st, p, t)],
              srcs=SRC, nocall=True, title="the choices of every question", cmd="quiz choices")


JOUYOU = 0


def mk_include():
    """which members of a group are asked"""
    def setup(ex, st):
        p = quiz(ex, st, "SizeGroupQuiz")
        t = sym_int(ex, st, "members", 32)
        st.assume(cmp('ule', t, 3, 32))
        ex.store_raw(st, p + layout(ex, "GroupMembers"), 4, t)
        k = order.a_kanji(ex, st, "kanji")
        ex.str_cmp = ex.str_eq = None
        st.ghost['member'] = t
        return [p, k]

    def cases(ex, st, p, k):
        t = st.ghost['member']
        g = lambda n, w: order.get(ex, st, k, n, w)
        reading = cmp('ne', ex.rope(st, k + layout(ex, "Reading")).length(), 0, 64)
        jlpt, freq = cmp('ne', g("Level", 8), order.LNONE, 8), cmp('ne', g("Frequency", 16), 0, 16)
        at = lambda v: cmp('uge', t, v, 32)
        yes = b_and(reading, b_or(cmp('eq', g("Type", 8), order.JOUYOU, 8), b_and(at(1), jlpt), b_and(at(2), freq), at(3)))
        return [Case("asked", yes, ret=1), Case("left out", b_not(yes), ret=0)]
    return Fn(K + "GroupQuiz::includeMember", None, 'bool', setup, cases, srcs=SRC, nocall=True, title="members of a group that are asked", cmd="quiz member")


QUIZ_FNS = [mk_correct(), mk_incorrect(), mk_check(), mk_final(), mk_begin(), mk_answer(), mk_default(), mk_include()]
