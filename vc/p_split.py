"""Contracts of command line splitting: split_winmain (C23), split_unix (C15)."""
from model import *
from task import Task, outcome_post
import sp, task, lib
from sp import *
from p_cmdline import slots_of, fnode as _fn

# ---- Windows rules as a fold over the characters; st_*(s, k): the state after the first k characters
def space(c): return fn('isspace', 'B', c)
def ch(e, x): return eq(e, x)
def halves(n): return V(lib.rep_term('\\', tm.div(n.t, I(2))))
def slashes(n): return V(lib.rep_term('\\', n.t))
def even(n): return V(Eq(tm.mod(n.t, I(2)), I(0)))
BSL = Prec('win_bs', 'I', 0, lambda prev, e, k, s: ite(ch(e, '\\'), prev + 1, lift(0)))
QUO = Prec('win_quoted', 'B', False, lambda prev, e, k, s: ite(And(ch(e, '"'), even(BSL(s, k, s))), Not(prev), prev))
def brk(e, k, s): return And(Not(ch(e, '"')), Not(ch(e, '\\')), space(e), Not(QUO(s, k, s)))      # a separating space
SKP = Prec('win_skip', 'B', True, lambda prev, e, k, s: brk(e, k, s))                                # between arguments
CURP = Prec('win_cur', 'S', '', lambda prev, e, k, s: ite(ch(e, '"'), prev + halves(BSL(s, k, s)) + ite(even(BSL(s, k, s)), lift(''), lift('"')),
                                                       ite(ch(e, '\\'), prev, ite(brk(e, k, s), lift(''), prev + slashes(BSL(s, k, s)) + V(e.t)))))
EMQ = Prec('win_emptyq', 'B', False, lambda prev, e, k, s: ite(And(ch(e, '"'), even(BSL(s, k, s))), And(QUO(s, k, s), empty(CURP(s, k, s) + halves(BSL(s, k, s)))), ite(brk(e, k, s), lift(False), prev)))
ARG = Prec('win_args', QS, (), lambda prev, e, k, s: ite(And(brk(e, k, s), Not(SKP(s, k, s))), V(tm.cat2(prev.t, tm.unit((CURP(s, k, s) + slashes(BSL(s, k, s))).t))), prev))
FACTS['win_bs'] = (lambda f0: lambda t: f0(t) + [Ge(t, I(0))])(FACTS['win_bs']); tm.NONNEG_FN.add('win_bs')
COMP = [('quoted', 'B', QUO), ('empty quoted', 'B', EMQ), ('current argument', 'S', CURP), ('backslashes', 'I', BSL), ('arguments', QS, ARG)]
def win_result(s):
    n = ln(s); c = CURP(s, n, s) + slashes(BSL(s, n, s))
    return ite(Or(Not(empty(c)), QUO(s, n, s), EMQ(s, n, s)), V(tm.cat2(ARG(s, n, s).t, tm.unit(c.t))), ARG(s, n, s))
for p in (BSL, QUO, SKP, CURP, EMQ, ARG): p.always = False
def unfold(ex, s, k):
    """definitions at the next character"""
    for nm, so, p in COMP + [('skip', 'B', SKP)]:
        ex.c.assume(Eq(p(s, k + 1, s).t, p._step(s.t, k.t, (s.t,))))
def tpl_win(L):
    d = L.ex.c.tag
    if not d or 'win' not in d: return
    s = d['win']
    for i, v, m in L.sl:
        if not (isinstance(v, It) and m): continue
        k = lambda i=i: V(L.cval(i))
        e0 = V(L.eload(i)) if L.eload(i) is not None else None
        yield ('%r between arguments' % i, lambda k=k: SKP(s, k(), s).t)
        yield ('%r an argument starts' % i, lambda k=k: tm.Implies(tm.And(SKP(s, k(), s).t, Lt(k().t, len_(s.t))), tm.Not(space(s[k()]).t)))
        for nm, so, p in COMP:
            if nm == 'backslashes': yield ('%r no backslashes' % i, lambda k=k, p=p: Eq(p(s, k(), s).t, I(0)))
            if nm == 'quoted' or nm == 'empty quoted': yield ('%r not %s' % (i, nm), lambda k=k, p=p: tm.Not(p(s, k(), s).t))
            if nm == 'current argument': yield ('%r no current argument' % i, lambda k=k, p=p: Eq(p(s, k(), s).t, S('')))
            if nm == 'arguments': yield ('%r no arguments' % i, lambda k=k, p=p: Eq(p(s, k(), s).t, tm.empty(QS)))
            for q in slots_of(L, so):
                yield ('%r is the %s at %r' % (q, nm, i), lambda q=q, k=k, p=p: Eq(L.cval(q), p(s, k(), s).t))
                if e0 is not None: yield ('%r is the %s at %r after the first' % (q, nm, i), lambda q=q, k=k, p=p, e0=e0: tm.Implies(Gt(k().t, e0.t), Eq(L.cval(q), p(s, k(), s).t)))
        if e0 is not None:
            yield ('%r between arguments after the first' % i, lambda k=k, e0=e0: tm.Implies(Gt(k().t, e0.t), SKP(s, k(), s).t))
            yield ('%r is not before' % i, lambda k=k, e0=e0: Ge(k().t, e0.t))
def h_isspace(ex, args, n):
    v = ex.load(args[0])
    return space(V(ex.to_term(v, 'S'))).t
def winmach(prog):
    m = machine(prog, None, {'free:isspace': h_isspace})
    return m
def T_winmain(prog):
    m = winmach(prog); nd = next(n for n in prog.function('program_options::split_winmain') if 'wstring' not in n['type']['qualType'])
    def setup(ex):
        s = ex.c.fresh('input', 'S'); ex.c.assume(Lt(len_(s), I(2**31))); ex.c.tag = dict(win=V(s))
        ex.c.assume(tm.Not(space(lift('"')).t)); ex.c.assume(tm.Not(space(lift('\\')).t))
        return dict(this=None, args=[ex.new_cell('input', s)], s=V(s))
    return Task('split_winmain', m, nd, setup, outcome_post(lambda ex, e: (win_result(e['s']), []), 'split_winmain'), templates=[tpl_win])

# ---- Unix rules: a fold over the characters; es, cs, qs: the escape, separator and quote characters
def isin(c, st): return has(st, c)
PEN = Prec('ux_pending', 'B', False, lambda prev, e, k, s, es, cs, qs: And(Not(prev), isin(e, es)))
INQ = Prec('ux_inq', 'B', False, lambda prev, e, k, s, es, cs, qs: ite(And(Not(PEN(s, k, s, es, cs, qs)), And(Not(isin(e, es)), And(Not(isin(e, cs)), isin(e, qs)))), Not(prev), prev))
def escd(e, es, cs, qs): return Or(Or(ch(e, 'n'), isin(e, qs)), Or(isin(e, cs), isin(e, es)))
def seps(s, k, e, es, cs, qs): return And(And(Not(PEN(s, k, s, es, cs, qs)), Not(INQ(s, k, s, es, cs, qs))), And(Not(isin(e, es)), isin(e, cs)))
def _tok(prev, e, k, s, es, cs, qs):
    p = (s, es, cs, qs)
    return ite(PEN(s, k, *p), prev + ite(ch(e, 'n'), lift('\n'), V(e.t)),
               ite(isin(e, es), prev, ite(isin(e, cs), ite(INQ(s, k, *p), prev + V(e.t), lift('')), ite(isin(e, qs), prev, prev + V(e.t)))))
TOK = Prec('ux_tok', 'S', '', _tok)
BAD = Prec('ux_bad', 'B', False, lambda prev, e, k, s, es, cs, qs: Or(prev, And(PEN(s, k, s, es, cs, qs), Not(escd(e, es, cs, qs)))))
RES = Prec('ux_res', QS, (), lambda prev, e, k, s, es, cs, qs: ite(And(seps(s, k, e, es, cs, qs), Not(empty(TOK(s, k, s, es, cs, qs)))), V(tm.cat2(prev.t, tm.unit(TOK(s, k, s, es, cs, qs).t))), prev))
FACTS['ux_bad'] = (lambda f0: lambda t: f0(t) + ([tm.Implies(tm.And(t, Ge(t.args[2], I(0)), Le(t.args[2], len_(t.args[1]))), app('ux_bad', (t.args[1], len_(t.args[1])) + t.args[3:], 'B'))] if t.args[2] is not len_(t.args[1]) else []))(FACTS['ux_bad'])
def _ahead(f0):
    def f(t):
        out = list(f0(t)); co, c = tm.lin(t.args[2])
        if t.args[2].op != 'int' and c == 0 and not any(x.op == 'len' for x in co):
            xs, k, ps = t.args[1], t.args[2], t.args[3:]; n = len_(xs)
            for d in (1, 2):
                kd = tm.add(k, I(d)); b = app('ux_bad', (xs, kd) + ps, 'B')
                out += [tm.Implies(tm.And(Ge(k, I(0)), Le(kd, n)), tm.And(Eq(b, BAD._step(xs, tm.sub_i(kd, I(1)), ps)), Eq(app('ux_pending', (xs, kd) + ps, 'B'), PEN._step(xs, tm.sub_i(kd, I(1)), ps)))),
                        tm.Implies(tm.And(b, Ge(k, I(0)), Le(kd, n)), app('ux_bad', (xs, n) + ps, 'B'))]
        return out
    return f
FACTS['ux_pending'] = _ahead(FACTS['ux_pending'])
def ux_result(s, es, cs, qs):
    n = ln(s); p = (s, es, cs, qs)
    if Or(BAD(s, n, *p), PEN(s, n, *p)): raise SpecThrow('escaped_list_error')
    return ite(empty(TOK(s, n, *p)), RES(s, n, *p), V(tm.cat2(RES(s, n, *p).t, tm.unit(TOK(s, n, *p).t))))
def by_name(ex, rec, nm, k): return ex.method_by_name(rec.cls, nm, k)
def ux_hooks():
    def isit(v): return isinstance(v, Rec) and v.cls.startswith('token_iterator')
    def facade(ex, args, n, neg):
        a, b = ex.load(args[0]), ex.load(args[1])
        if not isit(a): return None
        pa = args[0] if isinstance(args[0], Place) else ex.new_cell('fa', a); pb = args[1] if isinstance(args[1], Place) else ex.new_cell('fb', b)
        t = ex.truth(ex.load(ex.call_node(by_name(ex, a, 'equal', 1), pa, [pb], n)))
        return (tm.Not(t) if neg else t,)
    def inc(ex, args, n):
        a = ex.load(args[0])
        if isit(a): ex.call_node(by_name(ex, a, 'increment', 0), args[0], [], n); return (args[0],)
    def star(ex, args, n):
        a = ex.load(args[0])
        if isit(a): return (ex.call_node(by_name(ex, a, 'dereference', 0), args[0], [], n),)
    def arrow(ex, args, n):
        r = star(ex, args, n)
        if r is None: return None
        return (Ptr(r[0] if isinstance(r[0], Place) else ex.new_cell('deref', r[0])),)
    def call(ex, f, args):
        if isinstance(f, Rec) and f.cls.startswith('escaped_list_separator'): raise Unsupported('call through a value')
    def find_if(ex, args, n):
        a, b, f = [ex.load(x) for x in args]
        if not (isinstance(f, Rec) and f.cls.startswith('char_eq')): return None
        st = ex.load(a.place); c = ex.to_term(ex.load(f.f['e_']), 'S')
        ex.c.assume(Eq(len_(c), I(1)))
        x = ex.c.fresh('any_char', 'S'); ex.c.assume(Eq(len_(x), I(1)))
        r = ex.truth(ex.load(ex.call_fn(f, [ex.new_cell('any_char', x)], n)))        # the predicate is equality with this character
        if r is not Eq(c, x): ex.c.oblige('predicate', 'char_eq compares with its character', Eq(r, Eq(c, x)))
        if ex.c.branch(tm.contains(st, c)): return It(a.place, tm.index(st, c, I(0)))
        return b
    return {'operator!=': lambda ex, a, n: facade(ex, a, n, True), 'operator==': lambda ex, a, n: facade(ex, a, n, False), 'operator++': inc, 'operator*': star, 'operator->': arrow, 'free:find_if': find_if}
def tpl_ux(L):
    d = L.ex.c.tag
    if not d or 'ux' not in d: return
    s = d['ux'][0]; ps = d['ux']
    for i, v, m in L.sl:
        if not (isinstance(v, It) and m): continue
        k = lambda i=i: V(L.cval(i))
        yield ('%r no pending escape' % i, lambda k=k: tm.Not(PEN(s, k(), *ps).t))
        yield ('%r no error so far' % i, lambda k=k: tm.Not(BAD(s, k(), *ps).t))
        for q in slots_of(L, 'B', True):
            yield ('%r inside quotes at %r' % (q, i), lambda q=q, k=k: Eq(L.cval(q), INQ(s, k(), *ps).t))
        yield ('%r outside quotes' % i, lambda k=k: tm.Not(INQ(s, k(), *ps).t))
        for q in slots_of(L, 'S', True):
            yield ('%r the field at %r' % (q, i), lambda q=q, k=k: Eq(L.cval(q), TOK(s, k(), *ps).t))
        for q in slots_of(L, QS):
            yield ('%r the fields at %r' % (q, i), lambda q=q, k=k: Eq(L.cval(q), RES(s, k(), *ps).t))
        e0 = L.eload(i)
        if e0 is not None: yield ('%r no field ended' % i, lambda k=k, e0=e0: Eq(RES(s, k(), *ps).t, RES(s, V(e0), *ps).t))
    # the outer loop: a token iterator and the result
    for i, v, m in L.sl:
        if not (m and i.path and i.path[-1] == ('f', 'valid_')): continue
        o = Place(i.cell, i.path[:-1])
        for r in slots_of(L, QS, True):
            def g(o=o, r=r):
                x = L.ex.load(o); p = V(x.f['begin_'].pos); tok = V(L.ex.to_term(x.f['tok_'], 'S')); res = V(L.cval(r)); n = ln(s)
                full = ite(empty(tok), res, V(tm.cat2(res.t, tm.unit(tok.t)))); last = x.f['f_'].f['last_']; val = x.f['valid_']
                T_, R_ = TOK(s, p, *ps), RES(s, p, *ps)
                return x, p, tok, res, n, full, last, val, T_, R_
            def inv(g=g):
                x, p, tok, res, n, full, last, val, T_, R_ = g()
                sep = tm.And(Eq(T_.t, S('')), tm.Not(INQ(s, p, *ps).t), Eq(R_.t, full.t))
                end = tm.And(Eq(p.t, n.t), Eq(R_.t, res.t), Eq(T_.t, tok.t))
                return tm.Implies(val, tm.Ite(last, sep, end))
            def fin(g=g):
                x, p, tok, res, n, full, last, val, T_, R_ = g()
                return tm.Implies(tm.Not(val), tm.And(Eq(p.t, n.t), Eq(tm.Ite(Eq(len_(T_.t), I(0)), R_.t, tm.cat2(R_.t, tm.unit(T_.t))), res.t)))
            yield ('%r state of the tokenizer' % r, inv)
            yield ('%r all fields at the end' % r, fin)
            yield ('%r position' % (o,), lambda g=g: (lambda x: tm.And(Ge(x[1].t, I(0)), Le(x[1].t, x[4].t)))(g()))
            yield ('%r clean' % (o,), lambda g=g: (lambda x: tm.And(tm.Not(BAD(s, x[1], *ps).t), tm.Not(PEN(s, x[1], *ps).t)))(g()))
            yield ('%r last only when valid' % (o,), lambda g=g: (lambda x: tm.Implies(x[6], x[7]))(g()))
def var_ux(L):
    """three per remaining character, one for a token at hand, one for a pending empty field"""
    s = L.ex.c.tag['ux'][0]
    for i, v, m in L.sl:
        if m and i.path and i.path[-1] == ('f', 'valid_'):
            x = L.ex.load(Place(i.cell, i.path[:-1]))
            return tm.add(tm.sub_i(tm.mul(I(3), len_(s.t)), tm.mul(I(3), x.f['begin_'].pos)), tm.Ite(x.f['valid_'], I(1), I(0)), tm.Ite(x.f['f_'].f['last_'], I(1), I(0)))
def mk_split(wide):
    def T_(prog):
        m = machine(prog, None, ux_hooks()); m.force_cut.add('split_unix'); m.spec_arg = 'wchar_t' if wide else 'char'
        ty = 'std::wstring'
        m.class_sort.update({'basic_string<wchar_t>': 'S', 'std::wstring': 'S', 'wstring': 'S'})
        nd = next(n for n in prog.function('program_options::detail::split_unix') if ('IwE' in n.get('mangledName', '')) == wide and n.get('mangledName'))
        def setup(ex):
            c = ex.c; ps = [V(c.fresh(n, 'S')) for n in ('cmdline', 'seperator', 'quote', 'escape')]
            for p in ps: c.assume(Lt(len_(p.t), I(2**62)))
            s, cs, qs, es = ps; c.tag = dict(ux=(s, es, cs, qs))
            return dict(this=None, args=[ex.new_cell(n, p.t) for n, p in zip(('cmdline', 'sep', 'quote', 'esc'), ps)], ux=(s, es, cs, qs))
        return Task('split_unix<%s>' % ('wchar_t' if wide else 'char'), m, nd, setup, outcome_post(lambda ex, e: (ux_result(*e['ux']), []), 'split_unix'), templates=[tpl_ux], variants=[('remaining fields', var_ux)])
    return T_
T_split, T_wsplit = mk_split(False), mk_split(True)
def mk_wrap(wide):
    """the public overloads pass their arguments on"""
    def T_(prog):
        def c_split(ex, fn_, this, args):
            s, cs, qs, es = [V(ex.to_term(ex.load(a), 'S')) for a in args]
            try: return ux_result(s, es, cs, qs).t
            except SpecThrow as t: throw_spec(ex, t)
        m = machine(prog, {'program_options::detail::split_unix': c_split}, {})
        m.class_sort.update({'basic_string<wchar_t>': 'S', 'std::wstring': 'S', 'wstring': 'S'})
        nd = next(n for n in prog.function('program_options::split_unix') if ('wstring' in n['type']['qualType']) == wide)
        def setup(ex):
            ps = [V(ex.c.fresh(n, 'S')) for n in ('cmdline', 'seperator', 'quote', 'escape')]
            s, cs, qs, es = ps
            return dict(this=None, args=[ex.new_cell(n, p.t) for n, p in zip(('cmdline', 'sep', 'quote', 'esc'), ps)], ux=(s, es, cs, qs))
        return Task('split_unix(%s)' % ('wstring' if wide else 'string'), m, nd, setup, outcome_post(lambda ex, e: (ux_result(*e['ux']), []), 'split_unix'))
    return T_
T_uwrap, T_uwwrap = mk_wrap(False), mk_wrap(True)

# ---- the wide overload of split_winmain
WM = Prec('win_wide', QS, (), lambda prev, e, k: V(tm.cat2(prev.t, tm.unit(fn('from_utf8', 'S', e).t))))
FACTS['win_wide'] = (lambda f0: lambda t: f0(t) + [tm.Implies(Ge(t.args[2], I(0)), Eq(len_(t), t.args[2]))])(FACTS['win_wide'])
def T_wwinmain(prog):
    def c_win(ex, fn_, this, args): return win_result(V(ex.to_term(ex.load(args[0]), 'S'))).t
    def c_conv(nm): return lambda ex, fn_, this, args: app(nm, (ex.to_term(ex.load(args[0]), 'S'),), 'S')
    m = machine(prog, {'program_options::split_winmain': c_win, 'program_options::to_internal': c_conv('to_utf8')},
                {'free:from_utf8': lambda ex, args, n: app('from_utf8', (ex.to_term(ex.load(args[0]), 'S'),), 'S')})
    m.class_sort.update({'basic_string<wchar_t>': 'S', 'std::wstring': 'S', 'wstring': 'S'})
    nd = next(n for n in prog.function('program_options::split_winmain') if 'wstring' in n['type']['qualType'])
    def setup(ex):
        s = ex.c.fresh('input', 'S'); a = win_result(V(app('to_utf8', (s,), 'S'))); ex.c.tag = dict(aux=a)
        ex.c.assume(Lt(len_(a.t), I(2**62)))
        return dict(this=None, args=[ex.new_cell('input', s)], aux=a)
    def tpl(L):
        d = L.ex.c.tag
        if not d or 'aux' not in d: return
        for i in slots_of(L, 'I', True):
            for r in slots_of(L, QS, True):
                yield ('%r holds the first %r arguments' % (r, i), lambda r=r, i=i: Eq(L.cval(r), WM(d['aux'], V(L.cval(i))).t))
    return Task('split_winmain(wstring)', m, nd, setup, outcome_post(lambda ex, e: (WM(e['aux'], ln(e['aux'])), []), 'split_winmain'), templates=[tpl])

import g_split as gs
class P15(gs.C15):
    id = 'C15'; title = 'Unix command line splitting'
    tus = ['split', 'split@token_iterator', 'split@tokenizer', 'split@escaped_list_separator']
    tasks = [T_split, T_wsplit, T_uwrap, T_uwwrap]
    extra_assumptions = ['boost::iterator_facade uses equal, dereference and increment of the iterator as documented', 'std::find_if as documented',
                         'characters of narrow and wide strings are elements of one ordered alphabet; char_traits::eq is equality']
    proved = ('detail::split_unix<char>, <wchar_t> with boost::tokenizer, token_iterator and escaped_list_separator inlined', 'split_unix(string), split_unix(wstring)')
class P23(gs.C23):
    id = 'C23'; title = 'Windows command line splitting'
    tus = ['winmain']; tasks = [T_winmain, T_wwinmain]
    extra_assumptions = ['src/winmain.cpp is extracted with _WIN32 defined around its own text only', 'isspace is a fixed predicate which holds for neither backslash nor double quote (C locale)',
                         'command lines are shorter than 2^31 characters (the backslash counter is an int)', 'wide: to_internal and from_utf8 are total functions of their argument (C16)']
    proved = ('split_winmain(string)', 'split_winmain(wstring)')
PROPS = {c.id: c for c in (P15, P23)}
