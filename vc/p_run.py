"""Contract of cmdline::run (src/cmdline.cpp): the whole parse as a recursive function of the token list.

The style parsers and finish_option are seen through contracts: pt/pr/prs(p, a): parser p on the tokens a throws / returns / leaves;
ft/fo/fr(o, others): finish_option throws / makes the option / leaves.  What is assumed about them here (sp_facts, fin_facts) is proved
of each built-in parser and of finish_option as postconditions of their own tasks (builtin_post, fin_extra)."""
from p_cmdline import *
from p_cmdline import S_empty
import p_cmdline as pc
import task

OPT = ('D', 'option')
E_QS, E_QO = tm.cat(QS), tm.cat(QO)
def q1(o): return oseq(True, o)
# ---- folds over options ------------------------------------------------------------------------------------------
TOKS = Hom('otoks', QS, lambda o: o.original_tokens, lambda a, b: a + b, ())
VALS = Hom('ovals', QS, lambda o: o.value, lambda a, b: a + b, ())
def okopt(o): return ite(empty(o.string_key), And(eq(ln(o.value), 1), eq(ln(o.original_tokens), 1)), eq(o.position_key, -1))
OKO = Hom('okopts', 'B', okopt, lambda a, b: And(a, b), True)         # positional: one value, one token; keyed: no position yet
PLAIN = Hom('oplain', 'B', lambda o: empty(o.string_key), lambda a, b: And(a, b), True)
def all_at(hom, s, i):
    """'for all' of a concatenation holds at an index in range (induction on the length)"""
    s, i = (x.t if isinstance(x, V) else x for x in (s, i))
    return tm.Implies(tm.And(Ge(i, I(0)), Lt(i, len_(s)), hom(V(s)).t), to_b(hom.u(V(tm.nth(s, i)))))
def to_b(x): return x.t if isinstance(x, V) else x if isinstance(x, T) else B(x)

# ---- what a built-in style parser may do to the tokens a -----------------------------------------------------------
def isdd(a): return eq(a[0], '--')
def builtin(a, r, rest, term):
    """relation between the tokens a, the returned options r and the remaining tokens, for a parser that returns"""
    none = And(eq(ln(r), 0), eq(rest, a))
    if term: return And(ite(isdd(a), And(eq(r, TMAP(drop(a, 1))), eq(ln(rest), 0), eq(TOKS(r), drop(a, 1)), PLAIN(r)), none), OKO(r))
    return And(OKO(r), ite(isdd(a), none, Or(none, And(ln(r) > 0, eq(rest, drop(a, 1)), eq(TOKS(r), take(a, 1))))))
def builtin_post(task, term=False):
    post0 = task.post
    def post(ex, out, env):
        post0(ex, out, env)
        c = ex.c; a = env['a0']
        if out[0] == 'return':
            r, rest = V(ex.to_term(ex.load(out[1]), QO)), V(ex.load(env['pl']))
            g = builtin(a, r, rest, term).t
            for x in (g.args if g.op == 'and' else (g,)): c.oblige('post', task.name + ': tokens are accounted for', x)
        elif not term: c.oblige('post', task.name + ': "--" is left to the terminator', tm.Not(isdd(a).t))
    task.post = post
    return task
def T_long(prog): return builtin_post(pc.T_long(prog))
def T_disguised(prog): return builtin_post(pc.T_disguised(prog))
def T_dos(prog): return builtin_post(pc.T_dos(prog))
def tpl_term2(L):
    for r in slots_of(L, QO, True):
        yield ('%r okopts' % (r,), lambda r=r: And(OKO(V(L.cval(r))), PLAIN(V(L.cval(r)))))
        for q in slots_of(L, QS):
            for i in slots_of(L, 'I', True):
                yield ('toks %r=%r[1..%r]' % (r, q, i), lambda r=r, q=q, i=i: Eq(TOKS(V(L.cval(r))).t, L.ex.c.slice(L.cval(q), I(1), sub_i(L.cval(i), I(1)))))
def tpl_short2(L):
    for r in slots_of(L, QO, True):
        yield ('%r okopts' % (r,), lambda r=r: OKO(V(L.cval(r))))
        yield ('%r has no tokens' % (r,), lambda r=r: Eq(TOKS(V(L.cval(r))).t, E_QS))
def T_term(prog):
    t = builtin_post(pc.T_term(prog), True); t.templates.append(tpl_term2); return t
def T_short(prog):
    t = builtin_post(pc.T_short(prog)); t.templates.append(tpl_short2); return t

# ---- what finish_option may do ------------------------------------------------------------------------------------
def fin_rel(o, others, n, rest):
    k = ln(others) - ln(rest)
    return [k >= 0, eq(rest, drop(others, k)), eq(n.original_tokens, o.original_tokens + take(others, k)), eq(n.value, o.value + take(others, k)),
            eq(n.position_key, o.position_key), eq(empty(n.string_key), empty(o.string_key)), tm.Implies(to_b(empty(o.string_key)), to_b(And(eq(n, o), eq(k, 0))))]
def T_finish(prog):
    t = pc.T_finish(prog); post0 = t.post
    def post(ex, out, env):
        post0(ex, out, env)
        if out[0] == 'return':
            n, rest = V(ex.to_term(ex.load(env['po']), OPT)), V(ex.load(env['pq']))
            for t_ in tm.subterms([n.t]):          # assumption: the canonical name of a registered option is not empty
                if t_.op == 'app' and t_.args[0] == 'od_key': ex.c.assume(Gt(len_(t_), I(0)))
            for g in fin_rel(env['o'], env['others'], n, rest): ex.c.oblige('post', 'finish_option: tokens are accounted for', g)
        else: ex.c.oblige('post', 'finish_option: a positional option is left alone', tm.Not(to_b(empty(env['o'].string_key))))
    t.post = post
    return t

# ---- run -----------------------------------------------------------------------------------------------------------
def P_(n): return V(app('P_' + n, (), SP_))
PARSERS = ('parse_long_option', 'parse_disguised_long_option', 'parse_short_option', 'parse_dos_option', 'parse_terminator')
def spl(st):
    """the parsers in the order of run()"""
    one = lambda n: V(tm.unit(P_(n).t)); none = V(tm.cat(QSP))
    return (ite(st.allow_long, one('parse_long_option'), none) + ite(st.allow_long_disguise, one('parse_disguised_long_option'), none)
            + ite(And(st.allow_short, st.allow_dash_for_short), one('parse_short_option'), none)
            + ite(And(st.allow_short, st.allow_slash_for_short), one('parse_dos_option'), none) + one('parse_terminator'))
SPL = V(app('SPL', (), QSP))
def isterm(p): return fn('isterm', 'B', p)
def at_(i): return V(tm.nth(SPL.t, i.t if isinstance(i, V) else i))
def pt(p, a): return fn('pt', 'B', p, a)
def pr(p, a): return fn('pr', QO, p, a)
def prs(p, a): return fn('prs', QS, p, a)
def ft(o, oth): return fn('ft', 'B', o, oth)
def fo(o, oth): return fn('fo', OPT, o, oth)
def fr(o, oth): return fn('fr', QS, o, oth)
def imp(a, b): return tm.Implies(to_b(a), to_b(b))
def sp_facts(i, a):
    p = at_(i); r, rest = pr(p, a), prs(p, a); T_ = eq(i, ln(SPL) - 1)
    return [imp(And(T_, Not(pt(p, a))), builtin(a, r, rest, True)), imp(And(Not(T_), Not(pt(p, a))), builtin(a, r, rest, False)),
            imp(And(Not(T_), pt(p, a)), Not(isdd(a))), imp(T_, Not(pt(p, a))),
            all_at(PLAIN, r, ln(r) - 1), all_at(OKO, r, ln(r) - 1)]
def fin_facts(o, oth):
    n, rest = fo(o, oth), fr(o, oth)
    return [imp(Not(ft(o, oth)), g) for g in fin_rel(o, oth, n, rest)] + [imp(empty(o.string_key), Not(ft(o, oth)))]
def idle(p, a): return And(Not(pt(p, a)), eq(ln(pr(p, a)), 0), eq(prs(p, a), a))
def FI(a): return fn('FI', 'I', a)                    # the first parser that does something
def FIin(k, a): return fn('FIin', 'B', k, a)
FACTS['FI'] = lambda t: [Ge(t, I(0)), Le(t, len_(SPL.t)), imp(V(Lt(t, len_(SPL.t))), Not(idle(at_(t), V(t.args[1])))),
                          imp(V(Eq(t, len_(SPL.t))), idle(at_(ln(SPL) - 1), V(t.args[1])))]
FACTS['FIin'] = lambda t: [Eq(t, Le(t.args[1], FI(V(t.args[2])).t)), imp(And(V(Ge(t.args[1], I(0))), V(Lt(t.args[1], FI(V(t.args[2])).t))), idle(at_(t.args[1]), V(t.args[2])))]
NOQ = V(E_QS)
FM = Prec('fm', QO, (), lambda prev, e, k: prev + q1(fo(e, NOQ)))                  # finish_option on each of the first k options, nothing to grab
FTH = Prec('fth', 'B', False, lambda prev, e, k: Or(prev, ft(e, NOQ)))
_fm = FACTS['fm']; FACTS['fm'] = lambda t: _fm(t) + [tm.Implies(tm.And(Ge(t.args[2], I(0)), Le(t.args[2], len_(t.args[1]))), Eq(len_(t), t.args[2]))]
def pos_opt(t): return mk_opt(value=strs(True, t), toks=strs(True, t), sym=True)
class Step:
    """one round of the main loop on the tokens a (not empty)"""
    def __init__(self, a, i=None):
        i = FI(a) if i is None else i; p = at_(i); nx, rs = pr(p, a), prs(p, a); m1 = ln(nx) - 1
        self.none = eq(i, ln(SPL)); some = ln(nx) > 0
        last = V(tm.nth(nx.t, m1.t))
        self.throws = And(Not(isdd(a)), Not(self.none), Or(pt(p, a), And(some, Or(FTH(nx, m1), ft(last, rs)))))
        self.out = ite(isdd(a), TMAP(drop(a, 1)), ite(self.none, q1(pos_opt(a[0])), FM(nx, m1) + q1(fo(last, rs))))
        self.rest = ite(isdd(a), NOQ, ite(self.none, drop(a, 1), fr(last, rs)))
def RUN(a): return fn('run1', QO, a)
def RTH(a): return fn('run_throws', 'B', a)
def REM(a): return fn('rem', QS, a)                   # the tokens without the first '--' found where an option is looked for
FACTS['run1'] = lambda t: [tm.Implies(Eq(len_(t.args[1]), I(0)), Eq(t, E_QO))]
FACTS['run_throws'] = lambda t: [tm.Implies(Eq(len_(t.args[1]), I(0)), tm.Not(t))]
FACTS['rem'] = lambda t: [tm.Implies(Eq(len_(t.args[1]), I(0)), Eq(t, E_QS))]
def unfold(a):
    s = Step(a)
    return [tm.Implies(Gt(len_(a.t), I(0)), g) for g in _unfold(a, s)]
def _unfold(a, s):
    return [Eq(RUN(a).t, (s.out + RUN(s.rest)).t), Eq(RTH(a).t, to_b(Or(s.throws, RTH(s.rest)))),
            Eq(REM(a).t, ite(isdd(a), drop(a, 1), take(a, ln(a) - ln(s.rest)) + REM(s.rest)).t)]

# second pass: an option takes the positional tokens that follow it
def takeable(o): return And(empty(o.string_key), Not(eq(o.position_key, INT_MAX)))
class Abs:
    def __init__(self, R, desc, st):
        self.R, self.par, self.st, self.desc = R, (desc, st.allow_guessing, st.long_case_insensitive, st.short_case_insensitive), st, desc
    def A(self, i): return fn('absb', QO, self.R, i)
    def TH(self, i): return fn('abs_throws', 'B', self.R, i)
    def el(self, i): return V(tm.nth(self.R.t, i.t))
    def can(self, i):
        o = self.el(i); p = fres(self.par[0], o.string_key, *self.par[1:])
        return ite(And(Not(p.null), o_min(p) < o_max(p), ln(o.value) < o_max(p)), o_max(p) - ln(o.value), 0)
    def J(self, i): return fn('abs_j', 'I', self.R, i)             # where the options option i takes end
    def unfold(self, i):
        o = self.el(i); am = amb(self.par[0], o.string_key, *self.par[1:]); j = self.J(i); keyed = Not(empty(o.string_key))
        n = j - (i + 1); grabbed = V(tm.sub(self.R.t, (i + 1).t, n.t))
        o2 = o.with_(value=o.value + VALS(grabbed), original_tokens=o.original_tokens + TOKS(grabbed))
        th = And(keyed, am)
        big = And(keyed, self.can(i) > 0)
        return [imp(i < ln(self.R), eq(self.TH(i), Or(th, self.TH(ite(big, j, i + 1))))),
                imp(i < ln(self.R), eq(self.A(i), ite(big, q1(o2) + self.A(j), q1(o) + self.A(i + 1)))),
                imp(i < ln(self.R), And(j >= i + 1, j <= ln(self.R), n <= self.can(i) if False else Or(n <= self.can(i), Not(big)))),
                imp(And(i < ln(self.R), big, j < ln(self.R), n < self.can(i)), Not(takeable(self.el(j))))]
    def jin(self, k, i): return fn('abs_in', 'B', self.R, k, i)    # option i takes all of i+1 .. k-1
def _jin_facts(t):
    R, k, i = (V(x) for x in t.args[1:])
    return [Eq(t, And(k >= i + 1, k <= fn('abs_j', 'I', R, i)).t), imp(And(k >= i + 1, k < fn('abs_j', 'I', R, i)), takeable(V(tm.nth(R.t, k.t))))]
FACTS['abs_in'] = _jin_facts
for nm, e in (('absb', E_QO), ('abs_throws', FALSE)):
    FACTS[nm] = lambda t, e=e: [tm.Implies(Ge(t.args[2], len_(t.args[1])), Eq(t, e))]
# positions
PKC = Prec('pkc', 'I', 0, lambda prev, e, k: prev + ite(empty(e.string_key), 1, 0))
def cnt_facts(t):
    k, n = t.args[2], len_(t.args[1])
    out = [tm.Implies(tm.And(Ge(k, I(0)), Le(k, n)), tm.And(Ge(t, I(0)), Le(t, k)))]
    if k is not n: out.append(tm.Implies(tm.And(Ge(k, I(0)), Le(k, n)), Le(t, app('pkc', (t.args[1], n), 'I'))))
    return out
_pk = FACTS['pkc']; FACTS['pkc'] = lambda t: _pk(t) + cnt_facts(t)
def number(o, c): return o.with_(position_key=ite(empty(o.string_key), c, o.position_key))
def c_of(R, k): return V(app('pkc', (R.t, k.t), 'I'))
class Map:
    """elementwise map with the number of positional options before"""
    def __init__(self, name, el):
        self.name, self.el = name, el
        FACTS[name] = self.facts
    def __call__(self, R, k): return fn(self.name, QO, R, k)
    def facts(self, t):
        R, k = V(t.args[1]), t.args[2]
        out = [tm.Implies(Eq(k, I(0)), Eq(t, E_QO)), tm.Implies(tm.And(Ge(k, I(0)), Le(k, len_(R.t))), Eq(len_(t), k))]
        co, c = tm.lin(k)
        if c >= 1:
            k1 = sub_i(k, I(1))
            out.append(tm.Implies(tm.And(Ge(k1, I(0)), Lt(k1, len_(R.t))), Eq(t, (V(app(self.name, (R.t, k1), QO)) + q1(self.el(V(tm.nth(R.t, k1)), c_of(R, V(k1))))).t)))
        return out
    def nth_is(self, R, n, i):
        """element i of the mapped sequence (induction on n)"""
        return tm.Implies(tm.And(Ge(i.t, I(0)), Lt(i.t, n.t), Le(n.t, len_(R.t))), Eq(tm.nth(self(R, n).t, i.t), self.el(V(tm.nth(R.t, i.t)), c_of(R, i)).t))
POSC = V(app('the_pos', (), POS))
def posname(k): return fn('pos_name', 'S', POSC, k)
NUM = Map('num', number)
def named(o, c): return ite(empty(o.string_key), o.with_(position_key=c, string_key=posname(c)), o)
NAM = Map('nam', named)
def looks_long(s): return Or(ln(s) > 2, And(ln(s) > 1, Not(eq(s[0], '-'))))
LCI, SCI = V(app('st_lci', (), 'B')), V(app('st_sci', (), 'B'))
def cased(o, c): return o.with_(case_insensitive=ite(looks_long(o.string_key), LCI, SCI))
CAS = Map('cas', cased)

def c_pos_max(ex, f, th, a): return app('pos_max', (ex.load(th),), 'I')
def c_pos_name(ex, f, th, a): return app('pos_name', (ex.load(th), ex.load(a[0])), 'S')
def stone(ex, g, about):
    """an intermediate fact: proved from the part of the path condition about these terms, then available"""
    import prove
    ids = {x.id for x in about}
    if ex.c.sure(g): ex.c.assume(g); return True
    hy = [p for p in ex.c.pc if any(x.id in ids for x in tm.subterms([p]))]
    if prove.solve_obligation(hy, g, quick=True)[0] != 'proved': return False
    ex.c.assume(g); return True
def run_machine(prog):
    def to_sp(ex, v, sort):
        if sort == SP_ and isinstance(v, Fn) and v.kind == 'method' and v.d.get('name') in PARSERS and v.d['this'] == ex.c.tag['this']: return P_(v.d['name']).t
    def call(ex, f, args):
        if not (isinstance(f, T) and f.sort == SP_): return None
        if f.op != 'nth': raise Unsupported('call of a parser that is not an element of the list')
        e = ex.c.tag
        if f.args[0] is not e['spl'].t: ex.c.oblige('post', 'run: the style parsers in their order', Eq(f.args[0], e['spl'].t))
        i = V(f.args[1]); p = at_(i); a = V(ex.load(args[0]))
        ex.c.oblige('post', 'run: parsers are called on a non-empty list', Gt(len_(a.t), I(0)))
        for g in sp_facts(i, a): ex.c.assume(g)
        first = And(FIin(i, a), Not(idle(p, a)), i >= 0, i < ln(SPL))                 # then i is the first parser that does something
        ex.c.assume(imp(first, eq(FI(a), i)))
        for g in _unfold(a, Step(a, i)): ex.c.assume(imp(And(first, ln(a) > 0), V(g)))
        e['step'] = dict(i=i, p=p, a=a, nx=pr(p, a), rs=prs(p, a))
        if ex.c.branch(pt(p, a).t): throw_spec(ex, SpecThrow(['ambiguous_option', 'invalid_command_line_syntax'][ex.c.choose(2)]))
        ex.store_to(args[0], prs(p, a).t)
        return (pr(p, a).t,)
    def fin(ex, f, th, args):
        e = ex.c.tag
        o, oth, ps = V(ex.to_term(ex.load(args[0]), OPT)), V(ex.load(args[1])), ex.load(args[2])
        if o.t.op == 'nth' and 'step' in e and o.t.args[0] is not e['step']['nx'].t:
            w = tm.nth(e['step']['nx'].t, o.t.args[1])
            if stone(ex, Eq(o.t, w), (o.t.args[0], o.t.args[1], e['step']['nx'].t)): o = V(w)
        if ps is not e['spl'].t: ex.c.oblige('post', 'run: finish_option gets the style parsers', Eq(ps, e['spl'].t))
        if ex.c.sure(Eq(len_(oth.t), I(0))): oth = NOQ
        for g in fin_facts(o, oth): ex.c.assume(g)
        if oth is NOQ and 'step' in e and o.t.op == 'nth' and o.t.args[0] is e['step']['nx'].t:
            nx, k = e['step']['nx'], V(o.t.args[1]); m1 = ln(nx) - 1           # definition of fth at k+1, and its monotonicity
            ex.c.assume(imp(And(k >= 0, k < ln(nx)), eq(FTH(nx, k + 1), Or(FTH(nx, k), ft(o, NOQ)))))
            ex.c.assume(imp(And(k >= 0, k + 1 <= m1, FTH(nx, k + 1)), FTH(nx, m1)))
            ex.c.assume(all_at(PLAIN, nx, k))
        if ex.c.branch(to_b(ft(o, oth))): throw_spec(ex, SpecThrow(['ambiguous_option', 'invalid_command_line_syntax', 'unknown_option'][ex.c.choose(3)]))
        ex.store_to(args[0], fo(o, oth).t); ex.store_to(args[1], fr(o, oth).t)
        return None
    m = cm(prog, {NS + 'finish_option': fin, PQ + 'max_total_count': c_pos_max, PQ + 'name_for_position': c_pos_name},
           hooks={'call': call, 'to_term': to_sp, 'if_convert': True})
    for n in ('function', 'function1', 'style_parser'): m.class_sort[n] = SP_
    def construct(ex, t, b, ta, args, node):
        if b.split('::')[-1] == 'arg' and len(args) == 1: return ex.load(args[0])
    m.hooks['construct'] = construct
    return m
def run_setup(ex):
    c = ex.c
    st = sym_style(ex, {'long_case_insensitive': LCI, 'short_case_insensitive': SCI}); this = cmdline_obj(ex, st)
    a0 = V(ex.load(this).f['m_args']); desc = V(ex.load(Place('desc')))
    if c.choose(2): ex.new_cell('the_positional', POSC.t); ex.store_to(this.sub(('f', 'm_positional')), Ptr(Place('the_positional')))
    big = spl(st)
    # SPL stands for that list; its last element, and only that one, is the terminator
    c.assume(Eq(len_(SPL.t), len_(big.t))); c.assume(Ge(len_(SPL.t), I(1)))
    c.assume(Lt(len_(a0.t), I(2**31)))
    e = dict(this=this, args=[], st=st, a0=a0, desc=desc, spl=big, positional=ex.load(this).f['m_positional'] is not NULL)
    c.tag = e
    return e
def at_end(L, gs, phase='end'):
    """instances of definitions and lemmas"""
    if L.phase == phase:
        for g in gs(): L.ex.c.assume(g)
    return True
def tpl_main(L):
    c = L.ex.c; d = c.tag; a0 = d['a0']
    for q in slots_of(L, QS, True):
        if q.path: yield ('steps %r' % (q,), lambda q=q: main_stones(L))
    for q in slots_of(L, QS, True):
        if q.path: yield ('def %r' % (q,), lambda q=q: at_end(L, lambda: unfold(V(L.cval(q))) + sp_facts(ln(SPL) - 1, V(L.cval(q))), 'head'))
    for q in slots_of(L, QS):
        for r in slots_of(L, QO, True):
            a, R = (lambda q=q: V(L.cval(q))), (lambda r=r: V(L.cval(r)))
            yield ('%r parsed, %r to go' % (r, q), lambda a=a, R=R: eq(R() + RUN(a()), RUN(a0)))
            yield ('%r thrown' % (q,), lambda a=a: eq(RTH(a()), RTH(a0)))
            yield ('%r tokens of %r' % (r, q), lambda a=a, R=R: eq(TOKS(R()) + REM(a()), REM(a0)))
            for p in slots_of(L, QO, False):
                for i in slots_of(L, 'I', True):
                    yield ('%r tokens of %r and %r' % (r, p, q), lambda a=a, R=R, p=p, i=i: eq(TOKS(R()) + TOKS(V(tm.sub(L.cval(p), L.cval(i), sub_i(len_(L.cval(p)), L.cval(i))))) + REM(a()), REM(a0)))
    for r in slots_of(L, QO): yield ('%r okopts' % (r,), lambda r=r: OKO(V(L.cval(r))))
def main_stones(L):
    """intermediate facts at the end of a round that used a parser"""
    ex = L.ex; d = ex.c.tag
    if L.phase != 'end' or 'step' not in d: return True
    s = d['step']; nx, rs, a = s['nx'], s['rs'], s['a']; m1 = ln(nx) - 1; last = V(tm.nth(nx.t, m1.t))
    T1 = FM(nx, m1) + q1(fo(last, rs))
    for r in slots_of(L, QO, True):
        R = L.cval(r)
        for g in list(ex.c.pc):
            if g.op != '=' or not any(y is R for y in g.args): continue
            y = g.args[1] if g.args[0] is R else g.args[0]
            if y.op != 'cat': continue
            S_ = tm.cat2(*y.args[1:]) if len(y.args) == 3 else y.args[1] if len(y.args) == 2 else None
            if S_ is None: continue
            about = [x for x in tm.subterms([S_]) if not tm.isconst(x)]
            if DBG_: print('stone', tm.show(S_), '==', tm.show(T1.t))
            ok = stone(ex, tm.Or(isdd(a).t, Eq(S_, T1.t)), about); ok2 = stone(ex, imp(isdd(a), V(Eq(S_, nx.t))), about)
            if DBG_: print('   ->', ok, ok2)
            for h in (OKO, TOKS): ex.c.assume(Eq(h(V(R)).t, h(V(y)).t))
    return True
import os as _os
DBG_ = _os.environ.get('DBG_')
def tpl_try(L):
    for q in slots_of(L, QS, True):
        yield ('%r untouched' % (q,), lambda q=q: Eq(L.cval(q), L.eload(q)))
        for i in slots_of(L, 'I', True): yield ('%r idle so far' % (i,), lambda i=i, q=q: FIin(V(L.cval(i)), V(L.eload(q))))
def tpl_fin(L):
    c = L.ex.c
    for r in slots_of(L, QO, True):
        if L.eload(r) is not None: yield ('%r untouched' % (r,), lambda r=r: Eq(L.cval(r), L.eload(r)))
    for r in slots_of(L, QO, True):
        e = L.eload(r)
        if e is None: continue
        e = V(e); R = lambda r=r: V(L.cval(r))
        for i in slots_of(L, 'I', True): yield ('def %r %r' % (r, i), lambda e=e, i=i: at_end(L, lambda: [all_at(PLAIN, e, V(L.hval(i))), all_at(OKO, e, V(L.hval(i)))]))
        yield ('%r keeps its tokens' % (r,), lambda R=R, e=e: eq(TOKS(R()), TOKS(e)))
        yield ('%r stays plain' % (r,), lambda R=R, e=e: imp(PLAIN(e), eq(R(), e)))
        yield ('%r okopts' % (r,), lambda R=R: OKO(R()))
        yield ('%r length' % (r,), lambda R=R, e=e: eq(ln(R()), ln(e)))
        for i in slots_of(L, 'I', True):
            k = lambda i=i: V(L.cval(i))
            yield ('%r < len %r' % (i, r), lambda k=k, e=e: k() + 1 <= ln(e))
            yield ('%r finished up to %r' % (r, i), lambda R=R, e=e, k=k: eq(R(), FM(e, k()) + V(tm.sub(e.t, k().t, sub_i(len_(e.t), k().t)))))
            yield ('no failure of %r up to %r' % (r, i), lambda e=e, k=k: Not(FTH(e, k())))
        for q in slots_of(L, QO):
            if q == r: continue
            for i in slots_of(L, 'I', True):
                yield ('def2 %r %r' % (q, i), lambda q=q, i=i: at_end(L, lambda: [all_at(OKO, V(L.hval(q)), V(L.hval(i)))]))
                yield ('%r grows by %r' % (r, q), lambda R=R, e=e, q=q, i=i: eq(R(), e + V(tm.sub(L.cval(q), I(0), L.cval(i)))))
    for q in slots_of(L, QS, True): yield ('%r empty' % (q,), lambda q=q: Eq(len_(L.cval(q)), I(0)))
# ---- run in parts: the body is cut after each of its top-level loops and conditionals; a part starts in any state that satisfies what
# the part before it establishes.  The list of options is the first local vector<option>; every other local starts with an arbitrary value.
COMPOUND = ('WhileStmt', 'ForStmt', 'IfStmt', 'CXXForRangeStmt', 'DoStmt')
def is_qo(d): return 'vector' in d['type']['qualType'] and 'option' in d['type']['qualType'] and 'style' not in d['type']['qualType'] and not d['type']['qualType'].rstrip().endswith('&')
def parts_of(fn_):
    ss = fn_['_tu'].body(fn_)['inner']; out = []; cur = []; seen = 0
    for s in ss:
        if out and not cur and s['kind'] not in COMPOUND + ('DeclStmt',): out[-1].append(s); continue          # what follows a loop at once belongs to it
        cur.append(s)
        if s['kind'] == 'DeclStmt' and any(is_qo(d) for d in s['inner']): seen += 1
        if s['kind'] in COMPOUND and seen and any(n['kind'] in ('WhileStmt', 'ForStmt') for n in walk_(s)): out.append(cur); cur = []
    if cur: out.append(cur)
    return out
def walk_(n):
    yield n
    for x in n.get('inner', []) or []:
        if isinstance(x, dict) and 'kind' in x: yield from walk_(x)
def part_call(k):
    def call(ex, e):
        import interp as ip
        fn_ = e['fn']; parts = parts_of(fn_); c = ex.c
        if len(parts) != 5: raise Unsupported('run: %d parts' % len(parts))
        ex.m.inlined.add(fn_['_q'])
        fr = ip.Frame(fn_, fn_['_tu'], e['this'], 'run'); ex.frames.append(fr); ex.depth += 1; first = None
        try:
            for p in parts[:k]:
                for s in p:
                    if s['kind'] != 'DeclStmt': continue
                    for d in s['inner']:
                        lab = 'run:%s#%s' % (d['name'], d['id'][-6:]); ty = d['type']['qualType']
                        if is_qo(d):
                            fr.env[d['id']] = ex.new_cell(lab, e['R'].t if first is None else c.fresh(d['name'], QO)); first = first or fr.env[d['id']]
                        elif 'vector' in ty and ty.rstrip().endswith('&'): fr.env[d['id']] = e['this'].sub(('f', 'm_args'))
                        elif 'vector' in ty: fr.env[d['id']] = ex.new_cell(lab, c.fresh(d['name'], QSP if 'style_parser' in ty or 'function' in ty else QS))
                        elif ty in ('int', 'unsigned int', 'unsigned', 'long', 'unsigned long'): fr.env[d['id']] = ex.new_cell(lab, c.fresh(d['name'], 'I'))
                        else: raise Unsupported('run: local of type ' + ty)
            try:
                for s in parts[k]: ex.st(s)
            except ip._Return as r: return r.v
            if first is None:
                first = [p for i, p in fr.env.items() if isinstance(p, Place) and p.cell.startswith('run:') and any(is_qo(d) and d['id'] == i for s in parts[0] if s['kind'] == 'DeclStmt' for d in s['inner'])][0]
            return first
        finally:
            ex.depth -= 1; del ex.frames[:]
    return call
def part(prog, k, name, extra, post, templates):
    fn_ = fnode(prog, NS + 'run')
    def setup(ex):
        e = run_setup(ex); e['fn'] = fn_; e['R'] = V(ex.c.fresh('options', QO)); e['th0'] = ex.load(e['this'])
        ex.c.assume(Lt(len_(e['R'].t), I(2**31)))
        if extra: extra(ex, e)
        return e
    def post_(ex, out, e):
        c = ex.c
        if out[0] == 'abort': c.oblige('post', 'run: no assertion fails', FALSE); return
        o = ex.load(e['this'])
        for f, v in e['th0'].f.items():
            if f != 'm_args': c.oblige('frame', 'run: %s unchanged' % f, B(True) if o.f[f] is v else Eq(o.f[f], v) if isinstance(v, T) else B(repr(o.f[f]) == repr(v)))
        post(ex, out, e)
    t = Task('cmdline::run (%s)' % name, run_machine(prog), fn_, setup, post_, templates=templates); t.fn_call = part_call(k); return t
def rest_of(R, k): return V(tm.sub(R.t, k.t, sub_i(len_(R.t), k.t)))
def tpl_map(M, pre=lambda R, k: []):
    def tpl(L):
        d = L.ex.c.tag; R = d['R0']
        for i in slots_of(L, 'I', True):
            if i.path: continue
            k = lambda i=i: V(L.cval(i))
            yield ('%r <= all' % (i,), lambda k=k: k() <= ln(R))
            yield ('def %r' % (i,), lambda i=i: at_end(L, lambda: pre(R, V(L.cval(i))), 'head'))
            for r in slots_of(L, QO, True): yield ('%r mapped up to %r' % (r, i), lambda r=r, k=k: eq(V(L.cval(r)), M(R, k()) + rest_of(d['R'], k())))
            for j in slots_of(L, 'I', True):
                if j != i and not j.path: yield ('%r counts up to %r' % (j, i), lambda j=j, k=k: eq(V(L.cval(j)), c_of(R, k())))
    return tpl
def T_number(prog):
    def extra(ex, e): e['R0'] = e['R']
    def post(ex, out, e):
        ob = lambda l, g: ex.c.oblige('post', 'run: ' + l, g)
        if out[0] != 'return': ob('numbering does not throw', FALSE); return
        ob('positional options are numbered in order, the others keep their key', Eq(ex.load(out[1]), NUM(e['R'], ln(e['R'])).t))
    return part(prog, 2, 'numbering', extra, post, [tpl_map(NUM)])
KEY = Hom('okeys', 'B', lambda o: Or(empty(o.string_key), eq(o.position_key, -1)), lambda a, b: And(a, b), True)
def PMAX(): return fn('pos_max', 'I', POSC)
def tpl_pmax(L):
    d = L.ex.c.tag
    for i in slots_of(L, 'I', True):
        if not i.path: yield ('%r within the positions' % (i,), lambda i=i: V(L.cval(i)) <= PMAX())
        if not i.path: yield ('the positions before %r are enough' % (i,), lambda i=i: c_of(d['R0'], V(L.cval(i))) <= PMAX())
def T_name(prog):
    def extra(ex, e):
        e['R0'] = V(ex.c.fresh('numbered', QO)); ex.c.assume(KEY(e['R0']).t); ex.c.assume(Eq(e['R'].t, NUM(e['R0'], ln(e['R0'])).t)); ex.c.assume(Lt(len_(e['R0'].t), I(2**31))); ex.c.assume(Ge(PMAX().t, I(0)))
    pre = lambda R, i: [NUM.nth_is(R, ln(R), i), all_at(KEY, R, i), imp(i < ln(R), c_of(R, i + 1) <= c_of(R, ln(R)))]
    def post(ex, out, e):
        ob = lambda l, g: ex.c.oblige('post', 'run: ' + l, g)
        R0 = e['R0']; n = ln(R0); many = c_of(R0, n) > PMAX()
        if not e['positional']:
            if out[0] != 'return': ob('without a positional description nothing is thrown', FALSE); return
            ob('without a positional description nothing changes', Eq(ex.load(out[1]), e['R'].t)); return
        if out[0] == 'throw':
            ob('too many positional options is the only error', B(out[1].cls == 'too_many_positional_options_error')); ob('too many positional options only if there are', many); return
        ob('too many positional options are reported', Not(many))
        ob('each positional option gets the name of its number', Eq(ex.load(out[1]), NAM(R0, n).t))
    return part(prog, 3, 'naming', extra, post, [tpl_map(NAM, pre), tpl_pmax])
def T_case(prog):
    def extra(ex, e): e['R0'] = e['R']
    def post(ex, out, e):
        ob = lambda l, g: ex.c.oblige('post', 'run: ' + l, g)
        if out[0] != 'return': ob('nothing is thrown', FALSE); return
        ob('the case flags', Eq(ex.load(out[1]), CAS(e['R'], ln(e['R'])).t))
    return part(prog, 4, 'case flags', extra, post, [tpl_map(CAS)])
def hom_eqs(ex, homs, x):
    """congruence: what is equal to x has the same fold"""
    out = []
    for g in list(ex.c.pc):
        if g.op == '=' and any(y is x for y in g.args):
            y = g.args[1] if g.args[0] is x else g.args[0]
            if y.op == 'cat': out += [Eq(h(V(x)).t, h(V(y)).t) for h in homs]
    return out
def tpl_abs(L):
    c = L.ex.c; d = c.tag; A = d['abs']; R = d['R']; n = ln(R)
    for i in slots_of(L, 'I', True):
        if i.path: continue
        k = lambda i=i: V(L.cval(i))
        yield ('%r <= all' % (i,), lambda k=k: k() <= n)
        yield ('def %r' % (i,), lambda i=i: at_end(L, lambda: A.unfold(V(L.cval(i))) + [all_at(OKO, R, V(L.cval(i)))], 'head'))
        def pieces(i=i):
            a, b = V(L.hval(i)), V(L.cval(i)); mid = V(tm.sub(R.t, (a + 1).t, (b - a - 1).t))
            hs = [g for r in slots_of(L, QO, True) if not r.path for g in hom_eqs(L.ex, (TOKS,), L.cval(r))]
            return hs + [imp(And(a >= 0, a < b, b <= n), eq(TOKS(rest_of(R, a)), TOKS(q1(V(tm.nth(R.t, a.t)))) + TOKS(mid) + TOKS(rest_of(R, b))))]
        yield ('pieces %r' % (i,), lambda pieces=pieces: at_end(L, pieces))
        yield ('%r thrown' % (i,), lambda k=k: eq(A.TH(k()), A.TH(V(I(0)))))
        for r in slots_of(L, QO, True):
            if r.path: continue
            yield ('%r then what follows %r' % (r, i), lambda r=r, k=k: eq(V(L.cval(r)) + A.A(k()), A.A(V(I(0)))))
            yield ('%r tokens before %r' % (r, i), lambda r=r, k=k: eq(TOKS(V(L.cval(r))) + TOKS(rest_of(R, k())), TOKS(R)))
        for i0 in slots_of(L, 'I', False):
            if i0.path: continue
            b = lambda i0=i0: V(L.cval(i0)) + 1
            yield ('%r takes up to %r' % (i0, i), lambda i0=i0, k=k: A.jin(k(), V(L.cval(i0))))
            for r in slots_of(L, QO, True):
                if r.path: continue
                def grown(r=r, k=k, b=b):
                    e = V(L.eload(r)); l = ln(e) - 1; o = V(tm.nth(e.t, l.t)); g = V(tm.sub(R.t, b().t, (k() - b()).t))
                    return eq(V(L.cval(r)), V(tm.sub(e.t, I(0), l.t)) + q1(o.with_(value=o.value + VALS(g), original_tokens=o.original_tokens + TOKS(g))))
                yield ('the last of %r takes %r up to %r' % (r, i0, i), grown)
            for m in slots_of(L, 'I', True):
                if m != i and not m.path: yield ('%r left at %r from %r' % (m, i, i0), lambda m=m, k=k, b=b, i0=i0: eq(V(L.cval(m)) + k(), V(L.eload(m)) + b()))
    for r in slots_of(L, QO, True):
        if not r.path: yield ('%r keys' % (r,), lambda r=r: KEY(V(L.cval(r))))
def T_absorb(prog):
    def extra(ex, e):
        e['abs'] = Abs(e['R'], e['desc'], e['st']); ex.c.assume(OKO(e['R']).t)
    def post(ex, out, e):
        ob = lambda l, g: ex.c.oblige('post', 'run: ' + l, g); A = e['abs']; z = V(I(0))
        if out[0] == 'throw':
            ob('only an ambiguous name is an error here', B(out[1].cls == 'ambiguous_option')); ob('and only if there is one', A.TH(z).t); return
        r = V(ex.load(out[1]))
        ob('an ambiguous name is reported', Not(A.TH(z)))
        ob('an option takes the positional tokens that follow it, as many as it accepts', eq(r, A.A(z)))
        ob('no token is lost, repeated or moved', eq(TOKS(r), TOKS(e['R'])))
        ob('only positional options have a position', KEY(r))
    return part(prog, 1, 'further values', extra, post, [tpl_abs])
def T_main(prog):
    def post(ex, out, e):
        ob = lambda l, g: ex.c.oblige('post', 'run: ' + l, g); a0 = e['a0']
        if out[0] == 'throw': ob('throws only where a parser or finish_option does', RTH(a0)); return
        r = V(ex.load(out[1])); c = ex.c
        for g in hom_eqs(ex, (OKO, TOKS), r.t): c.assume(g)
        ob('every error of a parser or of finish_option is reported', Not(RTH(a0)))
        ob('the tokens are read from the left, each by the first parser that takes it', eq(r, RUN(a0)))
        ob('every token is recorded once, in order, but for the first terminator', eq(TOKS(r), REM(a0)))
        ob('positional options hold one token, the others have no position yet', OKO(r))
        ob('no token is left', Eq(len_(ex.load(e['this']).f['m_args']), I(0)))
    return part(prog, 0, 'main loop', None, post, [tpl_main, tpl_try, tpl_fin])
# ---- which parsers run, with those of the user -----------------------------------------------------------------------
def T_parsers(prog):
    fn_ = fnode(prog, NS + 'run')
    def setup(ex):
        e = run_setup(ex); c = ex.c; e['fn'] = fn_
        e['us'], e['ua'] = bool(c.choose(2)), bool(c.choose(2))
        o = ex.load(e['this'])
        if e['us']: o = o.set('m_style_parser', Fn('user', name='user_style'))
        if e['ua']: o = o.set('m_additional_parser', Fn('user', name='additional'))
        ex.store_to(e['this'], o); e['o'] = o
        return e
    def call(ex, e):
        import interp as ip
        ss = fn_['_tu'].body(fn_)['inner']; parts = parts_of(fn_)
        fr = ip.Frame(fn_, fn_['_tu'], e['this'], 'run'); ex.frames.append(fr); ex.depth += 1; ex.m.inlined.add(fn_['_q'])
        try:
            for s in parts[0]:
                if s['kind'] in ('WhileStmt', 'ForStmt', 'DoStmt'): break
                ex.st(s)
            ls = [ex.load(p) for p in fr.env.values() if isinstance(p, Place)]
            ls = [v for v in ls if isinstance(v, T) and v.sort == QSP]
            if len(ls) != 1: raise Unsupported('run: no single list of style parsers')
            return ls[0]
        finally: ex.depth -= 1; del ex.frames[:]
    def post(ex, out, e):
        c = ex.c
        if out[0] != 'return': c.oblige('post', 'run: setting up the parsers does not throw', FALSE); return
        one = lambda n: V(tm.unit(P_(n).t)); want = spl(e['st'])
        if e['ua']: want = one('handle_additional_parser') + want
        if e['us']: want = one('user_style') + want
        c.oblige('post', 'run: the extra style parser, the extra parser, then the enabled built-in parsers in their order', Eq(out[1], want.t))
        n = ex.load(e['this'])
        for k in e['o'].f: c.oblige('frame', 'run: setting up the parsers leaves %s' % k, same(ex, n.f[k], e['o'].f[k]))
    m = run_machine(prog); to0 = m.hooks['to_term']
    def to_sp(ex, v, sort):
        if sort == SP_ and isinstance(v, Fn) and v.kind == 'method' and v.d.get('name') == 'handle_additional_parser' and v.d['this'] == ex.c.tag['this']: return P_('handle_additional_parser').t
        if sort == SP_ and isinstance(v, Fn) and v.kind == 'user' and v.d['name'] == 'user_style': return P_('user_style').t
        return to0(ex, v, sort)
    m.hooks['to_term'] = to_sp
    def truth(ex, v):
        if isinstance(v, Fn): return B(v.kind != 'none')
    m.hooks['truth'] = truth
    t = Task('cmdline::run (the list of parsers)', m, fn_, setup, post); t.fn_call = call; return t
def T_additional(prog):
    """handle_additional_parser: an option with the name and value the user's parser gives, or nothing"""
    def call_(ex, f, args):
        if not (isinstance(f, Fn) and f.kind == 'user'): return None
        a = ex.load(args[0]); return (Rec('pair', {'first': app('extra_name', (a,), 'S'), 'second': app('extra_value', (a,), 'S')}),)
    def setup(ex):
        e = cmd_setup()(ex); ex.store_to(e['this'], ex.load(e['this']).set('m_additional_parser', Fn('user', name='additional'))); e['obj0'] = ex.load(e['this']); return e
    def spec(e):
        tok = e['a0'][0]; n, v = fn('extra_name', 'S', tok), fn('extra_value', 'S', tok)
        if empty(n): return oseq(True), e['a0']
        return oseq(True, mk_opt(sym=True, key=n, value=ite(empty(v), (), V(tm.unit(v.t))), toks=())), drop(e['a0'], 1)
    m = cm(prog); m.hooks['call'] = call_
    return Task('cmdline::handle_additional_parser', m, fnode(prog, NS + 'handle_additional_parser'), setup, style_post(spec, 'handle_additional_parser'))

def T_lemmas(prog):
    """the inductions behind the facts about the folds above, each reduced to its step"""
    sq = '(declare-const s (Seq Int))(declare-const i Int)(declare-const x Int)'
    n = '(declare-const n Int)(declare-const k Int)'
    first = ('(declare-fun idle (Int) Bool)(declare-const n Int)(declare-const F Int)(declare-const i Int)(assert (and (<= 0 F) (<= F n)))'
             '(assert (forall ((j Int)) (=> (and (<= 0 j) (< j F)) (idle j))))(assert (=> (< F n) (not (idle F))))')
    parsers = ''.join('(declare-const f%d Bool)' % j for j in range(4)) + '(declare-const L (Seq Int))(assert (= L (seq.++ %s (seq.unit 5))))' % ' '.join('(ite f%d (seq.unit %d) (as seq.empty (Seq Int)))' % (j, j + 1) for j in range(4))
    step = '(declare-const a Int)(declare-const rs Int)(declare-const rest Int)(declare-const dd Bool)(declare-const none Bool)(declare-const some Bool)(assert (> a 0))'
    return task.Lemma('folds of run()', [
        ('the terminator is the last of the parsers', parsers + '(assert (not (= (seq.nth L (- (seq.len L) 1)) 5)))'),
        ('and only the last', parsers + '(declare-const i Int)(assert (and (<= 0 i) (< i (- (seq.len L) 1)) (= (seq.nth L i) 5)))'),
        ('counting is monotone: step', '(declare-fun c (Int) Int)(declare-fun p (Int) Bool)' + n + '(assert (= (c (+ n 1)) (+ (c n) (ite (p n) 1 0))))(assert (<= (c k) (c n)))(assert (not (<= (c k) (c (+ n 1)))))'),
        ('counts are within bounds: step', '(declare-fun c (Int) Int)(declare-fun p (Int) Bool)' + n + '(assert (= (c (+ n 1)) (+ (c n) (ite (p n) 1 0))))(assert (and (<= 0 (c n)) (<= (c n) n)))(assert (not (and (<= 0 (c (+ n 1))) (<= (c (+ n 1)) (+ n 1)))))'),
        ('element of a mapped sequence: step', sq + '(declare-fun el (Int) Int)(assert (=> (and (<= 0 i) (< i (seq.len s))) (= (seq.nth s i) (el i))))(assert (and (<= 0 i) (< i (+ (seq.len s) 1))))(assert (not (= (seq.nth (seq.++ s (seq.unit (el (seq.len s)))) i) (el i))))'),
        ('"for all" at an index: step', sq + '(declare-fun u (Int) Bool)(declare-const H Bool)(assert (=> (and H (<= 0 i) (< i (seq.len s))) (u (seq.nth s i))))(assert (and H (u x)))(assert (and (<= 0 i) (< i (+ (seq.len s) 1))))(assert (not (u (seq.nth (seq.++ s (seq.unit x)) i))))'),
        ('the first parser that acts is the only one preceded by idle ones that acts', first + '(assert (and (<= 0 i) (< i n) (<= i F) (not (idle i))))(assert (not (= i F)))'),
        ('one more idle parser, and the first that acts is still ahead', first + '(assert (and (<= 0 i) (< i n) (<= i F) (idle i)))(assert (not (<= (+ i 1) F)))'),
        ('the recursion of run() descends', step + '(assert (=> dd (= rest 0)))(assert (=> (and (not dd) none) (= rest (- a 1))))(assert (=> (and (not dd) (not none)) (and (= rs (- a 1)) (<= 0 rest) (<= rest rs))))(assert (not (and (<= 0 rest) (< rest a))))'),
        ('the recursion of the further values descends', '(declare-const i Int)(declare-const j Int)(declare-const n Int)(declare-const big Bool)(assert (and (< i n) (=> big (and (<= (+ i 1) j) (<= j n)))))(assert (not (< (- n (ite big j (+ i 1))) (- n i))))')])

# ---- collect_unrecognized (template of detail/parsers.hpp) ----------------------------------------------------------
def picked(o, inc): return Or(o.unregistered, And(inc, Not(eq(o.position_key, -1))))
COLL = Prec('collected', QS, (), lambda prev, e, k, inc: prev + ite(picked(e, inc), e.original_tokens, ()))
def mk_collect(ch):
    name = 'collect_unrecognized<%s>' % ch
    def T_(prog):
        m = machine(prog, {}, {}); m.class_sort.update({'std::wstring': 'S', 'wstring': 'S', 'basic_string<wchar_t>': 'S', 'basic_option<%s>' % ch: OPT, 'basic_option': OPT, 'woption': OPT, 'option': OPT})
        nd = [n for n in prog.function('program_options::collect_unrecognized') if ('IwE' in (n.get('mangledName') or '')) == (ch == 'wchar_t')][0]
        def setup(ex):
            c = ex.c; os = c.fresh('options', QO); c.assume(Lt(len_(os), I(2**31))); inc = c.choose(2)
            c.tag = dict(os=V(os), inc=V(B(bool(inc))))
            return dict(this=None, args=[ex.new_cell('options', os), I(0 if inc else 1)], **c.tag)
        def tpl(L):
            d = L.ex.c.tag; os, inc = d['os'], d['inc']
            for r in slots_of(L, QS, True):
                for i in slots_of(L, 'I', True):
                    yield ('%r from the first %r options' % (r, i), lambda r=r, i=i: eq(V(L.cval(r)), COLL(os, V(L.cval(i)), inc)))
        def post(ex, out, e):
            c = ex.c
            if out[0] != 'return': c.oblige('post', name + ': does not throw', FALSE); return
            c.oblige('post', name + ': exactly the tokens of the unregistered options and, if asked for, of the positional ones, in order', Eq(ex.to_term(ex.load(out[1]) if isinstance(out[1], Place) else out[1], QS), COLL(e['os'], ln(e['os']), e['inc']).t))
        return Task(name, m, nd, setup, post, templates=[tpl])
    T_.tus = ['inst']; return T_
T_collect, T_wcollect = mk_collect('char'), mk_collect('wchar_t')

# ---- the object's set-up: constructors, setters, and the wrappers of basic_command_line_parser<charT> ---------------
BCP = 'program_options::basic_command_line_parser'
def same(ex, v, w):
    if isinstance(v, T) and isinstance(w, T): return Eq(v, w)
    if isinstance(v, Ptr) and isinstance(w, Ptr): return B(v.place == w.place)
    return B(v is w or repr(v) == repr(w))
def ctor_fields(ex, o, args):
    return [('the tokens', Eq(ex.to_term(o.f['m_args'], QS), args)), ('the default style', Eq(o.f['m_style'], Style({k: k in DEFBITS for k in BITS}).term())),
            ('no description', B(o.f['m_desc'] is NULL)), ('no positional description', B(o.f['m_positional'] is NULL)), ('unregistered options are errors', tm.Not(o.f['m_allow_unregistered']))]
def blank_obj(ex, derived=False):
    f = {'m_args': tm.cat(QS), 'm_style': ex.c.fresh('uninit', 'I'), 'm_allow_unregistered': ex.c.fresh('uninit', 'B'), 'm_desc': NULL, 'm_positional': NULL, 'm_style_parser': Fn('none'), 'm_additional_parser': Fn('none')}
    if derived: f['m_desc2'] = NULL
    return ex.new_cell('this', Rec('basic_command_line_parser' if derived else 'cmdline', f))
def argv(ex):
    c = ex.c; n = c.fresh('argc', 'I'); c.assume(Ge(n, I(0))); av = c.fresh('argv', QS); c.assume(Eq(len_(av), tm.add(n, I(1)))); c.assume(Lt(n, I(2**31 - 1)))      # argc strings and the null pointer
    return n, av, It(ex.new_cell('argv', av), I(0))
def program_args(e): return ite(V(Gt(e['n'], I(0))), V(tm.sub(e['av'], I(1), sub_i(e['n'], I(1)))), ())        # argv[1] .. argv[argc - 1]
def h_member(ex, b, cur, nm):
    if nm == 'm_desc' and ex.fr.node.get('_q', '').startswith(BCP): return b.sub(('f', 'm_desc2'))        # the parser's own m_desc hides the one of detail::cmdline
def c_internal(ex, f, th, a): 
    x = ex.load(a[0]); return fn('narrow_all', QS, V(ex.to_term(x, QS))).t
def bmach(prog, wide, contracts=None):
    m = cm(prog, contracts or {}); m.hooks['member'] = h_member
    if wide: m.class_sort.update({'std::wstring': 'S', 'wstring': 'S', 'basic_string<wchar_t>': 'S'})
    return m
def bfns(prog, name, wide): return [n for n in prog.function(BCP + '::' + name) if ('IwE' if wide else 'IcE') in (n.get('mangledName') or '')]
def mk_bctor(wide, kind):
    def T_(prog):
        name = 'basic_command_line_parser<%s>(%s)' % ('wchar_t' if wide else 'char', kind)
        nd = [n for n in bfns(prog, 'basic_command_line_parser', wide) if ('vector' in n['type']['qualType']) == (kind == 'args') and not n.get('isImplicit')][0]
        m = bmach(prog, wide, {NS + 'cmdline': c_base_ctor, 'program_options::to_internal': c_internal})
        def setup(ex):
            this = blank_obj(ex, True)
            if kind == 'args': a = ex.c.fresh('args', QS); return dict(this=this, args=[ex.new_cell('a', a)], want=V(a))
            n, av, it = argv(ex); e = dict(n=n, av=av); return dict(this=this, args=[ex.new_cell('n', n), ex.new_cell('v', it)], want=program_args(e))
        def post(ex, out, e):
            if out[0] != 'return': ex.c.oblige('post', name + ': does not throw', FALSE); return
            ex.c.oblige('post', name + ': the arguments, converted', Eq(ex.to_term(ex.load(e['this']).f['m_args'], QS), (fn('narrow_all', QS, e['want'])).t))
        return Task(name, m, nd, setup, post)
    T_.tus = ['inst']; T_.meth = 'ctor'; return T_
def c_base_ctor(ex, f, th, a):
    p = th; o = ex.load(p)
    for k, v in (('m_args', ex.to_term(ex.load(a[0]), QS)), ('m_style', Style({k: k in DEFBITS for k in BITS}).term()), ('m_desc', NULL), ('m_positional', NULL), ('m_allow_unregistered', FALSE)): o = o.set(k, v)
    ex.store_to(p, o)
def T_init_args(prog):
    nd = fnode(prog, NS + 'cmdline', lambda n: 'vector' in n['type']['qualType'])
    def setup(ex):
        a = ex.c.fresh('args', QS); this = blank_obj(ex); return dict(this=this, args=[ex.new_cell('a', a)], a=a)
    def post(ex, out, e):
        for l, g in ctor_fields(ex, ex.load(e['this']), e['a']) if out[0] == 'return' else [('does not throw', FALSE)]: ex.c.oblige('post', 'cmdline(args): ' + l, g)
    return Task('cmdline::cmdline(args)', cm(prog), nd, setup, post)
def T_init_argv(prog):
    nd = fnode(prog, NS + 'cmdline', lambda n: 'vector' not in n['type']['qualType'])
    def setup(ex):
        n, av, it = argv(ex); this = blank_obj(ex); return dict(this=this, args=[ex.new_cell('n', n), ex.new_cell('v', it)], n=n, av=av)
    def post(ex, out, e):
        want = program_args(e).t
        for l, g in ctor_fields(ex, ex.load(e['this']), want) if out[0] == 'return' else [('does not throw', FALSE)]: ex.c.oblige('post', 'cmdline(argc, argv): ' + l, g)
    return Task('cmdline::cmdline(argc, argv)', cm(prog), nd, setup, post)
def setter(name, mkarg, field, val):
    """cmdline::name stores its argument and changes nothing else"""
    def T_(prog):
        nd = fnode(prog, NS + name)
        def setup(ex):
            st = sym_style(ex); this = cmdline_obj(ex, st); a = mkarg(ex); return dict(this=this, args=[a] if a is not None else [], o=ex.load(this), a=a)
        def post(ex, out, e):
            if out[0] != 'return': ex.c.oblige('post', name + ': does not throw', FALSE); return
            o, n = e['o'], ex.load(e['this'])
            ex.c.oblige('post', name + ': stored', same(ex, n.f[field], val(ex, e)))
            for k in o.f:
                if k != field: ex.c.oblige('frame', '%s: %s unchanged' % (name, k), same(ex, n.f[k], o.f[k]))
        return Task('cmdline::' + name, cm(prog), nd, setup, post)
    return T_
def a_desc(ex): return ex.new_cell('given', ex.c.fresh('given', DESC))
def a_pos(ex): return ex.new_cell('given', POSC.t)
def a_fun(ex): return ex.new_cell('given', Fn('user', name='given'))
T_set_unreg = setter('allow_unregistered', lambda ex: None, 'm_allow_unregistered', lambda ex, e: B(True))
T_set_desc = setter('set_options_description', a_desc, 'm_desc', lambda ex, e: Ptr(e['a']))
T_set_pos = setter('set_positional_options', a_pos, 'm_positional', lambda ex, e: Ptr(e['a']))
T_set_add = setter('set_additional_parser', a_fun, 'm_additional_parser', lambda ex, e: ex.load(e['a']))
T_set_style_parser = setter('extra_style_parser', a_fun, 'm_style_parser', lambda ex, e: ex.load(e['a']))
SETTERS = [T_init_args, T_init_argv, T_set_unreg, T_set_desc, T_set_pos, T_set_add, T_set_style_parser]
def c_store(field):
    def c_(ex, f, th, a):
        v = ex.load(a[0]) if a and field in ('m_additional_parser', 'm_style_parser') else Ptr(a[0]) if a else TRUE
        ex.store_to(th.sub(('f', field)), v)
    return c_
def c_style(ex, f, th, a):
    """contract of cmdline::style as far as its wrapper goes: an invalid style is thrown, any other is stored"""
    x = ex.load(a[0]); c = ex.c
    if c.branch(app('style_bad', (x,), 'B')): throw_spec(ex, SpecThrow('invalid_command_line_style'))
    ex.store_to(th.sub(('f', 'm_style')), app('style_of', (x,), 'I'))
BASE = {NS + 'set_options_description': c_store('m_desc'), NS + 'set_positional_options': c_store('m_positional'), NS + 'set_additional_parser': c_store('m_additional_parser'),
        NS + 'extra_style_parser': c_store('m_style_parser'), NS + 'allow_unregistered': c_store('m_allow_unregistered'), NS + 'style': c_style}
def mk_bset(wide, meth, mkarg, eff):
    def T_(prog):
        name = 'basic_command_line_parser<%s>::%s' % ('wchar_t' if wide else 'char', meth)
        m = bmach(prog, wide, dict(BASE)); nd = bfns(prog, meth, wide)[0]
        def setup(ex):
            st = sym_style(ex); this = cmdline_obj(ex, st); ex.store_to(this, ex.load(this).set('m_desc2', NULL)) if False else None
            o = ex.load(this); o = Rec('cmdline', dict(o.f, m_desc2=NULL)); ex.store_to(this, o)
            a = mkarg(ex); return dict(this=this, args=[a] if a is not None else [], o=o, a=a)
        def post(ex, out, e):
            c = ex.c; o, n = e['o'], ex.load(e['this']); bad = app('style_bad', (ex.load(e['a']),), 'B') if meth == 'style' else FALSE
            if out[0] != 'return':
                c.oblige('post', name + ': throws only for an invalid style', bad if out[1].cls == 'invalid_command_line_style' else FALSE); want = {}
            else:
                c.oblige('post', name + ': an invalid style is reported', tm.Not(bad)); want = eff(ex, e)
                c.oblige('post', name + ': returns the parser itself', B(isinstance(out[1], Place) and out[1] == e['this'] or isinstance(out[1], Ptr) and out[1].place == e['this']))
            for k in o.f: c.oblige('frame' if k not in want else 'post', '%s: %s' % (name, k), same(ex, n.f[k], want.get(k, o.f[k])))
        return Task(name, m, nd, setup, post)
    T_.tus = ['inst']; T_.meth = meth; return T_
def mk_brun(wide):
    def T_(prog):
        name = 'basic_command_line_parser<%s>::run' % ('wchar_t' if wide else 'char')
        QT = tm.seq(OPT) if hasattr(tm, 'seq') else QO
        def c_run(ex, f, th, a):
            o = ex.load(th); k = (ex.to_term(o.f['m_args'], QS), o.f['m_style'])
            if ex.c.branch(app('run_fails', k, 'B')): throw_spec(ex, SpecThrow(['invalid_command_line_syntax', 'unknown_option', 'ambiguous_option', 'too_many_positional_options_error'][ex.c.choose(4)]))
            ex.store_to(th, ex.load(th).set('m_args', tm.cat(QS)))
            return app('run_result', k, QO)
        def c_prefix(ex, f, th, a): return app('canonical_prefix', (ex.load(th).f['m_style'],), 'I')
        def c_wide(ex, f, th, a):
            po = ex.load(a[0]); q = ex.to_term(po.f['options'], QO)
            if ex.c.branch(app('not_utf8', (q,), 'B')): throw_spec(ex, SpecThrow('logic_error'))
            ex.store_to(th, ex.load(th).set('options', app('widened', (q,), QO)).set('description', po.f['description']).set('m_options_prefix', po.f['m_options_prefix']).set('utf8_encoded_options', po))
        con = {NS + 'run': c_run, NS + 'get_canonical_option_prefix': c_prefix}
        m = bmach(prog, wide, con); nd = bfns(prog, 'run', wide)[0]
        if wide:
            def construct(ex, t, b, ta, args, node):
                if 'basic_parsed_options' in b and 'wchar_t' in (t or '') and len(args) == 1:
                    po = ex.load(args[0]); q = ex.to_term(po.f['options'], QO)
                    if ex.c.branch(app('not_utf8', (q,), 'B')): throw_spec(ex, SpecThrow('logic_error'))
                    return Rec('basic_parsed_options', {'options': app('widened', (q,), QO), 'description': po.f['description'], 'm_options_prefix': po.f['m_options_prefix']})
            m.hooks['construct'] = construct
        def setup(ex):
            st = sym_style(ex); this = cmdline_obj(ex, st); o = ex.load(this); d = ex.new_cell('own', ex.c.fresh('own', DESC))
            o = Rec('cmdline', dict(o.f, m_desc2=Ptr(d))); ex.store_to(this, o)
            return dict(this=this, args=[], o=o, d=d)
        def post(ex, out, e):
            c = ex.c; o = e['o']; k = (ex.to_term(o.f['m_args'], QS), o.f['m_style']); ok = tm.Not(app('run_fails', k, 'B')); R = app('run_result', k, QO)
            if out[0] != 'return': c.oblige('post', name + ': throws only what parsing or widening throws', tm.Or(tm.Not(ok), app('not_utf8', (R,), 'B') if wide else FALSE)); return
            r = ex.load(out[1]) if isinstance(out[1], Place) else out[1]
            c.oblige('post', name + ': an error of the parse is reported', ok)
            c.oblige('post', name + ': the options of the parse', Eq(ex.to_term(r.f['options'], QO), app('widened', (R,), QO) if wide else R))
            c.oblige('post', name + ': the description given to options()', B(isinstance(r.f['description'], Ptr) and r.f['description'].place == e['d']))
            c.oblige('post', name + ': the prefix for messages', Eq(r.f['m_options_prefix'], app('canonical_prefix', (o.f['m_style'],), 'I')))
        return Task(name, m, nd, setup, post)
    T_.tus = ['inst']; T_.meth = 'run'; return T_
def mk_pcl(wide):
    def T_(prog):
        name = 'parse_command_line<%s>' % ('wchar_t' if wide else 'char')
        def c_run(ex, f, th, a):
            e = ex.c.tag; o = ex.load(th)
            for l, g in (('the description', same(ex, o.f['m_desc'], Ptr(e['d']))), ('the style', Eq(o.f['m_style'], app('style_of', (e['st'],), 'I'))), ('the extra parser', same(ex, o.f['m_additional_parser'], ex.load(e['x']))),
                         ('no positional description', B(o.f['m_positional'] is NULL)), ('unregistered options are errors', tm.Not(o.f['m_allow_unregistered'])), ('the arguments', Eq(ex.to_term(o.f['m_args'], QS), fn('narrow_all', QS, program_args(e)).t))):
                ex.c.oblige('post', name + ': parses with ' + l, g)
            if ex.c.branch(app('run_fails', (o.f['m_style'],), 'B')): throw_spec(ex, SpecThrow('invalid_command_line_syntax'))
            return app('run_result', (o.f['m_style'],), QO)
        def c_prefix(ex, f, th, a): return app('canonical_prefix', (ex.load(th).f['m_style'],), 'I')
        m = bmach(prog, wide, dict(BASE, **{NS + 'run': c_run, NS + 'get_canonical_option_prefix': c_prefix, NS + 'cmdline': c_base_ctor, 'program_options::to_internal': c_internal}))
        def construct(ex, t, b, ta, args, node):
            if 'basic_parsed_options' in b and 'wchar_t' in (t or '') and len(args) == 1:
                po = ex.load(args[0]); q = ex.to_term(po.f['options'], QO)
                if ex.c.branch(app('not_utf8', (q,), 'B')): throw_spec(ex, SpecThrow('logic_error'))
                return Rec('basic_parsed_options', {'options': app('widened', (q,), QO), 'description': po.f['description'], 'm_options_prefix': po.f['m_options_prefix']})
            if 'basic_command_line_parser' in b and len(args) == 2:
                p = blank_obj_(ex); ctor = [n for n in bfns(prog, 'basic_command_line_parser', wide) if 'vector' not in n['type']['qualType'] and not n.get('isImplicit')][0]
                ex.inline(ctor, p, args, node); return ex.load(p)
        m.hooks['construct'] = construct
        nd = [n for n in prog.function('program_options::parse_command_line') if ('IwE' if wide else 'IcE') in (n.get('mangledName') or '')][0]
        def setup(ex):
            n, av, it = argv(ex); d = a_desc(ex); x = ex.new_cell('ext', Fn('user', name='given')); st = ex.c.fresh('style', 'I')
            e = dict(n=n, av=av, d=d, x=x, st=st); ex.c.tag = e
            return dict(this=None, args=[ex.new_cell('n', n), ex.new_cell('v', it), d, ex.new_cell('st', st), x], **e)
        def post(ex, out, e):
            c = ex.c; bad = app('style_bad', (e['st'],), 'B'); so = app('style_of', (e['st'],), 'I'); fails = app('run_fails', (so,), 'B'); R = app('run_result', (so,), QO)
            if out[0] != 'return': c.oblige('post', name + ': throws only for the style, the parse or the widening', tm.Or(bad, fails, app('not_utf8', (R,), 'B') if wide else FALSE)); return
            r = ex.load(out[1]) if isinstance(out[1], Place) else out[1]
            c.oblige('post', name + ': an invalid style and an error of the parse are reported', tm.And(tm.Not(bad), tm.Not(fails)))
            c.oblige('post', name + ': the options of the parse', Eq(ex.to_term(r.f['options'], QO), app('widened', (R,), QO) if wide else R))
            c.oblige('post', name + ': the description', same(ex, r.f['description'], Ptr(e['d']))); c.oblige('post', name + ': the prefix for messages', Eq(r.f['m_options_prefix'], app('canonical_prefix', (so,), 'I')))
        return Task(name, m, nd, setup, post)
    T_.tus = ['inst']; T_.meth = 'parse_command_line'; return T_
def blank_obj_(ex):
    p = blank_obj(ex, True); q = ex.new_cell('parser', ex.load(p)); return q
def a_int(ex): return ex.new_cell('style', ex.c.fresh('style', 'I'))
BSET = [('options', a_desc, lambda ex, e: {'m_desc': Ptr(e['a']), 'm_desc2': Ptr(e['a'])}), ('positional', a_pos, lambda ex, e: {'m_positional': Ptr(e['a'])}),
        ('style', a_int, lambda ex, e: {'m_style': app('style_of', (ex.load(e['a']),), 'I')}), ('extra_parser', a_fun, lambda ex, e: {'m_additional_parser': ex.load(e['a'])}),
        ('extra_style_parser', a_fun, lambda ex, e: {'m_style_parser': ex.load(e['a'])}), ('allow_unregistered', lambda ex: None, lambda ex, e: {'m_allow_unregistered': TRUE})]
WRAPS = [mk_bctor(w_, k_) for w_ in (False, True) for k_ in ('args', 'argc, argv')] + [mk_bset(w_, *b_) for w_ in (False, True) for b_ in BSET] + [mk_brun(False), mk_brun(True), mk_pcl(False), mk_pcl(True)]
for i_, t_ in enumerate(WRAPS): globals()['T_w%d' % i_] = t_

EXT_RUN = pc.EXT_CMD + ['style parsers set by the user and the extra parser (style_parser, extra_style_parser) are not installed: run() then has the five built-in parsers, in its order',
    'inside run() a built-in parser and finish_option are seen through their contracts: deterministic in the tokens they get, tokens accounted for as proved of each of them',
    'the canonical name of a registered option is not empty (a name set by the user, C06)',
    'fewer than 2^31 tokens']
def wraps(*meths): return [t for t in WRAPS if t.meth in meths]
RUNALL = [T_main, T_absorb, T_number, T_name, T_case, T_lemmas, task.T_mono]
class P01(pc.P01):
    tasks = [T_long, T_disguised, pc.T_prefix, pc.T_active]
class P02(pc.P02):
    tasks = [T_short, T_dos, pc.T_active]
class P03(pc.P03):
    tasks = [T_term, T_long, T_disguised, T_short, T_dos, T_main, T_absorb, T_lemmas, task.T_mono]; extra_assumptions = EXT_RUN
    proved = ('parse_terminator', 'that no other built-in parser takes "--"', 'the main loop and the absorption loop of run')
class P04(pc.P04):
    tasks = [T_long, T_disguised, T_short, T_dos, T_term, T_finish, T_init_args, T_init_argv, T_set_desc] + wraps('ctor', 'options', 'run', 'parse_command_line') + RUNALL; extra_assumptions = EXT_RUN
    proved = ('the token accounting of every built-in parser', 'finish_option', 'run: its main loop, the absorption of further values, numbering, naming, case flags',
              'the constructors of cmdline and basic_command_line_parser<charT>, basic_command_line_parser<charT>::options and run, parse_command_line<charT>')
class P07(pc.P07):
    tasks = [T_finish, T_main, T_absorb, T_lemmas, task.T_mono]; extra_assumptions = EXT_RUN
    proved = ('finish_option', 'the main loop of run and its absorption of further values')
class P08(pc.P08):
    tasks = [pc.T_pos_add, pc.T_pos_max, pc.T_pos_name, T_set_pos] + wraps('positional') + [T_absorb, T_number, T_name, T_case, T_lemmas]; extra_assumptions = EXT_RUN
    proved = ('positional_options_description', 'positional()', 'run: which options stay positional, how they are numbered and named, too many of them')
class P18(pc.P18):
    tasks = [T_finish, T_collect, T_wcollect, T_set_unreg] + wraps('allow_unregistered') + [T_main, T_lemmas, task.T_mono]; extra_assumptions = EXT_RUN
    proved = ('finish_option', 'collect_unrecognized<char> and <wchar_t>', 'allow_unregistered', 'the main loop of run: an error of finish_option is the only unknown_option')
class P21(pc.P21):
    tasks = [pc.T_style, pc.T_check_style, pc.T_prefix, pc.T_active, T_set_add, T_set_style_parser, T_parsers, T_additional] + wraps('style', 'extra_parser', 'extra_style_parser') + [T_main, T_case, T_lemmas]; extra_assumptions = EXT_RUN
    proved = ('style', 'check_style', 'extra_parser, extra_style_parser', 'is_style_active', 'get_canonical_option_prefix', 'run: which parsers run and in which order, the case flags of the result')
PROPS = {c.id: c for c in (P01, P02, P03, P04, P07, P08, P18, P21)}
