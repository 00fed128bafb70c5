"""Contracts of the configuration file reader and the environment reader (C12, C13, C14)."""
from model import *
from task import Task, Lemma, outcome_post
import sp, task, lib
from sp import *
from p_cmdline import slots_of, fnode as _fn
from p_options import tpl_lower, tpl_inplace
CF = 'program_options::detail::common_config_file_iterator::'
WS = ' \t\r\n'
SET = ('U', 'SetS')
OPT = ('D', 'option')
BS = lambda ex, n: V(ex.c.fresh(n, 'B'))
def trim(x): return fn('trim', 'S', x)
FACTS['trim'] = lambda t: [Le(len_(t), len_(t.args[1]))]
def seg_(x, o, n): return V(tm.seg(x.t, to_T(o, 'I'), to_T(n, 'I')))

# ---- one line
def stripc(l): return ite(has(l, '#'), seg_(l, 0, idx(l, '#')), l)
def body(l): return trim(stripc(l))
def is_sec(b): return And(Not(empty(b)), starts(b, '['), ends(b, ']'))
def is_asg(b): return And(Not(empty(b)), Not(And(starts(b, '['), ends(b, ']'))), has(b, '='))
def is_bad(b): return And(Not(empty(b)), Not(And(starts(b, '['), ends(b, ']'))), Not(has(b, '=')))
def sec_prefix(b):
    i = seg_(b, 1, ln(b) - 2)
    return ite(ends(i, '.'), i, i + '.')
def asg_name(b): return trim(seg_(b, 0, idx(b, '=')))
def asg_value(b): return trim(seg_(b, idx(b, '=') + 1, ln(b) - idx(b, '=') - 1))
def mem(s, x): return fn('mem', 'B', s, x)
def pfxin(p, x): return fn('pfxin', 'B', p, x)
def allowed(al, px, n): return Or(mem(al, n), pfxin(px, n))
def the_opt(n, v, al, px):
    return V(tm.mk('option', string_key=n.t, position_key=I(-1), value=tm.unit(v.t), original_tokens=tm.cat(QS, tm.unit(n.t), tm.unit(v.t)),
                   unregistered=tm.Not(allowed(al, px, n).t), case_insensitive=FALSE))

# ---- the first k lines: section prefix, options read, no error yet
PF = Prec('cf_prefix', 'S', lambda p0: p0, lambda prev, e, k, p0: ite(is_sec(body(e)), sec_prefix(body(e)), prev))
def _out(prev, e, k, xs, p0, al, px):
    b = body(e)
    return ite(is_asg(b), V(tm.cat2(prev.t, tm.unit(the_opt(PF(xs, k, p0) + asg_name(b), asg_value(b), al, px).t))), prev)
OUT = Prec('cf_out', QO, lambda *ps: V(tm.empty(QO)), _out)
def _ok(prev, e, k, xs, p0, al, px, un):
    b = body(e)
    return And(prev, Not(is_bad(b)), Or(Not(is_asg(b)), un, allowed(al, px, PF(xs, k, p0) + asg_name(b))))
OKL = Prec('cf_ok', 'B', True, _ok)

def cf_obj(ex, name='this'):
    c = ex.c
    ls = c.fresh('lines', QS); k = c.fresh('next', 'I')
    c.assume(tm.And(Ge(k, I(0)), Le(k, len_(ls))))
    v = c.fresh('value', OPT)
    c.assume(Eq(tm.sel(v, 'position_key'), I(-1))); c.assume(tm.Not(tm.sel(v, 'case_insensitive')))
    f = {'m_at_eof': FALSE, 'm_value': v, 'allowed_options': c.fresh('allowed', SET), 'allowed_prefixes': c.fresh('prefixes', SET),
         'm_prefix': None, 'm_allow_unregistered': c.fresh('allow_unreg', 'B'), 'lines': ls, 'k': k}
    p0 = c.fresh('prefix0', 'S')
    f['m_prefix'] = PF(V(ls), V(k), V(p0)).t
    e = dict(this=ex.new_cell(name, Rec('common_config_file_iterator', f)), ls=V(ls), k0=V(k), p0=V(p0), al=V(f['allowed_options']), px=V(f['allowed_prefixes']),
             un=V(f['m_allow_unregistered']), obj0=Rec('x', f), args=[])
    return e
def h_getline(ex, b, cur, args, n, mem_):
    """contract of the virtual getline: the next line of the file, if there is one"""
    if not (isinstance(cur, Rec) and 'lines' in cur.f): return None
    k = cur.f['k']; ls = cur.f['lines']
    if ex.c.branch(Lt(k, len_(ls))):
        ex.store_to(args[0], tm.nth(ls, k)); ex.store_to(b.sub(('f', 'k')), add(k, I(1)))
        return (TRUE,)
    return (FALSE,)
def c_trim(ex, fn_, this, args): return app('trim', (ex.to_term(ex.load(args[0]), 'S'),), 'S')
def c_allowed(ex, fn_, this, args):
    o = ex.load(this); return allowed(V(o.f['allowed_options']), V(o.f['allowed_prefixes']), V(ex.to_term(ex.load(args[0]), 'S'))).t
def mach(prog, over=None, hooks=None):
    m = machine(prog, None, hooks)
    m.class_sort.update({'set': SET, 'set<std::string>': SET})
    m.contracts.pop('program_options::error_with_option_name::set_option_name', None)
    if over: m.contracts.update(over)
    return m
TRIM = 'program_options::detail::(anonymous)::trim_ws'
def trim_node(prog):
    for tu in prog.tus.values():
        for n in tu.byid.values():
            if n.get('name') == 'trim_ws' and n['kind'] == 'FunctionDecl' and tu.body(n) is not None: return n
    raise Unsupported('trim_ws not found')
def T_trim(prog):
    def setup(ex):
        s = ex.c.fresh('str', 'S'); ex.c.assume(Lt(len_(s), I(2**62))); return dict(this=None, args=[ex.new_cell('str', s)], s=s)
    def spec(ex, e):
        a = lib.set_index('first_not_of:', e['s'], WS); b = lib.set_index('last_not_of:', e['s'], WS)
        return V(tm.Ite(Eq(a, I(-1)), S(''), tm.seg(e['s'], a, add(sub_i(b, a), I(1))))), []
    return Task('trim_ws', mach(prog), trim_node(prog), setup, outcome_post(spec, 'trim_ws'))
def frame(ex, e, but=()):
    o, n = e['obj0'], ex.load(e['this'])
    ex.c.oblige('frame', 'the rest of the object is unchanged', tm.And(*[Eq(o.f[k], n.f[k]) for k in o.f if k not in but]))
def cf_ps(e): return (e['ls'], e['p0'], e['al'], e['px'])
def tpl_get(L):
    e = L.ex.c.tag
    if not e or 'ls' not in e: return
    kp = [p for p, v, m in L.sl if m and p.path and p.path[-1] == ('f', 'k')]
    for p in kp:
        k = lambda p=p: V(L.cval(p))
        ls, ps = e['ls'], cf_ps(e)
        yield ('next line in range', lambda k=k: tm.And(Ge(k().t, e['k0'].t), Le(k().t, len_(ls.t))))
        yield ('no option so far', lambda k=k: Eq(OUT(ls, k(), *ps).t, OUT(ls, e['k0'], *ps).t))
        yield ('no error so far', lambda k=k: Eq(OKL(ls, k(), *ps, e['un']).t, OKL(ls, e['k0'], *ps, e['un']).t))
        for q in slots_of(L, 'S', True):
            yield ('%r section prefix' % q, lambda k=k, q=q: Eq(L.cval(q), PF(ls, k(), e['p0']).t))
def T_get(prog):
    m = mach(prog, {trim_node(prog)['_q']: c_trim, CF + 'allowed_option': c_allowed}, {'method:getline': h_getline})
    def setup(ex):
        e = cf_obj(ex); ex.c.tag = e; return e
    def post(ex, out, e):
        c = ex.c; o = ex.load(e['this']); k1 = V(o.f['k']); ls, ps, un = e['ls'], cf_ps(e), e['un']
        def ob(n, g): c.oblige('post', 'get: ' + n, g)
        if out[0] == 'abort': ob('no assertion fails', FALSE); return
        if out[0] == 'return':
            ob('section prefix after the lines read', Eq(o.f['m_prefix'], PF(ls, k1, e['p0']).t))
            if c.branch(o.f['m_at_eof']):
                ob('end of file only after the last line', Eq(k1.t, len_(ls.t)))
                ob('no option in the lines read', Eq(OUT(ls, k1, *ps).t, OUT(ls, e['k0'], *ps).t))
            else:
                ob('a line was read', Gt(k1.t, e['k0'].t))
                ob('exactly one option in the lines read, the one delivered', Eq(OUT(ls, k1, *ps).t, tm.cat2(OUT(ls, e['k0'], *ps).t, tm.unit(o.f['m_value']))))
            ob('no erroneous line is accepted', Eq(OKL(ls, k1, *ps, un).t, OKL(ls, e['k0'], *ps, un).t))
            frame(ex, e, ('m_at_eof', 'm_value', 'm_prefix', 'k'))
        else:
            x = out[1]; j = k1 - 1
            ob('error at a line after the previous one', tm.And(Ge(j.t, e['k0'].t), Lt(j.t, len_(ls.t))))
            ob('no option skipped before the error', Eq(OUT(ls, j, *ps).t, OUT(ls, e['k0'], *ps).t))
            ob('no erroneous line before the error', Eq(OKL(ls, j, *ps, un).t, OKL(ls, e['k0'], *ps, un).t))
            b = body(ls[j])
            if x.cls == 'unknown_option':
                n = PF(ls, j, e['p0']) + asg_name(b)
                ob('unknown name: only an unregistered NAME=VALUE', And(is_asg(b), Not(un), Not(allowed(e['al'], e['px'], n))).t)
                ob('unknown name: the name is carried', Eq(ex.load(x.f['original_token']), n.t))
            elif x.cls == 'invalid_config_file_syntax':
                ob('invalid line: only a line that is neither', is_bad(b).t)
                ob('invalid line: the line is carried', Eq(ex.load(x.f['invalid_line']), b.t))
            else: ob('no other error (%s)' % x.cls, FALSE)
    return Task('common_config_file_iterator::get', m, _fn(prog, CF + 'get'), setup, post, templates=[tpl_get],
                variants=[('lines left', lambda L: sub_i(len_(L.ex.c.tag['ls'].t), next(L.cval(p) for p, v, m in L.sl if m and p.path and p.path[-1] == ('f', 'k'))))])

# ---- ordered sets of strings (std::set, std::less<string>): library model
# mem(P,x); ins(P,x); elems(P): the elements in order; ex_R(P,s): some element stands in relation R to s; min_R / max_R: the least / greatest such element.
# sle is the lexicographic order; the axioms are instantiated at the elements an argument names
def sle(a, b): return app('sle', (a, b), 'B')
def slt(a, b): return tm.And(sle(a, b), tm.Not(Eq(a, b)))
def memt(P, x): return app('mem', (P, x), 'B')
REL = {'ge': lambda x, s: sle(s, x), 'gt': lambda x, s: slt(s, x), 'le': lambda x, s: sle(x, s), 'lt': lambda x, s: slt(x, s)}
def ext(P, r, s): return app('ex_' + r, (P, s), 'B')
def bnd(P, r, s): return app(('min_' if r[0] == 'g' else 'max_') + r, (P, s), 'S')
def pfx(a, b): return tm.prefixof(a, b)
def ord_axioms(*xs):
    """order axioms and the prefix lemmas (Lemma tasks below) at the given strings"""
    out = []
    for a in xs:
        for b in xs:
            out += [tm.Or(sle(a, b), sle(b, a)), tm.Implies(tm.And(sle(a, b), sle(b, a)), Eq(a, b)), tm.Implies(pfx(a, b), sle(a, b))]
            for c in xs:
                if a is not c: out += [tm.Implies(tm.And(sle(a, b), sle(b, c)), sle(a, c)), tm.Implies(tm.And(pfx(a, c), sle(a, b), sle(b, c)), pfx(a, b))]
    return out
def set_axioms(P, r, s, *xs):
    """the bound at s: it is an element in that relation, and none of the elements xs is closer"""
    m = bnd(P, r, s); e = ext(P, r, s)
    out = [tm.Implies(e, tm.And(memt(P, m), REL[r](m, s)))]
    for x in xs: out.append(tm.Implies(tm.And(memt(P, x), REL[r](x, s)), tm.And(e, sle(m, x) if r[0] == 'g' else sle(x, m))))
    return out
def no_pfx(P, *xs):
    """invariant: no element is a prefix of another"""
    return [tm.Implies(tm.And(memt(P, a), memt(P, b), pfx(a, b)), Eq(a, b)) for a in xs for b in xs if a is not b]
def pfxin_def(P, s, *xs):
    w = app('pfx_wit', (P, s), 'S'); t = app('pfxin', (P, s), 'B')
    return [tm.Implies(t, tm.And(memt(P, w), pfx(w, s)))] + [tm.Implies(tm.And(memt(P, x), pfx(x, s)), t) for x in xs]
def confl(P, s): return app('confl', (P, s), 'B')
def confl_def(P, s, *xs):
    w = app('confl_wit', (P, s), 'S'); t = confl(P, s)
    return [tm.Implies(t, tm.And(memt(P, w), tm.Or(pfx(w, s), pfx(s, w))))] + [tm.Implies(tm.And(memt(P, x), tm.Or(pfx(x, s), pfx(s, x))), t) for x in xs]
def bound_facts(ex, P, s, w):
    """everything the two neighbours of s in P and the witness w give"""
    ms = [bnd(P, r, s) for r in ('ge', 'gt', 'le', 'lt')]
    for g in ord_axioms(s, w, *ms): ex.c.assume(g)
    for r in REL:
        for g in set_axioms(P, r, s, w, *ms): ex.c.assume(g)
    for g in no_pfx(P, w, *ms): ex.c.assume(g)
LEMMA_DEFS = '''(declare-sort S 0)
(declare-fun len (S) Int) (declare-fun at (S Int) Int)
(assert (forall ((s S)) (>= (len s) 0)))
(define-fun pfx ((a S) (b S)) Bool (and (<= (len a) (len b)) (forall ((i Int)) (=> (and (<= 0 i) (< i (len a))) (= (at a i) (at b i))))))
(define-fun fd ((a S) (b S) (d Int)) Bool (and (<= 0 d) (forall ((i Int)) (=> (and (<= 0 i) (< i d)) (= (at a i) (at b i))))))
(define-fun le ((a S) (b S)) Bool (or (pfx a b) (exists ((d Int)) (and (fd a b d) (< d (len a)) (< d (len b)) (< (at a d) (at b d))))))
(declare-const p S) (declare-const m S) (declare-const s S)
'''
def T_lemma_order(prog):
    return Lemma('lexicographic order and prefixes', [
        ('a prefix is not greater', LEMMA_DEFS + '(assert (pfx p s)) (assert (not (le p s)))'),
        ('between a prefix and the string everything has that prefix', LEMMA_DEFS + '(assert (pfx p s)) (assert (le p m)) (assert (le m s)) (assert (not (pfx p m)))')])
O = lambda s: Opaque(s)
def setit(P, kind, key): return Rec('setit', {'set': P, 'kind': Opaque(kind), 'key': key})
def h_set(ex, b, cur, nm, args, n):
    if not (isinstance(cur, T) and cur.sort == SET): return None
    if nm in ('find', 'lower_bound', 'upper_bound'):
        return (setit(cur, {'find': 'find', 'lower_bound': 'ge', 'upper_bound': 'gt'}[nm], ex.to_term(ex.load(args[0]), 'S')),)
    if nm in ('begin', 'end'):
        h = getattr(ex.c, 'set_elems', None)
        if h is not None and h[0] is cur:
            return (It(h[1], I(0) if nm == 'begin' else len_(ex.load(h[1]))),)
        return (setit(cur, nm, S('')),)
    if nm == 'insert' and len(args) == 1:
        x = ex.to_term(ex.load(args[0]), 'S'); ex.store_to(b, app('ins', (cur, x), SET)); return (NULL,)
    if nm == 'count': return (tm.Ite(memt(cur, ex.to_term(ex.load(args[0]), 'S')), I(1), I(0)),)
    if nm == 'empty' : raise Unsupported('set::empty')
    return None
def _si(ex, a):
    v = ex.load(a); return v if isinstance(v, Rec) and v.cls == 'setit' else None
def h_eq(ex, args, n, neg=False):
    a, b = _si(ex, args[0]), _si(ex, args[1])
    if a is None or b is None: return None
    if a.f['set'] is not b.f['set']: ex.c.oblige('safety', 'iterators of one container are compared', FALSE); raise PathEnd('iterators')
    ka, kb = a.f['kind'].what, b.f['kind'].what
    if ka in ('begin', 'end') and kb not in ('begin', 'end'): a, b, ka, kb = b, a, kb, ka
    P, s = a.f['set'], a.f['key']
    if kb == 'end' and ka == 'find': e = tm.Not(memt(P, s))
    elif kb == 'end' and ka in REL: e = tm.Not(ext(P, ka, s))
    elif kb == 'begin' and ka == 'ge': e = tm.Not(ext(P, 'lt', s))
    elif kb == 'begin' and ka == 'gt': e = tm.Not(ext(P, 'le', s))
    else: raise Unsupported('comparison of set iterators %s, %s' % (ka, kb))
    return (tm.Not(e) if neg else e,)
def h_dec(ex, args, n):
    a = _si(ex, args[0])
    if a is None: return None
    k = a.f['kind'].what; P, s = a.f['set'], a.f['key']
    if k not in ('ge', 'gt') or len(args) > 1: raise Unsupported('-- on a set iterator')
    r = {'ge': 'lt', 'gt': 'le'}[k]
    ex.safety('-- not at the beginning', ext(P, r, s))
    ex.store_to(args[0], setit(P, r, s)); return (args[0],)
def h_star(ex, args, n):
    a = _si(ex, args[0])
    if a is None: return None
    k = a.f['kind'].what; P, s = a.f['set'], a.f['key']
    if k == 'find':
        ex.safety('iterator is not at the end', memt(P, s)); return (s,)
    if k not in REL: raise Unsupported('* of a set iterator')
    ex.safety('iterator is not at the end', ext(P, k, s))
    return (bnd(P, k, s),)
SETHOOKS = {'value_method': h_set, 'operator!=': lambda ex, a, n: h_eq(ex, a, n, True), 'operator==': h_eq, 'operator--': h_dec, 'operator*': h_star, 'operator->': lambda ex, a, n: (lambda r: None if r is None else (Ptr(ex.new_cell('%s:arrow%s' % (ex.fr.fid, n['id'][-6:]), r[0])),))(h_star(ex, a, n)),
            'empty_set': lambda ex, ta: app('emptyset', (), SET)}
def T_allowed(prog):
    m = mach(prog, None, SETHOOKS)
    def setup(ex):
        e = cf_obj(ex); s = ex.c.fresh('s', 'S'); e['args'] = [ex.new_cell('s', s)]; e['s'] = V(s); ex.c.tag = {}
        P = e['px'].t
        bound_facts(ex, P, s, app('pfx_wit', (P, s), 'S'))
        for g in pfxin_def(P, s, bnd(P, 'le', s)): ex.c.assume(g)
        return e
    def post(ex, out, e):
        outcome_post(lambda ex, e: (allowed(e['al'], e['px'], e['s']), []), 'allowed_option')(ex, out, e); frame(ex, e)
    return Task('common_config_file_iterator::allowed_option', m, _fn(prog, CF + 'allowed_option'), setup, post)
def stem(n): return seg_(n, 0, ln(n) - 1)
def T_add_option(prog):
    m = mach(prog, None, SETHOOKS)
    def setup(ex):
        e = cf_obj(ex); c = ex.c; s = c.fresh('name', 'S'); e['args'] = [ex.new_cell('name', s)]; e['n'] = V(s); c.tag = {}
        c.assume(Gt(len_(s), I(0))); c.assume(Lt(len_(s), I(2**62)))
        P = e['px'].t; st = stem(V(s)).t
        w = app('confl_wit', (P, st), 'S')
        bound_facts(ex, P, st, w)
        for g in confl_def(P, st, bnd(P, 'ge', st), bnd(P, 'lt', st)): c.assume(g)
        return e
    def post(ex, out, e):
        c = ex.c; P, n = e['px'].t, e['n']; st = stem(n).t
        wild = ends(n, '*')
        if wild:
            if out[0] == 'throw':
                c.oblige('post', 'add_option: rejects only a conflicting wildcard', tm.And(B(out[1].cls == 'error'), confl(P, st)))
            elif out[0] == 'return':
                c.oblige('post', 'add_option: a conflicting wildcard is rejected', tm.Not(confl(P, st)))
                Q = ex.load(e['this']).f['allowed_prefixes']
                c.oblige('post', 'add_option: the stem is added', Eq(Q, app('ins', (P, st), SET)))
                x, y = c.fresh('x', 'S'), c.fresh('y', 'S')
                for z in (x, y):
                    c.assume(Eq(memt(Q, z), tm.Or(memt(P, z), Eq(z, st))))
                    for g in confl_def(P, st, z): c.assume(g)
                for g in no_pfx(P, x, y): c.assume(g)
                c.oblige('post', 'add_option: no element is a prefix of another', tm.Implies(tm.And(memt(Q, x), memt(Q, y), pfx(x, y)), Eq(x, y)))
                frame(ex, e, ('allowed_prefixes',))
            else: c.oblige('post', 'add_option: no assertion fails', FALSE)
        else:
            c.oblige('post', 'add_option: a plain name is accepted', B(out[0] == 'return'))
            frame(ex, e)
    return Task('common_config_file_iterator::add_option', m, _fn(prog, CF + 'add_option'), setup, post)
# ---- constructor: the stems of the names, in order, and whether some name conflicts with an earlier one
PS = Prec('cf_stems', SET, fn('emptyset', SET), lambda prev, e, k: ite(ends(e, '*'), fn('ins', SET, prev, stem(e)), prev))
def _cx(prev, e, k, xs): return Or(prev, And(ends(e, '*'), fn('confl', 'B', PS(xs, k), stem(e))))
CX = Prec('cf_conflict', 'B', False, _cx)
def _mono(name):          # a disjunction over the elements: true for k elements, true for all (by definition)
    f0 = FACTS[name]
    def facts(t):
        xs, k, ps = t.args[1], t.args[2], t.args[3:]
        out = f0(t)
        if k is not len_(xs): out.append(tm.Implies(tm.And(t, Ge(k, I(0)), Le(k, len_(xs))), app(name, (xs, len_(xs)) + tuple(ps), 'B')))
        return out
    FACTS[name] = facts
_mono('cf_conflict')
def elems(s): return fn('elems', QS, s)
def c_add_option(ex, fn_, this, args):
    n = V(ex.to_term(ex.load(args[0]), 'S')); o = ex.load(this); P = V(o.f['allowed_prefixes'])
    if n.t.op == 'nth' and ex.c.tag.get('nonempty') is n.t.args[0]: ex.c.assume(Gt(len_(n.t), I(0)))      # precondition: no name is empty
    ex.c.oblige('call', 'add_option gets a name', Gt(len_(n.t), I(0)))
    if ends(n, '*'):
        if fn('confl', 'B', P, stem(n)):
            if n.t.op == 'nth':
                for g in FACTS['cf_conflict'](CX(V(n.t.args[0]), V(add(n.t.args[1], I(1))), V(n.t.args[0])).t): ex.c.assume(g)
            throw_spec(ex, SpecThrow('error'))
        ex.store_to(this.sub(('f', 'allowed_prefixes')), fn('ins', SET, P, stem(n)).t)
    return None
def blank_cf(ex, cls='common_config_file_iterator', extra=()):
    c = ex.c
    f = {'m_at_eof': c.fresh('eof', 'B'), 'm_value': tm.mk('option', string_key=S(''), position_key=I(-1), value=tm.empty(QS), original_tokens=tm.empty(QS), unregistered=FALSE, case_insensitive=FALSE),
         'allowed_options': tm.app('emptyset', (), SET), 'allowed_prefixes': tm.app('emptyset', (), SET), 'm_prefix': S(''), 'm_allow_unregistered': c.fresh('un', 'B')}
    f.update(dict(extra))
    return Rec(cls, f)
def tpl_stems(L):
    d = L.ex.c.tag
    if not d or 'el' not in d: return
    for i, v, m in L.sl:
        if not (m and isinstance(v, It)): continue
        k = lambda i=i: V(L.cval(i))
        for p in slots_of(L, SET, True): yield ('%r the stems of the names so far' % p, lambda p=p, k=k: Eq(L.cval(p), PS(d['el'], k()).t))
        yield ('no conflict so far', lambda k=k: tm.Not(CX(d['el'], k(), d['el']).t))
def T_ctor(prog):
    m = mach(prog, {CF + 'add_option': c_add_option}, SETHOOKS)
    nd = [n for n in prog.function(CF + 'common_config_file_iterator') if len([p for p in n.get('inner', []) if p.get('kind') == 'ParmVarDecl']) == 2][0]
    def setup(ex):
        c = ex.c; al = c.fresh('names', SET); un = c.fresh('allow', 'B'); el = elems(V(al))
        cell = ex.new_cell('elements', el.t); c.set_elems = (al, cell)
        j = c.fresh('any', 'I')
        e = dict(this=ex.new_cell('this', blank_cf(ex)), args=[ex.new_cell('names', al), ex.new_cell('allow', un)], al=al, un=un, el=el)
        e['nonempty'] = el.t
        c.tag = e; return e
    def post(ex, out, e):
        c = ex.c; el = e['el']; n = ln(el)
        if out[0] == 'return':
            o = ex.load(e['this'])
            c.oblige('post', 'constructor: no conflicting wildcards', tm.Not(CX(el, n, el).t))
            c.oblige('post', 'constructor: the stems of the wildcards', Eq(o.f['allowed_prefixes'], PS(el, n).t))
            c.oblige('post', 'constructor: names and flag kept, no section, not at the end', tm.And(Eq(o.f['allowed_options'], e['al']), Eq(o.f['m_allow_unregistered'], e['un']), Eq(o.f['m_prefix'], S('')), tm.Not(o.f['m_at_eof'])))
        elif out[0] == 'throw':
            c.oblige('post', 'constructor: rejects only conflicting wildcards', tm.And(B(out[1].cls == 'error'), CX(el, n, el).t))
        else: c.oblige('post', 'constructor: no assertion fails', FALSE)
    return Task('common_config_file_iterator::common_config_file_iterator', m, nd, setup, post, templates=[tpl_stems])

# ---- the stream: the remaining lines of the file, delivered one by one
def utf8_lines(q): return app('utf8_lines', (q,), QS)
FACTS['utf8_lines'] = lambda t: [Eq(len_(t), len_(t.args[1]))]
import p_options as po
def stream(ex, name, wide):
    c = ex.c; x = c.fresh('text', 'S'); k = c.fresh('line_no', 'I')
    FACTS.setdefault('pieces:\n', po._pieces_facts)
    raw = po.pieces(x, '\n')
    c.assume(tm.And(Ge(k, I(0)), Le(k, len_(raw))))
    return ex.new_cell(name, Rec('istream', {'rest': x, 'eof': FALSE, 'fail': FALSE, 'k': k})), raw, k
def c_conv(nm): return lambda ex, fn_, this, args: app(nm, (ex.to_term(ex.load(args[0]), 'S'),), 'S')
def c_internal(ex, fn_, this, args):
    s = ex.to_term(ex.load(args[0]), 'S')
    return app('to_utf8', (s,), 'S') if 'wstring' in fn_['type']['qualType'] or 'wchar_t' in fn_['type']['qualType'] else s
CONV = {'program_options::to_internal': c_internal, 'program_options::to_utf8': c_conv('to_utf8'), 'program_options::from_utf8': c_conv('from_utf8')}
def wide_of(n): return 'IwE' in (n.get('mangledName') or '')
def mk_getline(wide):
    def T_getline(prog):
        nd = [n for n in prog.function('program_options::detail::basic_config_file_iterator::getline') if n.get('mangledName') and wide_of(n) == wide][0]
        m = mach(prog, CONV, dict(SETHOOKS, getline=po.getline_hook))
        def setup(ex):
            c = ex.c; st, raw, k = stream(ex, 'stream', wide)
            r = blank_cf(ex, 'basic_config_file_iterator<%s>' % ('wchar_t' if wide else 'char'), {'is': Ptr(st)})
            c.tag = {}
            return dict(this=ex.new_cell('this', r), args=[ex.new_cell('s', c.fresh('old', 'S'))], st=st, raw=raw, k=k, obj0=r)
        def post(ex, out, e):
            c = ex.c; raw, k = e['raw'], e['k']
            if out[0] != 'return': c.oblige('post', 'getline: returns', FALSE); return
            b = ex.truth(ex.load(out[1]))
            c.oblige('post', 'getline: true while there are lines', Eq(b, Lt(k, len_(raw))))
            if c.branch(b):
                l = tm.nth(raw, k)
                c.oblige('post', 'getline: the next line%s' % (' in UTF-8' if wide else ''), Eq(ex.load(Place('s')), app('to_utf8', (l,), 'S') if wide else l))
                c.oblige('post', 'getline: one line is consumed', Eq(ex.load(e['st']).f['k'], add(k, I(1))))
            n = ex.load(e['this']); o = e['obj0']
            c.oblige('frame', 'the iterator is unchanged', tm.And(*[Eq(o.f[x], n.f[x]) for x in o.f if isinstance(o.f[x], T)]))
        return Task('basic_config_file_iterator<%s>::getline' % ('wchar_t' if wide else 'char'), m, nd, setup, post)
    return T_getline
T_getline, T_wgetline = mk_getline(False), mk_getline(True)

# ---- parse_config_file
def lines_of(ex, o):
    st = o.f['is'].place; s = ex.load(st); raw = po.pieces(s.f['rest'], '\n')
    return st, V(utf8_lines(raw) if ex.c.tag.get('wide') else raw)
def c_get(ex, fn_, this, args):
    """the contract of get proved by T_get, with the lines those of the stream"""
    c = ex.c; o = ex.load(this); st, ls = lines_of(ex, o); k0 = V(ex.load(st).f['k']); e = c.tag
    al, px, un = V(o.f['allowed_options']), V(o.f['allowed_prefixes']), V(o.f['m_allow_unregistered']); p0 = e['p0']; ps = (ls, p0, al, px)
    c.oblige('call', 'get: the section prefix is that of the lines read', Eq(o.f['m_prefix'], PF(ls, k0, p0).t))
    c.oblige('call', 'get: not at the end', tm.Not(o.f['m_at_eof']))
    k1 = V(c.fresh('line_no', 'I')); how = c.choose(3)
    ex.store_to(st.sub(('f', 'k')), k1.t)
    if how < 2:
        c.assume(tm.And(Ge(k1.t, k0.t), Le(k1.t, len_(ls.t))))
        c.assume(Eq(OKL(ls, k1, *ps, un).t, OKL(ls, k0, *ps, un).t))
        ex.store_to(this.sub(('f', 'm_prefix')), PF(ls, k1, p0).t)
        if how == 0:
            c.assume(Eq(k1.t, len_(ls.t))); c.assume(Eq(OUT(ls, k1, *ps).t, OUT(ls, k0, *ps).t)); ex.store_to(this.sub(('f', 'm_at_eof')), TRUE)
        else:
            v = c.fresh('value', OPT); ex.store_to(this.sub(('f', 'm_value')), v); c.assume(Gt(k1.t, k0.t))
            c.assume(Eq(OUT(ls, k1, *ps).t, tm.cat2(OUT(ls, k0, *ps).t, tm.unit(v))))
        return None
    j = k1 - 1; c.assume(tm.And(Ge(j.t, k0.t), Lt(j.t, len_(ls.t))))
    c.assume(Eq(OKL(ls, j, *ps, un).t, OKL(ls, k0, *ps, un).t)); c.assume(Eq(OUT(ls, j, *ps).t, OUT(ls, k0, *ps).t))
    b = body(ls[j]); n = PF(ls, j, p0) + asg_name(b)
    if c.choose(2) == 0:
        c.assume(And(is_asg(b), Not(un), Not(allowed(al, px, n)))); throw_spec(ex, SpecThrow('unknown_option', original_token=n))
    c.assume(is_bad(b)); throw_spec(ex, SpecThrow('invalid_config_file_syntax', invalid_line=b))
def c_cf_ctor(ex, fn_, this, args):
    al, un = V(ex.load(args[0])), ex.truth(ex.load(args[1])); el = elems(al); n = ln(el)
    if CX(el, n, el): throw_spec(ex, SpecThrow('error'))
    o = ex.load(this); f = dict(o.f)
    f.update(m_at_eof=FALSE, allowed_options=al.t, allowed_prefixes=PS(el, n).t, m_prefix=S(''), m_allow_unregistered=un)
    ex.store_to(this, Rec(o.cls, f))
def h_copy(ex, args, n):
    first, last, out = ex.load(args[0]), ex.load(args[1]), ex.load(args[2])
    if not (isinstance(first, Rec) and isinstance(out, Rec) and out.cls == 'inserter'): raise Unsupported('copy')
    lib.note(ex, 'std::copy over a boost::iterator_facade iterator')
    a, b = ex.new_cell('copy:first', first), ex.new_cell('copy:last', last); to = out.f['to'].place
    def call(nm, p, *ar): return ex.call_node(ex.method_by_name(first.cls, nm, len(ar)), p, list(ar), n)
    def cond(): return not ex.c.branch(ex.truth(ex.load(call('equal', a, b))))
    def step():
        v = ex.load(call('dereference', a)); ex.store_to(to, tm.cat2(ex.load(to), tm.unit(ex.to_term(v, OPT))))
    ex.loop(n, cond, step, lambda: call('increment', a))
    return out
SETREC = {'is': NULL}
def c_long_name(ex, fn_, this, args):
    t = po.od_term(ex, this)
    if t.op == 'nth':          # the definition of 'some option so far has no long name' at this option
        for g in FACTS['cf_unnamed'](AE(V(t.args[0]), V(add(t.args[1], I(1)))).t): ex.c.assume(g)
    return app('od_long', (t,), 'S')
po_od = po.od_term
def AS_step(prev, e, k): return fn('ins', SET, prev, fn('od_long', 'S', e))
AS = Prec('cf_names', SET, fn('emptyset', SET), AS_step)
AE = Prec('cf_unnamed', 'B', False, lambda prev, e, k: Or(prev, empty(fn('od_long', 'S', e))))
_mono('cf_unnamed')
def tpl_parse(L):
    d = L.ex.c.tag
    if not d or 'opts' not in d: return
    os_ = d['opts']
    for i in slots_of(L, 'I', True):
        k = lambda i=i: V(L.cval(i))
        yield ('%r within the options' % i, lambda k=k: Le(k().t, len_(os_.t)))
        for p in slots_of(L, SET, True):
            yield ('%r names so far %r' % (p, i), lambda p=p, k=k: Eq(L.cval(p), AS(os_, k()).t))
            yield ('no unnamed option so far %r' % i, lambda k=k: tm.Not(AE(os_, k()).t))
    for q, v, m in L.sl:
        if not (m and q.cell.startswith('copy:first') and q.path and q.path[-1] == ('f', 'm_at_eof')): continue
        o = Place(q.cell)
        def g(L=L, o=o):
            ex = L.ex; r = ex.load(o); st, ls = lines_of(ex, r); kk = V(ex.load(st).f['k'])
            return ex, r, ls, kk, V(r.f['allowed_options']), V(r.f['allowed_prefixes']), V(r.f['m_allow_unregistered'])
        def ps(x): return (x[2], d['p0'], x[4], x[5])
        yield ('lines in range', lambda g=g: (lambda x: tm.And(Ge(x[3].t, I(0)), Le(x[3].t, len_(x[2].t))))(g()))
        yield ('all lines read at the end', lambda g=g: (lambda x: tm.Implies(x[1].f['m_at_eof'], Eq(x[3].t, len_(x[2].t))))(g()))
        yield ('no erroneous line so far', lambda g=g: (lambda x: OKL(x[2], x[3], *ps(x), x[6]).t)(g()))
        yield ('section prefix', lambda g=g: (lambda x: Eq(x[1].f['m_prefix'], PF(x[2], x[3], d['p0']).t))(g()))
        for r in slots_of(L, QO, True):
            yield ('%r all options read' % r, lambda g=g, r=r: (lambda x: tm.Implies(x[1].f['m_at_eof'], Eq(OUT(x[2], x[3], *ps(x)).t, L.cval(r))))(g()))
            yield ('%r and the next option' % r, lambda g=g, r=r: (lambda x: tm.Implies(tm.Not(x[1].f['m_at_eof']), Eq(OUT(x[2], x[3], *ps(x)).t, tm.cat2(L.cval(r), tm.unit(x[0].to_term(x[1].f['m_value'], OPT))))))(g()))
def mk_parse(wide):
    def T_parse(prog):
        nd = [n for n in prog.function('program_options::parse_config_file') if n.get('mangledName') and wide_of(n) == wide and 'istream<' in n['type']['qualType']][0]
        over = dict(CONV); over.update({CF + 'get': c_get, CF + 'common_config_file_iterator': None, 'program_options::option_description::long_name': c_long_name})
        cls = 'basic_config_file_iterator<%s>' % ('wchar_t' if wide else 'char')
        def h_construct(ex, t, b, ta, args, node):
            if b == 'basic_parsed_options' and len(args) == 1:
                v = ex.load(args[0])
                if isinstance(v, Rec) and 'options' in v.f and ta == ['wchar_t'] and v.cls == 'basic_parsed_options':
                    return Rec('basic_parsed_options', {'wopts': app('wide_options', (ex.to_term(v.f['options'], QO),), ('Q', ('U', 'WOpt'))), 'description': v.f['description'], 'm_options_prefix': v.f['m_options_prefix']})
            return None
        def h_method(ex, b, cur, nm, args, n):
            if isinstance(cur, T) and cur.sort == DESC and nm == 'options': return (app('desc_options', (cur,), po.QOD),)
            return h_set(ex, b, cur, nm, args, n)
        m = mach(prog, over, dict(SETHOOKS, construct=h_construct, value_method=h_method))
        m.contracts['program_options::options_description::options'] = lambda ex, f, th, a: app('desc_options', (ex.load(th),), po.QOD)
        m.hooks['free:copy'] = lambda ex, args, n: h_copy(ex, args, n)
        base_ctor = [n for n in prog.function(CF + 'common_config_file_iterator') if len([p for p in n.get('inner', []) if p.get('kind') == 'ParmVarDecl']) == 2]
        del m.contracts[CF + 'common_config_file_iterator']
        def cc(ex, fn_, this, args):
            if len(args) == 2: return c_cf_ctor(ex, fn_, this, args)
            ex.store_to(this.sub(('f', 'm_at_eof')), TRUE)
        m.contracts[CF + 'common_config_file_iterator'] = cc
        def setup(ex):
            c = ex.c; st, raw, k = stream(ex, 'stream', wide); c.assume(Eq(k, I(0)))
            d = c.fresh('desc', DESC)
            e = dict(this=None, args=[st, ex.new_cell('desc', d), ex.new_cell('allow', c.fresh('allow', 'B'))], st=st, p0=V(S('')), opts=V(app('desc_options', (d,), po.QOD)), un=V(ex.load(Place('allow'))),
                     ls=V(utf8_lines(raw) if wide else raw), wide=wide)
            c.tag = e; return e
        def post(ex, out, e):
            c = ex.c; os_, ls, un = e['opts'], e['ls'], e['un']; n = ln(os_)
            def ob(x, g): c.oblige('post', 'parse_config_file: ' + x, g)
            al = AS(os_, n); el = elems(al); px = PS(el, ln(el)); ps = (ls, e['p0'], al, px); nl = ln(ls)
            if out[0] == 'abort': ob('no assertion fails', FALSE); return
            if AE(os_, n): ob('an option without a long name is rejected', B(out[0] == 'throw' and out[1].cls == 'error')); return
            if CX(el, ln(el), el): ob('conflicting wildcards are rejected', B(out[0] == 'throw' and out[1].cls == 'error')); return
            if out[0] == 'return':
                r = ex.load(out[1])
                ob('no erroneous line', OKL(ls, nl, *ps, un).t)
                if wide: ob('exactly the options of the file, in order', Eq(r.f['wopts'], app('wide_options', (OUT(ls, nl, *ps).t,), ('Q', ('U', 'WOpt')))))
                else: ob('exactly the options of the file, in order', Eq(ex.to_term(r.f['options'], QO), OUT(ls, nl, *ps).t))
            else:
                j = V(ex.load(e['st']).f['k']) - 1; b = body(ls[j]); nm = PF(ls, j, e['p0']) + asg_name(b)
                ob('the first erroneous line', tm.And(Ge(j.t, I(0)), Lt(j.t, nl.t), OKL(ls, j, *ps, un).t))
                if out[1].cls == 'unknown_option': ob('unknown name', tm.And(And(is_asg(b), Not(un), Not(allowed(al, px, nm))).t, Eq(ex.load(out[1].f['original_token']), nm.t)))
                elif out[1].cls == 'invalid_config_file_syntax': ob('invalid line', tm.And(is_bad(b).t, Eq(ex.load(out[1].f['invalid_line']), b.t)))
                else: ob('no other error', FALSE)
        return Task('parse_config_file<%s>' % ('wchar_t' if wide else 'char'), m, nd, setup, post, templates=[tpl_parse],
                    variants=[('lines left', lambda L: (lambda r: sub_i(add(len_(lines_of(L.ex, r)[1].t), I(1)), add(L.ex.load(lines_of(L.ex, r)[0]).f['k'], tm.Ite(r.f['m_at_eof'], I(1), I(0)))))(L.ex.load(next(Place(q.cell) for q, v, m in L.sl if q.cell.startswith('copy:first')))))])
    return T_parse
T_parse, T_wparse = mk_parse(False), mk_parse(True)

# ---- the environment (C14)
declare_dt('P:cstr', [('null', 'B'), ('obj', 'S')])
CSTR = ('D', 'P:cstr')
ENVS = ('U', 'Environ'); MAPPER = ('U', 'Mapper')
def entry(env, k): return V(app('env_entry', (env.t, to_T(k, 'I')), 'S'))        # the entries, each NAME=VALUE
def nent(env): return V(app('env_count', (env.t,), 'I'))
tm.NONNEG_FN.add('env_count')
FACTS['env_entry'] = lambda t: [tm.contains(t, S('='))]
FACTS['env_count'] = lambda t: [Ge(t, I(0))]
def e_name(x): return seg_(x, 0, idx(x, '='))
def e_value(x): return seg_(x, idx(x, '=') + 1, ln(x) - idx(x, '=') - 1)
def mapped(mp, n): return fn('mapped', 'S', mp, n)
def plain_opt(n, v): return V(tm.mk('option', string_key=n.t, position_key=I(-1), value=tm.unit(v.t), original_tokens=tm.empty(QS), unregistered=FALSE, case_insensitive=FALSE))
# options of the first k entries; the entries themselves are a sequence env_seq(env)
def env_seq(env): return V(app('env_seq', (env.t,), QS))
FACTS['env_seq'] = lambda t: [Eq(len_(t), app('env_count', t.args[1:], 'I'))]
def _eo(prev, e, k, mp): return ite(empty(mapped(mp, ename(e))), prev, V(tm.cat2(prev.t, tm.unit(plain_opt(mapped(mp, ename(e)), evalue(e)).t))))
EO = Prec('env_out', QO, lambda *ps: V(tm.empty(QO)), _eo, always=True)
def env_it(ex, env, k): return Rec('envptr', {'env': env, 'k': k})
def _ep(ex, a):
    v = ex.load(a); return v if isinstance(v, Rec) and v.cls == 'envptr' else None
def envptr_star(ex, b):
    o = b; ex.safety('the environment is read up to its end only', tm.And(Ge(o.f['k'], I(0)), Le(o.f['k'], app('env_count', (o.f['env'],), 'I'))))
    if ex.c.branch(Eq(o.f['k'], app('env_count', (o.f['env'],), 'I'))): return NULL
    x = tm.nth(env_seq(V(o.f['env'])).t, o.f['k'])
    ex.c.assume(tm.contains(x, S('=')))               # precondition: every environment entry is NAME=VALUE
    ex.c.assume(Lt(len_(x), I(2**62)))
    return x
ENVIT = 'environment_iterator::'
def h_unary(ex, op, a): return None
def env_hooks(mapper):
    def deref(ex, v, *r):
        if isinstance(v, Rec) and v.cls == 'envptr': return ex.new_cell('envptr:entry', envptr_star(ex, v))
        return None
    def facade(ex, args, n, neg):
        a, b = ex.load(args[0]), ex.load(args[1])
        if not (isinstance(a, Rec) and a.cls == 'environment_iterator'): return None
        pa = args[0] if isinstance(args[0], Place) else ex.new_cell('fa', a); pb = args[1] if isinstance(args[1], Place) else ex.new_cell('fb', b)
        t = ex.truth(ex.load(ex.call_node(ex.method_by_name(a.cls, 'equal', 1), pa, [pb], n)))
        return (tm.Not(t) if neg else t,)
    def inc(ex, args, n):
        a = ex.load(args[0])
        if isinstance(a, Rec) and a.cls == 'envptr': ex.store_to(args[0], a.set('k', add(a.f['k'], I(1)))); return (args[0],)
        if isinstance(a, Rec) and a.cls == 'environment_iterator':
            ex.call_node(ex.method_by_name(a.cls, 'increment', 0), args[0], [], n); return (args[0],)
        return None
    def arrow(ex, args, n):
        a = ex.load(args[0])
        if isinstance(a, Rec) and a.cls == 'environment_iterator':
            r = ex.call_node(ex.method_by_name(a.cls, 'dereference', 0), args[0], [], n)
            return (Ptr(r if isinstance(r, Place) else ex.new_cell('deref', r)),)
        return None
    def glob(ex, nm, nd):
        if nm == 'environ': return env_it(ex, ex.c.tag['env'].t, I(0))
        return None
    def call(ex, f, args):
        if isinstance(f, Fn) and f.kind == 'mapper': return (mapped(V(f.d['mp']), V(ex.to_term(ex.load(args[0]), 'S'))).t,)
        if isinstance(f, Rec) and f.cls == 'prefix_name_mapper': return (mapped(V(app('pfx_mapper', (f.f['prefix'],), MAPPER)), V(ex.to_term(ex.load(args[0]), 'S'))).t,)
        return None
    def term(ex, v, sort): return None
    return {'deref': deref, 'operator!=': lambda ex, a, n: facade(ex, a, n, True), 'operator==': lambda ex, a, n: facade(ex, a, n, False), 'operator++': inc, 'operator->': arrow, 'global': glob, 'call': call, 'to_term': term}
def tpl_env(L):
    d = L.ex.c.tag
    if not d or 'env' not in d: return
    es, mp = env_seq(d['env']), d['mp']
    for q, v, m in L.sl:
        if not (m and q.path and q.path[-1] == ('f', 'm_at_eof')): continue
        o = Place(q.cell, q.path[:-1])
        K = lambda o=o: L.ex.load(o).f['m_environment'].f['k']
        eof = lambda o=o: L.ex.load(o).f['m_at_eof']
        val = lambda o=o: L.ex.load(o).f['m_value']
        n = len_(es.t)
        yield ('position', lambda K=K, n=n: tm.And(Ge(K(), I(0)), Le(K(), n)))
        yield ('all entries read at the end', lambda K=K, n=n, eof=eof: tm.Implies(eof(), Eq(K(), n)))
        yield ('an entry was read', lambda K=K, eof=eof: tm.Implies(tm.Not(eof()), Ge(K(), I(1))))
        cur = lambda K=K: V(tm.nth(es.t, sub_i(K(), I(1))))
        yield ('the name of the last entry', lambda eof=eof, cur=cur, val=val: tm.Implies(tm.Not(eof()), Eq(val().f['first'] if isinstance(val(), Rec) else tm.sel(val(), 'first'), ename(cur()).t)))
        yield ('the value of the last entry', lambda eof=eof, cur=cur, val=val: tm.Implies(tm.Not(eof()), Eq(val().f['second'] if isinstance(val(), Rec) else tm.sel(val(), 'second'), evalue(cur()).t)))
        for r in slots_of(L, QO, True):
            yield ('%r options of the entries before' % r, lambda r=r, K=K, eof=eof: Eq(L.cval(r), tm.Ite(eof(), EO(es, V(K()), mp).t, EO(es, V(sub_i(K(), I(1))), mp).t)))
ENVGET = 'boost::environment_iterator::get'
def ename(x): return fn('e_name', 'S', x)
def evalue(x): return fn('e_value', 'S', x)
def env_get_effect(ex, this):
    """contract of environment_iterator::get: the next entry split at its first '=', or the end"""
    o = ex.load(this); e = o.f['m_environment']
    if not (isinstance(e, Rec) and e.cls == 'envptr'): ex.c.oblige('safety', 'the iterator reads an environment', FALSE); raise PathEnd('no environment')
    es = env_seq(V(e.f['env'])); k = V(e.f['k'])
    if ex.c.branch(Eq(k.t, len_(es.t))): ex.store_to(this.sub(('f', 'm_at_eof')), TRUE); return
    ex.safety('the environment is read up to its end only', tm.And(Ge(k.t, I(0)), Lt(k.t, len_(es.t))))
    x = es[k]
    ex.store_to(this.sub(('f', 'm_value'), ('f', 'first')), ename(x).t); ex.store_to(this.sub(('f', 'm_value'), ('f', 'second')), evalue(x).t)
    ex.store_to(this.sub(('f', 'm_environment'), ('f', 'k')), (k + 1).t)
def env_get_node(prog):
    return next(n for tu in prog.tus.values() for n in tu.byid.values() if n.get('kind') == 'CXXMethodDecl' and n.get('name') == 'get' and 'environment_iterator' in n.get('_q', '') and tu.body(n) is not None)
def T_env_get(prog):
    m = machine(prog, None, env_hooks('get')); nd = env_get_node(prog)
    def setup(ex):
        c = ex.c; env = V(c.fresh('env', ENVS)); k = c.fresh('k', 'I'); c.tag = dict(env=env)
        c.assume(Ge(k, I(0))); c.assume(Le(k, len_(env_seq(env).t)))
        this = ex.new_cell('this', Rec('environment_iterator', {'m_at_eof': FALSE, 'm_value': Rec('pair', {'first': c.fresh('f', 'S'), 'second': c.fresh('s', 'S')}), 'm_environment': env_it(ex, env.t, k)}))
        return dict(this=this, args=[], es=env_seq(env), k=k)
    def post(ex, out, e):
        c = ex.c; o = ex.load(e['this']); es, k = e['es'], V(e['k'])
        if out[0] != 'return': c.oblige('post', 'environment_iterator::get: returns', FALSE); return
        k1 = o.f['m_environment'].f['k']
        if eq(k, ln(es)): c.oblige('post', 'environment_iterator::get: end after the last entry', tm.And(o.f['m_at_eof'], Eq(k1, k.t)))
        else:
            x = es[k]
            c.oblige('post', 'environment_iterator::get: the next entry', tm.And(tm.Not(o.f['m_at_eof']), Eq(k1, (k + 1).t)))
            c.oblige('post', 'environment_iterator::get: its name, before the first =', Eq(ex.to_term(o.f['m_value'].f['first'], 'S'), e_name(x).t))
            c.oblige('post', 'environment_iterator::get: its value, after the first =', Eq(ex.to_term(o.f['m_value'].f['second'], 'S'), e_value(x).t))
    return Task('environment_iterator::get', m, nd, setup, post)
def T_env(prog):
    nd = [n for n in prog.function('program_options::parse_environment') if 'function1' in n['type']['qualType']][0]
    m = machine(prog, None, env_hooks('abstract'))
    m.contracts[env_get_node(prog)['_q']] = lambda ex, f, this, args: env_get_effect(ex, this)
    m.force_cut.add('parse_environment')
    def setup(ex):
        c = ex.c; mp = c.fresh('mapper', MAPPER); d = c.fresh('desc', DESC)
        e = dict(this=None, env=V(c.fresh('env', ENVS)), mp=V(mp), args=[ex.new_cell('desc', d), ex.new_cell('mapper', Fn('mapper', mp=mp))])
        c.tag = e; return e
    def post(ex, out, e):
        c = ex.c
        if out[0] != 'return': c.oblige('post', 'parse_environment: returns', FALSE); return
        es = env_seq(e['env'])
        c.oblige('post', 'parse_environment: one option per mapped entry, in order', Eq(ex.to_term(ex.load(out[1]).f['options'], QO), EO(es, ln(es), e['mp']).t))
    return Task('parse_environment (mapper)', m, nd, setup, post, templates=[tpl_env], variants=[('entries left', lambda L: (lambda o: sub_i(add(len_(env_seq(L.ex.c.tag['env']).t), I(1)), add(o.f['m_environment'].f['k'], tm.Ite(o.f['m_at_eof'], I(1), I(0)))))(L.ex.load(next(Place(q.cell, q.path[:-1]) for q, v, m in L.sl if q.path and q.path[-1] == ('f', 'm_at_eof') and m))))])
def mk_env_prefix(pick, name):
    def T_(prog):
        nd = [n for n in prog.function('program_options::parse_environment') if pick in n['type']['qualType'] and 'function1' not in n['type']['qualType']][0]
        m = machine(prog, None, env_hooks('prefix'))
        def cenv(ex, fn_, this, args):
            f = ex.load(args[1])
            if isinstance(f, T) and f.sort == 'S': pf = f
            elif isinstance(f, Rec) and f.cls == 'prefix_name_mapper': pf = f.f['prefix']
            else: raise Unsupported('mapper %r' % (f,))
            return Rec('parsed', {'mapper': app('pfx_mapper', (pf,), MAPPER), 'desc': ex.load(args[0])})
        m.contracts['program_options::parse_environment'] = cenv
        m.top = None
        def setup(ex):
            c = ex.c; p = c.fresh('prefix', 'S'); d = c.fresh('desc', DESC); c.tag = {}
            return dict(this=None, p=p, d=d, args=[ex.new_cell('desc', d), ex.new_cell('prefix', p)])
        def post(ex, out, e):
            c = ex.c
            if out[0] != 'return': c.oblige('post', name + ': returns', FALSE); return
            r = ex.load(out[1])
            c.oblige('post', name + ': the environment is read with the mapper of the prefix and the description', tm.And(Eq(r.f['mapper'], app('pfx_mapper', (e['p'],), MAPPER)), Eq(r.f['desc'], e['d'])))
        return Task(name, m, nd, setup, post)
    return T_
T_env_prefix, T_env_cprefix = mk_env_prefix('std::string', 'parse_environment (prefix)'), mk_env_prefix('const char *', 'parse_environment (char pointer prefix)')
def tpl_pmap(L):
    d = L.ex.c.tag
    if not d or 's' not in d: return
    for r in slots_of(L, 'S', True):
        for i in slots_of(L, 'I', True):
            p = len_(d['p'])
            yield ('%r lower case so far %r' % (r, i), lambda r=r, i=i, p=p: Eq(L.cval(r), L.ex.c.slice(lib.lower(d['s']), p, sub_i(L.cval(i), p))))
def T_pmap(prog):
    m = machine(prog)
    def setup(ex):
        c = ex.c; p = c.fresh('prefix', 'S'); s = c.fresh('name', 'S'); c.tag = dict(p=p, s=s); c.assume(Lt(len_(s), I(2**62)))
        return dict(this=ex.new_cell('this', Rec('prefix_name_mapper', {'prefix': p})), args=[ex.new_cell('s', s)], p=V(p), s=V(s))
    def spec(ex, e):
        return ite(starts(e['s'], e['p']), lower(V(tm.sub(e['s'].t, len_(e['p'].t), sub_i(len_(e['s'].t), len_(e['p'].t))))), lift('')), [('prefix', e['this'].sub(('f', 'prefix')), e['p'])]
    return Task('prefix_name_mapper::operator()', m, _fn(prog, 'program_options::detail::prefix_name_mapper::operator()'), setup, outcome_post(spec, 'prefix_name_mapper'), templates=[tpl_pmap, tpl_inplace])

def mk_file(wide):
    """parse_config_file(filename): the file's stream through parse_config_file(stream), whose contract is T_parse / T_wparse"""
    def T_file(prog):
        nd = [n for n in prog.function('program_options::parse_config_file') if n.get('mangledName') and ('IwE' if wide else 'IcE') in n['mangledName'] and 'istream<' not in n['type']['qualType']][0]
        name = 'parse_config_file<%s>(filename)' % ('wchar_t' if wide else 'char')
        def construct(ex, t, b, ta, args, node):
            if b == 'basic_ifstream' and args: 
                ex.c.oblige('post', name + ': opens the named file', Eq(ex.to_term(ex.load(args[0]), 'S'), ex.c.tag['fn'])); return Rec('ifstream', {'read': FALSE})
        def c_parse(ex, f, th, a):
            e = ex.c.tag; st = a[0]; o = ex.load(st)
            ex.c.oblige('post', name + ': reads the opened file, once', B(isinstance(o, Rec) and o.cls == 'ifstream' and o.f['read'] is FALSE))
            ex.c.oblige('post', name + ': with the description', B(a[1] == e['d'])); ex.c.oblige('post', name + ': with the permission', Eq(ex.load(a[2]), e['allow']))
            ex.store_to(st, o.set('read', TRUE))
            if ex.c.branch(app('parse_fails', (), 'B')): throw_spec(ex, SpecThrow('invalid_config_file_syntax'))
            return Rec('basic_parsed_options', {'options': app('parsed_file', (), QO), 'description': Ptr(e['d']), 'm_options_prefix': I(0)})
        m = mach(prog, {'program_options::parse_config_file': c_parse}, dict(SETHOOKS, construct=construct))
        bad = lambda o: app('bad_after', (), 'B') if o.f['read'] is TRUE else app('cannot_open', (), 'B')
        isf = lambda v: isinstance(v, Rec) and v.cls == 'ifstream'
        m.hooks['operator!'] = lambda ex, args, n: (bad(ex.load(args[0])),) if isf(ex.load(args[0])) else None
        h0 = m.hooks.get('truth')
        m.hooks['method:bad'] = lambda ex, b, cur, args, n, mem: (bad(cur) if cur.f['read'] is TRUE else FALSE,) if isf(cur) else None
        m.hooks['method:fail'] = lambda ex, b, cur, args, n, mem: (bad(cur) if cur.f['read'] is not TRUE else tm.TRUE,) if isf(cur) else None
        m.hooks['method:is_open'] = lambda ex, b, cur, args, n, mem: (tm.Not(app('cannot_open', (), 'B')),) if isf(cur) else None
        def setup(ex):
            c = ex.c; d = ex.new_cell('desc', c.fresh('desc', DESC)); al = c.fresh('allow', 'B'); f = c.fresh('filename', 'S')
            c.tag = dict(d=d, allow=al, fn=f)
            return dict(this=None, args=[ex.new_cell('fn', f), d, ex.new_cell('allow', al)], **c.tag)
        def post(ex, out, e):
            c = ex.c; ob = lambda x, g: c.oblige('post', name + ': ' + x, g)
            no, pf, ba = app('cannot_open', (), 'B'), app('parse_fails', (), 'B'), app('bad_after', (), 'B')
            if out[0] == 'abort': ob('no assertion fails', FALSE); return
            if out[0] == 'throw':
                if out[1].cls == 'reading_file': ob('reading_file only if the file cannot be opened or read', tm.Or(no, tm.And(tm.Not(pf), ba)))
                else: ob('other errors are those of the text', tm.And(tm.Not(no), pf))
                return
            ob('a file that cannot be opened or read is an error', tm.Not(tm.Or(no, ba))); ob('an error in the text is reported', tm.Not(pf))
            r = ex.load(out[1]) if isinstance(out[1], Place) else out[1]
            ob('the options of the file', Eq(ex.to_term(r.f['options'], QO), app('parsed_file', (), QO))); ob('the description', B(isinstance(r.f['description'], Ptr) and r.f['description'].place == e['d']))
        return Task(name, m, nd, setup, post)
    T_file.tus = ['parsers']; return T_file
T_file, T_wfile = mk_file(False), mk_file(True)
CFT = ['config_file', 'config_file@eof_iterator']; PAT = ['parsers', 'parsers@eof_iterator']; ENT = PAT + ['parsers@environment_iterator']
for t in (T_trim, T_get, T_lemma_order, T_allowed, T_add_option, T_ctor): t.tus = CFT
for t in (T_getline, T_wgetline, T_parse, T_wparse): t.tus = PAT
for t in (T_env_get, T_env, T_env_prefix, T_env_cprefix, T_pmap): t.tus = ENT
import g_config as gc
EXT = ['std::getline delivers the pieces of the stream between newlines; a stream read error is not modelled',
       'std::set<std::string> is ordered by the lexicographic order: lower_bound/upper_bound/find/insert/iteration satisfy its axioms, instantiated at the elements a function names',
       'std::copy and boost::iterator_facade use equal, dereference and increment of the iterator as documented', 'wide files: to_internal(wide) is to_utf8 of the line (C16)',
       'elements of the sets of names are non-empty']
class P12(gc.C12):
    id = 'C12'; title = 'configuration file syntax'
    tasks = [T_trim, T_get, T_getline, T_wgetline, T_parse, T_wparse, T_file, T_wfile, T_allowed, T_lemma_order]; extra_assumptions = EXT
    proved = ('trim_ws', 'common_config_file_iterator::get', 'basic_config_file_iterator<char>/<wchar_t>::getline', 'parse_config_file(istream)', 'parse_config_file(wistream)', 'parse_config_file<char/wchar_t>(filename)')
class P13(gc.C13):
    id = 'C13'; title = 'configuration file names'
    tasks = [T_allowed, T_add_option, T_ctor, T_get, T_parse, T_wparse, T_lemma_order]; extra_assumptions = EXT
    proved = ('common_config_file_iterator::allowed_option', 'add_option', 'constructor', 'get', 'parse_config_file(istream)', 'parse_config_file(wistream)')
class P14(gc.C14):
    id = 'C14'; title = 'environment variables'
    tasks = [T_env_get, T_env, T_env_prefix, T_env_cprefix, T_pmap]
    extra_assumptions = ['every environment entry has the form NAME=VALUE', 'the name mapper is a function of its argument', 'std::tolower lower-cases A-Z only (C locale)',
                         'boost::iterator_facade uses equal, dereference and increment of the iterator as documented']
    proved = ('environment_iterator::get', 'parse_environment with mapper, prefix string and prefix pointer', 'prefix_name_mapper')
PROPS = {c.id: c for c in (P12, P13, P14)}
