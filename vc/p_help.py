"""Contracts of help output (C20): src/options_description.cpp, typed_value::name."""
from model import *
from task import Task, outcome_post
import sp, task, lib
from sp import *
from p_cmdline import slots_of, fnode
import p_options as po
from p_options import QOD
OSQ, ODQ = po.OSQ, po.ODQ
NL = '\n'
ANON = 'program_options::'
def pad(n): return V(lib.rep_term(' ', lift(n).t))
def stream(ex, name='os'): 
    b = ex.c.fresh('out', 'S'); return ex.new_cell(name, Rec('ostream', {'buf': b})), V(b)
def buf(e): return e['os'].sub(('f', 'buf'))

# ---- paragraphs -----------------------------------------------------------------------------------------------
# wrapped(p, o, w, ind, tab): the output for the characters of p from o on, where w characters fit on the first line (o = 0)
# and w - tab on each later one; later lines start with ind + tab blanks
def WR(p, o, w, ind, tab): return V(app('wrapped', tuple(x if isinstance(x, T) else lift(x).t for x in (p, o, w, ind, tab)), 'S'))
def _wr_facts(t):
    p, o, w = t.args[1:4]; n = len_(p)
    return [tm.Implies(Eq(o, n), Eq(t, S(''))), tm.Implies(tm.And(Eq(o, I(0)), Le(n, w)), Eq(t, p))]
FACTS['wrapped'] = _wr_facts
def wr_step(ex, p, o, w, ind, tab):
    """the definition at o, 0 <= o < len(p), on the present path"""
    c = ex.c; n = len_(p)
    def cond(t):
        if c.sure(t): return TRUE
        if c.sure(tm.Not(t)): return FALSE
        return t
    def at(i): return c.slice(p, i, I(1))
    first = cond(Eq(o, I(0)))
    a = o
    if first is not TRUE:
        if cond(Eq(at(o), S(' '))) is not FALSE and cond(Lt(add(o, I(1)), n)) is not FALSE:
            k = cond(tm.And(tm.Not(first), Eq(at(o), S(' ')), Lt(add(o, I(1)), n), tm.Not(Eq(at(add(o, I(1))), S(' ')))))
            a = tm.Ite(k, add(o, I(1)), o)
    l = tm.Ite(first, w, sub_i(w, tab))
    fits = cond(Le(sub_i(n, a), l))
    full = tm.Ite(fits, n, add(a, l))
    inword = FALSE if fits is TRUE else cond(tm.And(tm.Not(fits), tm.Not(Eq(at(sub_i(full, I(1))), S(' '))), tm.Not(Eq(at(full), S(' ')))))
    e = full
    if inword is not FALSE:
        s = add(a, lib.last_after(c.slice(p, a, sub_i(full, a)), ' '))
        back = cond(tm.And(Gt(s, a), Lt(sub_i(full, s), tm.div(l, I(2)))))
        e = tm.Ite(cond(tm.And(inword, back)), s, full)
    line = c.slice(p, a, sub_i(e, a))
    more = cond(Lt(e, n))
    rest = tm.Ite(more, tm.cat('S', S(NL), lib.rep_term(' ', add(ind, tab)), WR(p, e, w, ind, tab).t), S(''))
    return Eq(WR(p, o, w, ind, tab).t, tm.cat2(line, rest))
def tpl_pad(L):
    for b in slots_of(L, 'S', True):
        for k in slots_of(L, 'I', True):
            def down(b=b, k=k, sg=1):
                E, x = L.eload(k), L.cval(k); n = sub_i(E, x) if sg > 0 else sub_i(x, E)
                if L.phase == 'end':        # the definition of n blanks at this n
                    m = sub_i(E, L.hval(k)) if sg > 0 else sub_i(L.hval(k), E)
                    if L.ex.c.sure(tm.And(Ge(m, I(0)), Eq(n, add(m, I(1))))): L.ex.c.assume(Eq(lib.rep_term(' ', n), tm.cat2(lib.rep_term(' ', m), S(' '))))
                return Eq(L.cval(b), tm.cat2(L.eload(b), lib.rep_term(' ', n)))
            yield ('%r blanks for %r' % (b, k), down)
            yield ('%r blanks for rising %r' % (b, k), lambda b=b, k=k, down=down: down(b, k, -1))
def tpl_wrap(L):
    d = L.ex.c.tag or {}
    if 'wrap' not in d: return
    p, w, ind, tab, b0 = d['wrap']()
    its = [q for q, v, m in L.sl if m and isinstance(v, It)] or list(slots_of(L, 'I', True))
    for q in its:
        P = lambda q=q: L.cval(q)
        for b in slots_of(L, 'S', True):
            def inv(b=b, q=q):
                c = L.ex.c
                if L.phase == 'end':
                    o = L.hval(q)
                    if not c.sure(tm.And(Ge(o, I(0)), Lt(o, len_(p)))): return None
                    c.assume(wr_step(L.ex, p, o, w, ind, tab))
                return Eq(tm.cat2(L.cval(b), WR(p, L.cval(q), w, ind, tab).t), tm.cat2(b0, WR(p, I(0), w, ind, tab).t))
            yield ('%r followed by what is left from %r' % (b, q), inv)
        for f in slots_of(L, 'B', True):
            yield ('%r on the first line, %r' % (f, q), lambda f=f, P=P: Eq(L.cval(f), Eq(P(), I(0))))
            yield ('%r not on the first line, %r' % (f, q), lambda f=f, P=P: Eq(L.cval(f), tm.Not(Eq(P(), I(0)))))
        for k in slots_of(L, 'I', True):
            for nm, first, later in (('indent', ind, add(ind, tab)), ('width', w, sub_i(w, tab))):
                yield ('%r is the %s at %r' % (k, nm, q), lambda k=k, P=P, first=first, later=later: Eq(L.cval(k), tm.Ite(Eq(P(), I(0)), first, later)))
def T_paragraph(prog):
    m = mach(prog); nd = fnode(prog, 'program_options::format_paragraph')
    def setup(ex):
        c = ex.c; os, b0 = stream(ex)
        par, ind, ll = c.fresh('par', 'S'), c.fresh('indent', 'I'), c.fresh('line_length', 'I')
        c.assume(Ge(ind, I(0))); c.assume(Lt(ind, ll)); c.assume(Lt(ll, I(2**31))); c.assume(Lt(len_(par), I(2**31)))
        w = sub_i(ll, ind)
        t = tm.index(par, S('\t'), I(0)); ht = tm.contains(par, S('\t'))
        c.assume(tm.Implies(ht, tm.And(Ge(t, I(0)), Lt(t, len_(par)), Lt(t, w))))
        st = {}
        def wrap():
            if 'w' not in st:
                if c.branch(ht): st['w'] = (tm.cat2(tm.seg(par, I(0), t), tm.seg(par, add(t, I(1)), sub_i(len_(par), add(t, I(1))))), w, ind, t, b0.t)
                else: st['w'] = (par, w, ind, I(0), b0.t)
            return st['w']
        wrap(); c.tag = dict(wrap=wrap)
        return dict(this=None, args=[os, ex.new_cell('par', par), ex.new_cell('indent', ind), ex.new_cell('line_length', ll)], os=os, b0=b0, par=par, ht=ht, wrap=wrap)
    def spec(ex, e):
        if V(e['ht']) and V(Gt(lib.count_of(e['par'], '\t'), I(1))): raise SpecThrow('error')
        p, w, ind, tab, b0 = e['wrap']()
        return None, [('output', buf(e), V(b0) + WR(p, I(0), w, ind, tab))]
    return Task('format_paragraph', m, nd, setup, outcome_post(spec, 'format_paragraph'), templates=[tpl_pad, tpl_wrap])
def mach(prog, contracts=None, hooks=None):
    m = po.mach(prog, contracts, hooks)
    return m

# ---- one option's description ------------------------------------------------------------------------------------
def app_(nm, so, *xs): return V(app(nm, tuple(x if isinstance(x, T) else lift(x).t for x in xs), so))
def par_text(p, col, ll): return app_('paragraph_text', 'S', p, col, ll)
def par_bad(p): return app_('paragraph_bad', 'B', p)
# a precondition of every element of a sequence
def every(name, elem):
    """all_NAME(xs, ps) states that elem_NAME(x, ps) for each element"""
    FACTS[elem] = lambda t: [tm.Implies(tm.And(app(name, (t.args[1].args[0],) + tuple(t.args[2:]), 'B'), Ge(t.args[1].args[1], I(0)), Lt(t.args[1].args[1], len_(t.args[1].args[0]))), t)] if t.args[1].op == 'nth' else []
    return lambda xs, *ps: app_(name, 'B', xs, *ps)
ALL_PARS = every('all_paragraphs_fit', 'paragraph_fits')
def fits(p, col, ll): return app_('paragraph_fits', 'B', p, col, ll)
def c_paragraph(ex, fn_, this, args):
    os = args[0]; p = ex.to_term(ex.load(args[1]), 'S'); col, ll = ex.load(args[2]), ex.load(args[3])
    ex.safety('the indent is less than the line', tm.And(Ge(col, I(0)), Lt(col, ll)))
    ex.safety('the tab of the paragraph is on the line', fits(p, col, ll).t)
    if ex.c.branch(par_bad(p).t): throw_spec(ex, SpecThrow('error'))
    return put(ex, os, par_text(p, col, ll))
def put(ex, os, txt):
    o = ex.load(os); ex.store_to(os, o.set('buf', tm.cat2(o.f['buf'], txt.t))); return None
PARS = Prec('paragraphs_text', 'S', '', lambda prev, e, k, col, ll: prev + ite(k > 0, NL + pad(col), lift('')) + par_text(e, col, ll), always=True)
def exists_k(name, pred):
    """some i < k with pred(xs[i], i, ps): monotone in k (lemma)"""
    E = Prec(name, 'B', False, lambda prev, e, k, *ps: Or(prev, pred(e, k, *ps)), always=True); f0 = FACTS[name]
    def facts(t):
        xs, k, ps = t.args[1], t.args[2], t.args[3:]; out = f0(t)
        if tm.lin(k)[1] == 0 and k is not len_(xs) and k.op != 'int': out.append(tm.Implies(tm.And(Ge(k, I(0)), Lt(k, len_(xs))), Eq(app(name, (xs, add(k, I(1))) + tuple(ps), 'B'), E._step(xs, k, ps))))
        if k is not len_(xs): out.append(tm.Implies(tm.And(t, Ge(k, I(0)), Le(k, len_(xs))), app(name, (xs, len_(xs)) + tuple(ps), 'B')))
        return out
    FACTS[name] = facts
    return E
PBAD = po.exists('some_paragraph_bad', lambda e: par_bad(e))
def lines_of(x): return V(app('lines_of', (x.t if isinstance(x, V) else x,), QS))
FACTS['lines_of'] = lambda t: [Ge(len_(t), I(1))]
def construct(ex, t, b, ta, args, node):
    vs = [ex.load(a) for a in args]
    if b == 'char_separator':
        if any(isinstance(v, Rec) for v in vs): return vs[0]
        return Rec('char_separator', {'drop': vs[0], 'keep': vs[1] if len(vs) > 1 else S(''), 'empty': vs[2] if len(vs) > 2 else I(0)})
    if b == 'tokenizer':
        if len(vs) == 1 and isinstance(vs[0], T) and vs[0].sort == QS: return vs[0]
        sep = vs[1]; g = lambda k: tm.val(sep.f[k]) if isinstance(sep.f[k], T) and sep.f[k].op in ('str', 'int') else {'enum keep_empty_tokens': 1, 'enum drop_empty_tokens': 0}.get(getattr(sep.f[k], 'what', None))
        if g('drop') != NL or g('keep') not in ('',) or g('empty') != 1: raise Unsupported('tokenizer %r' % (sep,))
        return lines_of(V(ex.to_term(vs[0], 'S'))).t
    if b == 'token_iterator' and len(vs) == 1 and isinstance(vs[0], It): return vs[0]
def tpl_join(L):
    d = L.ex.c.tag or {}
    if 'pars' not in d: return
    ps, col, ll, b0 = d['pars']
    for q, v, m in L.sl:
        if not (m and (isinstance(v, It) or is_int(v))): continue
        k = lambda q=q: V(L.cval(q))
        yield ('%r paragraphs are printable' % q, lambda k=k: tm.Not(PBAD(ps, k()).t))
        for b in slots_of(L, 'S', True):
            yield ('%r has %r paragraphs' % (b, q), lambda b=b, k=k: Eq(L.cval(b), tm.cat('S', b0.t, PARS(ps, k(), col, ll).t, tm.Ite(tm.And(Gt(k().t, I(0)), Lt(k().t, len_(ps.t))), tm.cat2(S(NL), pad(col).t), S('')))))
def T_fdesc(prog):
    m = mach(prog, {'program_options::format_paragraph': c_paragraph}, {'construct': construct}); nd = fnode(prog, 'program_options::format_description')
    def setup(ex):
        c = ex.c; os, b0 = stream(ex); t = c.fresh('desc', 'S'); col, ll = c.fresh('column', 'I'), c.fresh('line_length', 'I')
        c.assume(Gt(ll, I(1))); c.assume(Lt(ll, I(2**31))); c.assume(Ge(col, I(0))); c.assume(Lt(col, sub_i(ll, I(1)))); c.assume(Gt(len_(t), I(0)))
        ps = lines_of(t); w = V(sub_i(ll, I(1))); c.assume(ALL_PARS(ps, col, w).t)
        c.tag = dict(pars=(ps, V(col), w, b0))
        return dict(this=None, args=[os, ex.new_cell('desc', t), ex.new_cell('col', col), ex.new_cell('ll', ll)], os=os, b0=b0, ps=ps, col=V(col), w=w)
    def spec(ex, e):
        if PBAD(e['ps'], ln(e['ps'])): raise SpecThrow('error')
        return None, [('output', buf(e), e['b0'] + PARS(e['ps'], ln(e['ps']), e['col'], e['w']))]
    return Task('format_description', m, nd, setup, outcome_post(spec, 'format_description'), templates=[tpl_pad, tpl_join])

# ---- one option ------------------------------------------------------------------------------------------------------
def first(o): return '  ' + app_('od_format_name', 'S', o) + ' ' + app_('od_format_parameter', 'S', o)
def od_descr(o): return app_('od_description', 'S', o)
def desc_text(t, col, ll): return app_('description_text', 'S', t, col, ll)
def desc_bad(t): return app_('description_bad', 'B', t)
def one(o, col, ll):
    f = first(o)
    if empty(od_descr(o)): return f
    return f + ((NL + pad(col)) if ln(f) >= col else pad(col - ln(f))) + desc_text(od_descr(o), col, ll)
def c_od(nm): return lambda ex, fn_, this, args: app(nm, (od_term(ex, this),), 'S')
def c_fdesc(ex, fn_, this, args):
    t = ex.to_term(ex.load(args[1]), 'S'); col, ll = ex.load(args[2]), ex.load(args[3])
    ex.safety('the description column is on the line', tm.And(Gt(ll, I(1)), Ge(col, I(0)), Lt(col, sub_i(ll, I(1)))))
    ex.safety('the description is not empty', Gt(len_(t), I(0)))
    ex.safety('tabs are on the line', app_('description_fits', 'B', t, col, ll).t)
    if ex.c.branch(desc_bad(t).t): throw_spec(ex, SpecThrow('error'))
    return put(ex, args[0], desc_text(t, col, ll))
CONE = {ODQ + 'format_name': c_od('od_format_name'), ODQ + 'format_parameter': c_od('od_format_parameter'), ODQ + 'description': c_od('od_description')}
def T_one(prog):
    m = mach(prog, dict(CONE, **{'program_options::format_description': c_fdesc})); nd = fnode(prog, 'program_options::format_one')
    def setup(ex):
        c = ex.c; os, b0 = stream(ex); o = c.fresh('opt', OD); col, ll = c.fresh('column', 'I'), c.fresh('line_length', 'I')
        c.assume(Gt(ll, I(1))); c.assume(Lt(ll, I(2**31))); c.assume(Ge(col, I(0))); c.assume(Lt(col, sub_i(ll, I(1)))); c.assume(app_('description_fits', 'B', od_descr(o), col, ll).t)
        c.assume(Lt(len_(first(o).t), I(2**31)))
        return dict(this=None, args=[os, ex.new_cell('opt', o), ex.new_cell('col', col), ex.new_cell('ll', ll)], os=os, b0=b0, o=o, col=V(col), ll=V(ll))
    def spec(ex, e):
        if And(Not(empty(od_descr(e['o']))), desc_bad(od_descr(e['o']))): raise SpecThrow('error')
        return None, [('output', buf(e), e['b0'] + one(e['o'], e['col'], e['ll']))]
    return Task('format_one', m, nd, setup, outcome_post(spec, 'format_one'), templates=[tpl_pad])

# ---- the description column ---------------------------------------------------------------------------------------
def mx(a, b): return V(tm.max_(lift(a).t, lift(b).t))
WID = Prec('widest', 'I', 23, lambda prev, e, k: mx(prev, ln(first(e))), always=True)
GWID = Prec('widest_group', 'I', lambda b: b, lambda prev, e, k, b: mx(prev, app_('group_column', 'I', e)), always=True)
FACTS['group_column'] = lambda t: [Ge(t, I(0)), Lt(t, I(2**31))]
def c_column(ex, fn_, this, args): return app('group_column', (ex.to_term(ex.load(this), DESC),), 'I')
def column(o): 
    w = GWID(o['groups'], ln(o['groups']), WID(o['os'], ln(o['os'])))
    return V(add(tm.min_(w.t, sub_i(sub_i(o['ll'].t, o['md'].t), I(1))), I(1)))
def os_setup(ex):
    this, os_, r = po.os_obj(ex); c = ex.c; ll, md = r.f['m_line_length'], r.f['m_min_description_length']
    c.assume(Ge(md, I(2))); c.assume(Lt(md, sub_i(ll, I(1)))); c.assume(Lt(ll, I(2**31))); c.assume(Eq(len_(r.f['m_options']), len_(r.f['belong_to_group'])))
    return dict(this=this, os=os_, groups=V(r.f['groups']), ll=V(ll), md=V(md), bl=V(r.f['belong_to_group']), cap=V(r.f['m_caption']), obj0=r)
def tpl_col(L):
    d = L.ex.c.tag or {}
    if 'col' not in d: return
    o = d['col']
    for q, v, m in L.sl:
        if not (m and (isinstance(v, It) or is_int(v))): continue
        k = lambda q=q: V(L.cval(q))
        for w in slots_of(L, 'I', True):
            yield ('%r is the widest of the first %r' % (w, q), lambda w=w, k=k: Eq(L.cval(w), WID(o['os'], k()).t))
            yield ('%r is the widest of all options and the first %r groups' % (w, q), lambda w=w, k=k: Eq(L.cval(w), GWID(o['groups'], k(), WID(o['os'], ln(o['os']))).t))
def keep(spec, name):
    p = outcome_post(spec, name)
    def post(ex, out, env): p(ex, out, env); po.same(ex, env)
    return post
def T_column(prog):
    m = mach(prog, dict(CONE, **{OSQ + 'get_option_column_width': c_column})); nd = fnode(prog, OSQ + 'get_option_column_width')
    def setup(ex):
        e = os_setup(ex); ex.c.tag = dict(col=e); e['args'] = []; return e
    return Task('get_option_column_width', m, nd, setup, keep(lambda ex, e: (column(e), []), 'get_option_column_width'), templates=[tpl_col])

# ---- printing ---------------------------------------------------------------------------------------------------------
def one_text(o, col, ll): return app_('option_text', 'S', o, col, ll)
def one_bad(o): return app_('option_bad', 'B', o)
def g_text(g, w): return app_('group_text', 'S', g, w)
def g_bad(g): return app_('group_bad', 'B', g)
OWN = Prec('own_options', 'S', '', lambda prev, e, k, bl, w, ll: ite(V(tm.nth(bl.t, k.t)), prev, prev + one_text(e, w, ll) + NL), always=True)
OBAD = exists_k('own_bad', lambda e, k, bl: And(Not(V(tm.nth(bl.t, k.t))), one_bad(e)))
GRP = Prec('added_groups', 'S', '', lambda prev, e, k, w: prev + NL + g_text(e, w), always=True)
GBAD = exists_k('group_is_bad', lambda e, k: g_bad(e))
FACTS['all_options_fit'] = lambda t: []
def opt_fits(o, w, ll): return app_('option_fits', 'B', o, w, ll)
def grp_fits(g, w): return app_('group_fits', 'B', g, w)
# every own option fits / every group fits (preconditions of printing)
FACTS['option_fits'] = lambda t: [tm.Implies(tm.And(app('own_options_fit', (t.args[1].args[0],) + tuple(t.args[2:]), 'B'), Ge(t.args[1].args[1], I(0)), Lt(t.args[1].args[1], len_(t.args[1].args[0]))), t)] if t.args[1].op == 'nth' else []
ALL_GRP = every('all_groups_fit', 'group_fits')
def c_one(ex, fn_, this, args):
    o = od_term(ex, args[1]); w, ll = ex.load(args[2]), ex.load(args[3])
    ex.safety('the option can be printed in this width', opt_fits(o, w, ll).t)
    if ex.c.branch(one_bad(o).t): throw_spec(ex, SpecThrow('error'))
    return put(ex, args[0], one_text(o, w, ll))
def c_print(ex, fn_, this, args):
    g = ex.to_term(ex.load(this), DESC); w = ex.load(args[1])
    ex.safety('the group can be printed in this width', grp_fits(g, w).t)
    if ex.c.branch(g_bad(g).t): throw_spec(ex, SpecThrow('error'))
    return put(ex, args[0], g_text(g, w))
def tpl_print(L):
    d = L.ex.c.tag or {}
    if 'print' not in d: return
    o, b1 = d['print']
    w = o['want_w']
    for q, v, m in L.sl:
        if not (m and (isinstance(v, It) or is_int(v))): continue
        k = lambda q=q: V(L.cval(q))
        yield ('%r own options are printable' % q, lambda k=k: tm.Not(OBAD(o['os'], k(), o['bl']).t))
        yield ('%r groups are printable' % q, lambda k=k: tm.Not(GBAD(o['groups'], k()).t))
        for b in slots_of(L, 'S', True):
            yield ('%r has the first %r own options' % (b, q), lambda b=b, k=k: Eq(L.cval(b), (b1() + OWN(o['os'], k(), o['bl'], w(), o['ll'])).t))
            yield ('%r has all own options and the first %r groups' % (b, q), lambda b=b, k=k: Eq(L.cval(b), (b1() + OWN(o['os'], ln(o['os']), o['bl'], w(), o['ll']) + GRP(o['groups'], k(), w())).t))
def T_print(prog):
    m = mach(prog, {OSQ + 'get_option_column_width': lambda ex, fn_, this, args: app('own_column', (ex.load(this).f['m_options'],), 'I'), OSQ + 'print': c_print, 'program_options::format_one': c_one}); nd = fnode(prog, OSQ + 'print')
    def setup(ex):
        e = os_setup(ex); c = ex.c; os, b0 = stream(ex); w = c.fresh('width', 'I'); c.assume(Ge(w, I(0))); c.assume(Lt(w, I(2**31)))
        e.update(args=[os, ex.new_cell('width', w)], osp=os, b0=b0)
        e['want_w'] = lambda: ite(eq(V(w), 0), app_('own_column', 'I', e['os']), V(w))
        c.assume(app_('own_options_fit', 'B', e['os'], e['want_w'](), e['ll']).t); c.assume(ALL_GRP(e['groups'], e['want_w']()).t)
        b1 = lambda: e['b0'] + ite(empty(e['cap']), lift(''), e['cap'] + ':' + NL)
        e['b1'] = b1; c.tag = {'print': (e, b1)}
        return e
    def spec(ex, e):
        if OBAD(e['os'], ln(e['os']), e['bl']): raise SpecThrow('error')
        if GBAD(e['groups'], ln(e['groups'])): raise SpecThrow('error')
        w = e['want_w']()
        return None, [('output', e['osp'].sub(('f', 'buf')), e['b1']() + OWN(e['os'], ln(e['os']), e['bl'], w, e['ll']) + GRP(e['groups'], ln(e['groups']), w))]
    return Task('options_description::print', m, nd, setup, keep(spec, 'print'), templates=[tpl_print])
def T_shift(prog):
    def cp(ex, fn_, this, args):
        ex.c.oblige('call', 'operator<<: prints with the default width', Eq(ex.load(args[1]), I(0)))
        return put(ex, args[0], g_text(ex.to_term(ex.load(this), DESC), V(ex.load(args[1]))))
    m = mach(prog, {OSQ + 'print': cp}); nd = [n for n in prog.function(OSQ + 'operator<<') if n['_tu'].body(n) is not None][0]
    def setup(ex):
        os, b0 = stream(ex); d = ex.c.fresh('desc', DESC)
        return dict(this=None, args=[os, ex.new_cell('desc', d)], os=os, b0=b0, d=V(d))
    return Task('operator<<', m, nd, setup, outcome_post(lambda ex, e: (None, [('output', buf(e), e['b0'] + g_text(e['d'], 0))]), 'operator<<'))

# ---- adding ---------------------------------------------------------------------------------------------------------------
QB = ('Q', 'B')
def trues(n): return V(app('all_true', (lift(n).t,), QB))
FACTS['all_true'] = lambda t: [Eq(len_(t), tm.max_(t.args[1], I(0)))] + ([tm.Implies(Ge(t.args[1], I(1)), Eq(t, tm.cat2(app('all_true', (sub_i(t.args[1], I(1)),), QB), tm.unit(TRUE))))] if t.args[1].op != 'lin' or tm.lin(t.args[1])[1] >= 0 else [])
tm.REWRITE['all_true'] = lambda n: tm.cat(QB, *[tm.unit(TRUE)] * tm.val(n)) if n.op == 'int' and tm.val(n) < 50 else None
def to_desc(ex, v, sort):
    if isinstance(v, Rec) and v.cls == 'options_description' and sort == DESC: return app('desc_of', tuple(v.f[k] for k in ('m_options', 'groups', 'belong_to_group', 'm_caption', 'm_line_length', 'm_min_description_length')), DESC)
    if isinstance(v, Rec) and v.cls == 'option_description' and sort == OD: return app('od_of', (v.f['m_short_name'],), OD)
def od_ptr(ex):
    o = ex.c.fresh('opt', OD); return o
def pick_params(prog, q, n, contains):
    for f in prog.function(q):
        ps = [p['type']['qualType'] for p in f.get('inner', []) if p.get('kind') == 'ParmVarDecl']
        if len(ps) == n and contains in ps[-1 if n < 2 else n - 1] and f['_tu'].body(f) is not None: return f
    raise Unsupported('%s/%d' % (q, n))
def T_add1(prog):
    m = mach(prog, None, {'to_term': to_desc}); nd = pick_params(prog, OSQ + 'add', 1, 'shared_ptr')
    def setup(ex):
        e = os_setup(ex); o = od_ptr(ex); e.update(args=[ex.new_cell('desc', o)], o=V(o)); return e
    def post(ex, out, e):
        outcome_post(lambda ex, e: (None, [('options', e['this'].sub(('f', 'm_options')), e['os'] + V(tm.unit(e['o'].t))), ('own', e['this'].sub(('f', 'belong_to_group')), e['bl'] + V(tm.unit(FALSE)))]), 'add')(ex, out, e)
        po.same(ex, dict(e, obj0=Rec('x', {k: v for k, v in e['obj0'].f.items() if k not in ('m_options', 'belong_to_group')})))
    return Task('options_description::add(option)', m, nd, setup, post)
def T_add2(prog):
    def construct2(ex, t, b, ta, args, node):
        if b == 'options_description' and len(args) == 1 and isinstance(ex.load(args[0]), Rec): return ex.load(args[0])
    m = mach(prog, None, {'to_term': to_desc, 'construct': construct2}); nd = pick_params(prog, OSQ + 'add', 1, 'const options_description &')
    def setup(ex):
        c = ex.c; e = os_setup(ex); f = {k: c.fresh('g_' + k, v.sort) for k, v in e['obj0'].f.items()}; c.assume(Lt(len_(f['m_options']), I(2**31)))
        g = Rec('options_description', f); e.update(args=[ex.new_cell('desc', g)], g=g, go=V(f['m_options'])); c.tag = dict(add=e); return e
    def tpl(L):
        d = L.ex.c.tag or {}
        if 'add' not in d: return
        e = d['add']
        for q, v, m_ in L.sl:
            if not (m_ and (isinstance(v, It) or is_int(v))): continue
            for s in slots_of(L, QOD, True): yield ('%r has the first %r' % (s, q), lambda s=s, q=q: Eq(L.cval(s), tm.cat2(L.eload(s), tm.seg(e['go'].t, I(0), L.cval(q)) if L.ex.c.sure(tm.And(Ge(L.cval(q), I(0)), Le(L.cval(q), len_(e['go'].t)))) else tm.sub(e['go'].t, I(0), L.cval(q)))))
            for s in slots_of(L, QB, True): yield ('%r says so for %r' % (s, q), lambda s=s, q=q: Eq(L.cval(s), tm.cat2(L.eload(s), trues(V(L.cval(q))).t)))
    def post(ex, out, e):
        outcome_post(lambda ex, e: (None, [('options', e['this'].sub(('f', 'm_options')), e['os'] + e['go']), ('own', e['this'].sub(('f', 'belong_to_group')), e['bl'] + trues(ln(e['go']))),
                                           ('groups', e['this'].sub(('f', 'groups')), e['groups'] + V(tm.unit(to_desc(ex, e['g'], DESC))))]), 'add group')(ex, out, e)
        if out[0] == 'return': ex.c.oblige('post', 'add group: returns the object', B(isinstance(ex.load(out[1]), (Ptr, Rec)) ))
        po.same(ex, dict(e, obj0=Rec('x', {k: v for k, v in e['obj0'].f.items() if k not in ('m_options', 'belong_to_group', 'groups')})))
    return Task('options_description::add(group)', m, nd, setup, post, templates=[tpl])


# ---- declaring ------------------------------------------------------------------------------------------------------------
def arg_hook(ex, nm, nd): return app('arg_text', (I(0),), 'S') if nm == 'arg' else None
import p_values as pv
def name_spec(o):
    f = o.f; var = ite(empty(V(f['m_value_name'])), app_('arg_text', 'S', I(0)), V(f['m_value_name']))
    dt = ite(And(V(f['m_default_value'].f['full']), Not(empty(V(f['m_default_value_as_text'])))), ' (=' + V(f['m_default_value_as_text']) + ')', lift(''))
    return ite(And(V(f['m_implicit_value'].f['full']), Not(empty(V(f['m_implicit_value_as_text'])))), '[=' + var + '(=' + V(f['m_implicit_value_as_text']) + ')]' + dt, var + dt)
def mk_name(ty, w):
    def T_(prog):
        t = pv.mk_get('name', lambda o: name_spec(o).t, ty, w)(prog); t.m.hooks['global'] = arg_hook; return t
    T_.tus = ['inst']; return T_
NAMES = [mk_name(t, w) for t, w in pv.ALLT]
def T_untyped_name(prog):
    m = mach(prog, None, {'global': arg_hook}); nd = pv.uv_fn(prog, 'name')
    def setup(ex): return dict(this=ex.new_cell('this', Rec('untyped_value', {'m_zero_tokens': ex.c.fresh('zero', 'B')})), args=[])
    return Task('untyped_value::name', m, nd, setup, outcome_post(lambda ex, e: (app_('arg_text', 'S', I(0)), []), 'untyped_value::name'))
T_untyped_name.tus = ['value_semantic']
for i, t in enumerate(NAMES): globals()['T_name%d' % i] = t
def c_set_names(ex, fn_, this, args):
    o = ex.load(this); t = ex.to_term(ex.load(args[0]), 'S')
    ex.store_to(this, o.set('m_short_name', app('short_of', (t,), 'S')).set('m_long_names', app('longs_of', (t,), QS))); return this
def mk_od_ctor(n):
    def T_(prog):
        m = mach(prog, {ODQ + 'set_names': c_set_names}); nd = pick_params(prog, ODQ + 'option_description', n, 'char' if n == 3 else 'value_semantic')
        def setup(ex):
            c = ex.c; a = [c.fresh('names', 'S'), c.fresh('semantic', VS)] + ([c.fresh('description', 'S')] if n == 3 else [])
            return dict(this=ex.new_cell('this', ex.blank('boost::program_options::option_description')), args=[ex.new_cell('a%d' % i, x) for i, x in enumerate(a)], a=[V(x) for x in a])
        def spec(ex, e):
            t = lambda f: e['this'].sub(('f', f)); a = e['a']
            return None, [('short name', t('m_short_name'), app_('short_of', 'S', a[0])), ('long names', t('m_long_names'), app_('longs_of', QS, a[0])), ('semantic', t('m_value_semantic'), a[1]), ('description', t('m_description'), a[2] if n == 3 else lift(''))]
        return Task('option_description/%d' % n, m, nd, setup, outcome_post(spec, 'option_description'))
    return T_
T_od2, T_od3 = mk_od_ctor(2), mk_od_ctor(3)
def mk_easy(kind):
    """add_options()(...): the owner gets exactly one option, made from the arguments"""
    def T_(prog):
        added = []
        def c_add(ex, fn_, this, args):
            ex.c.tag['added'].append((this, ex.load(args[0]))); return None
        def ctor(ex, t, b, ta, args, node):
            vs = [ex.load(a) for a in args]
            if b == 'untyped_value': return Rec('untyped_value', {'m_zero_tokens': vs[0] if vs else FALSE})
            if b == 'option_description' and len(vs) >= 2 and isinstance(vs[0], T): return Rec('made', {'a%d' % i: v for i, v in enumerate(vs)})
            if b == 'shared_ptr' and len(vs) == 1: return vs[0]
        m = mach(prog, {OSQ + 'add': c_add}, {'construct': ctor}); q = 'program_options::options_description_easy_init::operator()'
        want = {'plain': 'const char *, const char *', 'sem': 'const char *, const value_semantic *)', 'both': 'const char *, const value_semantic *, const char *'}[kind]
        nd = [f for f in prog.function(q) if want in f['type']['qualType'].replace('boost::program_options::', '') and f['_tu'].body(f) is not None][0]
        def setup(ex):
            c = ex.c; ow = ex.new_cell('owner', Rec('options_description', {})); a = [c.fresh('name', 'S')]
            if kind != 'plain': a.append(c.fresh('s', VS))
            if kind != 'sem': a.append(c.fresh('description', 'S'))
            c.tag = dict(added=[])
            return dict(this=ex.new_cell('this', Rec('easy', {'owner': Ptr(ow)})), args=[ex.new_cell('a%d' % i, x) for i, x in enumerate(a)], a=a, ow=ow)
        def post(ex, out, e):
            c = ex.c; ad = c.tag['added']; nm = 'add_options() ' + kind
            if out[0] != 'return': c.oblige('post', nm + ': returns', FALSE); return
            r = ex.load(out[1]); c.oblige('post', nm + ': returns itself', B(isinstance(r, Ptr) and r.place == e['this'] or out[1] == e['this']))
            c.oblige('post', nm + ': adds one option to its owner', B(len(ad) == 1 and ad[0][0] == e['ow']))
            v = ad[0][1] if ad else None
            while isinstance(v, Ptr): v = ex.load(v.place)
            if not isinstance(v, Rec) or v.cls != 'made': c.oblige('post', nm + ': a new option', FALSE); return
            g = [ex.load(v.f['a%d' % i]) for i in range(len(v.f))]; a = e['a']
            same_ = lambda x, y: Eq(x, y) if isinstance(x, T) and isinstance(y, T) and x.sort == y.sort else FALSE
            c.oblige('post', nm + ': named as asked', same_(g[0], a[0]))
            if kind == 'plain':
                s = g[1]
                while isinstance(s, Ptr): s = ex.load(s.place)
                c.oblige('post', nm + ': without value', Eq(ex.truth(s.f['m_zero_tokens']), TRUE) if isinstance(s, Rec) and s.cls == 'untyped_value' else FALSE)
            else: c.oblige('post', nm + ': with the value given', same_(g[1], a[1]))
            if kind != 'sem': c.oblige('post', nm + ': with the description given', same_(g[2], a[-1]) if len(g) > 2 else FALSE)
        return Task('add_options() ' + kind, m, nd, setup, post)
    return T_
T_easy0, T_easy1, T_easy2 = mk_easy('plain'), mk_easy('sem'), mk_easy('both')
def T_lemmas(prog):
    return task.Lemma('wrapped lines', [('every line has at least one character and none is longer than the width',
        '(declare-const o Int)(declare-const n Int)(declare-const w Int)(declare-const tab Int)(declare-const a Int)(declare-const l Int)(declare-const full Int)(declare-const s Int)(declare-const e Int)'
        '(assert (and (<= 0 o) (< o n) (<= 0 tab) (< tab w) (= l (ite (= o 0) w (- w tab))) (or (= a o) (and (= a (+ o 1)) (< (+ o 1) n)))'
        ' (= full (ite (<= (- n a) l) n (+ a l))) (or (= e full) (and (= e s) (> s a) (<= s full)))))'
        '(assert (not (and (< a e) (<= e n) (<= (- e a) l) (<= a (+ o 1)))))')])

import g_help as gh
class P20(gh.C20):
    tus = ['options_description', 'value_semantic', 'inst']
    tasks = [T_paragraph, T_fdesc, T_one, T_column, T_print, T_shift, T_add1, T_add2, T_easy0, T_easy1, T_easy2, T_od2, T_od3, po.T_format_name, po.T_format_parameter, po.T_description, T_untyped_name] + NAMES + [T_lemmas, task.T_mono]
    extra_assumptions = ['documented preconditions: 2 <= reserved description width < line length - 1; a width given to print is less than the line length minus one of every description printed; a tab lies within the first line of its paragraph',
                         'boost::tokenizer with a newline separator that keeps empty tokens yields the lines of the text in order', 'std::count, std::find and last-blank search satisfy their defining facts',
                         'groups of a description are built before it (no cycles)', 'stream output appends to the text written']
    proved = ('format_paragraph (every paragraph, width, indent and tab position)', 'format_description', 'format_one', 'get_option_column_width', 'options_description::print', 'operator<<', 'options_description::add (option, group)',
              'add_options()(...) overloads', 'option_description constructors, format_name, format_parameter, description', 'typed_value::name for six instances, untyped_value::name')
PROPS = {c.id: c for c in (P20,)}
