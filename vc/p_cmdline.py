"""Contracts of src/cmdline.cpp and the properties decided over them."""
from model import *
from task import Task, outcome_post
import spec_cmdline as sc
import sp
from sp import *

NS = 'program_options::detail::cmdline::'
def fnode(prog, q, pick=None):
    c = prog.function(q, pick=pick)
    if not c: raise Unsupported('function %s not found' % q)
    return c[0]

def cmd_setup(nonempty=True, fixed={}):
    def setup(ex):
        st = sym_style(ex, fixed)
        this = cmdline_obj(ex, st)
        args = ex.new_cell('args', ex.c.fresh('toks', QS))
        a = ex.load(args)
        if nonempty: ex.c.assume(Gt(len_(a), I(0)))
        return dict(this=this, args=[args], st=st, a0=V(a), pl=args, desc=V(ex.load(Place('desc'))), obj0=ex.load(this))
    return setup

def frame_ok(ex, env):
    """the cmdline object itself is unchanged"""
    o, n = env['obj0'], ex.load(env['this'])
    gs = []
    for k in o.f:
        if o.f[k] is n.f[k]: continue
        if isinstance(o.f[k], T): gs.append(Eq(o.f[k], n.f[k]))
        elif isinstance(o.f[k], Ptr) and o.f[k] == n.f[k]: pass
        else: gs.append(FALSE)
    ex.c.oblige('frame', 'the parser object is unchanged', And(*gs))

def style_post(spec, name):
    def sf(ex, env):
        r, a = spec(env)
        return r, [('remaining tokens', env['pl'], a)]
    p = outcome_post(sf, name)
    def post(ex, out, env):
        p(ex, out, env); frame_ok(ex, env)
    return post

def c_prefix(ex, fn_, this, args): return lift(sc.cprefix(style_of(ex, this))).t
def c_active(ex, fn_, this, args):
    f = ex.load(args[0])
    st = style_of(ex, this)
    v = f.op == 'int' and tm.val(f)
    if not v: raise Unsupported('style flag')
    return tm.Or(*[st.b[k].t for k in BITS if v & BIT[k]])
CM = {NS + 'get_canonical_option_prefix': c_prefix, NS + 'is_style_active': c_active}
def cm(prog, *over, hooks=None):
    d = dict(CM)
    for o in over: d.update(o)
    return machine(prog, d, hooks)
def T_long(prog):
    return Task('cmdline::parse_long_option', cm(prog), fnode(prog, NS + 'parse_long_option'), cmd_setup(),
                style_post(lambda e: sc.long_option(e['st'], e['a0']), 'parse_long_option'))
def c_parse_long(ex, fn_, this, args):
    st = style_of(ex, this)
    a = V(ex.load(args[0]))
    try: r, rest = sc.long_option(st, a)
    except SpecThrow as e: throw_spec(ex, e)
    ex.store_to(args[0], rest.t)
    return r.t
def T_disguised(prog):
    m = cm(prog, {NS + 'parse_long_option': c_parse_long})
    return Task('cmdline::parse_disguised_long_option', m, fnode(prog, NS + 'parse_disguised_long_option'), cmd_setup(),
                style_post(lambda e: sc.disguised(e['st'], e['desc'], e['a0']), 'parse_disguised_long_option'))


# ---- small functions -----------------------------------------------------------------------------------------
def plain_post(spec, name, frame=True):
    p = outcome_post(lambda ex, env: spec(ex, env), name)
    def post(ex, out, env):
        p(ex, out, env)
        if frame: frame_ok(ex, env)
    return post
def T_prefix(prog):
    return Task('cmdline::get_canonical_option_prefix', machine(prog), fnode(prog, NS + 'get_canonical_option_prefix'), noarg_setup(),
                plain_post(lambda ex, e: (sc.cprefix(e['st']), []), 'get_canonical_option_prefix'))
def noarg_setup():
    def setup(ex):
        st = sym_style(ex); this = cmdline_obj(ex, st)
        return dict(this=this, args=[], st=st, obj0=ex.load(this))
    return setup
def T_active(prog):
    def setup(ex):
        st = sym_style(ex); this = cmdline_obj(ex, st)
        k = BITS[ex.c.choose(len(BITS))]
        return dict(this=this, args=[ex.new_cell('flag', I(BIT[k]))], st=st, k=k, obj0=ex.load(this))
    return Task('cmdline::is_style_active', machine(prog), fnode(prog, NS + 'is_style_active'), setup,
                plain_post(lambda ex, e: (e['st'].b[e['k']], []), 'is_style_active'))
def style_error(s):
    return Or(And(Or(s.allow_long, s.allow_long_disguise), Not(Or(s.long_allow_adjacent, s.long_allow_next))),
              And(s.allow_short, Not(Or(s.short_allow_adjacent, s.short_allow_next))),
              And(s.allow_short, Not(Or(s.allow_dash_for_short, s.allow_slash_for_short))))
def T_check_style(prog):
    def setup(ex):
        st = sym_style(ex); this = cmdline_obj(ex, st); arg = Style({k: V(ex.c.fresh('arg_' + k, 'B')) for k in BITS})
        return dict(this=this, args=[ex.new_cell('style', arg.term())], st=st, arg=arg, obj0=ex.load(this))
    def spec(ex, e):
        if style_error(e['arg']): raise SpecThrow('invalid_command_line_style')
        return None, []
    return Task('cmdline::check_style', machine(prog), fnode(prog, NS + 'check_style'), setup, plain_post(spec, 'check_style'))
DEFBITS = ('allow_short', 'short_allow_adjacent', 'short_allow_next', 'allow_long', 'long_allow_adjacent', 'long_allow_next', 'allow_sticky', 'allow_guessing', 'allow_dash_for_short')
def c_check_style(ex, fn_, this, args):
    b = ip.bit_atoms(ex.load(args[0]))
    if b is None: raise Unsupported('style value')
    if style_error(Style({k: V(b.get(i, FALSE)) for i, k in enumerate(BITS)})): throw_spec(ex, SpecThrow('invalid_command_line_style'))
def T_style(prog):
    def setup(ex):
        st = sym_style(ex); this = cmdline_obj(ex, st); arg = Style({k: V(ex.c.fresh('arg_' + k, 'B')) for k in BITS})
        return dict(this=this, args=[ex.new_cell('style', arg.term())], st=st, arg=arg, obj0=ex.load(this))
    def post(ex, out, e):
        zero = Not(Or(*[e['arg'].b[k] for k in BITS]))
        new = Style({k: ite(zero, k in DEFBITS, e['arg'].b[k]) for k in BITS})
        bad = style_error(new)
        c = ex.c; o, n = e['obj0'], ex.load(e['this'])
        if out[0] == 'throw':
            c.oblige('post', 'style: rejects only impossible combinations', bad.t)
            c.oblige('post', 'style: a rejected style leaves the previous one', Eq(n.f['m_style'], o.f['m_style']))
            if out[1].cls != 'invalid_command_line_style': c.oblige('post', 'style: the error is invalid_command_line_style', FALSE)
        else:
            c.oblige('post', 'style: accepts every other combination', tm.Not(bad.t))
            c.oblige('post', 'style: the accepted style is in place', Eq(n.f['m_style'], new.term()))
        frame_ok(ex, dict(obj0=Rec('x', {k: v for k, v in o.f.items() if k != 'm_style'}), this=e['this']))
    return Task('cmdline::style', cm(prog, {NS + 'check_style': c_check_style}), fnode(prog, NS + 'style'), setup, post)

def dos_sym(st, desc, args):
    tok = args[0]
    if not (ln(tok) >= 2 and starts(tok, '/')): return oseq(True), args
    v = drop(tok, 2)
    o = mk_opt(sym=True, key='-' + slc(tok, 1, 1), value=strs(True) if empty(v) else strs(True, v), toks=strs(True, tok))
    return oseq(True, o), drop(args, 1)
from spec_cmdline import oseq, strs
def T_dos(prog):
    return Task('cmdline::parse_dos_option', cm(prog), fnode(prog, NS + 'parse_dos_option'), cmd_setup(),
                style_post(lambda e: dos_sym(e['st'], e['desc'], e['a0']), 'parse_dos_option'))

# the positional options '--' turns the later tokens into
def term_opt(t): return mk_opt(value=strs(True, t), toks=strs(True, t), pos=INT_MAX, sym=True)
TMAP = Hom('tmap', QO, lambda t: oseq(True, term_opt(t)), lambda a, b: a + b, ())
def term_sym(args):
    if not eq(args[0], '--'): return oseq(True), args
    return TMAP(drop(args, 1)), strs(True)
def plain(ps): return [p for p in ps if not p.path]
def slots_of(L, sort, mod=None):
    r = [p for p, v, m in L.sl if (v.sort if isinstance(v, T) else None) == sort and (mod is None or m == mod)]
    if sort == 'I' and mod: r += [p for p, v, m in L.sl if isinstance(v, It) and m]      # an iterator counts like an index
    return r
def tpl_term(L):
    for r in slots_of(L, QO, True):
        for q in slots_of(L, QS):
            for i in slots_of(L, 'I', True):
                yield ('%r=tmap(%r[1..%r])' % (r, q, i), lambda r=r, q=q, i=i: V(Eq(L.cval(r), TMAP(V(L.ex.c.slice(L.cval(q), I(1), sub_i(L.cval(i), I(1))))).t)))
                yield ('%r>=1' % (i,), lambda i=i: Ge(L.cval(i), I(1)))
def T_term(prog):
    return Task('cmdline::parse_terminator', cm(prog), fnode(prog, NS + 'parse_terminator'), cmd_setup(),
                style_post(lambda e: term_sym(e['a0']), 'parse_terminator'), templates=[tpl_term])

# ---- grouped short options ------------------------------------------------------------------------------------
def sname(tok, k): return '-' + V(tm.sub(tok.t, add(k.t, I(1)), I(1)))
def srest(tok, k): return V(tm.sub(tok.t, add(k.t, I(2)), sub_i(len_(tok.t), add(k.t, I(2)))))
def s_amb(desc, n, sic): return fn('fn_amb', 'B', desc, n, lift(False), lift(False), sic)
def s_res(desc, n, sic): return fn('fn_res', ('D', 'P:option_description'), desc, n, lift(False), lift(False), sic)
def groupable(tok, k, desc, sticky, sic):
    n = sname(tok, k); p = s_res(desc, n, sic)
    return And(sticky, Not(s_amb(desc, n, sic)), Not(p.null), V(Eq(o_max(p).t, I(0))), V(Lt(add(k.t, I(2)), len_(tok.t))))
def shK(*ps): return fn('shK', 'I', *ps)
def _sh_facts(t):
    # shIn(k, tok, desc, sticky, sic): k <= K, where K is the first index at which the token is not a further group member
    k, ps = V(t.args[1]), [V(x) for x in t.args[2:]]
    K = shK(*ps); tok = ps[0]
    return [Eq(t, Le(k.t, K.t)), tm.Implies(And(Ge(k.t, I(0)), Lt(k.t, K.t)) if False else tm.And(Ge(k.t, I(0)), Lt(k.t, K.t)), groupable(tok, k, *ps[1:]).t)]
def _K_facts(t):
    ps = [V(x) for x in t.args[1:]]; K = V(t)
    return [Ge(K.t, I(0)), tm.Implies(Ge(len_(ps[0].t), I(2)), Lt(add(K.t, I(1)), len_(ps[0].t))), tm.Not(groupable(ps[0], K, *ps[1:]).t)]
FACTS['shIn'] = _sh_facts; FACTS['shK'] = _K_facts
def _grp_facts(t):
    # grp(tok, k): the first k members of the group
    tok, k = V(t.args[1]), t.args[2]
    out = [tm.Implies(Eq(k, I(0)), Eq(t, S_empty(QO)))]
    co, c = tm.lin(k)
    if c >= 1:
        k1 = sub_i(k, I(1))
        out.append(tm.Implies(Ge(k1, I(0)), Eq(t, cat(QO, app('grp', (tok.t, k1), QO), oseq(True, mk_opt(key=sname(tok, V(k1)), sym=True)).t))))
    out.append(tm.Implies(Ge(k, I(0)), Eq(len_(t), k)))
    return out
FACTS['grp'] = _grp_facts
def S_empty(s): return sp.to_T((), s)
def short_sym(st, desc, args):
    tok = args[0]
    if not (ln(tok) >= 2 and starts(tok, '-') and Not(eq(slc(tok, 1, 1), '-'))): return oseq(True), args
    ps = (tok, desc, st.allow_sticky, st.short_case_insensitive)
    K = shK(*ps); n = sname(tok, K)
    if s_amb(desc, n, st.short_case_insensitive): raise SpecThrow('ambiguous_option', alternatives=fn('fn_alts', QS, desc, n, lift(False), lift(False), st.short_case_insensitive))
    v = srest(tok, K)
    last = mk_opt(sym=True, key=n, value=strs(True) if empty(v) else strs(True, v), toks=strs(True, tok))
    return V(cat(QO, app('grp', (tok.t, K.t), QO), oseq(True, last).t)), drop(args, 1)
def tpl_short(L):
    d = L.ex.c.tag
    for q in slots_of(L, QS):
        tok = lambda q=q: V(tm.nth(L.cval(q), I(0)))
        for r in slots_of(L, QO, True):
            k = lambda r=r: V(len_(L.cval(r)))
            ps = lambda tok=tok: (tok(), d['desc'], d['st'].allow_sticky, d['st'].short_case_insensitive)
            yield ('group prefix %r' % (r,), lambda r=r, k=k, tok=tok: Eq(L.cval(r), app('grp', (tok().t, k().t), QO)))
            yield ('still grouping %r' % (r,), lambda k=k, ps=ps: fn('shIn', 'B', k(), *ps()).t)
            yield ('in range %r' % (r,), lambda k=k, tok=tok: Lt(add(k().t, I(1)), len_(tok().t)))
            for s in slots_of(L, 'S', True):
                yield ('name %r %r' % (s, r), lambda s=s, k=k, tok=tok: Eq(L.cval(s), sname(tok(), k()).t))
                yield ('rest %r %r' % (s, r), lambda s=s, k=k, tok=tok: Eq(L.cval(s), srest(tok(), k()).t))
def T_short(prog):
    su = cmd_setup()
    def setup(ex):
        e = su(ex); ex.c.tag = e; return e
    return Task('cmdline::parse_short_option', cm(prog), fnode(prog, NS + 'parse_short_option'), setup,
                style_post(lambda e: short_sym(e['st'], e['desc'], e['a0']), 'parse_short_option'), templates=[tpl_short])


# ---- finish_option ---------------------------------------------------------------------------------------------
# style parsers are opaque here: PT(p, t): parser p throws on a vector holding only t; PR(p, t): the options it returns
SP_ = ('U', 'SP'); QSP = ('Q', SP_)
def PT(p, t): return fn('sp_throws', 'B', p, t)
def PR(p, t): return fn('sp_ret', QO, p, t)
QUIET = Prec('quiet', 'B', True, lambda prev, e, k, t: And(prev, Not(PT(e, t)), empty(PR(e, t))))
THROWS = Prec('lk_throws', 'B', False, lambda prev, e, k, t, ps: Or(prev, And(QUIET(ps, k, t), PT(e, t))))
_qf = FACTS['quiet']
def _quiet_facts(t):
    ps, k, x = t.args[1:4]
    whole = app('quiet', (ps, len_(ps), x), 'B')
    rest = [tm.Implies(tm.And(whole, Ge(k, I(0)), Le(k, len_(ps))), t)] if k is not len_(ps) else []        # lemma quiet_mono
    return _qf(t) + rest
FACTS['quiet'] = _quiet_facts
_tf = FACTS['lk_throws']
def _throws_facts(t):
    ps, k, x, ps2 = t.args[1:5]
    out = _tf(t)
    if k is not len_(ps):                                    # lemma throws_mono
        whole = app('lk_throws', (ps, len_(ps), x, ps2), 'B'); q = app('quiet', (ps, k, x), 'B')
        out.append(tm.Implies(tm.And(Ge(k, I(0)), Le(k, len_(ps)), tm.Not(q)), Eq(whole, t)))
        out.append(tm.Implies(tm.And(Ge(k, I(0)), Le(k, len_(ps)), t), whole))
    return out
FACTS['lk_throws'] = _throws_facts
class FS:
    """parameters of the look-ahead: parsers, description, style"""
    def __init__(self, ps, desc, st): self.ps, self.desc, self.st = ps, desc, st
    def par(self): return (self.ps, self.desc, self.st.allow_guessing, self.st.long_case_insensitive, self.st.short_case_insensitive)
def quiet(ps, t): return QUIET(ps, V(len_(ps.t)), t)
def throws(ps, t): return THROWS(ps, V(len_(ps.t)), t, ps)
def amb(desc, n, g, l, s): return fn('fn_amb', 'B', desc, n, g, l, s)
def fres(desc, n, g, l, s): return fn('fn_res', ('D', 'P:option_description'), desc, n, g, l, s)
def falts(desc, n, g, l, s): return fn('fn_alts', QS, desc, n, g, l, s)
def badtok(t, ps, desc, g, l, s):
    """token t may not be taken as a mandatory value"""
    return And(Not(quiet(ps, t)), Or(throws(ps, t), amb(desc, t, g, l, s), Not(fres(desc, t, g, l, s).null)))
def firstbad(others, *ps): return fn('firstbad', 'I', others, *ps)
def _fb_facts(t):
    o, ps = V(t.args[1]), [V(x) for x in t.args[2:]]
    return [Ge(t, I(0)), tm.Implies(Lt(t, len_(o.t)), badtok(V(tm.nth(o.t, t)), *ps).t)]
def _fbin_facts(t):
    k, o, ps = t.args[1], V(t.args[2]), [V(x) for x in t.args[3:]]
    F = firstbad(o, *ps).t
    return [Eq(t, Le(k, F)), tm.Implies(tm.And(Ge(k, I(0)), Lt(k, F), Lt(k, len_(o.t))), tm.Not(badtok(V(tm.nth(o.t, k)), *ps).t))]
FACTS['firstbad'] = _fb_facts; FACTS['fbIn'] = _fbin_facts
def call_parser(ex, f, args):
    """an arbitrary style parser on a one-token vector"""
    if not (isinstance(f, T) and f.sort == SP_): return None
    v = ex.load(args[0])
    if not ex.c.sure(Eq(len_(v), I(1))): raise Unsupported('look-ahead on more than one token')
    t = tm.nth(v, I(0))
    if ex.c.branch(PT(V(f), V(t)).t):
        if f.op == 'nth':             # definition of lk_throws at the next index: quiet up to here and this parser throws
            ps, i = f.args[0], f.args[1]
            ex.c.assume(tm.Implies(app('quiet', (ps, i, t), 'B'), app('lk_throws', (ps, add(i, I(1)), t, ps), 'B')))
        throw_spec(ex, SpecThrow(['ambiguous_option', 'invalid_command_line_syntax'][ex.c.choose(2)]))
    r = PR(V(f), V(t)).t
    # an unsuccessful parser leaves the vector alone; '--' alone (the terminator, last in the list) empties it
    if ex.c.branch(Gt(len_(r), I(0))): ex.store_to(args[0], ex.c.fresh('rest_of_lookahead', QS))
    elif f.op == 'nth' and not ex.c.branch(Lt(add(f.args[1], I(1)), len_(f.args[0]))): ex.store_to(args[0], ex.c.fresh('rest_of_lookahead', QS))
    return (r,)
def finish_sym(st, desc, ps, unreg, o, others):
    if empty(o.string_key): return o, others
    par = (desc, st.allow_guessing, st.long_case_insensitive, st.short_case_insensitive)
    tok = ite(empty(o.original_tokens), o.string_key, o.original_tokens[0]) if sym(o) else None
    pre = cprefix(st)
    p = fres(desc, o.string_key, *par[1:])
    if amb(desc, o.string_key, *par[1:]): raise SpecThrow('ambiguous_option', alternatives=falts(desc, o.string_key, *par[1:]), original_token=tok, option_style=pre)
    if p.null:
        if unreg: return o.with_(unregistered=True), others
        raise SpecThrow('unknown_option', original_token=tok, option_style=pre)
    k = fn('od_key', 'S', p.obj, o.string_key)
    mn, mx = o_min(p), o_max(p)
    nv, no = ln(o.value), ln(others)
    if nv + no < mn: raise SpecThrow('invalid_command_line_syntax', kind=KIND['missing_parameter'], option_name=k, option_style=pre)
    if And(nv > 0, eq(mx, 0)): raise SpecThrow('invalid_command_line_syntax', kind=KIND['extra_parameter'], option_name=k, option_style=pre)
    need = ite(mn > nv, mn - nv, 0)
    F = firstbad(others, ps, *par)
    if F < need:
        t = V(tm.nth(others.t, F.t))
        if throws(ps, t): raise SpecThrow('?any')
        if amb(desc, t, *par[1:]): raise SpecThrow('ambiguous_option', alternatives=falts(desc, t, *par[1:]))
        raise SpecThrow('invalid_command_line_syntax', kind=KIND['missing_parameter'], option_name=k, option_style=pre)
    return o.with_(string_key=k, value=o.value + take(others, need), original_tokens=o.original_tokens + take(others, need)), drop(others, need)
from spec_cmdline import KIND, cprefix
def tpl_consume(L):
    """one vector is consumed from the front and others grow by what it loses"""
    d = L.ex.c.tag
    for q in plain(slots_of(L, QS, True)):
        e = L.eload(q)
        if e is None: continue
        k = lambda q=q, e=e: sub_i(len_(e), len_(L.cval(q)))
        yield ('%r<=entry' % (q,), lambda q=q, e=e: Le(len_(L.cval(q)), len_(e)))
        yield ('%r suffix' % (q,), lambda q=q, e=e, k=k: Eq(L.cval(q), L.ex.c.slice(e, k(), len_(L.cval(q)))))
        yield ('%r no bad token consumed' % (q,), lambda q=q, e=e, k=k: app('fbIn', (k(), e) + tuple(x.t for x in d['fs'].par()), 'B'))
        for r in slots_of(L, QS, True):
            if r != q:
                re_ = L.eload(r)
                if re_ is not None: yield ('%r grows by %r' % (r, q), lambda r=r, e=e, k=k, re_=re_: Eq(L.cval(r), tm.cat2(re_, L.ex.c.slice(e, I(0), k()))))
        for i in slots_of(L, 'I', True):
            ie = L.eload(i)
            if ie is not None: yield ('%r counts %r' % (i, q), lambda i=i, k=k, ie=ie: Eq(add(L.cval(i), k()), ie))
def tpl_look(L):
    d = L.ex.c.tag
    ps = d['fs'].ps
    for i in slots_of(L, 'I', True):
        for q in plain(slots_of(L, QS)):
            e = L.eload(q)
            t = lambda q=q, e=e: V(tm.nth(e, I(0)))
            yield ('%r quiet so far, %r' % (i, q), lambda i=i, q=q, t=t: None if e is None else tm.Not(THROWS(ps, V(L.cval(i)), t(), ps).t))
            for r in slots_of(L, QO, True):
                yield ('%r found iff, %r %r' % (i, q, r), lambda i=i, q=q, r=r, t=t: Eq(QUIET(ps, V(L.cval(i)), t()).t, Eq(len_(L.cval(r)), I(0))))
                yield ('%r untouched, %r %r' % (i, q, r), lambda i=i, q=q, r=r, e=e: tm.Implies(tm.And(Lt(L.cval(i), len_(ps.t)), Eq(len_(L.cval(r)), I(0))), Eq(L.cval(q), e)))
def fin_setup(no_others=False):
    def setup(ex):
        st = sym_style(ex); this = cmdline_obj(ex, st); c = ex.c
        o = c.fresh('opt', ('D', 'option')); others = c.fresh('others', QS); ps = c.fresh('parsers', QSP)
        po, pq, pp = ex.new_cell('opt', o), ex.new_cell('others', others), ex.new_cell('parsers', ps)
        desc = V(ex.load(Place('desc')))
        e = dict(this=this, args=[po, pq, pp], st=st, desc=desc, po=po, pq=pq, o=V(o), others=V(others), fs=FS(V(ps), desc, st), obj0=ex.load(this), unreg=V(sel_rec(ex.load(this), 'm_allow_unregistered')))
        c.tag = e; return e
    return setup
def sel_rec(r, f): return r.f[f]
def any_post(spec, name):
    """outcome_post, where the exception class '?any' allows any library error"""
    def post(ex, out, env):
        class Any(Exception): pass
        def s2(ex, env):
            try: return spec(ex, env)
            except SpecThrow as e:
                if e.cls == '?any': raise Any()
                raise
        try: outcome_post(s2, name)(ex, out, env)
        except Any:
            if out[0] != 'throw': ex.c.oblige('post', name + ': throws', FALSE)
            else: ex.c.oblige('post', name + ': throws a library error', B(out[1].cls in ('ambiguous_option', 'invalid_command_line_syntax', 'unknown_option')))
        frame_ok(ex, env)
    return post
def T_finish(prog):
    def spec(ex, e):
        o, rest = finish_sym(e['st'], e['desc'], e['fs'].ps, e['unreg'], e['o'], e['others'])
        return None, [('option', e['po'], o), ('remaining tokens', e['pq'], rest)]
    return Task('cmdline::finish_option', cm(prog, hooks={'call': call_parser}), fnode(prog, NS + 'finish_option'), fin_setup(),
                any_post(spec, 'finish_option'), templates=[tpl_consume, tpl_look])


# ---- positional_options_description (src/positional_options.cpp) --------------------------------------------------
PQ = 'program_options::positional_options_description::'
def pos_obj(ex):
    c = ex.c
    r = Rec('positional_options_description', {'m_names': c.fresh('names', QS), 'm_trailing': c.fresh('trailing', 'S')})
    return ex.new_cell('this', r), V(r.f['m_names']), V(r.f['m_trailing'])
REPEAT = fn
UINT_MAX = 2**32 - 1
def pmax(names, trailing): return ite(empty(trailing), ln(names), UINT_MAX)
def T_pos_add(prog):
    def setup(ex):
        this, n, t = pos_obj(ex); c = ex.c
        nm, k = c.fresh('name', 'S'), c.fresh('max_count', 'I')
        c.assume(Ge(k, I(-1))); c.assume(tm.Or(Not(V(Eq(k, I(-1)))).t, Eq(len_(t.t), I(0))))       # documented preconditions
        return dict(this=this, args=[ex.new_cell('name', nm), ex.new_cell('max_count', k)], n=n, t=t, nm=V(nm), k=V(k))
    def spec(ex, e):
        if eq(e['k'], -1): return None, [('names', e['this'].sub(('f', 'm_names')), e['n']), ('trailing name', e['this'].sub(('f', 'm_trailing')), e['nm'])]
        return None, [('names', e['this'].sub(('f', 'm_names')), V(cat(QS, e['n'].t, LIB.fill(e['nm'].t, e['k'].t)))), ('trailing name', e['this'].sub(('f', 'm_trailing')), e['t'])]
    return Task('positional_options_description::add', machine(prog), fnode(prog, PQ + 'add'), setup, outcome_post(spec, 'add'))
def T_pos_max(prog):
    def setup(ex):
        this, n, t = pos_obj(ex); return dict(this=this, args=[], n=n, t=t)
    return Task('positional_options_description::max_total_count', machine(prog), fnode(prog, PQ + 'max_total_count'), setup,
                outcome_post(lambda ex, e: (pmax(e['n'], e['t']), []), 'max_total_count'))
def T_pos_name(prog):
    def setup(ex):
        this, n, t = pos_obj(ex); c = ex.c; k = c.fresh('position', 'I'); c.assume(Ge(k, I(0))); c.assume(Lt(k, pmax(n, t).t))
        return dict(this=this, args=[ex.new_cell('position', k)], n=n, t=t, k=V(k))
    def spec(ex, e):
        return (V(tm.nth(e['n'].t, e['k'].t)) if e['k'] < ln(e['n']) else e['t']), []
    return Task('positional_options_description::name_for_position', machine(prog, {PQ + 'max_total_count': lambda ex, f, th, a: pmax(V(ex.load(th).f['m_names']), V(ex.load(th).f['m_trailing'])).t}),
                fnode(prog, PQ + 'name_for_position'), setup, outcome_post(spec, 'name_for_position'))

import g_cmdline as gc
EXT_CMD = ['std::function/boost::bind wrappers call the bound member function', 'options_description::find_nothrow, key, min_tokens, max_tokens are deterministic observers (C05, C06, C22)',
           'style values use only the 13 defined bits']
EXT_FIN = EXT_CMD + ['a style parser called on a one-token vector either throws a library error, or returns options, or returns none and leaves the vector alone (proved for each built-in parser by its own contract)']
class P01(gc.C01):
    id = 'C01'; title = 'long option tokens'
    tasks = [T_long, T_disguised, T_prefix, T_active]; extra_assumptions = EXT_CMD
    proved = ('parse_long_option', 'parse_disguised_long_option', 'is_style_active', 'get_canonical_option_prefix')
class P02(gc.C02):
    id = 'C02'; title = 'short option tokens'
    tasks = [T_short, T_dos, T_active]; extra_assumptions = EXT_CMD
    proved = ('parse_short_option', 'parse_dos_option')
class P03(gc.C03):
    id = 'C03'; title = 'everything after -- is positional'
    tasks = [T_term]; extra_assumptions = EXT_CMD
    proved = ('parse_terminator',)
class P04(gc.C04):
    id = 'C04'; title = 'no token lost, duplicated or reordered'
    tasks = [T_long, T_disguised, T_short, T_dos, T_term, T_finish]; extra_assumptions = EXT_FIN
    proved = ('the token accounting of every built-in parser', 'finish_option')
class P07(gc.C07):
    id = 'C07'; title = 'declared arity'
    tasks = [T_finish]; extra_assumptions = EXT_FIN
    proved = ('finish_option',)
class P08(gc.C08):
    id = 'C08'; title = 'positional options'; tus = ['cmdline', 'positional_options']; files = gc.CmdProp.files + ['src/positional_options.cpp']
    tasks = [T_pos_add, T_pos_max, T_pos_name]; extra_assumptions = EXT_CMD
    proved = ('positional_options_description',)
class P18(gc.C18):
    id = 'C18'; title = 'unregistered options'
    tasks = [T_finish]; extra_assumptions = EXT_FIN
    proved = ('finish_option',)
class P21(gc.C21):
    id = 'C21'; title = 'style flags'
    tasks = [T_style, T_check_style, T_prefix, T_active]; extra_assumptions = EXT_CMD
    proved = ('style', 'check_style', 'is_style_active', 'get_canonical_option_prefix')
PROPS = {c.id: c for c in (P01, P02, P03, P04, P07, P08, P18, P21)}
