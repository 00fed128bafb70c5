"""Contracts of src/options_description.cpp: names and look-up (C05, C06)."""
from model import *
from task import Task, outcome_post
import sp, task
from sp import *
from p_cmdline import slots_of, plain, tpl_short, fnode as _fn
ODQ = 'program_options::option_description::'
OSQ = 'program_options::options_description::'
BS = lambda ex, n: V(ex.c.fresh(n, 'B'))

def od_obj(ex, full=True):
    c = ex.c
    r = Rec('option_description', {'m_short_name': c.fresh('short_name', 'S'), 'm_long_names': c.fresh('long_names', QS),
                                   'm_description': c.fresh('description', 'S'), 'm_value_semantic': c.fresh('semantic', VS)})
    return ex.new_cell('this', r), V(r.f['m_short_name']), V(r.f['m_long_names']), r
def same(ex, env):
    o, n = env['obj0'], ex.load(env['this'])
    ex.c.oblige('frame', 'the object is unchanged', And(*[Eq(ex.to_term(o.f[k], o.f[k].sort), ex.to_term(n.f[k], o.f[k].sort)) for k in o.f if isinstance(o.f[k], T)]).t if False else tm.And(*[Eq(o.f[k], n.f[k]) for k in o.f if isinstance(o.f[k], T)]))
def const_post(spec, name):
    p = outcome_post(spec, name)
    def post(ex, out, env): p(ex, out, env); same(ex, env)
    return post
def loc(ic, x): return ite(ic, V(lib.lower(x.t)), x)
import lib

# exists j < k with P(xs[j], ps): monotone in k by definition
def exists(name, pred):
    E = Prec(name, 'B', False, lambda prev, e, k, *ps: Or(prev, pred(e, *ps)))
    f0 = FACTS[name]
    def facts(t):
        xs, k, ps = t.args[1], t.args[2], t.args[3:]
        out = f0(t)
        co, c = tm.lin(k)
        if c == 0 and k is not len_(xs) and k.op != 'int':       # the definition at the next index
            k1 = add(k, I(1))
            out.append(tm.Implies(tm.And(Ge(k, I(0)), Lt(k, len_(xs))), Eq(app(name, (xs, k1) + tuple(ps), 'B'), E._step(xs, k, ps))))
        if k is not len_(xs): out.append(tm.Implies(tm.And(t, Ge(k, I(0)), Le(k, len_(xs))), app(name, (xs, len_(xs)) + tuple(ps), 'B')))
        return out
    FACTS[name] = facts
    return E
def ex_p(l, o, lic): return And(Not(empty(l)), eq(loc(lic, l), loc(lic, o)))
def ap_p(l, o, abbr, lic):
    a, b = loc(lic, l), loc(lic, o)
    return And(Not(empty(l)), Or(And(ends(a, '*'), starts(b, V(tm.seg(a.t, I(0), sub_i(len_(a.t), I(1)))))), And(abbr, starts(a, b))))
EXK = exists('od_exact', ex_p)
APK = exists('od_approx', ap_p)
def match_sym(short, longs, o, abbr, lic, sic):
    n = ln(longs)
    return ite(Or(EXK(longs, n, o, lic), eq(loc(sic, short), loc(sic, o))), lift(1), ite(APK(longs, n, o, abbr, lic), lift(2), lift(0)))
def tpl_match(L):
    d = L.ex.c.tag
    if not d or 'o' not in d: return
    for q in slots_of(L, QS):
        for i in slots_of(L, 'I', True):
            yield ('no exact match so far %r' % (i,), lambda q=q, i=i: tm.Not(EXK(V(L.cval(q)), V(L.cval(i)), d['o'], d['lic']).t))
            for r in slots_of(L, 'I', True):
                yield ('%r approximate iff one so far %r' % (r, i), lambda q=q, i=i, r=r: Eq(Eq(L.cval(r), I(2)), APK(V(L.cval(q)), V(L.cval(i)), d['o'], d['ab'], d['lic']).t))
                yield ('%r in 0,2' % r, lambda r=r: tm.Or(Eq(L.cval(r), I(0)), Eq(L.cval(r), I(2))))
                yield ('%r in 0,1,2' % r, lambda r=r: tm.And(Ge(L.cval(r), I(0)), Le(L.cval(r), I(2))))
            for r in slots_of(L, 'B', True):
                yield ('%r approximate iff one so far %r' % (r, i), lambda q=q, i=i, r=r: Eq(L.cval(r), APK(V(L.cval(q)), V(L.cval(i)), d['o'], d['ab'], d['lic']).t))
def tpl_lower(L):
    for r in slots_of(L, 'S', True):
        for s in slots_of(L, 'S', False):
            for i in slots_of(L, 'I', True):
                yield ('%r lower prefix of %r' % (r, s), lambda r=r, s=s, i=i: Eq(L.cval(r), L.ex.c.slice(lib.lower(L.cval(s)), I(0), L.cval(i))))
            yield ('%r lower prefix of %r by length' % (r, s), lambda r=r, s=s: Eq(L.cval(r), tm.sub(lib.lower(L.cval(s)), I(0), len_(L.cval(r)))))
def tpl_inplace(L):
    """a string lower-cased in place"""
    for r in slots_of(L, 'S', True):
        e = L.eload(r)
        if e is None: continue
        yield ('%r differs from its entry value in case only' % r, lambda r=r, e=e: Eq(lib.lower(L.cval(r)), lib.lower(e)))
        yield ('%r has its entry length' % r, lambda r=r, e=e: Eq(len_(L.cval(r)), len_(e)))
        for i in slots_of(L, 'I', True):
            yield ('%r: lower case up to %r' % (r, i), lambda r=r, i=i: Eq(L.ex.c.slice(L.cval(r), I(0), L.cval(i)), L.ex.c.slice(lib.lower(L.cval(r)), I(0), L.cval(i))))
TL = 'program_options::tolower_'
def lower_fn(prog):
    for tu in prog.tus.values():
        for n in tu.byid.values():
            if n.get('name') == 'tolower_' and n['kind'] == 'FunctionDecl' and tu.body(n) is not None and 'char' in n.get('type', {}).get('qualType', '') and 'charT' not in n.get('type', {}).get('qualType', ''): return n
    raise Unsupported('tolower_ not found')
def T_tolower(prog):
    def setup(ex):
        s = ex.c.fresh('str', 'S'); return dict(this=None, args=[ex.new_cell('str', s)], s=V(s))
    return Task('tolower_', machine(prog), lower_fn(prog), setup, outcome_post(lambda ex, e: (V(lib.lower(e['s'].t)), []), 'tolower_'), templates=[tpl_lower, tpl_inplace])
def c_tolower(ex, fn_, this, args): return lib.lower(ex.to_term(ex.load(args[0]), 'S'))
def mach(prog, over=None, hooks=None):
    m = machine(prog, None, hooks); m.contracts[TL] = c_tolower
    try: m.contracts[lower_fn(prog)['_q']] = c_tolower
    except Unsupported: pass
    m.contracts.pop(ODQ + 'key', None); m.contracts.pop(OSQ + 'find_nothrow', None); m.contracts.pop(ODQ + 'semantic', None)
    if over: m.contracts.update(over)
    return m
def T_match(prog):
    def setup(ex):
        this, s, l, rec = od_obj(ex); c = ex.c
        e = dict(this=this, s=s, l=l, obj0=rec, o=V(c.fresh('option', 'S')), ab=BS(ex, 'approx'), lic=BS(ex, 'lic'), sic=BS(ex, 'sic'))
        c.assume(Gt(len_(e['o'].t), I(0)))
        e['args'] = [ex.new_cell(n, e[n].t) for n in ('o', 'ab', 'lic', 'sic')]
        c.tag = e; return e
    return Task('option_description::match', mach(prog), _fn(prog, ODQ + 'match'), setup,
                const_post(lambda ex, e: (match_sym(e['s'], e['l'], e['o'], e['ab'], e['lic'], e['sic']), []), 'match'), templates=[tpl_match])

# ---- accessors
def key_sym(s, l, src): return ite(empty(l), s, ite(has(l[0], '*'), src, l[0]))
def acc(name, args, spec, pre=None):
    def T_(prog):
        def setup(ex):
            this, s, l, rec = od_obj(ex); c = ex.c
            e = dict(this=this, s=s, l=l, obj0=rec, args=[])
            for n, so in args: e[n] = V(c.fresh(n, so)); e['args'].append(ex.new_cell(n, e[n].t))
            # established by set_names: a short name is '-' and one character; an option has a name
            c.assume(tm.Or(Eq(len_(s.t), I(0)), tm.And(Eq(len_(s.t), I(2)), tm.prefixof(S('-'), s.t))))
            c.assume(tm.Or(Gt(len_(s.t), I(0)), Gt(len_(l.t), I(0))))
            c.tag = {}
            return e
        return Task('option_description::' + name, mach(prog), _fn(prog, ODQ + name), setup, const_post(lambda ex, e: spec(ex, e), name))
    T_.__name__ = 'T_' + name
    return T_
T_key = acc('key', [('src', 'S')], lambda ex, e: (key_sym(e['s'], e['l'], e['src']), []))
def disp_sym(ex, e):
    s, l, st = e['s'], e['l'], e['st']
    hl = Not(empty(l)); hs = Not(empty(s)); is_ = lambda k: eq(st, BIT[k])
    if And(hl, is_('allow_long')): return '--' + l[0], []
    if And(hl, is_('allow_long_disguise')): return '-' + l[0], []
    if And(hs, is_('allow_slash_for_short')): return '/' + slc(s, 1, 1), []
    if And(hs, is_('allow_dash_for_short')): return '-' + slc(s, 1, 1), []
    return ite(hl, l[0], s), []
T_display = acc('canonical_display_name', [('st', 'I')], disp_sym)
def T_long_names(prog):
    t = acc('long_names', [], lambda ex, e: (None, []))(prog)
    def post(ex, out, e):
        c = ex.c; l = e['l']; ob = lambda x, g: c.oblige('post', 'long_names: ' + x, g)
        if out[0] != 'return': ob('does not throw', FALSE); return
        r = ex.load(out[1]) if isinstance(out[1], Place) else out[1]
        p, n = ex.load(r.f['first']), ex.load(r.f['second'])
        ob('the number of long names', Eq(n, len_(l.t)))
        if p is NULL or p is I(0): ob('a null pointer only if there is none', Eq(len_(l.t), I(0)))
        elif isinstance(p, Ptr) and p.place.cell == e['this'].cell and p.place.path[:1] == (('f', 'm_long_names'),):
            ob('points at the first long name', tm.And(Gt(len_(l.t), I(0)), Eq(ex.load(p.place), tm.nth(l.t, I(0)))))
        else: ob('points into the names of the option', FALSE)
        same(ex, e)
    t.post = post; return t
T_long_name = acc('long_name', [], lambda ex, e: (ite(empty(e['l']), lift(''), e['l'][0]), []))
def fmt_sym(ex, e):
    s, l = e['s'], e['l']
    if Not(empty(s)): return (s if empty(l) else s + ' [ --' + l[0] + ' ]'), []
    return '--' + l[0], []
T_format_name = acc('format_name', [], fmt_sym)
T_description = acc('description', [], lambda ex, e: (V(e['obj0'].f['m_description']), []))
T_semantic = acc('semantic', [], lambda ex, e: (V(e['obj0'].f['m_value_semantic']), []))
def c_vsname(ex, fn_, this, args): return app('vs_name', (ex.load(this),), 'S')
def T_format_parameter(prog):
    t = acc('format_parameter', [], lambda ex, e: (ite(eq(fn('vs_max', 'I', V(e['obj0'].f['m_value_semantic'])), 0), lift(''), fn('vs_name', 'S', V(e['obj0'].f['m_value_semantic']))), []))(prog)
    t.m.contracts['program_options::value_semantic::name'] = c_vsname
    return t

# ---- set_names: the pieces getline yields at ','; the last single character piece of several is the short name
# library model: getline(istringstream(text), name, d) yields in turn the elements of split(text, d): the pieces of the text between
# occurrences of d, where the text after the last d counts only if it is not empty
def pieces(x, d): return app('pieces:' + d, (x,), QS)
def _pieces_facts(t): return [Eq(Eq(len_(t), I(0)), Eq(t.args[1], S('')))]
def getline_hook(ex, args):
    st = ex.load(args[0])
    if not (isinstance(st, Rec) and st.cls == 'istream'): return None
    d = ex.load(args[2]) if len(args) > 2 else S('\n')
    if d.op != 'str': raise Unsupported('getline delimiter')
    nm = 'pieces:' + tm.val(d)
    FACTS.setdefault(nm, _pieces_facts)
    k = st.f.get('k', I(0)); q = pieces(st.f['rest'], tm.val(d))
    if ex.c.branch(Ge(k, len_(q))):
        ex.store_to(args[1], S('')); ex.store_to(args[0], st.set('k', k).set('fail', TRUE))
    else:
        ex.store_to(args[1], tm.nth(q, k)); ex.store_to(args[0], st.set('k', add(k, I(1))).set('fail', FALSE))
    return args[0]
FACTS['pieces:,'] = _pieces_facts
def SPL(x): return V(pieces(x.t, ','))
def tpl_split(L):
    d = L.ex.c.tag
    if not d or 'text' not in d: return
    g = SPL(d['text']).t
    for p in slots_of(L, QS, True):
        for k in slots_of(L, 'I', True):
            yield ('%r the first %r pieces' % (p, k), lambda p=p, k=k: Eq(L.cval(p), L.ex.c.slice(g, I(0), L.cval(k))))
            yield ('%r within the pieces' % k, lambda k=k: Le(L.cval(k), len_(g)))
def T_set_names(prog):
    m = mach(prog, hooks={'getline': getline_hook})
    def setup(ex):
        this, s, l, rec = od_obj(ex); c = ex.c
        e = dict(this=this, s=s, l=l, obj0=rec, text=V(c.fresh('names', 'S')))
        c.assume(Gt(len_(e['text'].t), I(0)))
        e['args'] = [ex.new_cell('names', e['text'].t)]
        c.tag = e; return e
    def post(ex, out, e):
        c = ex.c
        if out[0] != 'return': c.oblige('post', 'set_names: returns', FALSE); return
        g = SPL(e['text']); n = ln(g); last = g[n - 1]
        sw = And(n > 1, eq(ln(last), 1))
        rest = take(g, n - 1)
        o = ex.load(e['this'])
        if sw:
            c.oblige('post', 'set_names: short name', Eq(o.f['m_short_name'], ('-' + last).t))
            if And(eq(n, 2), empty(g[0])): c.oblige('post', 'set_names: long names', Eq(len_(o.f['m_long_names']), I(0)))
            else: c.oblige('post', 'set_names: long names', Eq(o.f['m_long_names'], rest.t))
        else:
            c.oblige('post', 'set_names: short name', Eq(o.f['m_short_name'], e['s'].t))
            c.oblige('post', 'set_names: long names', Eq(o.f['m_long_names'], g.t))
        same(ex, dict(obj0=Rec('x', {k: v for k, v in e['obj0'].f.items() if k not in ('m_short_name', 'm_long_names')}), this=e['this']))
    return Task('option_description::set_names', m, _fn(prog, ODQ + 'set_names'), setup, post, templates=[tpl_split],
                variants=[('pieces left', lambda L: sub_i(len_(SPL(L.ex.c.tag['text']).t), next(L.cval(p) for p in slots_of(L, 'I', True))))])

# ---- options_description::find_nothrow, find
QOD = ('Q', OD); POD = ('D', 'P:option_description')
def o_match(d, *ps): return fn('od_match', 'I', d, *ps)
FACTS['od_match'] = lambda t: [Ge(t, I(0)), Le(t, I(2))]
def o_key2(d, n): return fn('od_key', 'S', d, n)
FULLK = Prec('fullk', QS, (), lambda prev, e, k, *ps: ite(eq(o_match(e, *ps), 1), prev + sp.seq('S', o_key2(e, ps[0])), prev))
APXK = Prec('apxk', QS, (), lambda prev, e, k, *ps: ite(eq(o_match(e, *ps), 2), prev + sp.seq('S', o_key2(e, ps[0])), prev))
LASTF = Prec('lastf', OD, lambda *ps: fn('no_od', OD, ps[0]), lambda prev, e, k, *ps: ite(eq(o_match(e, *ps), 1), e, prev))
LASTA = Prec('lasta', OD, lambda *ps: fn('no_od', OD, ps[0]), lambda prev, e, k, *ps: ite(eq(o_match(e, *ps), 2), e, prev))
def c_match(ex, fn_, this, args):
    return o_match(V(od_term(ex, this)), V(ex.to_term(ex.load(args[0]), 'S')), *[V(ex.truth(ex.load(x))) for x in args[1:4]]).t
def tpl_find(L):
    d = L.ex.c.tag
    if not d or 'ps' not in d: return
    ps = d['ps']; os_ = d['os']
    for i in [p for p, v, m in L.sl if m and (isinstance(v, It) or is_int(v))]:
        k = lambda i=i: V(L.cval(i))
        for q in slots_of(L, QS, True):
            yield ('%r full keys %r' % (q, i), lambda q=q, k=k: Eq(L.cval(q), FULLK(os_, k(), *ps).t))
            yield ('%r approximate keys %r' % (q, i), lambda q=q, k=k: Eq(L.cval(q), APXK(os_, k(), *ps).t))
        for b in slots_of(L, 'B', True):
            yield ('%r a full match %r' % (b, i), lambda b=b, k=k: Eq(L.cval(b), Gt(len_(FULLK(os_, k(), *ps).t), I(0))))
        for f in slots_of(L, POD, True):
            nf = lambda k=k: len_(FULLK(os_, k(), *ps).t); na = lambda k=k: len_(APXK(os_, k(), *ps).t)
            yield ('%r null %r' % (f, i), lambda f=f, nf=nf, na=na: Eq(tm.sel(L.cval(f), 'null'), tm.And(Eq(nf(), I(0)), Eq(na(), I(0)))))
            yield ('%r full %r' % (f, i), lambda f=f, nf=nf, k=k: tm.Implies(Gt(nf(), I(0)), Eq(tm.sel(L.cval(f), 'obj'), LASTF(os_, k(), *ps).t)))
            yield ('%r approx %r' % (f, i), lambda f=f, nf=nf, na=na, k=k: tm.Implies(tm.And(Eq(nf(), I(0)), Gt(na(), I(0))), Eq(tm.sel(L.cval(f), 'obj'), LASTA(os_, k(), *ps).t)))
def os_obj(ex):
    c = ex.c
    r = Rec('options_description', {'m_caption': c.fresh('caption', 'S'), 'm_line_length': c.fresh('line_length', 'I'), 'm_min_description_length': c.fresh('min_len', 'I'),
                                    'm_options': c.fresh('options', QOD), 'belong_to_group': c.fresh('belong', ('Q', 'B')), 'groups': c.fresh('groups', ('Q', DESC))})
    return ex.new_cell('this', r), V(r.f['m_options']), r
def find_setup(ex):
    this, os_, rec = os_obj(ex); c = ex.c
    e = dict(this=this, os=os_, obj0=rec, ps=[V(c.fresh('name', 'S'))] + [BS(ex, n) for n in ('approx', 'lic', 'sic')])
    e['args'] = [ex.new_cell('a%d' % i, x.t) for i, x in enumerate(e['ps'])]
    c.tag = e; return e
def find_sym(e):
    os_, ps = e['os'], e['ps']; n = ln(os_)
    f, a = FULLK(os_, n, *ps), APXK(os_, n, *ps)
    if ln(f) > 1: raise SpecThrow('ambiguous_option', alternatives=f)
    if eq(ln(f), 1): return LASTF(os_, n, *ps)
    if ln(a) > 1: raise SpecThrow('ambiguous_option', alternatives=a)
    if eq(ln(a), 1): return LASTA(os_, n, *ps)
    return None
def T_find_nothrow(prog):
    m = mach(prog, {ODQ + 'match': c_match, ODQ + 'key': c_key})
    def post(ex, out, e):
        c = ex.c
        try: r = find_sym(e); ok = 1
        except SpecThrow as x: ok = 0; w = x
        if ok:
            if out[0] != 'return': c.oblige('post', 'find_nothrow: no error (got %s)' % (out[1].cls if out[1] else out[0],), FALSE); return
            v = ex.load(out[1])
            if v is NULL: v = mk('P:option_description', null=TRUE, obj=c.fresh('x', OD))
            if isinstance(v, T) and v.sort == OD: v = mk('P:option_description', null=FALSE, obj=v)
            if r is None: c.oblige('post', 'find_nothrow: no match is a null result', tm.sel(v, 'null'))
            else:
                c.oblige('post', 'find_nothrow: a match is not null', tm.Not(tm.sel(v, 'null')))
                c.oblige('post', 'find_nothrow: the matching option', Eq(tm.sel(v, 'obj'), r.t))
        else:
            if out[0] != 'throw': c.oblige('post', 'find_nothrow: ambiguity is an error', FALSE); return
            c.oblige('post', 'find_nothrow: the ambiguity lists the keys of all candidates', task.exc_equal(ex, out[1], w.cls, w.kw))
        same(ex, e)
    return Task('options_description::find_nothrow', m, _fn(prog, OSQ + 'find_nothrow'), find_setup, post, templates=[tpl_find])
def T_find(prog):
    def cfn(ex, fn_, this, args):
        e = ex.c.tag; a = [ex.load(x) for x in args]
        for x, y in zip(a, e['ps']): ex.c.oblige('call', 'find passes its arguments on', Eq(x if isinstance(x, T) else ex.to_term(x, y.t.sort), y.t))
        ps = (V(tm.app('desc_of', (ex.load(this).f['m_options'],), DESC)),) + tuple(e['ps'])
        if fn('fn_amb', 'B', *ps): throw_spec(ex, SpecThrow('ambiguous_option', alternatives=fn('fn_alts', QS, *ps)))
        return fn('fn_res', POD, *ps).t
    m = mach(prog, {OSQ + 'find_nothrow': cfn})
    def post(ex, out, e):
        c = ex.c; ps = (V(tm.app('desc_of', (e['os'].t,), DESC)),) + tuple(e['ps'])
        amb = fn('fn_amb', 'B', *ps); r = fn('fn_res', POD, *ps)
        if amb:
            c.oblige('post', 'find: ambiguity is passed on', B(out[0] == 'throw' and out[1].cls == 'ambiguous_option'))
        elif r.null:
            c.oblige('post', 'find: no match is unknown_option', B(out[0] == 'throw' and out[1].cls == 'unknown_option'))
        else:
            if out[0] != 'return': c.oblige('post', 'find: returns the match', FALSE); return
            v = ex.load(out[1])
            c.oblige('post', 'find: returns the match', Eq(v if v.sort == OD else tm.sel(v, 'obj'), r.obj.t))
        same(ex, e)
    return Task('options_description::find', m, _fn(prog, OSQ + 'find'), find_setup, post)

import g_options as go
EXT = ['an options_description never holds a null option pointer', 'std::tolower lower-cases A-Z only (C locale)']
class P05(go.C05):
    id = 'C05'; title = 'option-name resolution'
    tasks = [T_match, T_tolower, T_find_nothrow, T_find, T_key]; extra_assumptions = EXT
    proved = ('option_description::match', 'key', 'options_description::find_nothrow and find')
class P06(go.C06):
    id = 'C06'; title = 'names of a declared option'
    tasks = [T_set_names, T_key, T_display, T_long_name, T_long_names, T_format_name, T_description, T_semantic, T_format_parameter]
    extra_assumptions = ['set_names is called with a non-empty text']
    proved = ('set_names', 'key', 'canonical_display_name', 'long_name', 'long_names', 'format_name')
PROPS = {c.id: c for c in (P05, P06)}
