"""Contracts of src/variables_map.cpp: priority of sources (C09), defaults and required options (C10), chained maps (C11).

Maps and sets with std::string keys are abstracted point-wise: one arbitrary key K is fixed, and the abstract state of a map is
what it holds at K.  An access with another key touches an entry nothing is known about.  As K is arbitrary, what is shown at K
is shown for every key.  std::map and std::set themselves are dependencies (their contract: entries of different keys are
independent, operator[] inserts a default-constructed value, clear empties)."""
from model import *
from task import Task, outcome_post
import sp, task, lib
from sp import *
from p_cmdline import slots_of, fnode
from p_options import QOD
AN = ('U', 'AnyV'); VE = ('D', 'vstate'); RQ = ('D', 'vreq'); VV = ('D', 'variable_value')
declare_dt('vstate', [('has', 'B'), ('any', AN), ('dflt', 'B'), ('sem', VS), ('ok', 'B'), ('fin', 'B'), ('hit', 'B')])
declare_dt('vreq', [('has', 'B'), ('str', 'S')])
declare_dt('variable_value', [('v', AN), ('m_defaulted', 'B'), ('m_value_semantic', VS)])
ANY0 = app('any_none', (I(0),), AN); SEM0 = app('vs_none', (I(0),), VS)
def any_empty(a): return app('any_empty', (a,), 'B')
def vs_null(s): return app('vs_null', (s,), 'B')
FACTS['any_none'] = lambda t: [any_empty(t)]
FACTS['vs_none'] = lambda t: [vs_null(t)]
FACTS['od_sem'] = lambda t: [tm.Not(vs_null(t))]              # a declared option always has a value semantic
def blank(): return Rec('variable_value', {'v': ANY0, 'm_defaulted': FALSE, 'm_value_semantic': SEM0})
def vmap(has, val): return Rec('pmap', {'has': has, 'val': val})

# ---- the library model: maps at the key K ---------------------------------------------------------
def key_is(ex, k): return ex.c.branch(Eq(ex.to_term(k, 'S'), ex.c.tag['K'].t))
def mplace(ex, p):
    """the abstract map of this place"""
    cur = ex.load(p)
    if isinstance(cur, Rec) and cur.cls == 'variables_map': return p.sub(('f', 'map'))
    if isinstance(cur, Rec) and cur.cls in ('pmap', 'pset'): return p
    return None
def h_sub(ex, args, n):
    if not isinstance(args[0], Place): return None
    mp = mplace(ex, args[0])
    if mp is None: return None
    m = ex.load(mp)
    if key_is(ex, args[1]):
        if not ex.c.branch(m.f['has']):
            ex.store_to(mp, m.set('has', TRUE).set('val', S('') if m.f['val'].__class__ is not Rec else blank()))
        return (mp.sub(('f', 'val')),)
    ex.c.tag['other'] = ex.c.tag.get('other', 0) + 1
    v = ex.c.fresh('other', 'S') if m.f['val'].__class__ is not Rec else Rec('variable_value', {'v': ex.c.fresh('other', AN), 'm_defaulted': ex.c.fresh('other_d', 'B'), 'm_value_semantic': ex.c.fresh('other_s', VS)})
    return (ex.new_cell('other:%d' % v.id if isinstance(v, T) else 'other:%d' % v.f['v'].id, v),)
def h_method(nm):
    def h(ex, b, cur, args, n, mem):
        if not isinstance(b, Place): return None
        mp = mplace(ex, b)
        if mp is None: return None
        m = ex.load(mp)
        if nm == 'clear':
            if mem is not None and mem.get('_tu') is not None and cur.cls == 'variables_map': return None         # the class's own
            ex.store_to(mp, m.set('has', FALSE)); return (None,)
        if nm == 'count':
            if key_is(ex, args[0]): return (Ite(m.f['has'], I(1), I(0)),)
            return (Ite(ex.c.fresh('has_other', 'B'), I(1), I(0)),)
        if nm == 'find':
            if key_is(ex, args[0]): return (Rec('mit', {'end': tm.Not(m.f['has']), 'at': Ptr(mp)}),)
            v = ex.c.fresh('other', AN)
            return (Rec('mit', {'end': ex.c.fresh('no_other', 'B'), 'at': Ptr(ex.new_cell('other:%d' % v.id, vmap(TRUE, Rec('variable_value', {'v': v, 'm_defaulted': ex.c.fresh('other_d', 'B'), 'm_value_semantic': ex.c.fresh('other_s', VS)}))))}),)
        if nm in ('end', 'cend'): return (Rec('mit', {'end': TRUE, 'at': Ptr(mp)}),)
        if nm in ('begin', 'cbegin') and cur.cls == 'pset': return (Rec('mit', {'end': FALSE, 'at': Ptr(mp), 'begin': TRUE}),)
        if nm == 'insert' and cur.cls == 'pset':
            if len(args) == 1:
                if key_is(ex, args[0]): ex.store_to(mp, m.set('has', TRUE))
                return (Opaque('insert'),)
            a, b2_ = ex.load(args[0]), ex.load(args[1])
            if len(args) == 2 and isinstance(a, Rec) and a.cls == 'mit' and 'begin' in a.f and isinstance(b2_, Rec) and b2_.cls == 'mit' and b2_.f['end'] is TRUE and a.f['at'].place == b2_.f['at'].place:
                ex.store_to(mp, m.set('has', tm.Or(m.f['has'], ex.load(a.f['at'].place).f['has']))); return (None,)
        return None
    return h
def h_it_eq(ex, op, a, b):
    if not (isinstance(a, Rec) and a.cls == 'mit' and isinstance(b, Rec) and b.cls == 'mit'): return None
    if b.f['end'] is TRUE: r = a.f['end']
    elif a.f['end'] is TRUE: r = b.f['end']
    else: return None
    return r if op == '==' else tm.Not(r)
def h_eqop(op):
    def h(ex, args, n):
        a, b = ex.load(args[0]), ex.load(args[1])
        r = h_it_eq(ex, op, a, b)
        return None if r is None else (r,)
    return h
def h_arrow(ex, args, n):
    v = ex.load(args[0])
    if not (isinstance(v, Rec) and v.cls == 'mit'): return None
    ex.safety('an iterator of an entry', tm.Not(v.f['end']))
    p = v.f['at'].place; c = ex.new_cell('item:%s' % (p,), Rec('pair', {'first': ex.c.tag['K'].t, 'second': ex.load(p).f['val']}))
    ex.c.tag.setdefault('alias', {})[c.cell] = p.sub(('f', 'val'))
    return (Ptr(c),)
def anyt(v):
    if isinstance(v, Rec) and v.cls == 'any' and v.f['full'] is FALSE: return ANY0
    return v
def h_to_term(ex, v, sort):
    v = anyt(v)
    if sort == AN and isinstance(v, T): return v
    if sort == VS and v is NULL: return SEM0
def h_value_method(ex, b, cur, nm, args, n):
    if isinstance(cur, T) and cur.sort == AN and nm == 'empty': return (any_empty(cur),)
    if isinstance(cur, T) and cur.sort in (AN, VS) and nm == 'operator=':
        v = ex.load(args[0]); v = SEM0 if v is NULL else v; v = anyt(v)
        if isinstance(v, T) and v.sort == cur.sort: ex.store_to(b, v); return (b,)
    return None
def h_truth(ex, v):
    if isinstance(v, T) and v.sort == VS: return tm.Not(vs_null(v))
def h_default(ex, t):
    b = norm_type(t).replace('boost::', '').replace('std::', '').replace('program_options::', '').replace('const ', '').strip()
    if b == 'any': return ANY0
    if b.startswith('shared_ptr<') and b.rstrip('>').strip().endswith('value_semantic'): return SEM0
    if b.startswith('set<'): return Rec('pset', {'has': FALSE})
    if b.startswith('map<'): return vmap(FALSE, S(''))
def h_construct(ex, t, b, ta, args, node):
    if 'iterator' in b and len(args) == 1:
        v = ex.load(args[0])
        if isinstance(v, It) or isinstance(v, Rec) and v.cls == 'mit': return v
HOOKS = {'construct': h_construct, 'to_term': h_to_term, 'operator[]': h_sub, 'value_method': h_value_method, 'truth': h_truth, 'default_value': h_default, 'operator==': h_eqop('=='), 'operator!=': h_eqop('!='), 'operator->': h_arrow}
for x in ('clear', 'count', 'find', 'end', 'cend', 'begin', 'cbegin', 'insert'): HOOKS['method:' + x] = h_method(x)

# ---- observers
def o_parse_ok(sem, a, toks, u): return fn('sem_parse_ok', 'B', sem, a, toks, u)
def o_parse(sem, a, toks, u): return fn('sem_parse', AN, sem, a, toks, u)
def o_hasdef(sem): return fn('vs_hasdef', 'B', sem)
def o_default(sem): return fn('vs_default', AN, sem)
def o_comp(sem): return fn('vs_composing', 'B', sem)
def o_req(sem): return fn('vs_required', 'B', sem)
def o_disp(d, prefix): return fn('od_display', 'S', d, prefix)
def c_parse(ex, fn_, this, args):
    sem, p = V(ex.load(this)), args[0]
    a, toks, u = V(ex.load(p)), V(ex.to_term(ex.load(args[1]), QS)), V(ex.truth(ex.load(args[2])))
    ex.c.tag['parse'] = (a, toks, u, sem)
    if o_parse_ok(sem, a, toks, u): ex.store_to(p, o_parse(sem, a, toks, u).t); return None
    ex.store_to(p, ex.c.fresh('after_failure', AN)); ex.c.tag['threw'] = 'parse'
    if ex.c.choose(2): raise CppThrow(lib.exc_value('runtime_error', what=ex.c.fresh('what', 'S')))       # an error of the application's own
    throw_spec(ex, SpecThrow('validation_error'))
def c_default(ex, fn_, this, args):
    sem = V(ex.load(this))
    if o_hasdef(sem): ex.store_to(args[0], o_default(sem).t); return TRUE
    return FALSE
def c_find(ex, fn_, this, args):
    d = V(ex.load(this)); a = [ex.load(x) for x in args]; nm = V(ex.to_term(a[0], 'S')); t = ex.c.tag
    t['find'] = nm; t['frame'] = ex.fr
    t['threw'] = 'find'
    try:
        r = o_find(d, nm, *[V(ex.truth(x)) for x in a[1:4]])
        if o_null(r): raise SpecThrow('unknown_option')
    except SpecThrow as e: throw_spec(ex, e)
    t['threw'] = None
    return r.obj.t
VSQ = 'program_options::value_semantic::'
CON = {VSQ + 'parse': c_parse, VSQ + 'apply_default': c_default, 'program_options::options_description::find': c_find,
       VSQ + 'is_composing': lambda ex, f, this, a: o_comp(V(ex.load(this))).t, VSQ + 'is_required': lambda ex, f, this, a: o_req(V(ex.load(this))).t,
       'program_options::options_description::options': lambda ex, f, this, a: app('od_all', (ex.load(this),), QOD),
       'program_options::option_description::canonical_display_name': lambda ex, f, this, a: o_disp(V(od_term(ex, this)), V(ex.load(a[0]))).t}
def mach(prog, contracts=None, hooks=None):
    h = dict(HOOKS); h.update(hooks or {}); c = dict(CON); c.update(contracts or {})
    m = machine(prog, c, h); m.class_sort.update({'any': AN, 'boost::any': AN}); return m

# ---- what is specified: the entry of K after the options / the declarations up to k ----------------------------------
def ve(**k): return R('vstate', **k)
def hit(o, K, fin0): return And(eq(o.string_key, K), Not(empty(K)), Not(o.unregistered), Not(fin0))
def held(p): return ite(And(p.has, Not(p.dflt)), p.any, V(ANY0))         # what the occurrence is added to: nothing, if there is no value or only a default
def step1(p, o, k, K, desc, u, fin0, e0):
    d = fn('fn_res', ('D', 'P:option_description'), desc, K, lift(False), lift(False), lift(False)); sem = fn('od_sem', VS, d.obj)
    a = held(p)
    return ite(hit(o, K, fin0), V(mk('vstate', has=TRUE, any=o_parse(sem, a, o.value, u).t, dflt=FALSE, sem=sem.t, ok=And(p.ok, o_parse_ok(sem, a, o.value, u), Not(fn('fn_amb', 'B', desc, K, lift(False), lift(False), lift(False))), Not(d.null)).t,
                                     fin=Or(p.fin, Not(o_comp(sem))).t, hit=TRUE)), p)
E1 = Prec('vm_stored', VE, lambda K, desc, u, fin0, e0: e0, step1, always=True)
def step2(p, d, k, K, e0):
    sem = fn('od_sem', VS, d)
    return ite(And(eq(fn('od_key', 'S', d, lift('')), K), Not(empty(K)), Not(p.has), o_hasdef(sem)), V(mk('vstate', has=TRUE, any=o_default(sem).t, dflt=TRUE, sem=sem.t, ok=p.ok.t, fin=p.fin.t, hit=p.hit.t)), p)
E2 = Prec('vm_defaults', VE, lambda K, e0: e0, step2, always=True)
def step3(p, d, k, K, prefix, r0):
    dn = o_disp(d, prefix)
    return ite(And(eq(fn('od_key', 'S', d, lift('')), K), Not(empty(K)), o_req(fn('od_sem', VS, d))), V(mk('vreq', has=TRUE, str=ite(ln(dn) > ln(p.str), dn, p.str).t)), p)
RQF = Prec('vm_required', RQ, lambda K, prefix, r0: r0, step3, always=True)
def entry(v, base):
    """the vstate of the entry of an abstract map, its flags as given"""
    x = v.f['val']; h = v.f['has']
    return mk('vstate', has=h, any=Ite(h, x.f['v'], ANY0), dflt=Ite(h, x.f['m_defaulted'], FALSE), sem=Ite(h, x.f['m_value_semantic'], SEM0), ok=TRUE, fin=FALSE, hit=FALSE)
def same_entry(v, e):
    """the abstract map holds at K what the vstate says"""
    x = v.f['val']; h = v.f['has']; s = lambda f: tm.sel(e, f)
    return tm.And(Eq(h, s('has')), tm.Implies(h, tm.And(Eq(x.f['v'], s('any')), Eq(x.f['m_defaulted'], s('dflt')), Eq(x.f['m_value_semantic'], s('sem')))))
def req_of(v): return mk('vreq', has=v.f['has'], str=Ite(v.f['has'], v.f['val'], S('')))
def sym_map(ex, nm='map'):
    c = ex.c
    return vmap(c.fresh(nm + '_has', 'B'), Rec('variable_value', {'v': c.fresh(nm + '_any', AN), 'm_defaulted': c.fresh(nm + '_dflt', 'B'), 'm_value_semantic': c.fresh(nm + '_sem', VS)}))
def sym_vm(ex):
    c = ex.c
    return Rec('variables_map', {'m_next': NULL, 'map': sym_map(ex), 'm_final': Rec('pset', {'has': c.fresh('final', 'B')}), 'm_required': vmap(c.fresh('req', 'B'), c.fresh('req_name', 'S'))})

# ---- store
def tpl_store(L):
    t = L.ex.c.tag
    if 'opts' not in t: return
    for i in slots_of(L, 'I', True):
        for p, v, m in L.sl:
            if isinstance(v, Rec) and v.cls == 'variables_map': pass
        vm = t['vm']
        def cur(): return L.cval(vm)
        yield ('the entry after %r options' % i, lambda i=i: same_entry(L.ex.load(vm).f['map'], E1(t['opts'], V(L.cval(i)), *t['p1']).t))
        yield ('valid so far %r' % i, lambda i=i: sel(E1(t['opts'], V(L.cval(i)), *t['p1']).t, 'ok'))
        for p, v, m in L.sl:
            if m and isinstance(v, T) and v.sort == 'B' and 'new_final' in repr(p):
                yield ('%r: final after %r options' % (p, i), lambda i=i, p=p: Eq(L.cval(p), sel(E1(t['opts'], V(L.cval(i)), *t['p1']).t, 'fin')))
        yield ('the entry after %r declarations' % i, lambda i=i: same_entry(L.ex.load(vm).f['map'], E2(t['all'], V(L.cval(i)), t['K'], t['e1']).t))
        yield ('required after %r declarations' % i, lambda i=i: Eq(req_of(L.ex.load(vm).f['m_required']), RQF(t['all'], V(L.cval(i)), t['K'], t['prefix'], t['r0']).t))
def T_store(prog):
    m = mach(prog)
    nd = [n for n in prog.function('program_options::store') if n.get('mangledName') and 'wparsed' not in n['type']['qualType'] and 'bool' in n['type']['qualType']][0]
    def setup(ex):
        c = ex.c; K = V(c.fresh('K', 'S')); desc = V(c.fresh('desc', DESC)); opts = c.fresh('options', QO); prefix = V(c.fresh('prefix', 'I')); u = V(c.fresh('utf8', 'B'))
        c.assume(Lt(len_(opts), I(2**32 - 1)))
        o = sym_vm(ex); vm = ex.new_cell('xm', o); dp = ex.new_cell('desc', desc.t)
        po = ex.new_cell('options', Rec('basic_parsed_options', {'options': opts, 'description': Ptr(dp), 'm_options_prefix': prefix.t}))
        all_ = V(app('od_all', (desc.t,), QOD)); c.assume(Lt(len_(all_.t), I(2**32 - 1)))
        fin0 = V(o.f['m_final'].f['has']); e0 = V(entry(o.f['map'], None)); opts = V(opts)
        p1 = (K, desc, u, fin0, e0); e1 = E1(opts, ln(opts), *p1); r0 = V(req_of(o.f['m_required']))
        c.tag = dict(K=K, opts=opts, all=all_, p1=p1, e1=e1, prefix=prefix, r0=r0, vm=vm, fin0=fin0, desc=desc, u=u, o=o)
        return dict(this=None, args=[po, vm, u.t], po=po, po0=ex.load(po))
    def post(ex, out, e):
        c = ex.c; t = c.tag; o = ex.load(t['vm']); n = ln(t['opts'])
        ob = lambda l, g: c.oblige('post', 'store: ' + l, g)
        ob('the parse result is unchanged', B(ex.load(e['po']) is e['po0'] or all(ex.load(e['po']).f[k] is e['po0'].f[k] for k in e['po0'].f)))
        ob('the link to the next map is unchanged', B(o.f['m_next'] is NULL))
        if out[0] == 'abort': ob('no assertion fails', FALSE); return
        if out[0] == 'return':
            ob('every occurrence is looked up and parsed without error', sel(t['e1'].t, 'ok'))
            ob('the entry: occurrences in order onto the value held, then the default', same_entry(o.f['map'], E2(t['all'], ln(t['all']), t['K'], t['e1']).t))
            ob('final exactly if final before or set and not composing', Eq(o.f['m_final'].f['has'], tm.Or(t['fin0'].t, sel(t['e1'].t, 'fin'))))
            ob('required names', Eq(req_of(o.f['m_required']), RQF(t['all'], ln(t['all']), t['K'], t['prefix'], t['r0']).t))
            return
        # an error: of the i-th option, which has a name and is registered
        f = t.get('frame')
        if f is None or t.get('threw') is None: ob('throws only an error of looking up or parsing an option', FALSE); return
        i = [p for p in f.env.values() if isinstance(p, Place) and isinstance(ex.c.store.get(p.cell), T) and ex.c.store[p.cell].sort == 'I']
        gs = []
        for p in i:
            k = V(ex.load(p)); x = t['opts'][k]
            ok = [tm.Ge(k.t, I(0)), tm.Lt(k.t, n.t), Eq(t['find'].t, x.string_key.t), Not(empty(x.string_key)).t, Not(x.unregistered).t, tm.Implies(Eq(x.string_key.t, t['K'].t), tm.Not(t['fin0'].t))]
            w = out[1]
            if w.cls == 'runtime_error': ok.append(B(t['threw'] == 'parse'))
            else:
                ok.append(B(w.cls in (('unknown_option', 'ambiguous_option') if t['threw'] == 'find' else ('validation_error',))))
                if w.cls == 'validation_error' or w.cls == 'ambiguous_option': pass
                if w.cls == 'validation_error': ok.append(Eq(w.f['option_name'], x.string_key.t))
                ok.append(Eq(w.f['original_token'], ite(empty(x.original_tokens), lift(''), x.original_tokens[0]).t)); ok.append(Eq(w.f['option_style'], t['prefix'].t))
            st = E1(t['opts'], k, *t['p1'])
            if t['threw'] == 'parse':
                a, toks, u, sem = t['parse']
                ok += [Eq(toks.t, x.value.t), Eq(u.t, t['u'].t), tm.Implies(Eq(x.string_key.t, t['K'].t), Eq(a.t, held(st).t))]
            ok.append(tm.Implies(tm.Not(Eq(x.string_key.t, t['K'].t)), same_entry(o.f['map'], st.t)))       # entries of other options hold what was stored so far
            gs.append(tm.And(*ok))
        ob('an error names the option that failed, its first token and the source', tm.Or(*gs) if gs else FALSE)
        ob('after an error nothing has become final', Eq(o.f['m_final'].f['has'], t['fin0'].t))
        ob('after an error the required names are unchanged', Eq(req_of(o.f['m_required']), t['r0'].t))
    return Task('store', m, nd, setup, post, templates=[tpl_store])

# ---- notify: the required names and the entries as sequences in key order -------------------------------------------
declare_dt('vreqent', [('first', 'S'), ('second', 'S')]); declare_dt('vment', [('first', 'S'), ('second', VV)]); declare_dt('vcall', [('sem', VS), ('any', AN)])
QR, QM, QC = ('Q', ('D', 'vreqent')), ('Q', ('D', 'vment')), ('Q', ('D', 'vcall'))
def find_at(mp, k): return fn('vm_find', 'I', mp, k)          # position of the entry of a key, or the number of entries
def _find_facts(t):
    m, k = t.args[1], t.args[2]
    return [Ge(t, I(0)), Le(t, len_(m)), tm.Implies(Lt(t, len_(m)), Eq(sel(nth(m, t), 'first'), k))]
FACTS['vm_find'] = _find_facts
def missing(r, mp):
    i = find_at(mp, r.first)
    return Or(eq(i, ln(mp)), V(any_empty(mp[i].second.v.t)))
declare_dt('vfirst', [('found', 'B'), ('disp', 'S')])
FIRSTM = Prec('vm_first_missing', ('D', 'vfirst'), V(mk('vfirst', found=FALSE, disp=S(''))), lambda p, r, k, mp: ite(p.found, p, V(mk('vfirst', found=missing(r, mp).t, disp=r.second.t))), always=True)
_f0 = FACTS['vm_first_missing']
def _first_facts(t):          # once found, it stays (lemma 'the first missing name stays the first')
    xs, k, ps = t.args[1], t.args[2], t.args[3:]; out = _f0(t); n = len_(xs)
    ap = lambda i: app('vm_first_missing', (xs, i) + tuple(ps), t.sort)
    st = lambda x, i: tm.Implies(tm.And(sel(x, 'found'), Ge(i, I(0)), Le(i, n)), Eq(ap(n), x))
    if k is n: return out
    out.append(st(t, k)); co, c = tm.lin(k)
    if c == 0 and k.op != 'int':
        k1 = add(k, I(1)); out += [tm.Implies(tm.And(Ge(k, I(0)), Lt(k, n)), Eq(ap(k1), FIRSTM._step(xs, k, ps))), st(ap(k1), k1)]
    return out
FACTS['vm_first_missing'] = _first_facts
CALLS = Prec('vm_notified', QC, (), lambda p, e, k: ite(V(vs_null(e.second.m_value_semantic.t)), p, p + sp.seq(('D', 'vcall'), V(mk('vcall', sem=e.second.m_value_semantic.t, any=e.second.v.t)))), always=True)
def c_notify(ex, fn_, this, args):
    t = ex.c.tag; tr = t['trace']
    ex.store_to(tr, tm.cat2(ex.load(tr), tm.unit(mk('vcall', sem=ex.load(this), any=ex.to_term(ex.load(args[0]), AN))))); t['frame'] = ex.fr
    ex.safety('a notification has a semantic', tm.Not(vs_null(ex.load(this))))
    if ex.c.choose(2): raise CppThrow(lib.exc_value('runtime_error', what=ex.c.fresh('what', 'S')))
def h_seqmap(nm):
    def h(ex, b, cur, args, n, mem):
        if not (isinstance(cur, Rec) and cur.cls == 'variables_map'): return None
        p = b.sub(('f', 'map'))
        if nm == 'begin': return (It(p, I(0)),)
        if nm == 'end': return (It(p, len_(ex.load(p))),)
        return (It(p, find_at(V(ex.load(p)), V(ex.to_term(args[0], 'S'))).t),)
    return h
def tpl_notify(L):
    t = L.ex.c.tag
    for i, v, m in L.sl:
        if not (isinstance(v, It) and m): continue
        k = lambda i=i: V(L.cval(i))
        yield ('none of the first %r required names is missing' % i, lambda k=k: tm.Not(FIRSTM(t['req'], k(), t['map']).found.t))
        yield ('the entries before %r were notified' % i, lambda k=k: Eq(L.ex.load(t['trace']), CALLS(t['map'], k()).t))
    yield ('nothing was notified', lambda: Eq(L.ex.load(t['trace']), tm.empty(QC)))
def T_notify(prog):
    m = mach(prog, {VSQ + 'notify': c_notify}, {('method:' + x): h_seqmap(x) for x in ('begin', 'end', 'find')})
    m.hooks.pop('operator->', None)
    def h_count(ex, b, cur, args, n, mem):
        if not isinstance(cur, Rec) and not isinstance(cur, T): return None
        k = ex.to_term(args[0], 'S'); one = lambda g: (Ite(g, I(1), I(0)),)
        if isinstance(cur, Rec) and cur.cls == 'pset': return one(app('vm_is_final', (k,), 'B'))
        p = b.sub(('f', 'map')) if isinstance(cur, Rec) and cur.cls == 'variables_map' else b
        v = V(ex.load(p)); return one(Lt(find_at(v, V(k)).t, len_(v.t)))
    m.hooks['method:count'] = h_count
    m.hooks.pop('operator->', None)
    m.ghost = ['trace']
    def setup(ex):
        c = ex.c; req, mp = V(c.fresh('required', QR)), V(c.fresh('entries', QM))
        o = Rec('variables_map', {'m_next': NULL, 'map': mp.t, 'm_final': Rec('pset', {'has': c.fresh('final', 'B')}), 'm_required': req.t})
        th = ex.new_cell('this', o); tr = ex.new_cell('trace', tm.empty(QC))
        c.tag = dict(req=req, map=mp, trace=tr); return dict(this=th, args=[], th=th, o=o)
    def post(ex, out, e):
        c = ex.c; t = c.tag; ob = lambda l, g: c.oblige('post', 'notify: ' + l, g)
        st = FIRSTM(t['req'], ln(t['req']), t['map']); tr = ex.load(t['trace']); o = ex.load(e['th'])
        ob('the map is unchanged', tm.And(*[Eq(o.f[k], e['o'].f[k]) for k in ('map', 'm_required')] + [Eq(o.f['m_final'].f['has'], e['o'].f['m_final'].f['has'])]))
        if out[0] == 'abort': ob('no assertion fails', FALSE); return
        if out[0] == 'return':
            ob('returns only if no required option is missing', tm.Not(st.found.t)); ob('every entry is notified once, in key order, with its value', Eq(tr, CALLS(t['map'], ln(t['map'])).t)); return
        w = out[1]
        if w.cls == 'required_option':
            ob('a required-option error only if one is missing', st.found.t); ob('it names the first missing one', Eq(w.f['original_token'], st.disp.t)); ob('and no notifier has run', Eq(tr, tm.empty(QC)))
        else:
            f = t.get('frame')
            ob('any other error is one of a notifier', B(w.cls == 'runtime_error' and f is not None)); ob('after a check that nothing is missing', tm.Not(st.found.t))
            its = [ex.load(p) for p in (f.env.values() if f else []) if isinstance(p, Place) and isinstance(ex.c.store.get(p.cell), It) and ex.c.store[p.cell].place == e['th'].sub(('f', 'map'))]
            ob('after the entries before it', tm.Or(*[tm.And(Lt(i.pos, len_(t['map'].t)), Eq(tr, CALLS(t['map'], V(add(i.pos, I(1)))).t)) for i in its]))
    return Task('variables_map::notify', m, fnode(prog, 'program_options::variables_map::notify'), setup, post, templates=[tpl_notify])
def T_first(prog):
    return task.Lemma('the first missing name stays the first', [('once found, the state does not change', 
        '(declare-fun F (Int) Bool)(declare-fun D (Int) Int)(declare-fun M (Int) Bool)(declare-fun X (Int) Int)(declare-const k Int)(declare-const m Int)'
        '(assert (= (F (+ m 1)) (ite (F m) (F m) (M m))))(assert (= (D (+ m 1)) (ite (F m) (D m) (X m))))(assert (=> (F k) (and (F m) (= (D m) (D k)))))(assert (not (=> (F k) (and (F (+ m 1)) (= (D (+ m 1)) (D k))))))')])
# ---- clear, get, operator[], next, construction, the other overloads
def T_clear(prog):
    m = mach(prog)
    def setup(ex):
        o = sym_vm(ex); th = ex.new_cell('this', o); ex.c.tag = dict(K=V(ex.c.fresh('K', 'S'))); return dict(this=th, args=[], th=th)
    def post(ex, out, e):
        ob = lambda l, g: ex.c.oblige('post', 'clear: ' + l, g)
        if out[0] != 'return': ob('returns', FALSE); return
        o = ex.load(e['th'])
        ob('no entry', tm.Not(o.f['map'].f['has'])); ob('nothing final', tm.Not(o.f['m_final'].f['has'])); ob('nothing required', tm.Not(o.f['m_required'].f['has'])); ob('the link stays', B(o.f['m_next'] is NULL))
    return Task('variables_map::clear', m, fnode(prog, 'program_options::variables_map::clear'), setup, post)
def T_get(prog):
    m = mach(prog)
    def setup(ex):
        c = ex.c; o = sym_vm(ex); th = ex.new_cell('this', o); K = V(c.fresh('K', 'S')); c.tag = dict(K=K); return dict(this=th, args=[ex.new_cell('name', K.t)], th=th, o=o)
    def post(ex, out, e):
        c = ex.c; ob = lambda l, g: c.oblige('post', 'get: ' + l, g)
        if out[0] != 'return': ob('returns', FALSE); return
        v = ex.load(out[1]); mp = e['o'].f['map']; x = mp.f['val']
        ob('the map is unchanged', B(ex.load(e['th']) is e['o'] or repr(ex.load(e['th'])) == repr(e['o'])))
        g = lambda a, b: Eq(a, b) if isinstance(a, T) and a.sort == b.sort else FALSE
        va, vd = anyt(v.f['v']), v.f['m_defaulted']
        ob('the entry if there is one', tm.Implies(mp.f['has'], tm.And(g(va, x.f['v']), g(vd, x.f['m_defaulted']))))
        ob('otherwise an empty value', tm.Implies(tm.Not(mp.f['has']), tm.And(any_empty(va), tm.Not(vd))))
    return Task('variables_map::get', m, fnode(prog, 'program_options::variables_map::get'), setup, post)
def T_index(prog):
    AMV = 'program_options::abstract_variables_map::'
    def c_get(ex, fn_, this, args):
        t = ex.c.tag; ex.c.oblige('call', 'operator[]: looks the name up', Eq(ex.to_term(args[0], 'S'), t['name']))
        return t['own'] if this == t['th'] else t['next_get']
    def c_index(ex, fn_, this, args):
        t = ex.c.tag; ex.c.oblige('call', 'operator[]: asks the next map for the same name', tm.And(Eq(ex.to_term(args[0], 'S'), t['name']), B(this == t['np'])))
        return t['chain']
    m = mach(prog, {AMV + 'get': c_get, AMV + 'operator[]': c_index}); m.class_sort['variable_value'] = VV; m.class_sort['program_options::variable_value'] = VV
    nd = [n for n in prog.function(AMV + 'operator[]')][0]
    def setup(ex):
        c = ex.c; own, ch, ng, nm = c.fresh('own', VV), c.fresh('chain', VV), c.fresh('next_own', VV), c.fresh('name', 'S')
        has = c.choose(3); far = ex.new_cell('far', Rec('abstract_variables_map', {'m_next': NULL}))
        np = ex.new_cell('next', Rec('abstract_variables_map', {'m_next': Ptr(far) if has == 2 else NULL}))
        o = Rec('abstract_variables_map', {'m_next': Ptr(np) if has else NULL}); th = ex.new_cell('this', o)
        c.tag = dict(own=ex.new_cell('own', own), chain=ex.new_cell('chain', ch), next_get=ex.new_cell('next_own', ng), name=nm, th=th, np=np, has=has)
        return dict(this=th, args=[ex.new_cell('name', nm)], th=th, o=o)
    def post(ex, out, e):
        c = ex.c; t = c.tag; ob = lambda l, g: c.oblige('post', 'operator[]: ' + l, g)
        if out[0] != 'return': ob('returns', FALSE); return
        own, ch = ex.load(t['own']), ex.load(t['chain']); em = lambda v: any_empty(sel(v, 'v')); df = lambda v: sel(v, 'm_defaulted')
        want = Ite(em(own), ch, Ite(tm.And(df(own), tm.Not(em(ch)), tm.Not(df(ch))), ch, own)) if t['has'] else own
        ob('the value of the nearest map with an explicit one, then the nearest default, then empty', Eq(ex.to_term(out[1], VV), want))
        ob('the map is unchanged', B(ex.load(e['th']).f['m_next'] is e['o'].f['m_next'] or repr(ex.load(e['th'])) == repr(e['o'])))
    return Task('abstract_variables_map::operator[]', m, nd, setup, post)
def T_chain(prog):
    D = '(declare-datatypes ((V 0)) (((none) (dflt (d Int)) (expl (e Int)))))(define-fun rule ((o V) (n V)) V (ite ((_ is none) o) n (ite (and ((_ is dflt) o) ((_ is expl) n)) n o)))'
    st = '(declare-fun at (Int) V)(declare-fun chain (Int) V)(declare-fun E (Int) V)(declare-fun Q (Int) V)(declare-const k Int)' \
         '(assert (= (chain k) (rule (at k) (chain (+ k 1)))))(assert (= (E k) (ite ((_ is expl) (at k)) (at k) (E (+ k 1)))))(assert (= (Q k) (ite ((_ is dflt) (at k)) (at k) (Q (+ k 1)))))' \
         '(assert (or ((_ is none) (E k)) ((_ is expl) (E k))))(assert (or ((_ is none) (E (+ k 1))) ((_ is expl) (E (+ k 1)))))(assert (or ((_ is none) (Q (+ k 1))) ((_ is dflt) (Q (+ k 1)))))'
    return task.Lemma('chains of any length', [('induction step: nearest explicit value, else nearest default, else empty (E: nearest explicit, Q: nearest default from map k on)',
        D + st + '(assert (= (chain (+ k 1)) (ite ((_ is expl) (E (+ k 1))) (E (+ k 1)) (Q (+ k 1)))))(assert (not (= (chain k) (ite ((_ is expl) (E k)) (E k) (Q k)))))'),
        ('the last map', D + '(declare-const o V)(assert (not (= (rule o none) o)))')])
def T_next(prog):
    m = mach(prog)
    nd = [n for n in prog.function('program_options::abstract_variables_map::next')][0]
    def setup(ex):
        o = Rec('abstract_variables_map', {'m_next': NULL}); th = ex.new_cell('this', o); np = ex.new_cell('next', Rec('abstract_variables_map', {'m_next': NULL})); return dict(this=th, args=[Ptr(np)], th=th, np=np)
    def post(ex, out, e):
        v = ex.load(e['th']).f['m_next']; ex.c.oblige('post', 'next: links the map given', B(out[0] == 'return' and isinstance(v, Ptr) and v.place == e['np']))
    return Task('abstract_variables_map::next', m, nd, setup, post)
def mk_ctor(nargs):
    def T_(prog):
        m = mach(prog); q = 'program_options::variables_map::variables_map'
        nd = [n for n in prog.function(q) if n['kind'] == 'CXXConstructorDecl' and not n.get('isImplicit') and len([p for p in n.get('inner', []) if p.get('kind') == 'ParmVarDecl']) == nargs][0]
        def call(ex, e): ex.inline(nd, e['th'], e['args'], nd); return e['th']
        def setup(ex):
            np = ex.new_cell('next', Rec('abstract_variables_map', {'m_next': NULL})); o = Rec('variables_map', {'map': vmap(FALSE, blank()), 'm_final': Rec('pset', {'has': TRUE}), 'm_required': vmap(TRUE, S('?')), 'm_next': NULL if nargs else Ptr(np)})
            ex.c.tag = dict(K=V(ex.c.fresh('K', 'S'))); return dict(this=None, th=ex.new_cell('this', o), args=[Ptr(np)] if nargs else [], np=np)
        def post(ex, out, e):
            o = ex.load(e['th']); ob = lambda l, g: ex.c.oblige('post', 'variables_map(%s): %s' % ('next' if nargs else '', l), g)
            ob('returns', B(out[0] == 'return')); v = o.f['m_next']; ob('the link', B(v is NULL if not nargs else isinstance(v, Ptr) and v.place == e['np']))
            ob('nothing final, nothing required', tm.And(tm.Not(o.f['m_final'].f['has']), tm.Not(o.f['m_required'].f['has'])))
        t = Task('variables_map::variables_map/%d' % nargs, m, nd, setup, post); t.fn_call = call; return t
    return T_
T_ctor0, T_ctor1 = mk_ctor(0), mk_ctor(1)
def T_wstore(prog):
    def c_store(ex, fn_, this, args): ex.c.tag['calls'].append((args[0], args[1], ex.truth(ex.load(args[2])))); return None
    nd = [n for n in prog.function('program_options::store') if n.get('mangledName') and 'wchar_t' in n['type']['qualType'] + n['mangledName'] or 'wparsed' in n['type']['qualType']][0]
    m = mach(prog); 
    def setup(ex):
        a, b = ex.new_cell('narrow', Rec('basic_parsed_options', {})), ex.new_cell('vm', Rec('variables_map', {}))
        ex.c.tag = dict(calls=[]); w = ex.new_cell('wide', Rec('basic_parsed_options', {'utf8_encoded_options': Rec('basic_parsed_options', {'m_options_prefix': I(0)}), 'm_options_prefix': I(0)})); return dict(this=None, args=[w, b], w=w, b=b)
    def post(ex, out, e):
        cs = ex.c.tag['calls']
        ex.c.oblige('post', 'store(wide): stores the UTF-8 form once, saying so', B(out[0] == 'return' and len(cs) == 1 and cs[0][0] == e['w'].sub(('f', 'utf8_encoded_options')) and cs[0][1] == e['b'] and cs[0][2] is TRUE))
    m.contracts['program_options::store'] = c_store
    return Task('store (wide)', m, nd, setup, post)
def T_fnotify(prog):
    m = mach(prog); m.contracts['program_options::variables_map::notify'] = lambda ex, f, this, a: ex.c.tag['calls'].append(this)
    def setup(ex): b = ex.new_cell('vm', Rec('variables_map', {})); ex.c.tag = dict(calls=[]); return dict(this=None, args=[b], b=b)
    def post(ex, out, e): ex.c.oblige('post', 'notify(vm): notifies the map once', B(out[0] == 'return' and ex.c.tag['calls'] == [e['b']]))
    return Task('notify(variables_map&)', m, [n for n in prog.function('program_options::notify')][0], setup, post)

import g_vm as gm, p_options as po
EXT = ['std::map and std::set: entries of different keys are independent; operator[] inserts a default-constructed value; iteration is in key order; find finds the entry of a key or the end',
       'parse_result::description is set (documented precondition); descriptions hold no null pointer; every declared option has a value semantic', 'a value semantic\'s parse either succeeds with a value that depends on the value held, the tokens and the encoding only, or throws',
       'links between maps form no cycle', 'declarations of one name in several descriptions have the same value type']
class P09(gm.C09):
    id = 'C09'; title = 'Priority between sources'
    tus = ['variables_map', 'options_description']; tasks = [T_store, T_wstore, po.T_find, po.T_find_nothrow, po.T_match]; extra_assumptions = EXT
    proved = ('store: for an arbitrary name, its entry, finality mark and errors after any parse result, any description and any earlier state of the map', 'store (wide)', 'options_description::find, find_nothrow, option_description::match')
class P10(gm.C10):
    id = 'C10'; title = 'Defaults and required options'
    tus = ['variables_map']; tasks = [T_store, T_notify, T_first, T_clear, T_fnotify, T_ctor0, T_ctor1]; extra_assumptions = EXT
    proved = ('store: for an arbitrary name, default and required mark after any description', 'variables_map::notify (required check first, then every entry once in key order)', 'variables_map::clear, constructors, notify(vm)')
class P11(gm.C11):
    id = 'C11'; title = 'Chained maps'
    tus = ['variables_map']; tasks = [T_index, T_chain, T_get, T_next, T_ctor0, T_ctor1]; extra_assumptions = EXT
    proved = ('abstract_variables_map::operator[] against its own contract for the next map (induction over the chain)', 'variables_map::get, abstract_variables_map::next, constructors', 'closed form for chains of any length')
PROPS = {c.id: c for c in (P09, P10, P11)}
