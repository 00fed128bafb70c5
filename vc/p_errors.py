"""Contracts of error messages (C19): placeholder substitution, canonical names, constructors."""
from model import *
from task import Task, outcome_post
import sp, task, lib
from sp import *
from p_cmdline import slots_of, fnode

NSE = 'program_options::error_with_option_name::'
LONG, DASH, SLASH, DISG = BIT['allow_long'], BIT['allow_dash_for_short'], BIT['allow_slash_for_short'], BIT['allow_long_disguise']
STYLES = (0, LONG, DASH, SLASH, DISG)
PREFIX = {0: '', LONG: '--', DASH: '-', SLASH: '/', DISG: '-'}
from p_errors_tables import *

# ---- specifications -------------------------------------------------------------------------------
def rest(s, k): return tm.seg(s, k, sub_i(len_(s), k))
# replace_all(s, from, to): every occurrence of from in s, left to right, replaced by to
def ra(s, frm, to): return V(app('replace_all', (lift(s).t, lift(frm).t, lift(to).t), 'S'))
def _ra_rw(s, f, t):
    if s.op == 'str' and f.op == 'str' and t.op == 'str' and tm.val(f): return S(tm.val(s).replace(tm.val(f), tm.val(t)))
    if s.op == 'str' and f.op == 'str' and tm.val(f):
        ps = tm.val(s).split(tm.val(f)); out = [S(ps[0])]
        for p in ps[1:]: out += [t, S(p)]
        return tm.cat('S', *out)
tm.REWRITE['replace_all'] = _ra_rw
def unfold_at(b, o, t, upto, tl):
    """t, the result for b from o on, with the text before it: its definition at the next occurrence (upto: where that is; None: none)"""
    return Eq(tm.cat2(tm.seg(b, I(0), o), t), b if upto is None else tm.cat2(tm.seg(b, I(0), upto), tl))
# substitute(s, k1.., v1..): each %key% in s, left to right, replaced by its value
def _name(keys): return 'substitute:' + ','.join(keys)
SUBST = set()
def subst(s, d):
    keys = sorted(d); nm = _name(keys)
    if nm not in SUBST:
        def rw(s, *vs):
            if s.op == 'str': return py_subst(tm.val(s), dict(zip(keys, vs)), S, lambda xs: tm.cat('S', *xs))
        tm.REWRITE[nm] = rw; SUBST.add(nm)
    return V(app(nm, (lift(s).t,) + tuple(lift(d[k]).t for k in keys), 'S'))
def strip(s):
    i = V(lib.set_index('first_not_of:', s.t, '-/'))
    if i < 0: return s
    return drop(s, i)
def canon(option, token, style):
    if empty(option): return token
    t, o = strip(token), strip(option)
    if style in (LONG, DISG): return PREFIX[style] + o
    if style and not empty(t): return PREFIX[style] + t[0]
    return o
def names(obj, opaque=False):
    """all values: those given, the canonical name and the prefix"""
    subs = dict(obj['subs']); o = obj['subs']['option'], obj['subs']['original_token'], obj['style']
    subs['canonical_option'] = fn('canonical_name', 'S', o[0], o[1], lift(o[2])) if opaque else canon(*o)
    subs['prefix'] = fn('style_prefix', 'S', lift(o[2])) if opaque else lift(PREFIX[o[2]])
    return subs
def text(obj, template):
    """the message of an error object: defaults for missing values, then the values"""
    subs = names(obj); m = template
    for k in sorted(obj['defs']):
        if k not in subs or bool(empty(subs[k])): m = ra(m, *obj['defs'][k])
    return subst(m, subs)
def distinct(alts): return fn('sorted_unique', QS, alts)
FACTS['sorted_unique'] = lambda t: [Le(len_(t), len_(t.args[1])), Eq(Eq(len_(t), I(0)), Eq(len_(t.args[1]), I(0)))]
AMB = Prec('listed_alternatives', 'S', '', lambda prev, e, k, p: prev + "'" + p + V(e.t) + "', ", always=True)
def amb_text(obj, template, base=None):
    m = (base or text)(obj, template)
    if obj['style'] in (DASH, SLASH): return m
    d = distinct(obj['alts']); n = ln(d); p = lift(PREFIX[obj['style']])
    m = m + ' and matches '
    if n > 1: m = m + AMB(d, n - 1, p) + 'and '
    if And(ln(obj['alts']) > 1, n == 1): m = m + 'different versions of '
    return m + "'" + p + V(tm.nth(d.t, (n - 1).t)) + "'"

# ---- objects ------------------------------------------------------------------------------------------
def pair(a, b): return Rec('pair', {'first': a, 'second': b})
def obj_of(ex, rec):
    """the specification's view of an error object"""
    subs, defs = rec.f['m_substitutions'], rec.f['m_substitution_defaults']
    st = ex.load(rec.f['m_option_style'])
    o = dict(subs={k: V(ex.to_term(ex.load(v), 'S')) for k, v in subs.d.items()}, style=tm.val(st) if st.op == 'int' else None,
             defs={k: tuple(V(ex.to_term(ex.load(ex.load(v).f[x]), 'S')) for x in ('first', 'second')) for k, v in defs.d.items()})
    if 'm_alternatives' in rec.f: o['alts'] = V(ex.to_term(rec.f['m_alternatives'], QS))
    if o['style'] is None:
        for s in STYLES:
            if ex.c.branch(Eq(st, I(s))): o['style'] = s; break
        else: raise CppThrow(lib.exc_value('logic_error', what=ex.c.fresh('what', 'S')))
    return o
def sym_obj(ex, cls, keys=(), defs=None, template=None, style=None):
    c = ex.c
    subs = {k: c.fresh(k, 'S') for k in ('option', 'original_token') + tuple(keys)}
    if defs is None: defs = {k: pair(S(a), S(b)) for k, (a, b) in DEFAULTS.items()}
    if style is None: style = STYLES[c.choose(len(STYLES))]
    for v in subs.values(): c.assume(Lt(len_(v), I(2**62)))
    f = {'m_option_style': I(style), 'm_substitutions': CMap({k: v for k, v in subs.items()}), 'm_substitution_defaults': CMap(defs),
         'm_error_template': c.fresh('template', 'S') if template is None else template, 'm_message': c.fresh('old_message', 'S')}
    if cls == 'ambiguous_option':
        a = c.fresh('alternatives', QS); c.assume(And_(Gt(len_(a), I(0)), Lt(len_(a), I(2**31)))); f['m_alternatives'] = a
    return Rec(cls, f)
And_ = tm.And
def inst(ex, g): ex.c.assume(g)
def h_find(ex, b, cur, args, n, mem):
    if isinstance(cur, CMap) and len(args) == 1:
        k = ex.to_term(ex.load(args[0]), 'S')
        if k.op == 'str': return None
        ks = sorted(cur.d); d = ex.c.tag or {}; hit = len(ks)
        for i, x in enumerate(ks):
            if ex.c.branch(Eq(k, S(x))): hit = i; break
        if 'subst' in d and k.op == 'seg':                # the definition of substitute at this placeholder
            s, p1, l = k.args; p = sub_i(p1, I(1)); q = add(p1, l); vals = d['subst'][1]
            if p.op == 'index' and p.args[0] is s and sorted(vals) == ks:
                o = p.args[2]; A = lambda i: subst(V(rest(s, i)), vals).t
                if hit == len(ks): ex.c.assume(unfold_at(s, o, A(o), p1, A(p1)))
                else: ex.c.assume(unfold_at(s, o, A(o), p, tm.cat2(vals[ks[hit]].t, A(add(q, I(1))))))
        return (Rec('mapit', {'map': Ptr(b), 'ix': I(hit)}),)
    if isinstance(cur, T) and cur.sort == 'S':
        vs = [ex.load(a) for a in args]; vs = [v for v in vs if not isinstance(v, Opaque)]
        t = ex.to_term(vs[0], 'S'); d = ex.c.tag or {}
        if len(vs) == 3: t = ex.c.slice(t, I(0), vs[2])
        o = vs[1] if len(vs) > 1 else I(0)
        r = lib.find_str(ex, cur, t, o)
        if 'ra' in d and t is d['ra'][1].t and ex.c.sure(And_(Ge(o, I(0)), Le(o, len_(cur)))):
            A = lambda i: ra(V(rest(cur, i)), *d['ra'][1:]).t
            ex.c.assume(unfold_at(cur, o, A(o), None, None) if r is lib.NPOS else unfold_at(cur, o, A(o), r, tm.cat2(d['ra'][2].t, A(add(r, len_(t))))))
        if 'subst' in d and t.op == 'str' and tm.val(t) == '%' and r is lib.NPOS:
            s0 = o; p = sub_i(o, I(1))
            if p.op == 'index' and p.args[0] is cur and p.args[1] is t: s0 = p.args[2]        # no closing one either
            if ex.c.sure(And_(Ge(s0, I(0)), Le(s0, len_(cur)))): ex.c.assume(unfold_at(cur, s0, subst(V(rest(cur, s0)), d['subst'][1]).t, None, None))
        return (r,)
    return None
def construct(ex, t, b, ta, args, node):
    """std::set and std::vector from a range of strings"""
    vs = [ex.load(a) for a in args]
    if b in ('_Rb_tree_const_iterator', '_Rb_tree_iterator') and len(vs) == 1: return vs[0]
    if b in ('set', 'vector') and len(vs) >= 2 and isinstance(vs[0], It):
        s = ex.load(vs[0].place); q = s.f['elems'] if isinstance(s, Rec) else ex.to_term(s, QS)
        if vs[0].pos is not I(0) and vs[0].pos.op == 'int' and tm.val(vs[0].pos) != 0: raise Unsupported('part of a range')
        if vs[1].pos is not len_(q): raise Unsupported('part of a range')
        return Rec('set', {'elems': app('sorted_unique', (q,), QS)}) if b == 'set' else q
def value_method(ex, b, cur, nm, args, n):
    if isinstance(cur, Rec) and cur.cls == 'set' and 'elems' in cur.f:
        if nm in ('begin', 'cbegin'): return (It(b, I(0)),)
        if nm in ('end', 'cend'): return (It(b, len_(cur.f['elems'])),)
        if nm == 'size': return (len_(cur.f['elems']),)
    return None
def mach(prog, contracts=None, hooks=None):
    h = {'method:find': h_find, 'construct': construct, 'value_method': value_method}; h.update(hooks or {})
    m = Machine(prog); m.contracts.update(contracts or {}); m.hooks.update(h)
    m.class_sort.update({'std::wstring': 'S', 'wstring': 'S', 'basic_string<wchar_t>': 'S'})
    return m

# ---- contracts (callee side) -------------------------------------------------------------------------
def c_replace(ex, fn_, this, args):
    o = ex.load(this); a = [V(ex.to_term(ex.load(x), 'S')) for x in args]
    ex.safety('replaced text is not empty', Gt(len_(a[0].t), I(0)))
    ex.store_to(this, o.set('m_message', ra(V(ex.to_term(o.f['m_message'], 'S')), *a).t)); return None
def c_canon(ex, fn_, this, args):
    o = obj_of(ex, ex.load(this)); return canon(o['subs']['option'], o['subs']['original_token'], o['style']).t
def c_prefix(ex, fn_, this, args): return S(PREFIX[obj_of(ex, ex.load(this))['style']])
def c_strip(ex, fn_, this, args): return strip(V(ex.to_term(ex.load(args[0]), 'S'))).t
def c_subst(f):
    def c(ex, fn_, this, args):
        o = ex.load(this); t = V(ex.to_term(ex.load(args[0]), 'S'))
        ex.store_to(this, o.set('m_message', f(obj_of(ex, o), t).t)); return None
    return c
SMALL = {NSE + 'get_canonical_option_prefix': c_prefix, NSE + 'get_canonical_option_name': c_canon, NSE + 'replace_token': c_replace, 'program_options::strip_prefixes': c_strip}

# ---- tasks -----------------------------------------------------------------------------------------------
def tpl_ra(L):
    d = L.ex.c.tag or {}
    for m in slots_of(L, 'S', True):
        for p in slots_of(L, 'I', True):
            M = lambda m=m: L.cval(m)
            P = lambda p=p: L.cval(p)
            yield ('%r in %r' % (p, m), lambda M=M, P=P: tm.And(Ge(P(), I(0)), Le(P(), len_(M()))))
            if 'ra' in d:
                yield ('%r replaced up to %r' % (m, p), lambda M=M, P=P: Eq(tm.cat2(tm.seg(M(), I(0), P()), ra(V(rest(M(), P())), *d['ra'][1:]).t), ra(*d['ra']).t))
            if 'subst' in d:
                yield ('%r substituted up to %r' % (m, p), lambda M=M, P=P: Eq(tm.cat2(tm.seg(M(), I(0), P()), subst(V(rest(M(), P())), d['subst'][1]).t), subst(V(d['subst'][0]()), d['subst'][1]).t))
def var_len(L):
    for m in slots_of(L, 'S', True):
        for p in slots_of(L, 'I', True): return sub_i(len_(L.cval(m)), L.cval(p))
def T_replace(prog):
    m = mach(prog); nd = fnode(prog, NSE + 'replace_token')
    def setup(ex):
        o = sym_obj(ex, 'error_with_option_name'); th = ex.new_cell('this', o); c = ex.c
        f, t = c.fresh('from', 'S'), c.fresh('to', 'S'); c.assume(Gt(len_(f), I(0)))
        for x in (f, t, o.f['m_message']): c.assume(Lt(len_(x), I(2**62)))
        c.tag = dict(ra=(V(o.f['m_message']), V(f), V(t)))
        return dict(this=th, args=[ex.new_cell('from', f), ex.new_cell('to', t)], want=c.tag['ra'])
    return Task('replace_token', m, nd, setup, outcome_post(lambda ex, e: (None, [('message', e['this'].sub(('f', 'm_message')), ra(*e['want']))]), 'replace_token'),
                templates=[tpl_ra], variants=[('text after the position', var_len)])
def T_prefix(prog):
    m = mach(prog); nd = fnode(prog, NSE + 'get_canonical_option_prefix')
    def setup(ex):
        o = sym_obj(ex, 'error_with_option_name', style=0); st = ex.c.fresh('style', 'I')
        return dict(this=ex.new_cell('this', o.set('m_option_style', st)), args=[], st=st)
    def spec(ex, e):
        for s in STYLES:
            if V(Eq(e['st'], I(s))): return lift(PREFIX[s]), []
        raise SpecThrow('logic_error')
    return Task('get_canonical_option_prefix', m, nd, setup, outcome_post(spec, 'get_canonical_option_prefix'))
def T_strip(prog):
    m = mach(prog); nd = fnode(prog, 'program_options::strip_prefixes')
    def setup(ex):
        s = ex.c.fresh('text', 'S'); ex.c.assume(Lt(len_(s), I(2**62))); return dict(this=None, args=[ex.new_cell('text', s)], s=V(s))
    return Task('strip_prefixes', m, nd, setup, outcome_post(lambda ex, e: (strip(e['s']), []), 'strip_prefixes'))
def T_canon(nm):
    def T_(prog):
        m = mach(prog, {k: v for k, v in SMALL.items() if not k.endswith('_name') or nm != 'get_canonical_option_name'}); nd = fnode(prog, NSE + nm)
        def setup(ex):
            o = sym_obj(ex, 'error_with_option_name', ('value',)); return dict(this=ex.new_cell('this', o), args=[], o=obj_of(ex, o))
        return Task(nm, m, nd, setup, outcome_post(lambda ex, e: (canon(e['o']['subs']['option'], e['o']['subs']['original_token'], e['o']['style']), []), nm))
    return T_
T_cname, T_gname = T_canon('get_canonical_option_name'), T_canon('get_option_name')
KEYSETS = ((), ('value',), ('invalid_line',), ('invalid_line', 'value'), ('canonical_option', 'custom', 'prefix'))
def mk_subst(keys, symdefs=False):
    def T_(prog):
        def nm(k): return lambda ex, fn_, this, args: names(obj_of(ex, ex.load(this)), True)[k].t
        m = mach(prog, {NSE + 'replace_token': c_replace, NSE + 'get_canonical_option_name': nm('canonical_option'), NSE + 'get_canonical_option_prefix': nm('prefix')}); nd = next(n for n in prog.function(NSE + 'substitute_placeholders'))
        def setup(ex):
            c = ex.c; defs = None
            if symdefs:
                defs = {}
                for k in sorted(DEFAULTS):
                    f, t = c.fresh('from_' + k, 'S'), c.fresh('to_' + k, 'S'); c.assume(Gt(len_(f), I(0))); c.assume(Lt(len_(f), I(2**62))); defs[k] = pair(f, t)
            o = sym_obj(ex, 'error_with_option_name', keys, defs, style=0); th = ex.new_cell('this', o)
            t = c.fresh('template_arg', 'S'); c.assume(Lt(len_(t), I(2**62))); so = obj_of(ex, o)
            subs = names(so, True)
            pre = V(t)
            for k in sorted(so['defs']):
                if k not in subs or bool(empty(subs[k])): pre = ra(pre, *so['defs'][k])
            c.assume(Lt(len_(pre.t), I(2**62)))
            c.tag = dict(subst=(lambda: pre.t, subs))
            return dict(this=th, args=[ex.new_cell('template', t)], want=subst(pre, subs), o=o)
        frame = ('m_error_template',)
        def spec(ex, e): return None, [('message', e['this'].sub(('f', 'm_message')), e['want'])] + [(f + ' unchanged', e['this'].sub(('f', f)), V(e['o'].f[f])) for f in frame]
        return Task('substitute_placeholders {%s}%s' % (', '.join(keys), ' any defaults' if symdefs else ''), m, nd, setup, outcome_post(spec, 'substitute_placeholders'), templates=[tpl_ra], variants=[('text after the position', var_len)])
    return T_
T_subst = [mk_subst(k) for k in KEYSETS] + [mk_subst(('value',), True)]
for i, t in enumerate(T_subst): globals()['T_subst%d' % i] = t
def T_amb(prog):
    def base(ex, fn_, this, args):
        o = ex.load(this); ex.store_to(this, o.set('m_message', app('base_text', (ex.to_term(ex.load(args[0]), 'S'),), 'S'))); return None
    m = mach(prog, dict(SMALL, **{NSE + 'substitute_placeholders': base})); nd = fnode(prog, 'program_options::ambiguous_option::substitute_placeholders')
    def setup(ex):
        o = sym_obj(ex, 'ambiguous_option'); t = ex.c.fresh('template_arg', 'S'); so = obj_of(ex, o)
        ex.c.tag = dict(amb=(so, t))
        return dict(this=ex.new_cell('this', o), args=[ex.new_cell('template', t)], o=so, t=V(t))
    def tpl(L):
        d = L.ex.c.tag or {}
        if 'amb' not in d: return
        so, t = d['amb']
        for m_ in slots_of(L, 'S', True):
            for i in slots_of(L, 'I', True):
                yield ('%r before the last' % i, lambda i=i: Lt(L.cval(i), len_(distinct(so['alts']).t)))
                yield ('%r lists the first %r' % (m_, i), lambda m_=m_, i=i: Eq(L.cval(m_), (V(L.eload(m_)) + AMB(distinct(so['alts']), V(L.cval(i)), lift(PREFIX[so['style']]))).t))
    return Task('ambiguous_option::substitute_placeholders', m, nd, setup, outcome_post(lambda ex, e: (None, [('message', e['this'].sub(('f', 'm_message')), amb_text(e['o'], e['t'], lambda o, t: fn('base_text', 'S', t)))]), 'ambiguous_option::substitute_placeholders'), templates=[tpl])

# ---- what(), mutators and constructors
def T_what(cls):
    def T_(prog):
        m = mach(prog, dict(SMALL, **{NSE + 'substitute_placeholders': c_subst(text), 'program_options::ambiguous_option::substitute_placeholders': c_subst(amb_text)})); nd = fnode(prog, NSE + 'what')
        def setup(ex):
            o = sym_obj(ex, cls, ('value',)); return dict(this=ex.new_cell('this', o), args=[], o=obj_of(ex, o), t=V(o.f['m_error_template']))
        return Task('what() of %s' % cls, m, nd, setup, outcome_post(lambda ex, e: ((amb_text if cls == 'ambiguous_option' else text)(e['o'], e['t']), []), 'what() of ' + cls))
    return T_
T_what1, T_what2 = T_what('error_with_option_name'), T_what('ambiguous_option')
def state_post(want, name):
    def post(ex, out, env):
        c = ex.c; w = want(ex, env)
        if out[0] != 'return': c.oblige('post', name + ': does not throw', FALSE); return
        o = ex.load(env['this'])
        ob = lambda lab, a, b, so: c.oblige('post', name + ': ' + lab, Eq(ex.to_term(ex.load(a), so), b.t if isinstance(b, V) else sp.to_T(b, so)))
        if 'style' in w: ob('style', o.f['m_option_style'], w['style'], 'I')
        if 'template' in w: ob('template', o.f['m_error_template'], w['template'], 'S')
        if 'kind' in w: ob('kind', o.f['m_kind'], w['kind'], 'I')
        if 'alts' in w: ob('alternatives', o.f['m_alternatives'], w['alts'], QS)
        for fld, key in (('m_substitutions', 'subs'), ('m_substitution_defaults', 'defs')):
            d = o.f[fld].d
            c.oblige('post', '%s: keys of %s' % (name, fld), B(sorted(d) == sorted(w[key])))
            for k in sorted(set(d) & set(w[key])):
                if key == 'subs': ob('value of ' + k, d[k], w[key][k], 'S')
                else:
                    p = ex.load(d[k])
                    for x, y in zip(('first', 'second'), w[key][k]): ob('%s of default %s' % (x, k), p.f[x], y, 'S')
    return post
def view(ex, o): return dict(subs={k: V(ex.to_term(ex.load(v), 'S')) for k, v in o.f['m_substitutions'].d.items()}, style=V(o.f['m_option_style']), template=V(o.f['m_error_template']),
                             defs={k: tuple(V(ex.to_term(ex.load(ex.load(v).f[x]), 'S')) for x in ('first', 'second')) for k, v in o.f['m_substitution_defaults'].d.items()})
def mk_mut(nm, sorts, effect, cls='error_with_option_name', label='', const={}):
    def T_(prog):
        m = mach(prog); q = 'program_options::%s::%s' % (cls, nm); nd = fnode(prog, q)
        def setup(ex):
            o = sym_obj(ex, 'error_with_option_name'); args = [S(const[i]) if i in const else ex.c.fresh('arg%d' % i, so) for i, so in enumerate(sorts)]
            w = view(ex, o); effect(w, [V(a) for a in args])
            return dict(this=ex.new_cell('this', o.set('m_option_style', ex.c.fresh('style', 'I'))) if False else ex.new_cell('this', o), args=[ex.new_cell('arg%d' % i, a) for i, a in enumerate(args)], w=w)
        return Task('%s::%s%s' % (cls, nm, label), m, nd, setup, state_post(lambda ex, e: e['w'], nm))
    return T_
def e_sub(k): return lambda w, a: w['subs'].__setitem__(k, a[-1])
def e_ctx(w, a): w['subs']['option'], w['subs']['original_token'], w['style'] = a
MUT = [mk_mut('set_option_name', ['S'], e_sub('option')), mk_mut('set_original_token', ['S'], e_sub('original_token')), mk_mut('set_prefix', ['I'], lambda w, a: w.__setitem__('style', a[0])),
       mk_mut('add_context', ['S', 'S', 'I'], e_ctx), mk_mut('set_option_name', ['S'], lambda w, a: None, 'error_with_no_option_name')]
for k in ('option', 'value', 'custom'):
    MUT.append(mk_mut('set_substitute', ['S', 'S'], e_sub(k), label=' ' + k, const={0: k}))
for k in ('value', 'custom'):
    MUT.append(mk_mut('set_substitute_default', ['S', 'S', 'S'], lambda w, a, k=k: w['defs'].__setitem__(k, (a[1], a[2])), label=' ' + k, const={0: k}))
def err_state(template, option='', token='', style=0, subs={}, **kw):
    d = dict(option=option, original_token=token); d.update(subs)
    return dict(template=template, subs=d, style=style, defs=DEFAULTS, **kw)
def pick_kind(ex, a, tbl, what):
    for k in tbl:
        if ex.c.branch(Eq(a.t, I(k))): return tbl[k]
    return None
def ctor(cls, sorts, want, pick=None, n=None, pre=None):
    def T_(prog):
        m = mach(prog, {'program_options::to_local_8_bit': None} if False else {}, HK)
        q = 'program_options::%s::%s' % (cls, cls)
        c_ = [x for x in prog.function(q) if not x.get('isImplicit') and [p['type']['qualType'] for p in x.get('inner', []) if p.get('kind') == 'ParmVarDecl'][:1] != ['const boost::program_options::%s &' % cls]]
        c_ = [x for x in c_ if pick is None or pick(x['type']['qualType'])]
        nd = c_[0]
        def setup(ex):
            args = [ex.c.fresh('arg%d' % i, so) for i, so in enumerate(sorts)]; vs = [V(a) for a in args]
            if pre: ex.c.assume(pre(vs))
            return dict(this=ex.new_cell('this', ex.blank('boost::program_options::' + cls)), args=[ex.new_cell('arg%d' % i, a) for i, a in enumerate(args)], vs=vs)
        return Task('%s(%s)' % (cls, ', '.join(map(str, sorts)).replace("'", '')), m, nd, setup, state_post(lambda ex, e: want(ex, *e['vs']), cls))
    return T_
def conv_hook(ex, args, n): return app('to_local_8_bit', (ex.to_term(ex.load(args[0]), 'S'),), 'S')
HK = {'free:to_local_8_bit': conv_hook}
def kinded(tbl):
    def w(ex, k, o=V(S('')), t=V(S('')), s=V(I(0))): return err_state(pick_kind(ex, k, tbl, None), o, t, s, kind=k)
    return w
def known(tbl): return lambda vs: tm.Or(*[Eq(vs[0].t, I(k)) for k in tbl])
CTORS = [ctor('error_with_option_name', ['S', 'S', 'S', 'I'], lambda ex, a, b, c, d: err_state(a, b, c, d)),
         ctor('error_with_no_option_name', ['S', 'S'], lambda ex, a, b: err_state(a, '', b)),
         ctor('unknown_option', ['S'], lambda ex, a: err_state("unrecognised option '%canonical_option%'", '', a)),
         ctor('ambiguous_option', [QS], lambda ex, a: err_state("option '%canonical_option%' is ambiguous", alts=a)),
         ctor('required_option', ['S'], lambda ex, a: err_state("the option '%canonical_option%' is required but missing", '', a)),
         ctor('multiple_values', [], lambda ex: err_state("option '%canonical_option%' only takes a single argument")),
         ctor('multiple_occurrences', [], lambda ex: err_state("option '%canonical_option%' cannot be specified more than once")),
         ctor('invalid_command_line_syntax', ['I', 'S', 'S', 'I'], kinded(SYNTAX), pre=known(SYNTAX)),
         ctor('invalid_config_file_syntax', ['S', 'I'], lambda ex, l, k: err_state(pick_kind(ex, k, SYNTAX, None), subs=dict(invalid_line=l), kind=k), pre=lambda vs: tm.Or(*[Eq(vs[1].t, I(k)) for k in SYNTAX])),
         ctor('validation_error', ['I', 'S', 'S', 'I'], kinded(VALID), pre=known(VALID)),
         ctor('invalid_option_value', ['S'], lambda ex, v: err_state(VALID[33], subs=dict(value=v), kind=33), pick=lambda t: 'wstring' not in t and 'wchar_t' not in t),
         ctor('invalid_option_value', ['S'], lambda ex, v: err_state(VALID[33], subs=dict(value=fn('to_local_8_bit', 'S', v)), kind=33), pick=lambda t: 'wstring' in t or 'wchar_t' in t),
         ctor('invalid_bool_value', ['S'], lambda ex, v: err_state(VALID[32], subs=dict(value=v), kind=32))]
for i, t in enumerate(MUT): globals()['T_mut%d' % i] = t
for i, t in enumerate(CTORS): globals()['T_ctor%d' % i] = t

import g_errors as ge
class P19(ge.C19):
    tus = ['value_semantic', 'cmdline', 'inst']
    tasks = [T_replace, T_prefix, T_strip, T_cname, T_gname] + T_subst + [T_amb, T_what1, T_what2] + MUT + CTORS
    extra_assumptions = ['std::map keeps its keys in order, std::set the distinct elements in order',
                         'maps of an error object have the keys the library uses (option, original_token, value, invalid_line) or one of the further key sets tried',
                         'the style of an error is one of the five the library passes; a text to be replaced by default is not empty; texts are shorter than 2^62 characters',
                         'copying an error (throw, boost::throw_exception) copies its fields', 'an ambiguity names at least one alternative', 'no key contains a percent sign']
    proved = ('error_with_option_name: constructor, replace_token, get_canonical_option_prefix, get_canonical_option_name, get_option_name, substitute_placeholders, what, set_substitute, set_substitute_default, set_option_name, set_original_token, set_prefix, add_context',
              'strip_prefixes', 'ambiguous_option::substitute_placeholders', 'constructors of all error classes with an option name', 'invalid_syntax::get_template, validation_error::get_template (inlined)')
PROPS = {c.id: c for c in (P19,)}
