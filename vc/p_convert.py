"""Contracts of character conversion (C16): src/convert.cpp, to_internal, wide parsed options."""
from model import *
from task import Task, outcome_post
import sp, task, lib, re
from sp import *
from p_cmdline import slots_of
MBS = 'I'

# ---- the codecvt contract. For a conversion direction d ('in', 'out') and a source text s:
#   cvt_ok(s)        s is a sequence of complete valid characters
#   cvt_out(s, p)    what the facet produces for s[0, p), p a position reached by the facet
#   cvt_state(s, p)  the conversion state at p
def a_ok(d, s): return app('cvt_ok_' + d, (s,), 'B')
def a_out(d, s, p): return app('cvt_out_' + d, (s, p), 'S')
def a_state(d, s, p): return app('cvt_state_' + d, (s, p), 'I')
for d in ('in', 'out'):
    FACTS['cvt_out_' + d] = lambda t: [tm.Implies(Eq(t.args[2], I(0)), Eq(t, S('')))]
    FACTS['cvt_state_' + d] = lambda t: [tm.Implies(Eq(t.args[2], I(0)), Eq(t, app('mbs_initial', (), 'I')))]
    FACTS['cvt_ok_' + d] = lambda t: [tm.Implies(Eq(t.args[1], S('')), t)]
OK, PARTIAL, ERROR = 0, 1, 2            # std::codecvt_base::result
def facet_call(d):
    def f(ex, args):
        c = ex.c; st, frm, fend, fnext, to, tend, tnext = args
        decay = lambda x: It(x, I(0)) if isinstance(x, Place) and isinstance(ex.load(x), T) and ex.load(x).sort == 'S' else ex.load(x)      # an array
        frm, fend, to, tend = [decay(x) for x in (frm, fend, to, tend)]
        if not all(isinstance(x, It) for x in (frm, fend, to, tend)): raise Unsupported('arguments of a facet %r' % ((frm, fend, to, tend),))
        s = ex.load(frm.place); buf = ex.load(to.place); p, n, b, e = frm.pos, len_(s), to.pos, tend.pos
        c.oblige('requires', 'codecvt: the source range is the rest of the text', tm.And(B(fend.place == frm.place), Eq(fend.pos, n), Ge(p, I(0)), Lt(p, n)))
        c.oblige('requires', 'codecvt: the target range lies in the buffer', tm.And(B(tend.place == to.place), Ge(b, I(0)), Lt(b, e), Le(e, len_(buf))))
        c.oblige('requires', 'codecvt: the state of this position', Eq(ex.load(st), a_state(d, s, p)))
        p2, m, nb = c.fresh('facet_read', 'I'), c.fresh('facet_written', 'I'), c.fresh('facet_buffer', 'S')
        c.assume(tm.And(Ge(p2, p), Le(p2, n), Ge(m, I(0)), Le(m, sub_i(e, b)), Eq(len_(nb), len_(buf))))
        k = c.choose(3)
        c.assume(Eq(a_out(d, s, p2), tm.cat2(a_out(d, s, p), tm.sub(nb, b, m))))
        c.assume(tm.Implies(Gt(m, I(0)), Gt(p2, p)))                                                   # output comes from input
        c.assume(tm.Implies(tm.And(Ge(sub_i(e, b), I(6)), Eq(m, I(0))), tm.Not(a_ok(d, s))))           # progress, given room for one character
        if k == ERROR: c.assume(tm.Not(a_ok(d, s)))
        if k == OK: c.assume(tm.Or(Eq(p2, n), Eq(m, sub_i(e, b)), Eq(m, I(0))))
        ini = mbsinit(a_state(d, s, p2))
        if k != ERROR: c.assume(tm.Implies(tm.And(Eq(p2, n), Gt(m, I(0))), Eq(a_ok(d, s), ini) if d == 'in' else a_ok(d, s)))
        ex.store_to(to.place, nb); ex.store_to(st, a_state(d, s, p2))
        ex.store_to(fnext, It(frm.place, p2)); ex.store_to(tnext, It(to.place, tm.add(b, m)))
        return I(k)
    return f
def mbsinit(t): return app('mbs_is_initial', (t,), 'B')
FACTS['mbs_is_initial'] = lambda t: [tm.Implies(Eq(t.args[1], app('mbs_initial', (), 'I')), t)]
def h_bind(ex, args, n):
    f = ex.load(args[0]); nm = f.d.get('name') if isinstance(f, Fn) else None
    node = f.d.get('node') if isinstance(f, Fn) else None
    nm = nm or (node or {}).get('name')
    rest = [ex.load(a) for a in args[1:]]
    def plc(bs):
        k = []
        for b in bs:
            if not (isinstance(b, Opaque) and re.match(r'(global )?_\d$', b.what)): raise Unsupported('bind of %r' % (b,))
            k.append(int(b.what[-1]) - 1)
        return k
    if nm in ('in', 'out'):
        if not isinstance(rest[0], Ptr): raise Unsupported('bind')
        g = facet_call(nm); ks = plc(rest[1:])
        if len(ks) != 7: raise Unsupported('bind')
        return Fn('abstract', call=lambda ex, a: g(ex, [a[i] for i in ks]), name=nm)
    if nm in ('from_utf8', 'to_utf8') and len(rest) == 1:
        ks = plc(rest)
        return Fn('abstract', call=lambda ex, a: u8(nm)(ex, [a[i] for i in ks]), name=nm)
    return lib_bind(ex, args, n)
def lib_bind(ex, args, n): raise Unsupported('bind')
def construct(ex, t, b, ta, args, node):
    if 'mbstate' in t and not args: return app('mbs_initial', (), 'I')
    if b == 'arg' and len(args) == 1: return ex.load(args[0])
    if b == 'logic_error': return lib.exc_value('logic_error', what=ex.to_term(ex.load(args[0]), 'S'))
def default_value(ex, t):
    m = re.match(r'^(wchar_t|char)\s?\[(\d+)\]$', t)
    if m:
        b = ex.c.fresh('buffer', 'S'); ex.c.assume(Eq(len_(b), I(int(m.group(2))))); return b
    if 'mbstate' in t: return app('mbs_initial', (), 'I')
def member_as_free(qn):
    def f(ex, args, n):
        """a function whose definition is in another dump of the same file: inlined, the instantiation by result type"""
        t = norm_type(ip.type_of(n)); want = 'wchar_t' in t or 'wstring' in t
        fs = [x for x in ex.m.prog.function(qn) if x.get('mangledName') and (('basic_string<wchar_t>' in x['type']['qualType'].split('(')[0]) == want)]
        if len(fs) != 1: raise Unsupported('definitions of %s' % qn)
        return ex.inline(fs[0], None, args, n)
    return f
HOOKS = {'free:bind': h_bind, 'construct': construct, 'default_value': default_value, 'free:convert': member_as_free('convert'),
         'free:mbsinit': lambda ex, args, n: mbsinit(ex.load(ex.load(args[0]).place)), 'array_decay': True,
         'method:data': lambda ex, b, cur, args, n, mem: (It(b, I(0)),) if isinstance(b, Place) else None}
def tpl_conv(L):
    d = L.ex.c.tag
    if not d or 'cv' not in d: return
    dr, s, place = d['cv']
    for i, v, m in L.sl:
        if not (isinstance(v, It) and m and v.place == place): continue
        for r in slots_of(L, 'S', True): yield ('%r is what the facet produces up to %r' % (r, i), lambda r=r, i=i: Eq(L.cval(r), a_out(dr, s, L.cval(i))))
        for r in slots_of(L, 'I', True): yield ('%r is the state at %r' % (r, i), lambda r=r, i=i: Eq(L.cval(r), a_state(dr, s, L.cval(i))))
        n = len_(s)
        yield ('the text is valid when all is read (%r)' % i, lambda i=i: tm.Implies(Eq(L.cval(i), n), Eq(a_ok(dr, s), mbsinit(a_state(dr, s, n))) if dr == 'in' else a_ok(dr, s)))
        yield ('a valid text so far (%r)' % i, lambda i=i: tm.Or(Eq(L.cval(i), I(0)), tm.TRUE))
def cv_result(d, s):
    if Not(V(a_ok(d, s.t))): raise SpecThrow('logic_error')
    return V(a_out(d, s.t, len_(s.t)))
def mk_8bit(name, d):
    def T_(prog):
        m = machine(prog, None, dict(HOOKS)); m.class_sort.update({'std::wstring': 'S', 'wstring': 'S', 'basic_string<wchar_t>': 'S'})
        nd = prog.function('boost::' + name)[0] if prog.function('boost::' + name) else prog.function(name)[0]
        def setup(ex):
            s = ex.c.fresh('s', 'S'); cell = ex.new_cell('s', s); ex.c.tag = dict(cv=(d, s, cell)); ex.c.assume(Lt(len_(s), I(2**62)))
            return dict(this=None, args=[cell, ex.new_cell('cvt', Rec('codecvt', {}))], s=V(s))
        return Task(name, m, nd, setup, outcome_post(lambda ex, e: (cv_result(d, e['s']), []), name), templates=[tpl_conv])
    return T_
T_from8, T_to8 = mk_8bit('from_8_bit', 'in'), mk_8bit('to_8_bit', 'out')

# ---- the conversions by name: which facet they use
def conv_call(nm):
    """contract of from_8_bit / to_8_bit (proved above), for one facet"""
    def f(ex, args, n):
        s, k = ex.to_term(ex.load(args[0]), 'S'), ex.load(args[1])
        if not (isinstance(k, Rec) and k.cls == 'codecvt'): raise Unsupported('facet %r' % (k,))
        try: return conv_spec(nm, V(s), k.f['which']).t
        except SpecThrow as t: throw_spec(ex, t)
    return f
def conv_spec(nm, s, which):
    if Not(V(app(nm + '_ok', (s.t, which), 'B'))): raise SpecThrow('logic_error')
    return V(app(nm, (s.t, which), 'S'))
def h_global(ex, nm, nd):
    if nm == 'utf8_facet': return Rec('codecvt', {'which': S('utf8')})
def cv2(ex, t, b, ta, args, node):
    if b == 'locale' and not args: return Rec('locale', {})
    return construct(ex, t, b, ta, args, node)
def use_facet(ex, args, n):
    if not (len(args) == 1 and isinstance(ex.load(args[0]), Rec) and ex.load(args[0]).cls == 'locale'): raise Unsupported('use_facet')
    return ex.new_cell('local_facet', Rec('codecvt', {'which': S('global locale')}))
WHOOKS = {'free:from_8_bit': conv_call('from_8_bit'), 'free:to_8_bit': conv_call('to_8_bit'), 'global': h_global, 'construct': cv2, 'free:use_facet': use_facet}
def mk_named(name, base, which):
    def T_(prog):
        m = machine(prog, None, dict(WHOOKS)); m.class_sort.update({'std::wstring': 'S', 'wstring': 'S', 'basic_string<wchar_t>': 'S'})
        nd = prog.function(name)[0]
        def setup(ex):
            s = ex.c.fresh('s', 'S'); return dict(this=None, args=[ex.new_cell('s', s)], s=V(s))
        return Task(name, m, nd, setup, outcome_post(lambda ex, e: (conv_spec(base, e['s'], S(which)), []), name))
    return T_
T_from_utf8, T_to_utf8 = mk_named('from_utf8', 'from_8_bit', 'utf8'), mk_named('to_utf8', 'to_8_bit', 'utf8')
T_from_local, T_to_local = mk_named('from_local_8_bit', 'from_8_bit', 'global locale'), mk_named('to_local_8_bit', 'to_8_bit', 'global locale')
for t, u in ((T_from8, ['convert@boost::from_8_bit', 'convert']), (T_to8, ['convert@boost::to_8_bit', 'convert']), (T_from_utf8, ['convert@boost::from_utf8']), (T_to_utf8, ['convert@boost::to_utf8']),
             (T_from_local, ['convert@boost::from_local_8_bit']), (T_to_local, ['convert@boost::to_local_8_bit'])): t.tus = u

# ---- to_internal
U8 = {}
def u8(nm):
    def f(ex, args):
        s = ex.to_term(ex.load(args[0]), 'S')
        try: return u8_spec(nm, V(s)).t
        except SpecThrow as t: throw_spec(ex, t)
    return f
def u8_spec(nm, s):
    if Not(V(app(nm + '_ok', (s.t,), 'B'))): raise SpecThrow('logic_error')
    return V(app(nm, (s.t,), 'S'))
MAP = {k: Hom(k + '_map', QS, lambda e, k=k: V(tm.unit(app(k, (e.t,), 'S'))), lambda a, b: V(tm.cat2(a.t, b.t)), ()) for k in ('from_utf8', 'to_utf8')}
ALL = {k: Hom(k + '_all', 'B', lambda e, k=k: V(app(k + '_ok', (e.t,), 'B')), lambda a, b: V(tm.And(a.t, b.t)), True) for k in ('from_utf8', 'to_utf8')}
def is_wide(n): return 'wstring' in n['type']['qualType'] or 'wchar_t' in n['type']['qualType']
def T_internal(prog):
    m = machine(prog); nd = [n for n in prog.function('to_internal') if n['type']['qualType'].startswith('std::string (') and not is_wide(n)][0]
    def setup(ex):
        s = ex.c.fresh('s', 'S'); return dict(this=None, args=[ex.new_cell('s', s)], s=V(s))
    return Task('to_internal(string)', m, nd, setup, outcome_post(lambda ex, e: (e['s'], []), 'to_internal'))
def T_winternal(prog):
    m = machine(prog, None, {'free:to_utf8': lambda ex, args, n: u8('to_utf8')(ex, args)}); m.class_sort.update({'std::wstring': 'S', 'wstring': 'S', 'basic_string<wchar_t>': 'S'})
    nd = [n for n in prog.function('to_internal') if n['type']['qualType'].startswith('std::string (') and is_wide(n)][0]
    def setup(ex):
        s = ex.c.fresh('s', 'S'); return dict(this=None, args=[ex.new_cell('s', s)], s=V(s))
    return Task('to_internal(wstring)', m, nd, setup, outcome_post(lambda ex, e: (u8_spec('to_utf8', e['s']), []), 'to_internal'))
T_internal.tus = T_winternal.tus = ['convert@program_options::to_internal']
IMAP = Prec('to_utf8_first', QS, (), lambda prev, e, k: V(tm.cat2(prev.t, tm.unit(app('to_utf8', (e.t,), 'S')))))
IALL = Prec('to_utf8_valid', 'B', True, lambda prev, e, k: And(prev, V(app('to_utf8_ok', (e.t,), 'B'))))
def _mono(nm, prec):
    """once false it stays false"""
    f0 = FACTS[nm]
    def f(t):
        out = list(f0(t)); xs, k = t.args[1], t.args[2]
        n = len_(xs); end = app(nm, (xs, n), 'B')
        if k is not n:
            out.append(tm.Implies(tm.And(tm.Not(t), Ge(k, I(0)), Le(k, n)), tm.Not(end)))
            if k.op != 'int':
                nx = app(nm, (xs, tm.add(k, I(1))), 'B')
                out.append(tm.Implies(tm.And(Ge(k, I(0)), Lt(k, n)), tm.And(Eq(nx, prec._step(xs, k, ())), tm.Implies(tm.Not(nx), tm.Not(end)))))
        return out
    return f
FACTS['to_utf8_valid'] = _mono('to_utf8_valid', IALL)
def mk_vec(wide):
    def T_(prog):
        def c_int(ex, fn_, this, args):
            s = ex.to_term(ex.load(args[0]), 'S')
            if not is_wide(fn_): return s
            return u8('to_utf8')(ex, args)
        m = machine(prog, {'program_options::to_internal': c_int}); m.class_sort.update({'std::wstring': 'S', 'wstring': 'S', 'basic_string<wchar_t>': 'S'})
        nd = [n for n in prog.function('program_options::to_internal') if n.get('mangledName') and 'vector' in n['type']['qualType'] and is_wide(n) == wide][0]
        def setup(ex):
            s = ex.c.fresh('s', QS); ex.c.tag = dict(vec=V(s)); ex.c.assume(Lt(len_(s), I(2**32 - 1)))
            return dict(this=None, args=[ex.new_cell('s', s)], s=V(s))
        def tpl(L):
            d = L.ex.c.tag
            if not d or 'vec' not in d: return
            for i in slots_of(L, 'I', True):
                for r in slots_of(L, QS, True):
                    k = lambda i=i: V(L.cval(i))
                    if wide:
                        yield ('%r: the first %r strings in UTF-8' % (r, i), lambda r=r, k=k: Eq(L.cval(r), IMAP(d['vec'], k()).t))
                        yield ('the first %r strings are valid' % i, lambda k=k: IALL(d['vec'], k()).t)
                    else: yield ('%r: the first %r strings' % (r, i), lambda r=r, k=k: Eq(L.cval(r), tm.seg(d['vec'].t, I(0), k().t)))
        def spec(ex, e):
            if not wide: return e['s'], []
            if Not(IALL(e['s'], ln(e['s']))): raise SpecThrow('logic_error')
            return IMAP(e['s'], ln(e['s'])), []
        return Task('to_internal(vector<%s>)' % ('wstring' if wide else 'string'), m, nd, setup, outcome_post(spec, 'to_internal'), templates=[tpl])
    T_.tus = ['inst']
    return T_
T_ivec, T_iwvec = mk_vec(False), mk_vec(True)

# ---- wide parsed options
def algo(ex, nm, args, n):
    if nm != 'transform': return None
    o, f = ex.load(args[2]), ex.load(args[3])
    if not (isinstance(o, Rec) and o.cls == 'inserter' and isinstance(f, Fn) and f.kind == 'abstract' and f.d.get('name') in MAP): return None
    k = f.d['name']; s = ex.to_term(lib.rng(ex, args[0], args[1]), QS); p = o.f['to'].place
    if ex.c.branch(tm.Not(ALL[k](V(s)).t)): throw_spec(ex, SpecThrow('logic_error'))
    ex.store_to(p, tm.cat2(ex.load(p), MAP[k](V(s)).t))
    return (o,)
def wopt_spec(o):
    if Or(Not(ALL['from_utf8'](o.value)), Not(ALL['from_utf8'](o.original_tokens))): raise SpecThrow('logic_error')
    return V(sp.to_T(R('option', string_key=o.string_key, position_key=o.position_key, value=MAP['from_utf8'](o.value), original_tokens=MAP['from_utf8'](o.original_tokens),
                       unregistered=o.unregistered, case_insensitive=o.case_insensitive), ('D', 'option')))
def wmach(prog, contracts=None):
    m = machine(prog, contracts, {'free:bind': h_bind, 'algo': algo, 'construct': construct})
    m.class_sort.update({'std::wstring': 'S', 'wstring': 'S', 'basic_string<wchar_t>': 'S', 'basic_option<wchar_t>': ('D', 'option'), 'woption': ('D', 'option'), 'program_options::woption': ('D', 'option')})
    return m
def T_wopt(prog):
    m = wmach(prog); nd = [n for n in prog.function('woption_from_option')][0]
    m.hooks['free:from_utf8'] = lambda ex, args, n: u8('from_utf8')(ex, args)
    def tpl(L):
        o = L.ex.c.tag
        if not isinstance(o, V): return
        for i in slots_of(L, 'I', True):
            for nm, q in (('values', o.value.t), ('tokens', o.original_tokens.t)):
                pre = lambda q=q, i=i: V(L.ex.c.slice(q, I(0), L.cval(i)))
                for r in slots_of(L, QS, True): yield ('%r: the first %r %s converted' % (r, i, nm), lambda r=r, pre=pre: Eq(L.cval(r), MAP['from_utf8'](pre()).t))
                yield ('the first %r %s are UTF-8' % (i, nm), lambda pre=pre: ALL['from_utf8'](pre()).t)
    def setup(ex):
        o = ex.c.fresh('opt', ('D', 'option')); ex.c.tag = V(o); return dict(this=None, args=[ex.new_cell('opt', o)], o=V(o))
    return Task('woption_from_option', m, nd, setup, outcome_post(lambda ex, e: (wopt_spec(e['o']), []), 'woption_from_option'), templates=[tpl])
def opt_conv(o): return V(app('wide_option', (o.t,), ('D', 'option')))
def opt_ok(o): return V(app('wide_option_ok', (o.t,), 'B'))
OMAP = Prec('wide_options', QO, (), lambda prev, e, k: V(tm.cat2(prev.t, tm.unit(opt_conv(e).t))))
OALL = Prec('wide_options_ok', 'B', True, lambda prev, e, k: And(prev, opt_ok(e)))
FACTS['wide_options_ok'] = _mono('wide_options_ok', OALL)
def T_wparsed(prog):
    def c_w(ex, fn_, this, args):
        o = V(ex.to_term(ex.load(args[0]), ('D', 'option')))
        if ex.c.branch(tm.Not(opt_ok(o).t)): throw_spec(ex, SpecThrow('logic_error'))
        return opt_conv(o).t
    m = wmach(prog)
    nd = [n for n in prog.function('program_options::basic_parsed_options::basic_parsed_options') if n['kind'] == 'CXXConstructorDecl' and 'IwE' in (n.get('mangledName') or '') and not n.get('isImplicit')]
    nd = nd[0]
    m.contracts[[q for t in prog.tus.values() for q in t.fns if q.endswith('woption_from_option')][0]] = c_w
    def setup(ex):
        c = ex.c; os = c.fresh('options', QO); c.assume(Lt(len_(os), I(2**32 - 1)))
        d = ex.new_cell('desc', c.fresh('desc', DESC))
        po = Rec('basic_parsed_options', {'options': os, 'description': Ptr(d), 'm_options_prefix': c.fresh('prefix', 'I')})
        w = Rec('basic_parsed_options', {'options': tm.empty(QO), 'description': NULL, 'utf8_encoded_options': Opaque('uninitialised'), 'm_options_prefix': c.fresh('uninit', 'I')})
        c.tag = dict(po=V(os))
        return dict(this=ex.new_cell('this', w), args=[ex.new_cell('po', po)], os=V(os), d=d, po=po)
    def tpl(L):
        d = L.ex.c.tag
        if not d or 'po' not in d: return
        for i in slots_of(L, 'I', True):
            for r in slots_of(L, QO, True):
                yield ('%r: the first %r options' % (r, i), lambda r=r, i=i: Eq(L.cval(r), OMAP(d['po'], V(L.cval(i))).t))
            yield ('the first %r options are valid' % i, lambda i=i: OALL(d['po'], V(L.cval(i))).t)
    def post(ex, out, e):
        c = ex.c; os = e['os']
        if out[0] == 'throw':
            c.oblige('post', 'wide parsed options: throws only for text that is not UTF-8', tm.And(B(out[1].cls == 'logic_error'), tm.Not(OALL(os, ln(os)).t))); return
        w = ex.load(Place('this'))
        c.oblige('post', 'wide parsed options: accepted only if all is UTF-8', OALL(os, ln(os)).t)
        c.oblige('post', 'wide parsed options: every option converted, in order', Eq(ex.to_term(w.f['options'], QO), OMAP(os, ln(os)).t))
        c.oblige('post', 'wide parsed options: the same description', B(isinstance(w.f['description'], Ptr) and w.f['description'].place == e['d']))
        c.oblige('post', 'wide parsed options: the same prefix', Eq(w.f['m_options_prefix'], e['po'].f['m_options_prefix']))
        u = w.f['utf8_encoded_options']
        c.oblige('post', 'wide parsed options: keeps the narrow result', B(isinstance(u, Rec)) if not isinstance(u, Rec) else
                 tm.And(Eq(ex.to_term(u.f['options'], QO), os.t), Eq(u.f['m_options_prefix'], e['po'].f['m_options_prefix']), B(isinstance(u.f['description'], Ptr) and u.f['description'].place == e['d'])))
    return Task('basic_parsed_options<wchar_t>::basic_parsed_options', m, nd, setup, post, templates=[tpl])
T_wopt.tus = T_wparsed.tus = ['parsers']

import g_convert as gc
class P16(gc.C16):
    id = 'C16'; title = 'Character conversion'
    tus = ['convert']
    tasks = [T_from8, T_to8, T_from_utf8, T_to_utf8, T_from_local, T_to_local, T_internal, T_winternal, T_ivec, T_iwvec, T_wopt, T_wparsed]
    extra_assumptions = ['a conversion facet obeys its contract: it reads a prefix of the source range and writes to the target range, what is written so far and the state are functions of the text read so far, it makes progress '
                         'when there is room for 6 target units and the text is valid, output comes from input, `in` of a whole text is valid exactly if the state at its end is initial, `out` keeps no character in the state',
                         'the code of boost/detail/utf8_codecvt_facet.ipp (a dependency outside /repo) is replayed, not proved', 'boost::bind, std::transform with an inserter, std::use_facet and std::locale as documented',
                         'once a conversion in a list is invalid the list stays invalid (monotonicity of to_utf8_valid, wide_options_ok)']
    proved = ('from_8_bit and to_8_bit (with detail::convert inlined)', 'from_utf8, to_utf8, from_local_8_bit, to_local_8_bit: the facet they use', 'to_internal for string, wstring, vector<string>, vector<wstring>',
              'woption_from_option', 'basic_parsed_options<wchar_t>(basic_parsed_options<char>)')
PROPS = {'C16': P16}
