"""Contracts of value semantics: validation (C17), value declarations (C22)."""
from model import *
from task import Task, outcome_post
import sp, task, lib, re
from sp import *
from p_cmdline import slots_of, fnode
import p_convert as pc
QI = ('Q', 'I'); UC = ('U', 'custom'); QUC = ('Q', UC)
UMAX = 2**32 - 1
MULTI_VALUES, NO_VALUE = 30, 31

# ---- types of values -----------------------------------------------------------------------------
def ctag(t):
    """a C++ type by name"""
    t = norm_type(t).replace('const ', '').rstrip('&* ').strip()
    t = t.replace('std::', '').replace('boost::', '').replace('program_options::', '')
    m = re.match(r'^(vector|optional)<(.*?)>?$', t)
    if m: return m.group(1)[0] + ':' + ctag(re.match(r'^\w+<(.*)>$', t).group(1).split(', allocator')[0])
    if t.startswith('basic_string<wchar_t') or t == 'wstring': return 'wstring'
    if t.startswith('basic_string<') or t == 'string': return 'string'
    if t in ('int', 'bool'): return t
    if t.endswith('custom'): return 'custom'
    return t
SORTS = {'int': 'I', 'bool': 'B', 'string': 'S', 'wstring': 'S', 'custom': UC, 'v:int': QI, 'v:string': QS, 'v:custom': QUC}
def any_rec(full, ty=None, val=None): return Rec('any', {'full': full} if ty is None else {'full': full, 'ty': S(ty), 'val': val})
def sym_any(ex, ty, nm='held'):
    """an any that is empty or holds a value of this type"""
    c = ex.c
    if ty.startswith('o:'): v = Rec('optional', {'full': c.fresh(nm + '_set', 'B'), 'val': c.fresh(nm + '_val', SORTS[ty[2:]])})
    else: v = c.fresh(nm + '_val', SORTS[ty])
    return any_rec(c.fresh(nm, 'B'), ty, v)
def h_any(ex, v, node):
    if isinstance(v, Rec) and v.cls == 'any': return v
    t = None
    if node is not None:
        inn = [x for x in node.get('inner', []) if x.get('kind')]
        if inn: t = ctag(ip.type_of(inn[0]))
    if t is None: raise Unsupported('value of an any')
    if t not in SORTS and not t.startswith('o:'): raise Unsupported('any of %s' % t)
    if isinstance(v, T) and t == 'bool' and v.sort == 'I': v = tm.Not(Eq(v, I(0)))
    return any_rec(TRUE, t, v if not isinstance(v, CList) else ex.to_term(v, SORTS[t]))
def h_assign(ex, args, n):
    p, v = args[0], ex.load(args[1])
    if isinstance(p, Place):
        cur = ex.load(p)
        if isinstance(cur, Rec) and cur.cls == 'any':
            if not (isinstance(v, Rec) and v.cls == 'any'): v = h_any(ex, v, dict(inner=[n['inner'][2]]))
            ex.store_to(p, v); return (p,)
    return None
def any_cast(ex, args, n):
    """any_cast<T>(&v): pointer to the value or null; any_cast<T>(v): the value or bad_any_cast"""
    t = norm_type(ip.type_of(n)); ty = ctag(t); a = args[0]
    v = ex.load(a)
    if isinstance(v, Ptr):
        p = v.place; cur = ex.load(p)
        ok = B(False) if 'ty' not in cur.f else tm.And(cur.f['full'], Eq(cur.f['ty'], S(ty)))
        return Ptr(p.sub(('f', 'val'))) if ex.c.branch(ok) else NULL
    cur = v
    if not (isinstance(cur, Rec) and cur.cls == 'any'): raise Unsupported('any_cast of %r' % (cur,))
    ok = B(False) if 'ty' not in cur.f else tm.And(cur.f['full'], Eq(cur.f['ty'], S(ty)))
    if not ex.c.branch(ok): raise CppThrow(lib.exc_value('bad_any_cast'))
    return cur.f['val']
def lex_ok(ty, s): return app('lexical_ok_' + ty, (s,), 'B')
def lex_val(ty, s): return app('lexical_' + ty, (s,), SORTS[ty])
def txt_of(ty, v): return app('text_of_' + ty, (v,), 'S')
def lexical_cast(ex, args, n):
    ty = ctag(ip.type_of(n)); at = ctag(ip.type_of(n['inner'][1])); v = ex.load(args[0])
    if ty == 'string' and at in SORTS: return txt_of(at, v)
    if at not in ('string', 'wstring') or ty not in SORTS: raise Unsupported('lexical_cast<%s>(%s)' % (ty, at))
    s = ex.to_term(v, 'S')
    if not ex.c.branch(lex_ok(ty, s)): raise CppThrow(lib.exc_value('bad_lexical_cast'))
    return lex_val(ty, s)
def construct(ex, t, b, ta, args, node):
    if b == 'optional':
        if not args: return Rec('optional', {'full': FALSE})
        v = ex.load(args[0])
        return v if isinstance(v, Rec) and v.cls == 'optional' else Rec('optional', {'full': TRUE, 'val': v})
def default_value(ex, t):
    if t in ('custom', 'user_types::custom', 'program_options::user_types::custom'): return ex.c.fresh('uninit', UC)
def to_local(ex, args, n):
    s = ex.to_term(ex.load(args[0]), 'S')
    if not ex.c.branch(app('to_local_8_bit_ok', (s,), 'B')): raise CppThrow(lib.exc_value('logic_error', what=ex.c.fresh('what', 'S')))
    return app('to_local_8_bit', (s,), 'S')
HOOKS = {'free:to_local_8_bit': to_local, 'any': h_any, 'operator=': h_assign, 'free:any_cast': any_cast, 'free:lexical_cast': lexical_cast, 'construct': construct, 'default_value': default_value}
WS = {'std::wstring': 'S', 'wstring': 'S', 'basic_string<wchar_t>': 'S', 'custom': UC, 'user_types::custom': UC, 'program_options::user_types::custom': UC}
def mach(prog, contracts=None, hooks=None):
    h = dict(HOOKS); h.update(hooks or {})
    m = machine(prog, contracts, h); m.class_sort.update(WS); return m

# ---- specifications ------------------------------------------------------------------------------
class Any:
    """an any in a specification: full, type, value"""
    def __init__(self, full, ty=None, val=None): self.full, self.ty, self.val = full, ty, val
def single(xs, allow_empty):
    n = ln(xs)
    if Not(n <= 1): raise SpecThrow('validation_error', kind=MULTI_VALUES)
    if n == 0:
        if allow_empty: return lift('')
        raise SpecThrow('validation_error', kind=NO_VALUE)
    return at_(xs, 0)
def at_(xs, i): return xs[i]
def first(held):
    if V(held): raise SpecThrow('multiple_occurrences')
def any_is(s, *ws): return Or(*[eq(s, w) for w in ws])
def val_bool(held, xs):
    first(held); s = lower(single(xs, True))
    if any_is(s, '', 'on', 'yes', '1', 'true'): return TRUE
    if any_is(s, 'off', 'no', '0', 'false'): return FALSE
    raise SpecThrow('invalid_bool_value')
def val_string(held, xs): first(held); return single(xs, False).t
def local8(s):
    if Not(V(app('to_local_8_bit_ok', (s.t,), 'B'))): raise SpecThrow('invalid_option_value')
    return app('to_local_8_bit', (s.t,), 'S')
def val_wstring(held, xs): first(held); return local8(single(xs, False))
def val_lex(ty):
    def f(held, xs):
        first(held); s = single(xs, False)
        if Not(V(lex_ok(ty, s.t))): raise SpecThrow('invalid_option_value')
        return lex_val(ty, s.t)
    return f
def u_ok(xs): return app('custom_ok', (xs.t,), 'B')
def val_custom(held, xs):
    if Not(V(u_ok(xs))): raise SpecThrow('validation_error')
    return app('custom_value', (xs.t,), UC)
ELEM = {('int', 0): val_lex('int'), ('int', 1): val_lex('int'), ('string', 0): val_string, ('string', 1): val_wstring, ('bool', 0): val_bool, ('bool', 1): val_bool, ('custom', 0): val_custom, ('custom', 1): val_custom}
def elem_one(ty, w, s):
    """one element of a vector: the value, or the error"""
    return ELEM[ty, w](FALSE, V(tm.unit(s.t)))
def el_ok(ty, w, s):
    t = s.t
    if ty == 'int': return lex_ok('int', t)
    if ty == 'string': return app('to_local_8_bit_ok', (t,), 'B') if w else TRUE
    return app('custom_ok', (tm.unit(t),), 'B')
def el_val(ty, w, s):
    t = s.t
    if ty == 'int': return lex_val('int', t)
    if ty == 'string': return app('to_local_8_bit', (t,), 'S') if w else t
    return app('custom_value', (tm.unit(t),), UC)
VALS, OKS = {}, {}
for ty in ('int', 'string', 'custom'):
    for w in (0, 1):
        nm = '%s_%s' % (ty, 'w' if w else 'n')
        VALS[ty, w] = Prec('values_' + nm, ('Q', SORTS[ty]), (), lambda prev, e, k, ty=ty, w=w: V(tm.cat2(prev.t, tm.unit(el_val(ty, w, e)))))
        OKS[ty, w] = Prec('values_ok_' + nm, 'B', True, lambda prev, e, k, ty=ty, w=w: And(prev, V(el_ok(ty, w, e))))
        FACTS['values_ok_' + nm] = pc._mono('values_ok_' + nm, OKS[ty, w])

def same_any(c, lab, got, full, ty=None, val=None):
    """got holds a value exactly if `full`, and then this one"""
    if not (isinstance(got, Rec) and got.cls == 'any'): c.oblige('post', lab, FALSE); return
    gs = [Eq(got.f['full'], full)]
    if ty is not None:
        if 'ty' not in got.f: gs.append(tm.Not(full))
        else:
            gs.append(tm.Implies(full, Eq(got.f['ty'], S(ty))))
            x = got.f['val']
            if isinstance(x, Rec): gs.append(tm.Implies(full, eq_opt(x, val)))
            elif not isinstance(val, T): gs.append(tm.Not(full))
            else: gs.append(tm.Implies(full, Eq(x, val)) if x.sort == val.sort else tm.Not(full))
    c.oblige('post', lab, tm.And(*gs))
def eq_opt(a, b):
    if not isinstance(b, Rec): return FALSE
    if 'val' not in a.f or 'val' not in b.f: return Eq(a.f['full'], b.f['full'])
    return tm.And(Eq(a.f['full'], b.f['full']), tm.Implies(a.f['full'], Eq(a.f['val'], b.f['val']) if a.f['val'].sort == b.f['val'].sort else FALSE))
def unchanged(c, lab, got, old): same_any(c, lab, got, old.f['full'], tm.val(old.f['ty']) if 'ty' in old.f else None, old.f.get('val'))

# ---- contracts, callee side: what the callee's specification says, applied to the any it is given ------------------
def apply_spec(ex, place, ty, spec, xs):
    held = ex.load(place).f['full']
    try: v = spec(held, xs)
    except SpecThrow as t: throw_spec(ex, t)
    ex.store_to(place, any_rec(TRUE, ty, v.t if isinstance(v, V) else v))
def sig(fn_):
    """(value type, wide) of a validate overload"""
    q = fn_['type']['qualType']; ps = [norm_type(p['type'].get('desugaredQualType') or p['type']['qualType']) for p in fn_.get('inner', []) if p.get('kind') == 'ParmVarDecl']
    return ctag(ps[2].rstrip('* ')), 1 if 'wchar_t' in ps[1] or 'wstring' in ps[1] else 0
def c_validate(ex, fn_, this, args):
    ty, w = sig(fn_); xs = V(ex.to_term(ex.load(args[1]), QS))
    if (ty, w) in ELEM: return apply_spec(ex, args[0], ty, ELEM[ty, w], xs)
    raise Unsupported('validate of %s' % ty)
def c_first(ex, fn_, this, args):
    try: first(ex.load(args[0]).f['full'])
    except SpecThrow as t: throw_spec(ex, t)
def c_single(ex, fn_, this, args):
    a = ex.load(args[1])
    if isinstance(a, Opaque): a = default_arg(ex, fn_, 1)
    xs = V(ex.to_term(ex.load(args[0]), QS))
    try: return single(xs, bool(V(ex.truth(a)))).t
    except SpecThrow as t: throw_spec(ex, t)
VALQ = 'program_options::validate'; UVALQ = 'program_options::user_types::validate'
CK = {'program_options::validators::check_first_occurrence': c_first, 'program_options::validators::get_single_string': c_single}
CKV = dict(CK); CKV[VALQ] = c_validate; CKV[UVALQ] = c_validate
def default_arg(ex, fn_, k):
    """the value of a default argument: written at the declaration, or (instantiated) at the pattern"""
    for n in [fn_] + [x for t in ex.m.prog.tus.values() for x in t.fns.get(fn_['_q'], []) + t.fns.get('boost::' + fn_['_q'], [])]:
        ps = [p for p in n.get('inner', []) if p.get('kind') == 'ParmVarDecl']
        if len(ps) <= k: continue
        d = [c for c in ps[k].get('inner', []) if c.get('kind', '').endswith('Literal') or c.get('kind', '').endswith('Expr')]
        if d: return ex.load(ex.ev(d[0]))
    raise Unsupported('default argument')
def validate_fn(prog, ty, w):
    for n in prog.function(VALQ):
        if n.get('mangledName') and n['_q'].endswith(VALQ) and 'user_types' not in n['_q'] and sig(n) == (ty, w): return n
    raise Unsupported('validate for %s not found' % ty)

# ---- tasks: the helpers
def T_first(prog):
    m = mach(prog)
    def setup(ex):
        a = sym_any(ex, 'int'); p = ex.new_cell('value', a); return dict(this=None, args=[p], a=a, p=p)
    def post(ex, out, e):
        outcome_post(lambda ex, e: (None, []) if not first(e['a'].f['full']) else None, 'check_first_occurrence')(ex, out, e)
        unchanged(ex.c, 'the value held is unchanged', ex.load(e['p']), e['a'])
    return Task('check_first_occurrence', m, fnode(prog, 'program_options::validators::check_first_occurrence'), setup, post)
def mk_single(w):
    def T_(prog):
        m = mach(prog)
        nd = [n for n in prog.function('program_options::validators::get_single_string') if n.get('mangledName') and ('wchar_t' in n['type']['qualType']) == bool(w)][0]
        def setup(ex):
            xs = ex.c.fresh('xs', QS); b = ex.c.fresh('allow_empty', 'B'); return dict(this=None, args=[ex.new_cell('xs', xs), b], xs=V(xs), b=V(b))
        return Task('get_single_string<%s>' % ('wchar_t' if w else 'char'), m, nd, setup, outcome_post(lambda ex, e: (single(e['xs'], bool(e['b'])), []), 'get_single_string'))
    T_.tus = ['inst']
    return T_
T_single, T_wsingle = mk_single(0), mk_single(1)
# ---- tasks: validate overloads
def tpl_inplace(L):
    """a string lower-cased in place"""
    for r in slots_of(L, 'S', True):
        e = L.eload(r)
        if e is None: continue
        yield ('%r differs from its entry value in case only' % r, lambda r=r, e=e: Eq(lib.lower(L.cval(r)), lib.lower(e)))
        yield ('%r has its entry length' % r, lambda r=r, e=e: Eq(len_(L.cval(r)), len_(e)))
        for i in slots_of(L, 'I', True):
            yield ('%r: lower case up to %r' % (r, i), lambda r=r, i=i: Eq(L.ex.c.slice(L.cval(r), I(0), L.cval(i)), L.ex.c.slice(lib.lower(L.cval(r)), I(0), L.cval(i))))
def mk_validate(ty, w, elem_spec, name, contracts=CK, hooks=None, templates=()):
    def T_(prog):
        m = mach(prog, contracts, hooks); nd = validate_fn(prog, ty, w)
        def setup(ex):
            c = ex.c; a = sym_any(ex, ty); p = ex.new_cell('v', a); xs = c.fresh('xs', QS); c.assume(Lt(len_(xs), I(UMAX)))
            c.tag = dict(xs=V(xs), ty=ty, w=w, a=a)
            return dict(this=None, args=[p, ex.new_cell('xs', xs), NULL, I(0)], a=a, p=p, xs=V(xs))
        def post(ex, out, e):
            c = ex.c; got = ex.load(e['p']); a = e['a']
            try: v = elem_spec(a.f['full'], e['xs']); want = None
            except SpecThrow as t: want = t
            if out[0] == 'abort': c.oblige('post', name + ': no assertion fails', FALSE); return
            if want is not None:
                if out[0] != 'throw': c.oblige('post', name + ': throws %s' % want.cls, FALSE); return
                g = task.exc_equal(ex, out[1], want.cls, want.kw)
                if want.cls == 'multiple_occurrences':           # two errors at once: either is right
                    try: elem_spec(FALSE, e['xs'])
                    except SpecThrow as t: g = tm.Or(g, task.exc_equal(ex, out[1], t.cls, t.kw))
                c.oblige('post', name + ': throws %s' % want.cls, g)
                unchanged(c, name + ': a value held is not changed', got, a)
                return
            if out[0] == 'throw': c.oblige('post', name + ': does not throw (got %s)' % out[1].cls, FALSE); return
            same_any(c, name + ': the value', got, TRUE, ty, v.t if isinstance(v, V) else v)
        return Task(name, m, nd, setup, post, templates=list(templates))
    T_.tus = ['inst', 'value_semantic']
    return T_
T_bool = mk_validate('bool', 0, val_bool, 'validate(bool)', templates=[tpl_inplace])
T_wbool = mk_validate('bool', 1, val_bool, 'validate(bool, wide)', templates=[tpl_inplace])
T_string = mk_validate('string', 0, val_string, 'validate(string)')
T_lex, T_wlex = mk_validate('int', 0, val_lex('int'), 'validate<T>'), mk_validate('int', 1, val_lex('int'), 'validate<T>(wide)')
T_wstring = mk_validate('string', 1, val_wstring, 'validate(string, wide)')
def val_opt(ty, w):
    def f(held, xs):
        first(held); single(xs, False); v = ELEM[ty, w](FALSE, xs)
        return Rec('optional', {'full': TRUE, 'val': v.t if isinstance(v, V) else v})
    return f
T_opt, T_wopt = mk_validate('o:int', 0, val_opt('int', 0), 'validate(optional<T>)', CKV), mk_validate('o:int', 1, val_opt('int', 1), 'validate(optional<T>, wide)', CKV)
T_opts, T_optc = mk_validate('o:string', 0, val_opt('string', 0), 'validate(optional<string>)', CKV), mk_validate('o:custom', 0, val_opt('custom', 0), 'validate(optional<custom>)', CKV)

# ---- vectors: every value of every occurrence, in order
def mk_vector(ty, w):
    vt = 'v:' + ty; name = 'validate(vector<%s>%s)' % (ty if ty != 'int' else 'T', ', wide' if w else '')
    VL, OK_ = VALS[ty, w], OKS[ty, w]
    def T_(prog):
        m = mach(prog, CKV); nd = validate_fn(prog, vt, w)
        def setup(ex):
            c = ex.c; a = sym_any(ex, vt); p = ex.new_cell('v', a); xs = c.fresh('xs', QS); c.assume(Lt(len_(xs), I(UMAX)))
            c.tag = dict(xs=V(xs), a=a)
            return dict(this=None, args=[p, ex.new_cell('s', xs), NULL, I(0)], a=a, p=p, xs=V(xs))
        def start(ex, a): return tm.Ite(a.f['full'], a.f['val'], tm.empty(a.f['val'].sort))
        def tpl(L):
            d = L.ex.c.tag
            for i in slots_of(L, 'I', True):
                yield ('the first %r values are valid' % i, lambda i=i: OK_(d['xs'], V(L.cval(i))).t)
                for pl, v, mod in L.sl:
                    if isinstance(v, T) and v.sort == ('Q', SORTS[ty]) and mod:
                        yield ('%r: what was held and the first %r values' % (pl, i), lambda i=i, pl=pl: Eq(L.cval(pl), tm.cat2(start(L.ex, d['a']), VL(d['xs'], V(L.cval(i))).t)))
        def post(ex, out, e):
            c = ex.c; got = ex.load(e['p']); a = e['a']; xs = e['xs']; n = ln(xs)
            if out[0] == 'abort': c.oblige('post', name + ': no assertion fails', FALSE); return
            if out[0] == 'throw':
                c.oblige('post', name + ': throws only for an invalid value', tm.Not(OK_(xs, n).t))
                c.oblige('post', name + ': the error is the error of the value', B(out[1].cls in ('invalid_option_value', 'validation_error')))
                # what was held stays there, at the front
                h = got.f.get('val')
                if h is None: c.oblige('post', name + ': the values held stay', tm.Not(a.f['full']))
                else: c.oblige('post', name + ': the values held stay', tm.Implies(a.f['full'], tm.And(got.f['full'], Eq(tm.sub(h, I(0), len_(a.f['val'])), a.f['val']))))
                return
            c.oblige('post', name + ': accepted only if every value is valid', OK_(xs, n).t)
            same_any(c, name + ': appends every value in order', got, TRUE, vt, tm.cat2(start(ex, a), VL(xs, n).t))
        return Task(name, m, nd, setup, post, templates=[tpl])
    T_.tus = ['inst', 'value_semantic']
    return T_
T_vint, T_vstr, T_vcus, T_wvint, T_wvstr, T_wvcus = [mk_vector(t, w) for w in (0, 1) for t in ('int', 'string', 'custom')]

# ---- typed_value: parsing one occurrence
def tv_fn(prog, meth, ty, w, pick=None):
    """a member of typed_value<ty, w>"""
    out = []
    for n in prog.function('program_options::typed_value::' + meth):
        if not n.get('mangledName'): continue
        o = n['_tu'].owner.get(n['id']) or {}
        sp_ = o.get('_sp') or []
        if len(sp_) == 2 and ctag(sp_[0]) == ty and ('wchar_t' in sp_[1]) == bool(w) and (pick is None or pick(n)): out.append(n)
    if not out: raise Unsupported('typed_value<%s>::%s not found' % (ty, meth))
    return out[0]
FIELDS = ('m_composing', 'm_multitoken', 'm_zero_tokens', 'm_required')
def tv_obj(ex, ty, store_to=NULL, notifier=None):
    """an arbitrary typed_value"""
    c = ex.c
    f = {'m_store_to': store_to, 'm_value_name': c.fresh('value_name', 'S'), 'm_default_value': sym_any(ex, ty, 'default'), 'm_default_value_as_text': c.fresh('default_text', 'S'),
         'm_implicit_value': sym_any(ex, ty, 'implicit'), 'm_implicit_value_as_text': c.fresh('implicit_text', 'S'), 'm_implicit': c.fresh('m_implicit', 'B'), 'm_notifier': notifier or Fn('none')}
    for k in FIELDS: f[k] = c.fresh(k[2:], 'B')
    return Rec('typed_value', f)
def same_obj(c, lab, a, b, but=()):
    """two typed_values agree, but for the given fields"""
    gs = []
    for k, x in a.f.items():
        if k in but: continue
        y = b.f.get(k)
        if isinstance(x, T): gs.append(Eq(x, y) if isinstance(y, T) and y.sort == x.sort else FALSE)
        elif isinstance(x, Rec) and x.cls == 'any':
            if not isinstance(y, Rec): gs.append(FALSE); continue
            gs.append(Eq(x.f['full'], y.f['full']))
            if 'ty' in x.f: gs.append(tm.Implies(x.f['full'], tm.And(Eq(x.f['ty'], y.f['ty']), Eq(x.f['val'], y.f['val'])) if 'ty' in y.f and isinstance(x.f['val'], T) and x.f['val'].sort == y.f['val'].sort else B('ty' in y.f and x.f['val'] is y.f['val'])))
        else: gs.append(B(x is y or x == y))
    c.oblige('frame', lab, tm.And(*gs))
def mk_xparse(ty, w):
    """the implicit value if there is no token, else what validate says"""
    name = 'typed_value<%s%s>::xparse' % (ty, ', wchar_t' if w else '')
    def T_(prog):
        # validate: any outcome, on any value held (its contract is proved for each type)
        def opaque(ex, fn_, this, args):
            if sig(fn_) != (ty, w) and not (ty == 'custom' and sig(fn_)[0] == 'custom'): ex.c.oblige('requires', 'the validator of this type', FALSE)
            p = args[0]; before = ex.load(p); xs = ex.to_term(ex.load(args[1]), QS)
            ex.c.tag['calls'].append((before, xs))
            if ex.c.choose(2) == 1: raise CppThrow(lib.exc_value('validation_error', kind=ex.c.fresh('kind', 'I')))
            after = sym_any(ex, ty, 'validated'); ex.store_to(p, after); ex.c.tag['after'] = after
        m = mach(prog, {VALQ: opaque, UVALQ: opaque}); nd = tv_fn(prog, 'xparse', ty, w)
        def setup(ex):
            c = ex.c; a = sym_any(ex, ty); p = ex.new_cell('store', a); xs = c.fresh('tokens', QS); o = tv_obj(ex, ty); th = ex.new_cell('this', o)
            c.tag = dict(calls=[], after=None)
            return dict(this=th, args=[p, ex.new_cell('tokens', xs)], a=a, p=p, xs=V(xs), o=o, th=th)
        def post(ex, out, e):
            c = ex.c; calls, after = c.tag['calls'], c.tag['after']; imp = e['o'].f['m_implicit_value']; got = ex.load(e['p'])
            if out[0] == 'abort': c.oblige('post', name + ': no assertion fails', FALSE); return
            use = tm.And(Eq(len_(e['xs'].t), I(0)), imp.f['full'])
            if not calls:
                c.oblige('post', name + ': without validation only for no token and an implicit value', use)
                c.oblige('post', name + ': no exception', B(out[0] == 'return'))
                same_any(c, name + ': takes the implicit value', got, TRUE, ty, imp.f['val'])
            else:
                c.oblige('post', name + ': validates only if there is a token or no implicit value', tm.Not(use))
                c.oblige('post', name + ': validates once', B(len(calls) == 1))
                unchanged(c, name + ': validates on the value held', calls[0][0], e['a'])
                c.oblige('post', name + ': validates these tokens', Eq(calls[0][1], e['xs'].t))
                c.oblige('post', name + ': throws what the validation throws', B((out[0] == 'throw') == (after is None)))
                if after is not None: unchanged(c, name + ': keeps the validated value', got, after)
                else: unchanged(c, name + ': the value held stays', got, e['a'])
            same_obj(c, name + ': the declaration is unchanged', e['o'], ex.load(e['th']))
        return Task(name, m, nd, setup, post)
    T_.tus = ['inst']
    return T_
XP = [mk_xparse(t, w) for t, w in (('int', 0), ('int', 1), ('string', 0), ('string', 1), ('bool', 0), ('bool', 1), ('v:int', 0), ('v:string', 0), ('v:int', 1), ('v:string', 1), ('o:int', 0), ('custom', 0))]
# ---- untyped values
def uv_fn(prog, meth): return fnode(prog, 'program_options::untyped_value::' + meth)
def T_uxparse(prog):
    m = mach(prog)
    def setup(ex):
        c = ex.c; a = sym_any(ex, 'string'); p = ex.new_cell('store', a); xs = c.fresh('tokens', QS); z = c.fresh('zero', 'B')
        return dict(this=ex.new_cell('this', Rec('untyped_value', {'m_zero_tokens': z})), args=[p, ex.new_cell('tokens', xs)], a=a, p=p, xs=V(xs))
    def post(ex, out, e):
        c = ex.c; got = ex.load(e['p']); name = 'untyped_value::xparse'
        n = len_(e['xs'].t)
        if out[0] == 'throw':
            c.oblige('post', name + ': the error', tm.Or(tm.And(B(out[1].cls == 'multiple_occurrences'), e['a'].f['full']), tm.And(B(out[1].cls == 'multiple_values'), Gt(n, I(1)))))
            unchanged(c, name + ': the value held stays', got, e['a']); return
        c.oblige('post', name + ': accepts one value at most, once', tm.And(B(out[0] == 'return'), tm.Not(e['a'].f['full']), Le(n, I(1))))
        same_any(c, name + ': the value is the token', got, TRUE, 'string', ite(V(Eq(n, I(0))), lift(''), e['xs'][0]).t)
    return Task('untyped_value::xparse', m, uv_fn(prog, 'xparse'), setup, post)
# ---- the character conversion before validation
def from_l8(nm):
    def f(ex, args, n):
        s = ex.to_term(ex.load(args[0]), 'S')
        if not ex.c.branch(app(nm + '_ok', (s,), 'B')): raise CppThrow(lib.exc_value('logic_error', what=ex.c.fresh('what', 'S')))
        return app(nm, (s,), 'S')
    return f
def chain_ok(k, s):
    """narrow values given as UTF-8: to wide and then to the local encoding"""
    if k == 'n': return And(V(app('from_utf8_ok', (s.t,), 'B')), V(app('to_local_8_bit_ok', (app('from_utf8', (s.t,), 'S'),), 'B')))
    return V(app(k + '_ok', (s.t,), 'B'))
def chain(k, s):
    return V(app('to_local_8_bit', (app('from_utf8', (s.t,), 'S'),), 'S')) if k == 'n' else V(app(k, (s.t,), 'S'))
CH = {k: Prec('tokens_' + k, QS, (), lambda prev, e, i, k=k: V(tm.cat2(prev.t, tm.unit(chain(k, e).t)))) for k in ('n', 'from_utf8', 'from_local_8_bit')}
CHOK = {k: Prec('tokens_ok_' + k, 'B', True, lambda prev, e, i, k=k: And(prev, chain_ok(k, e))) for k in ('n', 'from_utf8', 'from_local_8_bit')}
for k in CHOK: FACTS['tokens_ok_' + k] = pc._mono('tokens_ok_' + k, CHOK[k])
def mk_cvt(w, utf8):
    name = 'value_semantic_codecvt_helper<%s>::parse(%s)' % ('wchar_t' if w else 'char', 'UTF-8' if utf8 else 'local')
    k = ('from_utf8' if utf8 else 'from_local_8_bit') if w else ('n' if utf8 else None)
    def T_(prog):
        def xparse(ex, b, cur, args, n, mem):
            ex.c.tag['calls'].append((args[0], ex.load(args[0]), ex.to_term(ex.load(args[1]), QS)))
            if ex.c.choose(2) == 1: raise CppThrow(lib.exc_value('validation_error', kind=ex.c.fresh('kind', 'I')))
            ex.store_to(args[0], sym_any(ex, 'string', 'parsed'))
            return (None,)
        m = mach(prog, None, {'method:xparse': xparse, 'free:from_utf8': from_l8('from_utf8'), 'free:from_local_8_bit': from_l8('from_local_8_bit'), 'free:to_local_8_bit': to_local})
        nd = [n for n in prog.function('program_options::value_semantic_codecvt_helper::parse') if ('helperIwE' in n['mangledName']) == bool(w)][0]
        def setup(ex):
            c = ex.c; a = sym_any(ex, 'string'); p = ex.new_cell('store', a); xs = c.fresh('tokens', QS); c.assume(Lt(len_(xs), I(UMAX))); c.tag = dict(calls=[], xs=V(xs))
            return dict(this=ex.new_cell('this', Rec('value_semantic_codecvt_helper', {})), args=[p, ex.new_cell('tokens', xs), B(utf8)], a=a, p=p, xs=V(xs))
        def tpl(L):
            d = L.ex.c.tag
            if k is None: return
            for i in slots_of(L, 'I', True):
                yield ('the first %r tokens are valid' % i, lambda i=i: CHOK[k](d['xs'], V(L.cval(i))).t)
                for r in slots_of(L, QS, True): yield ('%r: the first %r tokens, converted' % (r, i), lambda r=r, i=i: Eq(L.cval(r), CH[k](d['xs'], V(L.cval(i))).t))
        def post(ex, out, e):
            c = ex.c; calls = c.tag['calls']; xs = e['xs']; n = ln(xs)
            ok = CHOK[k](xs, n).t if k else TRUE
            if not calls:
                c.oblige('post', name + ': not parsed only if a token is not valid', tm.And(B(out[0] == 'throw'), tm.Not(ok))); unchanged(c, name + ': the value held stays', ex.load(e['p']), e['a']); return
            c.oblige('post', name + ': parses only valid text', ok)
            c.oblige('post', name + ': parses once', B(len(calls) == 1))
            c.oblige('post', name + ': parses the tokens, each converted, in order', Eq(calls[0][2], CH[k](xs, n).t if k else xs.t))
            c.oblige('post', name + ': into the value given', B(calls[0][0] == e['p']))
            unchanged(c, name + ': on the value held', calls[0][1], e['a'])
        return Task(name, m, nd, setup, post, templates=[tpl])
    T_.tus = ['value_semantic']
    return T_
T_cvt = [mk_cvt(w, u) for w in (0, 1) for u in (0, 1)]
for i, t in enumerate(XP): globals()['T_xp%d' % i] = t
for i, t in enumerate(T_cvt): globals()['T_cvt%d' % i] = t

# ---- C22: what is declared
ALLT = [('int', 0), ('int', 1), ('string', 0), ('string', 1), ('bool', 0), ('bool', 1)]
def tv_cls(ty, w): return ctag(ty) + (', wchar_t' if w else '')
def mk_get(meth, spec, ty, w):
    name = 'typed_value<%s>::%s' % (tv_cls(ty, w), meth)
    def T_(prog):
        m = mach(prog); nd = tv_fn(prog, meth, ty, w)
        def setup(ex):
            o = tv_obj(ex, ty); th = ex.new_cell('this', o); return dict(this=th, args=[], o=o, th=th)
        def post(ex, out, e):
            outcome_post(lambda ex, e: (V(spec(e['o'])), []), name)(ex, out, e); same_obj(ex.c, name + ': the declaration is unchanged', e['o'], ex.load(e['th']))
        return Task(name, m, nd, setup, post)
    T_.tus = ['inst']; return T_
GETS = {'min_tokens': lambda o: tm.Ite(tm.Or(o.f['m_zero_tokens'], o.f['m_implicit_value'].f['full']), I(0), I(1)),
        'max_tokens': lambda o: tm.Ite(o.f['m_multitoken'], I(UMAX), tm.Ite(o.f['m_zero_tokens'], I(0), I(1))),
        'is_composing': lambda o: o.f['m_composing'], 'is_required': lambda o: o.f['m_required']}
def mk_set(meth, spec, ty, w, nargs=0):
    """a declaration call changes what it says and nothing else, and returns its object"""
    name = 'typed_value<%s>::%s/%d' % (tv_cls(ty, w), meth, nargs)
    def T_(prog):
        m = mach(prog); nd = tv_fn(prog, meth, ty, w, lambda n: len([p for p in n.get('inner', []) if p.get('kind') == 'ParmVarDecl']) == nargs)
        def setup(ex):
            c = ex.c; o = tv_obj(ex, ty); th = ex.new_cell('this', o); args = []; vals = []
            if meth in ('default_value', 'implicit_value'):
                v = c.fresh('value', SORTS[ty]); args.append(ex.new_cell('value', v)); vals.append(v)
                if nargs == 2: t = c.fresh('text', 'S'); args.append(ex.new_cell('text', t)); vals.append(t)
            elif meth == 'value_name': v = c.fresh('name', 'S'); args.append(ex.new_cell('name', v)); vals.append(v)
            elif meth == 'notifier': v = Fn('abstract', call=None, name='f'); args.append(ex.new_cell('f', v)); vals.append(v)
            return dict(this=th, args=args, o=o, th=th, vals=vals)
        def post(ex, out, e):
            c = ex.c
            if out[0] != 'return': c.oblige('post', name + ': does not throw', FALSE); return
            r = ex.load(out[1])
            c.oblige('post', name + ': returns the object', B(isinstance(r, Ptr) and r.place == e['th']))
            w_ = spec(e['o'], *e['vals']); got = ex.load(e['th'])
            same_obj(c, name + ': nothing else changes', e['o'], got, w_.keys())
            for k, x in w_.items():
                y = got.f.get(k)
                if isinstance(x, Rec): same_any(c, name + ': ' + k, y, TRUE, ty, x.f['val'])
                elif isinstance(x, T): c.oblige('post', name + ': ' + k, Eq(x, y) if isinstance(y, T) and y.sort == x.sort else FALSE)
                else: c.oblige('post', name + ': ' + k, B(x is y))
        return Task(name, m, nd, setup, post)
    T_.tus = ['inst']; return T_
def sets(ty):
    a = lambda v: any_rec(TRUE, ty, v)
    return [('default_value', lambda o, v: dict(m_default_value=a(v), m_default_value_as_text=txt_of(ty, v)), 1), ('default_value', lambda o, v, t: dict(m_default_value=a(v), m_default_value_as_text=t), 2),
            ('implicit_value', lambda o, v: dict(m_implicit_value=a(v), m_implicit_value_as_text=txt_of(ty, v)), 1), ('implicit_value', lambda o, v, t: dict(m_implicit_value=a(v), m_implicit_value_as_text=t), 2),
            ('value_name', lambda o, v: dict(m_value_name=v), 1), ('notifier', lambda o, f: dict(m_notifier=f), 1), ('composing', lambda o: dict(m_composing=TRUE), 0), ('multitoken', lambda o: dict(m_multitoken=TRUE), 0),
            ('zero_tokens', lambda o: dict(m_zero_tokens=TRUE), 0), ('required', lambda o: dict(m_required=TRUE), 0)]
def mk_default(ty, w):
    name = 'typed_value<%s>::apply_default' % tv_cls(ty, w)
    def T_(prog):
        m = mach(prog); nd = tv_fn(prog, 'apply_default', ty, w)
        def setup(ex):
            o = tv_obj(ex, ty); th = ex.new_cell('this', o); a = sym_any(ex, ty); p = ex.new_cell('store', a); return dict(this=th, args=[p], o=o, th=th, a=a, p=p)
        def post(ex, out, e):
            c = ex.c; d = e['o'].f['m_default_value']; got = ex.load(e['p'])
            if out[0] != 'return': c.oblige('post', name + ': does not throw', FALSE); return
            c.oblige('post', name + ': success exactly if there is a default', Eq(ex.truth(out[1]), d.f['full']))
            if c.branch(d.f['full']): same_any(c, name + ': stores the default', got, TRUE, ty, d.f['val'])
            else: unchanged(c, name + ': without a default changes nothing', got, e['a'])
            same_obj(c, name + ': the declaration is unchanged', e['o'], ex.load(e['th']))
        return Task(name, m, nd, setup, post)
    T_.tus = ['inst']; return T_
def mk_notify(ty, w):
    name = 'typed_value<%s>::notify' % tv_cls(ty, w)
    def T_(prog):
        m = mach(prog); nd = tv_fn(prog, 'notify', ty, w)
        def setup(ex):
            c = ex.c; a = any_rec(TRUE, ty, c.fresh('final', SORTS[ty])); c.tag = dict(calls=[])
            st = ex.new_cell('bound', c.fresh('old', SORTS[ty])) if c.choose(2) else None
            def call(ex, args):
                ex.c.tag['calls'].append((ex.load(args[0]), ex.load(st) if st else None))
                if ex.c.choose(2): raise CppThrow(lib.exc_value('runtime_error', what=ex.c.fresh('what', 'S')))
            f = Fn('abstract', call=call, name='notifier') if c.choose(2) else Fn('none')
            o = tv_obj(ex, ty, Ptr(st) if st else NULL, f); th = ex.new_cell('this', o); p = ex.new_cell('store', a)
            return dict(this=th, args=[p], o=o, th=th, a=a, p=p, st=st, f=f, old=ex.load(st) if st else None)
        def post(ex, out, e):
            c = ex.c; calls = c.tag['calls']; v = e['a'].f['val']
            if out[0] == 'abort': c.oblige('post', name + ': no assertion fails', FALSE); return
            has = e['f'].kind != 'none'
            c.oblige('post', name + ': calls the notifier once if there is one', B(len(calls) == (1 if has else 0)))
            c.oblige('post', name + ': throws only what the notifier throws', B(out[0] == 'return' or (has and getattr(out[1], 'cls', '') == 'runtime_error')))
            for x, s in calls:
                c.oblige('post', name + ': the notifier gets the final value', Eq(x, v) if isinstance(x, T) and x.sort == v.sort else FALSE)
                if e['st']: c.oblige('post', name + ': the variable is assigned before the notifier is called', Eq(s, v))
            if e['st']: c.oblige('post', name + ': the bound variable gets the final value', Eq(ex.load(e['st']), v))
            unchanged(c, name + ': the value stays', ex.load(e['p']), e['a'])
            same_obj(c, name + ': the declaration is unchanged', e['o'], ex.load(e['th']))
        return Task(name, m, nd, setup, post)
    T_.tus = ['inst']; return T_
def fresh_obj(c, name, o, ty, st):
    """a typed_value as constructed: nothing declared"""
    x = o.f.get('m_store_to')
    c.oblige('post', name + ': bound to the variable given', B(x is NULL if st is None else isinstance(x, Ptr) and x.place == st))
def mk_ctor(ty, w):
    name = 'typed_value<%s>::typed_value' % tv_cls(ty, w)
    def T_(prog):
        m = mach(prog)
        def call(ex, e):
            p = ex.new_cell('made', Rec('typed_value', {k: ex.default_value(t) for k, t in (('m_value_name', 'std::string'), ('m_default_value', 'boost::any'), ('m_default_value_as_text', 'std::string'), ('m_implicit_value', 'boost::any'), ('m_implicit_value_as_text', 'std::string'))}))
            ex.run_ctor(nd, p, e['args']) if hasattr(ex, 'run_ctor') else ex.inline(nd, p, e['args'], nd)
            return p
        nd = tv_fn(prog, 'typed_value', ty, w, lambda n: n['kind'] == 'CXXConstructorDecl' and not n.get('isImplicit') and n['type']['qualType'].endswith('*)'))
        def setup(ex):
            c = ex.c; st = ex.new_cell('bound', c.fresh('old', SORTS[ty])) if c.choose(2) else None
            return dict(this=None, args=[Ptr(st) if st else NULL], st=st)
        def post(ex, out, e):
            if out[0] != 'return': ex.c.oblige('post', name + ': does not throw', FALSE); return
            declared(ex.c, name, ex.load(out[1]), ty, e['st'])
        t = Task(name, m, nd, setup, post); t.fn_call = call; return t
    T_.tus = ['inst']; return T_
def declared(c, name, o, ty, st, **but):
    """what a new typed_value says, but for the fields given"""
    fresh_obj(c, name, o, ty, st)
    for k in FIELDS:
        w_ = B(but.get(k, False)); c.oblige('post', name + ': ' + k, Eq(o.f[k], w_) if k in o.f and isinstance(o.f[k], T) else FALSE)
    for k in ('m_default_value', 'm_implicit_value'):
        if k in but: same_any(c, name + ': ' + k, o.f[k], TRUE, ty, but[k])
        else: c.oblige('post', name + ': ' + k + ' is empty', tm.Not(o.f[k].f['full']))
    c.oblige('post', name + ': no value name', Eq(o.f['m_value_name'], S('')))
    c.oblige('post', name + ': no notifier', B(isinstance(o.f.get('m_notifier', Fn('none')), Fn) and o.f.get('m_notifier', Fn('none')).kind == 'none'))
def mk_value(fnname, nargs, w):
    name = '%s<int>/%d' % (fnname, nargs)
    def T_(prog):
        m = mach(prog); nd = [n for n in prog.function('program_options::' + fnname) if n.get('mangledName') and len([p for p in n['inner'] if p.get('kind') == 'ParmVarDecl']) == nargs][0]
        def setup(ex):
            c = ex.c; st = ex.new_cell('bound', c.fresh('old', 'I')) if nargs else None
            return dict(this=None, args=[Ptr(st)] if st else [], st=st)
        def post(ex, out, e):
            if out[0] != 'return' or not isinstance(ex.load(out[1]), Ptr): ex.c.oblige('post', name + ': returns a new typed_value', FALSE); return
            declared(ex.c, name, ex.load(ex.load(out[1]).place), 'int', e['st'])
        return Task(name, m, nd, setup, post)
    T_.tus = ['inst']; return T_
def mk_switch(nargs):
    name = 'bool_switch/%d' % nargs
    def T_(prog):
        m = mach(prog); nd = [n for n in prog.function('program_options::bool_switch') if len([p for p in n['inner'] if p.get('kind') == 'ParmVarDecl']) == nargs][0]
        def setup(ex):
            c = ex.c; st = ex.new_cell('bound', c.fresh('old', 'B')) if nargs and c.choose(2) else None
            return dict(this=None, args=([Ptr(st)] if st else [NULL]) if nargs else [], st=st)
        def post(ex, out, e):
            if out[0] != 'return' or not isinstance(ex.load(out[1]), Ptr): ex.c.oblige('post', name + ': returns a new typed_value', FALSE); return
            declared(ex.c, name, ex.load(ex.load(out[1]).place), 'bool', e['st'], m_zero_tokens=True, m_default_value=FALSE)
        return Task(name, m, nd, setup, post)
    T_.tus = ['value_semantic', 'inst']; return T_
def mk_untyped(meth, w_):
    name = 'untyped_value::' + meth
    def T_(prog):
        m = mach(prog); nd = uv_fn(prog, meth)
        def setup(ex):
            z = ex.c.fresh('zero', 'B'); a = sym_any(ex, 'string'); p = ex.new_cell('store', a)
            return dict(this=ex.new_cell('this', Rec('untyped_value', {'m_zero_tokens': z})), args=[p] if meth in ('apply_default', 'notify') else [], z=z, a=a, p=p)
        def post(ex, out, e):
            outcome_post(lambda ex, e: (w_ and V(w_(e['z'])), []), name)(ex, out, e); unchanged(ex.c, name + ': changes nothing', ex.load(e['p']), e['a'])
        return Task(name, m, nd, setup, post)
    T_.tus = ['value_semantic']; return T_
UN = [mk_untyped('min_tokens', lambda z: tm.Ite(z, I(0), I(1))), mk_untyped('max_tokens', lambda z: tm.Ite(z, I(0), I(1))), mk_untyped('is_composing', lambda z: FALSE), mk_untyped('is_required', lambda z: FALSE),
      mk_untyped('apply_default', lambda z: FALSE), mk_untyped('notify', None)]
T22 = [mk_get(k, f, t, w) for t, w in ALLT for k, f in GETS.items()] + [mk_default(t, w) for t, w in ALLT] + [mk_notify(t, w) for t, w in ALLT] + [mk_ctor(t, w) for t, w in ALLT]
T22 += [mk_set(k, f, t, w, n) for t, w in ALLT for k, f, n in sets(t)] + UN + [mk_switch(0), mk_switch(1)] + [mk_value(f, n, 0) for f in ('value', 'wvalue') for n in (0, 1)]
for i, t in enumerate(T22): globals()['T_22_%d' % i] = t

import g_values as gv
DEP = ['boost::any keeps exactly the value it is given; any_cast yields it for its type, otherwise null or bad_any_cast', 'boost::lexical_cast<T> is a function of the text that yields a T or throws bad_lexical_cast',
       'once one value of a list is invalid the list stays invalid (monotonicity of values_ok, tokens_ok)']
class P17(gv.C17):
    id = 'C17'; title = 'Validation of option values'
    tus = ['inst', 'value_semantic']
    tasks = [T_first, T_single, T_wsingle, T_bool, T_wbool, T_string, T_wstring, T_lex, T_wlex, T_opt, T_wopt, T_opts, T_optc, T_vint, T_vstr, T_vcus, T_wvint, T_wvstr, T_wvcus, T_uxparse] + XP + T_cvt
    extra_assumptions = DEP + ['std::tolower lower-cases A-Z only (C locale)', 'an application\'s own validator stores a value of its type or throws', 'the conversions between encodings are those of C16']
    proved = ('check_first_occurrence, get_single_string (narrow and wide)', 'validate for bool and string, narrow and wide', 'validate<T> (lexical_cast as an unspecified partial function), narrow and wide',
              'validate for vectors (of converted values, strings and of a type with its own validator): every value appended in order, nothing held is lost', 'validate for optionals', 'typed_value::xparse for 12 instantiations', 'untyped_value::xparse',
              'value_semantic_codecvt_helper<char|wchar_t>::parse: every token converted, in order')
class P22(gv.C22):
    id = 'C22'; title = 'Value declarations: token counts, defaults, notification'
    tus = ['inst', 'value_semantic']
    tasks = T22
    extra_assumptions = DEP[:2] + ['boost::function calls the function it holds once per call']
    proved = ('typed_value<T, charT> for T = int, string, bool and both character types: the constructor, every declaration call (what it changes and that it changes nothing else), min_tokens, max_tokens, is_composing, is_required, apply_default, notify',
              'untyped_value: all functions', 'bool_switch, value, wvalue')
PROPS = {'C17': P17, 'C22': P22}
