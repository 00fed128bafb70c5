"""Abstractions shared by the property modules: opaque observers of option descriptions and value semantics, the cmdline object."""
import term as tm
from term import *
import interp as ip
from interp import *
import sp
from sp import V, R, SpecThrow, Prec, Hom, fn, lift
import task as tk

declare_dt('P:option_description', [('null', 'B'), ('obj', ('U', 'OD'))])
DESC, OD, VS, POS = ('U', 'Desc'), ('U', 'OD'), ('U', 'VS'), ('U', 'Pos')
QS = ('Q', 'S')
declare_dt('option', [('string_key', 'S'), ('position_key', 'I'), ('value', QS), ('original_tokens', QS), ('unregistered', 'B'), ('case_insensitive', 'B')])
QO = ('Q', ('D', 'option'))
INT_MAX = 2**31 - 1

BITS = ['allow_long', 'allow_short', 'allow_dash_for_short', 'allow_slash_for_short', 'long_allow_adjacent', 'long_allow_next',
        'short_allow_adjacent', 'short_allow_next', 'allow_sticky', 'allow_guessing', 'long_case_insensitive', 'short_case_insensitive',
        'allow_long_disguise']
BIT = {b: 1 << i for i, b in enumerate(BITS)}

def mk_opt(key='', value=(), toks=(), pos=-1, unreg=False, ci=False, sym=False):
    r = R('option', string_key=key, position_key=pos, value=value, original_tokens=toks, unregistered=unreg, case_insensitive=ci)
    return V(sp.to_T(r, ('D', 'option'))) if sym else r
def S1(x): return x.t if isinstance(x, V) else S(x)

# ---- observers: symbolic = uninterpreted functions, concrete = delegated to the concrete description --------------
class Style:
    """13 style bits, symbolic (V) or concrete (bool)"""
    def __init__(self, bits): self.b = bits
    def __getattr__(self, k):
        try: return self.__dict__['b'][k]
        except KeyError: raise AttributeError(k)
    def term(self): return add(*[Ite(self.b[k].t if isinstance(self.b[k], V) else B(self.b[k]), I(BIT[k]), I(0)) for k in BITS])
    @staticmethod
    def of(n): return Style({k: bool(n & BIT[k]) for k in BITS})
    def num(self): return sum(BIT[k] for k in BITS if self.b[k])
def sym_style(ex, fixed={}):
    return Style({k: (fixed[k] if k in fixed else V(ex.c.fresh('st_' + k, 'B'))) for k in BITS})

def b2(x): return lift(x)
def o_find(desc, name, approx, lic, sic):
    """find_nothrow: option description pointer, or ambiguous_option"""
    if isinstance(desc, V):
        a = (desc, lift(name), lift(approx), lift(lic), lift(sic))
        if fn('fn_amb', 'B', *a): raise SpecThrow('ambiguous_option', alternatives=fn('fn_alts', QS, *a))
        return fn('fn_res', ('D', 'P:option_description'), *a)
    return desc.find_nothrow(name, approx, lic, sic)
def o_null(p): return p.null if isinstance(p, V) else p is None
def o_key(p, name): return fn('od_key', 'S', p.obj, lift(name)) if isinstance(p, V) else p.key(name)
def o_min(p): return fn('vs_min', 'I', fn('od_sem', VS, p.obj)) if isinstance(p, V) else p.min_tokens()
def o_max(p): return fn('vs_max', 'I', fn('od_sem', VS, p.obj)) if isinstance(p, V) else p.max_tokens()
for f in ('vs_min', 'vs_max'):
    FACTS[f] = lambda t: [Ge(t, I(0)), Le(t, I(2**32 - 1))]
    tm.NONNEG_FN.add(f)

# ---- contracts (callee side) ---------------------------------------------------------------------------------
def od_term(ex, this):
    v = ex.load(this)
    if isinstance(v, T) and v.sort == OD: return v
    if isinstance(v, T) and v.sort == ('D', 'P:option_description'): return sel(v, 'obj')
    raise Unsupported('option_description %r' % (v,))
def throw_spec(ex, e, sorts=None):
    """SpecThrow -> C++ exception value"""
    kw = {k: (v.t if isinstance(v, V) else S(v) if isinstance(v, str) else I(v) if isinstance(v, int) else v) for k, v in e.kw.items()}
    x = LIB.exc_value(e.cls, **kw)
    for k in LIB.CTX_FIELDS:        # unspecified details of the error are arbitrary
        if k in x.f and k not in kw: x = x.set(k, ex.c.fresh('any_' + k, x.f[k].sort))
    raise CppThrow(x)
def c_find_nothrow(ex, fn_, this, args):
    a = [ex.load(x) for x in args]
    d = ex.load(this)
    try: r = o_find(V(d), V(ex.to_term(a[0], 'S')), *[V(ex.truth(x)) for x in a[1:4]])
    except SpecThrow as e: throw_spec(ex, e)
    return r.t
def c_key(ex, fn_, this, args):
    return app('od_key', (od_term(ex, this), ex.to_term(args[0], 'S')), 'S')
def c_semantic(ex, fn_, this, args): return app('od_sem', (od_term(ex, this),), VS)
def c_min(ex, fn_, this, args): return app('vs_min', (ex.load(this),), 'I')
def c_max(ex, fn_, this, args): return app('vs_max', (ex.load(this),), 'I')

PO = 'boost::program_options::'
def Q(n): return n
def base_contracts():
    return {'program_options::options_description::find_nothrow': c_find_nothrow,
            'program_options::option_description::key': c_key,
            'program_options::option_description::semantic': c_semantic,
            'program_options::value_semantic::min_tokens': c_min,
            'program_options::value_semantic::max_tokens': c_max,
            'program_options::error_with_option_name::add_context': c_ctx('option_name', 'original_token', 'option_style'),
            'program_options::error_with_option_name::set_option_name': c_ctx('option_name'),
            'program_options::error_with_no_option_name::set_option_name': c_ctx(),
            'program_options::error_with_option_name::set_original_token': c_ctx('original_token'),
            'program_options::error_with_option_name::set_prefix': c_ctx('option_style')}
def c_ctx(*fields):
    """mutators of an error object (their effect on the message is C19)"""
    def f(ex, fn_, this, args):
        cur = ex.load(this)
        if cur.cls not in LIB.NO_CTX:
            for k, a in zip(fields, args):
                if k == 'option_name' and cur.cls in ('unknown_option', 'ambiguous_option', 'error_with_no_option_name'): continue
                cur = cur.set(k, ex.load(a))
        ex.store_to(this, cur)
    return f
def style_of(ex, this):
    b = ip.bit_atoms(ex.load(this).f['m_style'])
    if b is None: raise Unsupported('style value')
    return Style({k: V(b.get(i, FALSE)) for i, k in enumerate(BITS)})

def machine(prog, contracts=None, hooks=None):
    m = Machine(prog)
    m.class_sort.update({'options_description': DESC, 'option_description': OD, 'value_semantic': VS, 'positional_options_description': POS,
                         'basic_option<char>': ('D', 'option'), 'option': ('D', 'option'), 'program_options::option': ('D', 'option')})
    m.contracts.update(base_contracts())
    if contracts: m.contracts.update(contracts)
    if hooks: m.hooks.update(hooks)
    return m

def cmdline_obj(ex, style, args=None, desc=None):
    """the symbolic cmdline object"""
    c = ex.c
    d = ex.new_cell('desc', c.fresh('desc', DESC) if desc is None else desc)
    if args is None: args = c.fresh('args', QS)
    rec = Rec('cmdline', {'m_args': args, 'm_style': style.term(), 'm_allow_unregistered': c.fresh('allow_unreg', 'B'),
                          'm_desc': Ptr(d), 'm_positional': NULL, 'm_style_parser': Fn('none'), 'm_additional_parser': Fn('none')})
    return ex.new_cell('this', rec)
