"""Assumed contracts of the C++ standard library and Boost, as operations on terms."""
import term as tm
from term import *
import interp as ip
from interp import (Rec, Place, Ptr, NULL, It, Fn, CList, CMap, Opaque, NPOS, BIG, is_int, is_seq, Unsupported, CppThrow,
                    norm_type, split_targs, STR_TYPES, INT_TYPES, CHAR_TYPES, PathEnd, nul_at)

def note(ex, what): ex.m.lib_used.add(what)

def seqval(ex, x):
    v = ex.load(x)
    if is_seq(v): return v
    if isinstance(v, CList): return v
    raise Unsupported('sequence expected, got %r' % (v,))

def throw_std(ex, cls, what=''):
    raise CppThrow(Rec(cls, {'what': S(what)}))

# ---- lower casing ----------------------------------------------------------------------------
LENPRES.add('lower')
def _lower(s):
    if s.op == 'str':
        return S(''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in tm.val(s)))
    if s.op == 'app' and s.args[0] == 'lower': return s
    if s.op == 'cat': return cat('S', *[lower(x) for x in s.args])
    if s.op == 'sub': return sub(lower(s.args[0]), s.args[1], s.args[2])
    if s.op == 'seg': return tm.seg(lower(s.args[0]), s.args[1], s.args[2])
    return None
REWRITE['lower'] = _lower
def lower(s): return app('lower', (s,), 'S')
FACTS['lower'] = lambda t: [Eq(tm._mk('len', (t,), 'I'), len_(t.args[1])), Eq(Eq(t, S('')), Eq(t.args[1], S('')))]

# characters of a set
def inset(c, chars): return Or(*[Eq(c, S(x)) for x in chars])
# first / last position of a character (not) in a constant set; uninterpreted with their defining facts
def fff(s, chars): return app('first_not_of:' + chars, (s,), 'I')
def fln(s, chars): return app('last_not_of:' + chars, (s,), 'I')
def _notof_facts(kind, chars):
    def f(t):
        s = t.args[1]; i = t
        c = nth(s, i)
        a = fff(s, chars); b = fln(s, chars)
        return [Ge(i, I(-1)), Lt(i, len_(s)), Eq(Eq(a, I(-1)), Eq(b, I(-1))), Le(a, b),
                Implies(Ge(i, I(0)), And(Eq(len_(c), I(1)), Not(inset(c, chars)))),
                Implies(Eq(s, S('')), Eq(i, I(-1)))]
    return f
def ensure_notof(chars):
    for k in ('first_not_of:', 'last_not_of:'):
        if k + chars not in FACTS: FACTS[k + chars] = _notof_facts(k, chars)
def _rw_notof(kind, chars):
    def rw(s):
        if s.op == 'str':
            v = tm.val(s)
            ix = [i for i, c in enumerate(v) if c not in chars]
            return I((ix[0] if kind == 'first_not_of:' else ix[-1]) if ix else -1)
        return None
    return rw
def set_index(kind, s, chars):
    if kind + chars not in REWRITE:
        REWRITE[kind + chars] = _rw_notof(kind, chars); ensure_notof(chars)
    return app(kind + chars, (s,), 'I')

def pos_or_npos(ex, i):
    """library index (-1 = none) -> size_type (fork)"""
    if i.op == 'int': return i if tm.val(i) >= 0 else NPOS
    if ex.c.branch(Eq(i, I(-1))): return NPOS
    ex.c.assume(Ge(i, I(0)))
    return i

def find_str(ex, s, t, frm=I(0)):
    """size_type of the first occurrence of t in s"""
    i = index(s, t, frm)
    if i.op == 'int': return i if tm.val(i) >= 0 else NPOS
    if frm.op == 'int' and tm.val(frm) == 0:
        # exactness facts used by branches: contains <=> index >= 0
        if ex.c.branch(contains(s, t)):
            ex.c.assume(And(Ge(i, I(0)), Le(add(i, len_(t)), len_(s))))
            return i
        ex.c.assume(Eq(i, I(-1)))
        return NPOS
    return pos_or_npos(ex, i)

def substr(ex, s, pos, n):
    """std::string::substr"""
    ex_throw = Gt(pos, len_(s))
    if pos.op == 'int' and tm.val(pos) >= 2**62: 
        ex_throw = TRUE
    if ex_throw is not FALSE and ex.c.branch(ex_throw):
        throw_std(ex, 'out_of_range', 'substr')
    ls = len_(s)
    if n is None or n is NPOS or (n.op == 'int' and tm.val(n) >= BIG): n = sub_i(ls, pos)
    else:
        co, k = lin(n)
        if k >= 2**62: n = sub_i(ls, pos)
    return ex.c.slice(s, pos, n)

def rng(ex, a, b):
    """subsequence between two iterators"""
    a, b = ex.load(a), ex.load(b)
    if isinstance(a, T) and isinstance(b, T) and a.sort == 'S':
        raise Unsupported('pointer range')
    if isinstance(a, Ptr) and isinstance(b, Ptr): raise Unsupported('pointer range')
    if not isinstance(a, It): raise Unsupported('range of %r' % (a,))
    s = ex.load(a.place)
    if isinstance(s, CList):
        return CList(s.xs[tm.val(a.pos):tm.val(b.pos)])
    if not is_seq(s):
        h = ex.m.hooks.get('range')
        if h:
            r = h(ex, a, b)
            if r is not None: return r
        raise Unsupported('range in %r' % (s,))
    if a.rev or b.rev: raise Unsupported('reverse range')
    ex.safety('iterator range valid', And(Ge(a.pos, I(0)), Le(a.pos, b.pos), Le(b.pos, len_(s))))
    return ex.c.slice(s, a.pos, sub_i(b.pos, a.pos))

def as_elems(ex, x, sort):
    """sequence of the given sort from a value"""
    v = ex.load(x)
    return ex.to_term(v, sort)

# ---- construction ----------------------------------------------------------------------------
EXC_CTORS = {
    # class: fields in constructor order with defaults
    'unknown_option': [('original_token', '')],
    'ambiguous_option': [('alternatives', None)],
    'invalid_command_line_syntax': [('kind', None), ('option_name', ''), ('original_token', ''), ('option_style', 0)],
    'invalid_config_file_syntax': [('invalid_line', None), ('kind', None)],
    'invalid_syntax': [('kind', None), ('option_name', ''), ('original_token', ''), ('option_style', 0)],
    'too_many_positional_options_error': [],
    'invalid_command_line_style': [('msg', None)],
    'multiple_occurrences': [], 'multiple_values': [],
    'validation_error': [('kind', None), ('option_name', ''), ('original_token', ''), ('option_style', 0)],
    'invalid_option_value': [('value', None)], 'invalid_bool_value': [('value', None)],
    'required_option': [('original_token', None)],
    'error': [('msg', None)], 'reading_file': [('filename', None)],
    'logic_error': [('what', None)], 'runtime_error': [('what', None)], 'out_of_range': [('what', None)],
    'escaped_list_error': [('what', None)], 'bad_any_cast': [], 'bad_lexical_cast': [],
}
CTX_FIELDS = {'option_name': S(''), 'original_token': S(''), 'option_style': I(0)}

def exc_value(cls, **kw):
    f = {}
    for n, d in EXC_CTORS[cls]:
        if n in kw: f[n] = kw[n]
        elif isinstance(d, str): f[n] = S(d)
        elif isinstance(d, int): f[n] = I(d)
    for k, v in CTX_FIELDS.items():
        if cls not in NO_CTX: f.setdefault(k, v)
    for k, v in kw.items(): f[k] = v
    return Rec(cls, f)
NO_CTX = {'too_many_positional_options_error', 'invalid_command_line_style', 'error', 'reading_file', 'logic_error', 'runtime_error',
          'out_of_range', 'escaped_list_error', 'bad_any_cast', 'bad_lexical_cast', 'invalid_config_file_syntax'}

def construct(ex, t, b, ta, args, node):
    c = ex.c
    if b == 'source_location': return Opaque('source location')
    if b == 'basic_string' or t in STR_TYPES or b in ('string', 'wstring'):
        vs = [ex.load(a) for a in args]
        vs = [v for v in vs if not isinstance(v, Opaque)]
        if not vs: return S('')
        if len(vs) == 1:
            if isinstance(vs[0], T) and vs[0].sort == 'S': return vs[0]
            if isinstance(vs[0], CList): return cat('S', *[ex.to_term(x, 'S') for x in vs[0].xs])
            if vs[0] is NULL: ex.c.oblige('safety', 'string from null', FALSE); raise PathEnd('null string')
        if len(vs) == 2 and isinstance(vs[0], It): return rng(ex, vs[0], vs[1])
        if len(vs) == 2 and is_int(vs[0]):
            n, ch = vs
            ch = ex.to_term(ch, 'S')
            return repeat(ex, n, ch)
        if len(vs) == 2 and isinstance(vs[0], T) and vs[0].sort == 'S':   # (string,pos) / (ptr,n)
            at0 = norm_type(ip.type_of(node['inner'][0])) if node else ''
            if at0.endswith('*') or at0.endswith(']'): return ex.c.slice(vs[0], I(0), vs[1])
            return substr(ex, vs[0], vs[1], None)
        if len(vs) == 3 and isinstance(vs[0], T) and vs[0].sort == 'S': return substr(ex, vs[0], vs[1], vs[2])
        raise Unsupported('string constructor %r' % (vs,))
    if b in ('vector', 'deque', 'list'):
        vs = [ex.load(a) for a in args]
        vs = [v for v in vs if not isinstance(v, Opaque)]
        try: es = ex.m.sort_of(ta[0])
        except Unsupported: es = None
        if not vs: return empty(('Q', es)) if es else CList(())
        if len(vs) == 1:
            if isinstance(vs[0], CList): return ex.to_term(vs[0], ('Q', es)) if es else vs[0]
            if is_seq(vs[0]): return vs[0]
            if is_int(vs[0]) and vs[0].op == 'int' and tm.val(vs[0]) <= 16:
                return cat(('Q', es), *[unit(ex.to_term(ex.default_value(ta[0]), es)) for _ in range(tm.val(vs[0]))])
        if len(vs) == 2:
            if isinstance(vs[0], It):
                r = rng(ex, vs[0], vs[1])
                return r
            if is_int(vs[0]) and vs[0].op == 'int' and tm.val(vs[0]) <= 16:
                return cat(('Q', es), *[unit(ex.to_term(vs[1], es)) for _ in range(tm.val(vs[0]))])
            if isinstance(vs[0], CList): return vs[0]
        raise Unsupported('vector constructor %r' % (vs,))
    if b == 'initializer_list': return ex.load(args[0])
    if b == 'shared_ptr' or b == 'unique_ptr':
        if not args: return ex.default_value(t)
        v = ex.load(args[0])
        if v is NULL: return ex.default_value(t)
        return v
    if b in ('function', 'function0', 'function1', 'function2'):
        if not args: return Fn('none')
        v = ex.load(args[0])
        if v is NULL or is_int(v): return Fn('none')
        return v
    if b in ('basic_stringstream', 'basic_ostringstream', 'stringstream', 'ostringstream'):
        init = ex.load(args[0]) if args and isinstance(ex.load(args[0]), T) and ex.load(args[0]).sort == 'S' else S('')
        return Rec('ostream', {'buf': init})
    if b in ('basic_istringstream', 'istringstream'):
        return Rec('istream', {'rest': ex.to_term(args[0], 'S'), 'eof': FALSE, 'fail': FALSE, 'k': I(0)})
    if b == 'ostream_iterator': return Opaque_os(ex, args)
    if b == 'reverse_iterator':
        v = ex.load(args[0])
        if isinstance(v, It): return It(v.place, v.pos, True)
    if b in ('__normal_iterator', '_Rb_tree_const_iterator', '_Rb_tree_iterator') and not args: return Opaque('singular iterator')
    if b == '__normal_iterator':
        v = ex.load(args[0])
        if isinstance(v, It): return v
    if b == 'pair' and len(args) == 2:
        return Rec('pair', {'first': ex.load(args[0]), 'second': ex.load(args[1])})
    if b == 'pair' and not args and ta: return ex.default_value(t)
    if b == 'pair' and len(args) == 1: return ex.load(args[0])
    if b in ('map', 'set') and not args: return ex.default_value(t)
    if b == 'map' and len(args) == 1: return ex.load(args[0])
    if b == 'any':
        if not args: return Rec('any', {'full': FALSE})
        v = ex.load(args[0])
        h = ex.m.hooks.get('any')
        if h: return h(ex, v, node)
    if ex.m.exc_opaque and b in EXC_CTORS:
        vs = [ex.load(a) for a in args]
        if len(vs) == 1 and isinstance(vs[0], Rec) and vs[0].cls == b: return vs[0]
        kw = {}
        vs = [v for v in vs if not isinstance(v, Opaque)]
        for (n, d), v in zip(EXC_CTORS[b], vs):
            if v is NULL: v = S('')
            kw[n] = v
        return exc_value(b, **kw)
    if len(args) == 1 and isinstance(ex.load(args[0]), Rec) and ex.load(args[0]).cls == b: return ex.load(args[0])
    return None

def Opaque_os(ex, args):
    p = args[0]
    if isinstance(p, Place): return Rec('osit', {'os': Ptr(p)})
    raise Unsupported('ostream_iterator')

def repeat(ex, n, ch):
    if n.op == 'int':
        if tm.val(n) <= 4096 and ch.op == 'str': return S(tm.val(ch) * tm.val(n))
        if tm.val(n) <= 8: return cat('S', *[ch] * tm.val(n))
    if ch.op == 'str': return rep_term(tm.val(ch), n)
    raise Unsupported('string(n,c) with symbolic n and c')
# string of n copies of a constant character
def rep_term(ch, n):
    nm = 'rep:' + ch
    if nm not in FACTS:
        FACTS[nm] = lambda t: [Eq(tm._mk('len', (t,), 'I'), max_(t.args[1], I(0))), ] + \
            ([Implies(Ge(t.args[1], I(1)), Eq(t, cat('S', app(nm, (sub_i(t.args[1], I(1)),), 'S'), S(ch))))] if t.args[1].op != 'lin' or lin(t.args[1])[1] >= 0 else [])
        REWRITE[nm] = lambda n: S(ch * max(0, tm.val(n))) if n.op == 'int' and tm.val(n) < 2000 else None
    return app(nm, (n,), 'S')

# ---- iterators -------------------------------------------------------------------------------
def it_op(ex, op, a, b):
    if isinstance(a, It) and isinstance(b, It):
        if a.place != b.place: raise Unsupported('iterators into different containers')
        if op == '-': return sub_i(b.pos, a.pos) if a.rev else sub_i(a.pos, b.pos)
        x, y = (b.pos, a.pos) if a.rev else (a.pos, b.pos)
        return {'<': Lt(x, y), '>': Lt(y, x), '<=': Le(x, y), '>=': Le(y, x)}[op]
    if isinstance(a, It) and op in ('+', '-'):
        n = ex.num(b)
        return ex.it_add(a, n if op == '+' else neg(n))
    if isinstance(b, It) and op == '+': return ex.it_add(b, ex.num(a))
    raise Unsupported('iterator operation ' + op)

# ---- member functions ------------------------------------------------------------------------
def method(ex, b, cur, nm, args, n):
    note(ex, 'member ' + nm)
    if isinstance(cur, T) and isinstance(cur.sort, tuple) and (cur.sort[0] == 'D' or cur.sort[0] == 'U'):
        # smart pointer to a value
        if nm == 'get':
            if cur.sort[0] == 'D' and cur.sort[1].startswith('P:'): return cur
            pn = 'P:' + cur.sort[1]
            if pn in DT: return mk(pn, null=FALSE, obj=cur)
            return cur
        if nm.startswith('operator bool') or nm == 'operator bool': return ex.truth(cur)
        h = ex.m.hooks.get('value_method')
        if h:
            r = h(ex, b, cur, nm, args, n)
            if r is not None: return r[0]
        raise Unsupported('method %s on %s' % (nm, cur.sort))
    if isinstance(cur, It):
        if nm == 'base': return It(cur.place, cur.pos, False)
        if nm.startswith('operator'): return ex.deref_it(cur)
    if isinstance(cur, Ptr) or cur is NULL:
        if nm in ('get', 'operator->'): return cur
        if nm.startswith('operator bool'): return ex.truth(cur)
        if nm == 'reset': ex.store_to(b, ex.load(args[0]) if args else NULL); return None
        raise Unsupported('method %s on pointer' % nm)
    if isinstance(cur, Fn):
        if nm == 'empty': return Not(ex.truth(cur))
        if nm.startswith('operator'): return ex.truth(cur)
        if nm == 'clear': ex.store_to(b, Fn('none')); return None
    if isinstance(cur, Rec):
        r = rec_method(ex, b, cur, nm, args, n)
        if r is not NotImplemented: return r
    if isinstance(cur, CList): return clist_method(ex, b, cur, nm, args, n)
    if isinstance(cur, CMap): return cmap_method(ex, b, cur, nm, args, n)
    if is_seq(cur):
        return str_method(ex, b, cur, nm, args, n) if cur.sort == 'S' else vec_method(ex, b, cur, nm, args, n)
    h = ex.m.hooks.get('value_method')
    if h:
        r = h(ex, b, cur, nm, args, n)
        if r is not None: return r[0]
    raise Unsupported('method %s on %r' % (nm, cur))

def rec_method(ex, b, cur, nm, args, n):
    if nm == 'what' and 'what' in cur.f: return cur.f['what']
    if nm == 'add_context' and len(args) == 3:
        v = cur
        for f, a in zip(('option_name', 'original_token', 'option_style'), args): v = v.set(f, ex.load(a))
        ex.store_to(b, v); return None
    if nm == 'set_option_name': ex.store_to(b, cur.set('option_name', ex.load(args[0]))); return None
    if cur.cls == 'ostream':
        if nm == 'put':
            ex.store_to(b, cur.set('buf', cat2(cur.f['buf'], ex.to_term(args[0], 'S')))); return b
        if nm == 'str':
            if args: ex.store_to(b, cur.set('buf', ex.load(args[0]))); return None
            return cur.f['buf']
        if nm == 'write':
            ex.store_to(b, cur.set('buf', cat2(cur.f['buf'], ex.c.slice(ex.to_term(args[0], 'S'), I(0), ex.load(args[1]))))); return b
    if cur.cls == 'istream' and nm.startswith('operator bool'): return Not(cur.f['fail'])
    if cur.cls == 'any' and nm == 'empty': return Not(cur.f['full'])
    if cur.cls == 'set':
        if nm == 'insert' and len(args) == 1:
            h = ex.m.hooks.get('set_insert')
            if h: return h(ex, b, cur, args)
    h = ex.m.hooks.get('value_method')
    if h:
        r = h(ex, b, cur, nm, args, n)
        if r is not None: return r[0]
    return NotImplemented

def clist_method(ex, b, cur, nm, args, n):
    xs = cur.xs
    if nm in ('size', 'length'): return I(len(xs))
    if nm == 'empty': return B(not xs)
    if nm in ('push_back', 'emplace_back'):
        ex.store_to(b, CList(xs + (ex.load(args[0]),))); return b.sub(('n', I(len(xs))))
    if nm == 'begin' or nm == 'cbegin': return It(b, I(0))
    if nm == 'end' or nm == 'cend': return It(b, I(len(xs)))
    if nm == 'clear': ex.store_to(b, CList(())); return None
    if nm in ('front', 'back'): return b.sub(('n', I(0 if nm == 'front' else len(xs) - 1)))
    if nm in ('reserve',): return None
    if nm == 'at': return b.sub(('n', ex.load(args[0])))
    raise Unsupported('method %s on concrete list' % nm)

def cmap_method(ex, b, cur, nm, args, n):
    if nm == 'count':
        k = ex.load(args[0])
        if isconst(k): return I(1 if tm.val(k) in cur.d else 0)
        raise Unsupported('count with symbolic key')
    if nm == 'find':
        k = ex.load(args[0])
        if isconst(k):
            ks = sorted(cur.d)
            return Rec('mapit', {'map': Ptr(b), 'ix': I(ks.index(tm.val(k)) if tm.val(k) in cur.d else len(ks))})
    if nm in ('begin', 'cbegin'): return Rec('mapit', {'map': Ptr(b), 'ix': I(0)})
    if nm in ('end', 'cend'): return Rec('mapit', {'map': Ptr(b), 'ix': I(len(cur.d))})
    if nm == 'size': return I(len(cur.d))
    if nm == 'empty': return B(not cur.d)
    if nm == 'clear': ex.store_to(b, CMap({})); return None
    raise Unsupported('map method ' + nm)

def common_seq(ex, b, cur, nm, args, n):
    """methods shared by strings and vectors"""
    if nm in ('size', 'length'): return len_(cur)
    if nm == 'empty': return Eq(len_(cur), I(0))
    if nm in ('begin', 'cbegin'): return It(b, I(0))
    if nm in ('end', 'cend'): return It(b, len_(cur))
    if nm in ('rbegin', 'crbegin'): return It(b, len_(cur), True)
    if nm in ('rend', 'crend'): return It(b, I(0), True)
    if nm == 'clear': ex.store_to(b, empty(cur.sort)); return None
    if nm in ('reserve', 'shrink_to_fit'): return None
    if nm in ('front', 'back'):
        ex.safety(nm + '() of a non-empty container', Gt(len_(cur), I(0)))
        return b.sub(('n', I(0) if nm == 'front' else sub_i(len_(cur), I(1))))
    if nm == 'at':
        i = ex.num(ex.load(args[0]))
        if not ex.c.branch(And(Ge(i, I(0)), Lt(i, len_(cur)))): throw_std(ex, 'out_of_range', 'at')
        return b.sub(('n', i))
    if nm == 'swap':
        o = args[0]; v = ex.load(o)
        ex.store_to(o, cur); ex.store_to(b, ex.to_term(v, cur.sort)); return None
    if nm == 'pop_back':
        ex.safety('pop_back of a non-empty container', Gt(len_(cur), I(0)))
        ex.store_to(b, ex.c.slice(cur, I(0), sub_i(len_(cur), I(1)))); return None
    if nm == 'erase' and args and isinstance(ex.load(args[0]), It):
        a = ex.load(args[0])
        if a.rev: raise Unsupported('erase by reverse iterator')
        if len(args) == 1:
            ex.safety('erase position in range', And(Ge(a.pos, I(0)), Lt(a.pos, len_(cur))))
            k = I(1)
        else:
            z = ex.load(args[1])
            ex.safety('erase range valid', And(Ge(a.pos, I(0)), Le(a.pos, z.pos), Le(z.pos, len_(cur))))
            k = sub_i(z.pos, a.pos)
        e = add(a.pos, k)
        ex.store_to(b, cat2(ex.c.slice(cur, I(0), a.pos), ex.c.slice(cur, e, sub_i(len_(cur), e))))
        return It(b, a.pos)
    return NotImplemented

# n copies of x
def fill(x, n): return app('rep', (x, n), ('Q', x.sort))
def _fill_facts(t):
    x, n = t.args[1:]
    out = [Eq(len_(t), max_(n, I(0))), Implies(Le(n, I(0)), Eq(t, empty(t.sort)))]
    if lin(n)[1] >= 1 or n.op == 'var': out.append(Implies(Ge(n, I(1)), Eq(t, cat2(fill(x, sub_i(n, I(1))), unit(x)))))
    return out
FACTS['rep'] = _fill_facts
def _fill_rw(x, n):
    if n.op == 'int' and tm.val(n) <= 16: return cat(('Q', x.sort), *[unit(x)] * max(0, tm.val(n)))
REWRITE['rep'] = _fill_rw
def vec_method(ex, b, cur, nm, args, n):
    r = common_seq(ex, b, cur, nm, args, n)
    if r is not NotImplemented: return r
    es = cur.sort[1]
    if nm in ('push_back', 'emplace_back'):
        if not args: x = ex.to_term(ex.blank(es[1]) if isinstance(es, tuple) else ex.default_value('int'), es)
        else: x = ex.to_term(args[0], es)
        ex.store_to(b, cat2(cur, unit(x)))
        return b.sub(('n', len_(cur)))
    if nm == 'insert':
        p = ex.load(args[0])
        if len(args) == 2: ins = unit(ex.to_term(args[1], es))
        elif len(args) == 3 and isinstance(ex.load(args[1]), It): ins = ex.to_term(rng(ex, args[1], args[2]), cur.sort)
        elif len(args) == 3:
            k = ex.load(args[1])
            ins = fill(ex.to_term(args[2], es), k)
        ex.safety('insert position in range', And(Ge(p.pos, I(0)), Le(p.pos, len_(cur))))
        ex.store_to(b, cat(cur.sort, ex.c.slice(cur, I(0), p.pos), ins, ex.c.slice(cur, p.pos, sub_i(len_(cur), p.pos))))
        return It(b, p.pos)
    if nm == 'assign':
        if len(args) == 2 and isinstance(ex.load(args[0]), It): ex.store_to(b, ex.to_term(rng(ex, args[0], args[1]), cur.sort)); return None
        if len(args) == 1: ex.store_to(b, ex.to_term(args[0], cur.sort)); return None
        if len(args) == 2 and is_int(ex.load(args[0])) and ex.load(args[0]).op == 'int' and tm.val(ex.load(args[0])) <= 16:
            x = ex.to_term(args[1], es)
            ex.store_to(b, cat(cur.sort, *[unit(x)] * tm.val(ex.load(args[0])))); return None
    if nm == 'resize':
        k = ex.load(args[0])
        if ex.c.branch(Le(k, len_(cur))): ex.store_to(b, ex.c.slice(cur, I(0), k)); return None
        d = ex.to_term(args[1], es) if len(args) > 1 else S('') if es == 'S' else None
        if d is not None: ex.store_to(b, cat2(cur, fill(d, sub_i(k, len_(cur))))); return None
    raise Unsupported('vector::' + nm)

def str_method(ex, b, cur, nm, args, n):
    vs = [ex.load(a) for a in args]
    if nm in ('append', 'push_back', 'assign', 'insert', 'replace', 'find', 'rfind', 'compare', 'find_first_of', 'find_last_of',
              'find_first_not_of', 'find_last_not_of'):
        vs = [v for v in vs if not isinstance(v, Opaque)]
    if nm == 'erase' and vs and not isinstance(vs[0], It):
        p = vs[0]
        if ex.c.branch(Gt(p, len_(cur))): throw_std(ex, 'out_of_range', 'erase')
        k = vs[1] if len(vs) > 1 and not (vs[1].op == 'int' and tm.val(vs[1]) >= BIG) else sub_i(len_(cur), p)
        if ex.c.branch(Le(add(p, k), len_(cur))): e = add(p, k)
        else: e = len_(cur)
        ex.store_to(b, cat2(ex.c.slice(cur, I(0), p), ex.c.slice(cur, e, sub_i(len_(cur), e)))); return b
    r = common_seq(ex, b, cur, nm, args, n)
    if r is not NotImplemented: return r
    if nm in ('c_str', 'data'): return cur
    if nm == 'substr': return substr(ex, cur, vs[0] if vs else I(0), vs[1] if len(vs) > 1 else None)
    if nm == 'find':
        t = ex.to_term(vs[0], 'S')
        if len(vs) == 3: t = ex.c.slice(t, I(0), vs[2])
        return find_str(ex, cur, t, vs[1] if len(vs) > 1 else I(0))
    if nm == 'rfind':
        t = ex.to_term(vs[0], 'S')
        if len(vs) > 1 and vs[1].op == 'int' and tm.val(vs[1]) == 0:
            return I(0) if ex.c.branch(prefixof(t, cur)) else NPOS
        i = app('rindex', (cur, t), 'I')
        return pos_or_npos(ex, i)
    if nm in ('find_first_not_of', 'find_last_not_of') and len(vs) == 1 and vs[0].op == 'str':
        return pos_or_npos(ex, set_index(nm[5:] + ':', cur, tm.val(vs[0])))
    if nm == 'find_first_of' and len(vs) >= 1 and vs[0].op == 'str' and len(tm.val(vs[0])) == 1:
        return find_str(ex, cur, vs[0], vs[1] if len(vs) > 1 else I(0))
    if nm == 'compare':
        if len(vs) == 3 and vs[0] is I(0) and vs[1] is len_(vs[2]):
            return Ite(prefixof(vs[2], cur), I(0), Ite(str_lt(substr(ex, cur, vs[0], vs[1]), vs[2]), I(-1), I(1)))
        if len(vs) == 1: a, o = cur, vs[0]
        elif len(vs) == 3: a, o = substr(ex, cur, vs[0], vs[1]), vs[2]
        elif len(vs) == 4: a, o = substr(ex, cur, vs[0], vs[1]), ex.c.slice(vs[2], I(0), vs[3])
        elif len(vs) == 5: a, o = substr(ex, cur, vs[0], vs[1]), substr(ex, vs[2], vs[3], vs[4])
        else: raise Unsupported('compare')
        return Ite(Eq(a, o), I(0), Ite(str_lt(a, o), I(-1), I(1)))
    if nm in ('append', 'operator+='):
        if len(vs) == 1: x = ex.to_term(vs[0], 'S')
        elif len(vs) == 2 and is_int(vs[0]): x = repeat(ex, vs[0], ex.to_term(vs[1], 'S'))
        elif len(vs) == 2 and isinstance(vs[0], It): x = rng(ex, vs[0], vs[1])
        elif len(vs) == 2: x = ex.c.slice(vs[0], I(0), vs[1])
        elif len(vs) == 3: x = substr(ex, vs[0], vs[1], vs[2])
        else: raise Unsupported('append')
        ex.store_to(b, cat2(cur, x)); return b
    if nm == 'push_back':
        ex.store_to(b, cat2(cur, ex.to_term(vs[0], 'S'))); return None
    if nm == 'assign':
        if len(vs) == 1: x = ex.to_term(vs[0], 'S')
        elif len(vs) == 2 and isinstance(vs[0], It): x = rng(ex, vs[0], vs[1])
        elif len(vs) == 2 and is_int(vs[0]): x = repeat(ex, vs[0], vs[1])
        elif len(vs) == 3: x = substr(ex, vs[0], vs[1], vs[2])
        elif len(vs) == 2:
            at0 = norm_type(ip.type_of(n['inner'][1]))
            x = ex.c.slice(vs[0], I(0), vs[1]) if at0.endswith('*') else substr(ex, vs[0], vs[1], None)
        else: raise Unsupported('assign')
        ex.store_to(b, x); return b
    if nm == 'insert':
        if isinstance(vs[0], It): p = vs[0].pos; x = ex.to_term(vs[-1], 'S') if len(vs) == 2 else repeat(ex, vs[1], vs[2]); ret = It(b, p)
        else:
            p = vs[0]; ret = b
            x = ex.to_term(vs[1], 'S') if len(vs) == 2 else (repeat(ex, vs[1], vs[2]) if is_int(vs[1]) else ex.c.slice(vs[1], I(0), vs[2]))
        if ex.c.branch(Gt(p, len_(cur))): throw_std(ex, 'out_of_range', 'insert')
        ex.store_to(b, cat('S', ex.c.slice(cur, I(0), p), x, ex.c.slice(cur, p, sub_i(len_(cur), p))))
        return ret
    if nm == 'replace':
        p, k, x = vs[0], vs[1], ex.to_term(vs[2], 'S')
        if isinstance(p, It): raise Unsupported('replace by iterator')
        if ex.c.branch(Gt(p, len_(cur))): throw_std(ex, 'out_of_range', 'replace')
        e = add(p, k)
        if not ex.c.branch(Le(e, len_(cur))): e = len_(cur)
        ex.store_to(b, cat('S', ex.c.slice(cur, I(0), p), x, ex.c.slice(cur, e, sub_i(len_(cur), e)))); return b
    if nm == 'resize':
        k = vs[0]
        if ex.c.branch(Le(k, len_(cur))): ex.store_to(b, ex.c.slice(cur, I(0), k)); return None
        ch = vs[1] if len(vs) > 1 else S('\0')
        ex.store_to(b, cat2(cur, repeat(ex, sub_i(k, len_(cur)), ch))); return None
    if nm in ('capacity', 'max_size'): return I(2**62)
    raise Unsupported('string::' + nm)

# ---- operators -------------------------------------------------------------------------------
def oper(ex, op, args, n):
    note(ex, 'operator' + op)
    vals = [ex.load(a) for a in args]
    if op == '=':
        v = vals[1]
        cur = vals[0]
        if isinstance(v, T) and isinstance(cur, T) and cur.sort != v.sort:
            if isinstance(cur.sort, tuple) and cur.sort[0] == 'D' and cur.sort[1].startswith('P:'):
                v = mk(cur.sort[1], null=FALSE, obj=v)
            else: v = ex.to_term(v, cur.sort)
        if isinstance(v, CList) and isinstance(cur, T): v = ex.to_term(v, cur.sort)
        if isinstance(cur, T) and isinstance(cur.sort, tuple) and cur.sort[0] == 'D' and cur.sort[1].startswith('P:') and v is NULL:
            v = mk(cur.sort[1], null=TRUE, obj=sel(cur, 'obj'))
        if isinstance(v, Rec) and v.cls == 'mapit' or isinstance(v, It) or True: pass
        h = ex.m.hooks.get('assign')
        if h:
            r = h(ex, args[0], cur, v)
            if r is not None: return args[0]
        if isinstance(cur, Rec) and cur.cls == 'osit': return args[0]
        ex.store_to(args[0], v)
        return args[0]
    if op in ('==', '!='):
        a, b = vals
        if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == 'mapit':
            r = B(True) if a.f['ix'] is b.f['ix'] else Eq(a.f['ix'], b.f['ix'])
        else: r = ex.equal(a, b)
        return r if op == '==' else Not(r)
    if op == '+':
        a, b = vals
        if isinstance(a, It) or isinstance(b, It): return it_op(ex, '+', a, b)
        a = ex.to_term(a, 'S'); b = ex.to_term(b, 'S')
        return cat2(a, b)
    if op == '-' and isinstance(vals[0], It): return it_op(ex, '-', vals[0], vals[1])
    if op == '+=':
        cur, v = vals
        if isinstance(cur, It): ex.store_to(args[0], ex.it_add(cur, ex.num(v))); return args[0]
        if is_seq(cur) and cur.sort == 'S': ex.store_to(args[0], cat2(cur, ex.to_term(v, 'S'))); return args[0]
    if op == '-=' and isinstance(vals[0], It):
        ex.store_to(args[0], ex.it_add(vals[0], neg(ex.num(vals[1])))); return args[0]
    if op == '[]':
        cur, i = vals
        if isinstance(cur, CList): 
            if i.op != 'int': raise Unsupported('symbolic index of concrete list')
            return args[0].sub(('n', i))
        if isinstance(cur, It): return ex.deref_it(It(cur.place, add(cur.pos, i), cur.rev))
        if isinstance(cur, T) and cur.sort == 'S':
            i = ex.num(i)
            ex.safety('string index in range', And(Ge(i, I(0)), Le(i, len_(cur))))
            if i is len_(cur): return S('\0')
            if not isinstance(args[0], Place): return seg(cur, i, I(1))
            return args[0].sub(('n', i))
        if is_seq(cur):
            i = ex.num(i)
            ex.safety('vector index in range', And(Ge(i, I(0)), Lt(i, len_(cur))))
            p = args[0] if isinstance(args[0], Place) else ex.new_cell('tmpv%d' % cur.id, cur)
            return p.sub(('n', i))
        if isinstance(cur, CMap):
            k = i
            if not isconst(k): raise Unsupported('symbolic key')
            if tm.val(k) not in cur.d:
                d = dict(cur.d)
                d[tm.val(k)] = ex.m.hooks['map_default'](ex, cur) if 'map_default' in ex.m.hooks else S('')
                ex.store_to(args[0], CMap(d))
            return args[0].sub(('k', k))
    if op in ('*', '->'):
        v = vals[0]
        if op == '*' and isinstance(v, Rec) and v.cls == 'osit': return args[0]
        if op == '*' or op == '->':
            if isinstance(v, Rec) and v.cls == 'mapit':
                mp = v.f['map'].place; m = ex.load(mp)
                ks = sorted(m.d); ix = tm.val(v.f['ix'])
                if ix >= len(ks): ex.c.oblige('safety', 'map iterator dereferenceable', FALSE); raise PathEnd('map end')
                return Ptr(ex.new_cell('mapitem:%s:%d' % (mp, ix), Rec('pair', {'first': S(ks[ix]), 'second': m.d[ks[ix]]}))) if op == '->' \
                    else ex.new_cell('mapitem:%s:%d' % (mp, ix), Rec('pair', {'first': S(ks[ix]), 'second': m.d[ks[ix]]}))
            if op == '->':
                if isinstance(v, It): return Ptr(ex.deref_it(v))
                return v
            return ex.deref(v)
    if op in ('++', '--'):
        v = vals[0]
        k = 1 if op == '++' else -1
        if isinstance(v, Rec) and v.cls == 'osit': return args[0]
        if isinstance(v, It):
            ex.store_to(args[0], ex.it_add(v, k))
            return v if len(args) > 1 else args[0]
        if isinstance(v, Rec) and v.cls == 'mapit':
            ex.store_to(args[0], v.set('ix', add(v.f['ix'], I(k))))
            return v if len(args) > 1 else args[0]
    if op in ('<', '>', '<=', '>='):
        a, b = vals
        if isinstance(a, It): return it_op(ex, op, a, b)
        return ex.binop(op, a, b, '', '')
    if op == '<<':
        cur, v = vals
        if isinstance(cur, Rec) and cur.cls == 'ostream':
            if isinstance(v, (Fn, Opaque)): raise Unsupported('stream manipulator')
            if is_int(v): raise Unsupported('integer output')
            ex.store_to(args[0], cur.set('buf', cat2(cur.f['buf'], ex.to_term(v, 'S'))))
            return args[0]
    if op == '!':
        return Not(ex.truth(vals[0]))
    if op == 'bool': return ex.truth(vals[0])
    raise Unsupported('operator%s on %r' % (op, vals))

# ---- free functions --------------------------------------------------------------------------
def free(ex, nm, args, n):
    note(ex, nm)
    c = ex.c
    if nm == 'eq' and len(args) == 2:                 # char_traits::eq
        a, b = ex.load(args[0]), ex.load(args[1])
        if all(isinstance(x, T) for x in (a, b)): return Eq(a if a.sort == 'S' else ex.to_term(a, 'S'), b if b.sort == 'S' else ex.to_term(b, 'S'))
    if nm == 'throw_exception': raise CppThrow(ex.load(args[0]))
    if nm in ('move', 'forward', 'addressof', 'as_const', 'ref', 'cref'):
        if nm == 'addressof': return Ptr(args[0])
        return args[0]
    vals = None
    if nm in ('max', 'min') and not args:       # numeric_limits
        t = norm_type(ip.type_of(n))
        hi = {'unsigned int': 2**32 - 1, 'int': 2**31 - 1, 'unsigned long': 2**64 - 1, 'long': 2**63 - 1}
        if t in hi: return I(hi[t]) if nm == 'max' else I(0 if 'unsigned' in t else -hi[t] - 1)
        raise Unsupported('numeric_limits<%s>' % t)
    if nm in ('max', 'min'):
        a, b = ex.num(ex.load(args[0])), ex.num(ex.load(args[1]))
        first = c.branch(Le(b, a)) if nm == 'max' else c.branch(Le(a, b))
        return args[0] if first else args[1]
    if nm == 'tolower':
        v = ex.load(args[0])
        if isinstance(v, T) and v.sort == 'S': return lower(v)
        raise Unsupported('tolower of %r' % (v,))
    if nm == 'bind':
        f = ex.load(args[0])
        if isinstance(f, Fn) and f.kind == 'fun':
            rest = [a for a in args[1:]]
            node = f.d.get('node')
            if node is not None and node['kind'] == 'CXXMethodDecl':
                this = ex.load(rest[0])
                if isinstance(this, Ptr): return Fn('method', node=node, this=this.place, bound=[ex.load(x) if not isinstance(ex.load(x), T) else x for x in rest[1:]], name=node.get('name'))
    if nm == 'find' and len(args) == 3:
        a, z, x = ex.load(args[0]), ex.load(args[1]), ex.load(args[2])
        if isinstance(a, It):
            s = ex.load(a.place)
            if is_seq(s) and not a.rev:
                seg = rng(ex, a, z)
                x = ex.to_term(x, 'S' if s.sort == 'S' else s.sort[1])
                i = index(seg, x if s.sort == 'S' else unit(x), I(0))
                if c.branch(contains(seg, x if s.sort == 'S' else unit(x))):
                    c.assume(And(Ge(i, I(0)), Lt(i, len_(seg))))
                    return It(a.place, add(a.pos, i))
                return z
            if is_seq(s) and a.rev and s.sort == 'S' and x.op == 'str':
                # last occurrence in [z.pos, a.pos)
                ex.safety('iterator range valid', And(Ge(z.pos, I(0)), Le(z.pos, a.pos), Le(a.pos, len_(s))))
                seg = ex.c.slice(s, z.pos, sub_i(a.pos, z.pos))
                return It(a.place, add(z.pos, last_after(seg, tm.val(x))), True)
    if nm == 'count' and len(args) == 3:
        seg = rng(ex, args[0], args[1]); x = ex.load(args[2])
        if isinstance(seg, T) and seg.sort == 'S' and x.op == 'str': return count_of(seg, tm.val(x))
    if nm == 'distance':
        a, z = ex.load(args[0]), ex.load(args[1])
        if isinstance(a, It): return it_op(ex, '-', z, a)
    if nm == 'copy' and len(args) == 3:
        seg = rng(ex, args[0], args[1]); o = ex.load(args[2])
        if isinstance(o, Rec) and o.cls == 'osit':
            p = o.f['os'].place; os = ex.load(p)
            ex.store_to(p, os.set('buf', cat2(os.f['buf'], ex.to_term(seg, 'S')))); return o
        if isinstance(o, Rec) and o.cls == 'inserter':
            p = o.f['to'].place
            ex.store_to(p, cat2(ex.load(p), ex.to_term(seg, ex.load(p).sort))); return o
    if nm == 'back_inserter': return Rec('inserter', {'to': Ptr(args[0])})
    if nm == 'getline':
        return getline(ex, args)
    if nm in ('strlen',): return len_(ex.load(args[0]))
    if nm == 'swap':
        a, b = ex.load(args[0]), ex.load(args[1]); ex.store_to(args[0], b); ex.store_to(args[1], a); return None
    if nm in ('next', 'prev'):
        v = ex.load(args[0]); k = ex.num(ex.load(args[1])) if len(args) > 1 and not isinstance(ex.load(args[1]), Opaque) else I(1)
        if isinstance(v, It): return ex.it_add(v, k if nm == 'next' else neg(k))
    if nm == 'make_pair': return Rec('pair', {'first': ex.load(args[0]), 'second': ex.load(args[1])})
    if nm in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'size', 'empty'):
        return method(ex, args[0], ex.load(args[0]), nm, [], n)
    if nm in ('any_of', 'all_of', 'none_of', 'find_if', 'for_each', 'transform', 'equal', 'starts_with'):
        h = ex.m.hooks.get('algo')
        if h:
            r = h(ex, nm, args, n)
            if r is not None: return r[0]
        r = algo(ex, nm, args, n)
        if r is not None: return r[0]
    if nm.startswith('operator'): return oper(ex, nm[8:], args, n)
    raise Unsupported('library function %s' % nm)

def algo(ex, nm, args, n):
    return None

def getline(ex, args):
    """std::getline(istream, string[, delim])"""
    p, sp = args[0], args[1]
    st = ex.load(p)
    h = ex.m.hooks.get('getline')
    if h:
        r = h(ex, args)
        if r is not None: return r
    if not (isinstance(st, Rec) and st.cls == 'istream'): raise Unsupported('getline on %r' % (st,))
    delim = ex.load(args[2]) if len(args) > 2 else S('\n')
    c = ex.c
    rest = st.f['rest']
    if c.branch(Or(st.f['eof'], st.f['fail'])) or c.branch(Eq(rest, S(''))):
        ex.store_to(sp, S('') if not c.branch(Or(st.f['eof'], st.f['fail'])) else ex.load(sp))
        ex.store_to(p, st.set('fail', TRUE).set('eof', TRUE))
        return p
    if c.branch(contains(rest, delim)):
        i = index(rest, delim, I(0))
        c.assume(And(Ge(i, I(0)), Lt(i, len_(rest))))
        ex.store_to(sp, ex.c.slice(rest, I(0), i))
        ex.store_to(p, st.set('rest', ex.c.slice(rest, add(i, I(1)), sub_i(len_(rest), add(i, I(1))))))
    else:
        ex.store_to(sp, rest)
        ex.store_to(p, st.set('rest', S('')).set('eof', TRUE))
    return p

# index just after the last occurrence of ch in s, 0 if none
def last_after(s, ch):
    nm = 'last_after:' + ch
    if nm not in FACTS:
        def facts(t):
            x = t.args[1]
            return [Ge(t, I(0)), Le(t, len_(x)), Implies(Gt(t, I(0)), Eq(at(x, sub_i(t, I(1))), S(ch))),
                    Not(contains(sub(x, t, sub_i(len_(x), t)), S(ch)))]
        FACTS[nm] = facts; NONNEG_FN.add(nm)
        REWRITE[nm] = lambda x: I(tm.val(x).rfind(ch) + 1) if x.op == 'str' else None
    return app(nm, (s,), 'I')
def count_of(s, ch):
    nm = 'count:' + ch
    if nm not in FACTS:
        def facts(t):
            x = t.args[1]
            i = index(x, S(ch), I(0))
            r = sub(x, add(i, I(1)), sub_i(len_(x), add(i, I(1))))
            return [Ge(t, I(0)), Eq(Eq(t, I(0)), Not(contains(x, S(ch)))),
                    Implies(contains(x, S(ch)), Eq(Gt(t, I(1)), contains(r, S(ch))))]
        FACTS[nm] = facts; NONNEG_FN.add(nm)
        REWRITE[nm] = lambda x: I(tm.val(x).count(ch)) if x.op == 'str' else None
    return app(nm, (s,), 'I')
