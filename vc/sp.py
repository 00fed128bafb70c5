"""Specification language: the same Python functions run on concrete values (oracle) and on symbolic terms (contracts)."""
import term as tm
from term import T, I, B, S, Eq, Le, Lt, Ge, Gt
import lib

CUR = [None]           # current path (Ctx)

class SpecThrow(Exception):
    def __init__(self, cls, **kw):
        self.cls = cls; self.kw = kw
    def __repr__(self): return 'throw %s%r' % (self.cls, self.kw)

class V:
    """symbolic value"""
    __slots__ = ('t',)
    def __init__(self, t): self.t = t
    def __hash__(self): return self.t.id
    def __eq__(self, o): return V(Eq(self.t, to_T(o, self.t.sort)))
    def __ne__(self, o): return V(tm.Not(Eq(self.t, to_T(o, self.t.sort))))
    def __bool__(self): return CUR[0].branch(self.t)
    def __add__(self, o):
        if self.t.sort == 'I': return V(tm.add(self.t, to_T(o, 'I')))
        return V(tm.cat2(self.t, to_T(o, self.t.sort)))
    def __radd__(self, o):
        if self.t.sort == 'I': return V(tm.add(to_T(o, 'I'), self.t))
        return V(tm.cat2(to_T(o, self.t.sort), self.t))
    def __sub__(self, o): return V(tm.sub_i(self.t, to_T(o, 'I')))
    def __rsub__(self, o): return V(tm.sub_i(to_T(o, 'I'), self.t))
    def __mul__(self, o): return V(tm.mul(self.t, to_T(o, 'I')))
    def _cmp(self, o, f, g):
        if self.t.sort == 'S': return V(g(self.t, to_T(o, 'S')))
        return V(f(self.t, to_T(o, 'I')))
    def __lt__(self, o): return self._cmp(o, Lt, tm.str_lt)
    def __le__(self, o): return self._cmp(o, Le, tm.str_le)
    def __gt__(self, o): return self._cmp(o, Gt, lambda a, b: tm.str_lt(b, a))
    def __ge__(self, o): return self._cmp(o, Ge, lambda a, b: tm.str_le(b, a))
    def __getitem__(self, k):
        if isinstance(k, slice):
            a = to_T(0 if k.start is None else k.start, 'I')
            n = tm.len_(self.t) if k.stop is None else to_T(k.stop, 'I')
            return V(CUR[0].slice(self.t, a, tm.sub_i(n, a)))
        k = to_T(k, 'I')
        if self.t.sort == 'S': return V(CUR[0].slice(self.t, k, I(1)))
        return V(tm.nth(self.t, k))
    def __getattr__(self, f):
        if f.startswith('__'): raise AttributeError(f)
        return V(tm.sel(self.t, f))
    def __repr__(self): return 'V(%s)' % tm.show(self.t)
    def with_(self, **kw):
        t = self.t
        for k, v in kw.items(): t = tm.setf(t, k, to_T(v, tm.field_sort(t.sort[1], k)))
        return V(t)

class R:
    """concrete record"""
    def __init__(self, cls_, **f): self.__dict__['cls'] = cls_; self.__dict__['f'] = f
    def __getattr__(self, k):
        try: return self.__dict__['f'][k]
        except KeyError: raise AttributeError(k)
    def with_(self, **kw):
        d = dict(self.f); d.update(kw); return R(self.cls, **d)
    def __eq__(self, o): return isinstance(o, R) and self.cls == o.cls and self.f == o.f
    def __hash__(self): return hash((self.cls, tuple(sorted((k, repr(v)) for k, v in self.f.items()))))
    def __repr__(self): return '%s(%s)' % (self.cls, ', '.join('%s=%r' % p for p in self.f.items()))

def sym(*xs):
    for x in xs:
        if isinstance(x, (V, T)): return True
        if isinstance(x, (tuple, list)) and sym(*x): return True
        if isinstance(x, R) and sym(*x.f.values()): return True
    return False

def to_T(x, sort):
    if isinstance(x, V): x = x.t
    if isinstance(x, T):
        if x.sort != sort: raise TypeError('sort %s, expected %s: %s' % (x.sort, sort, tm.show(x)[:100]))
        return x
    if sort == 'B': return B(x)
    if sort == 'I': return I(x)
    if sort == 'S': return S(x)
    if sort[0] == 'Q': return tm.cat(sort, *[tm.unit(to_T(y, sort[1])) for y in x])
    if sort[0] == 'D' and isinstance(x, R):
        return tm.mk(sort[1], **{f: to_T(x.f[f], s) for f, s in tm.DT[sort[1]]})
    raise TypeError('cannot lift %r to %s' % (x, sort))

def ln(x): return V(tm.len_(x.t)) if isinstance(x, V) else len(x)
def empty(x):
    return V(Eq(tm.len_(x.t), I(0))) if isinstance(x, V) else len(x) == 0
def drop(x, k):
    if sym(x, k): return V(CUR[0].slice(x.t, to_T(k, 'I'), tm.sub_i(tm.len_(x.t), to_T(k, 'I'))))
    return x[k:]
def take(x, k):
    if sym(x, k): return V(CUR[0].slice(x.t, I(0), to_T(k, 'I')))
    return x[:k] if k >= 0 else x[:0]
def slc(x, a, n):
    """n elements from a (clipped)"""
    if sym(x, a, n): return V(CUR[0].slice(lift(x).t, to_T(a, 'I'), to_T(n, 'I')))
    return x[a:a + n] if n > 0 and a >= 0 else x[:0]
def lift(x):
    if isinstance(x, V): return x
    if isinstance(x, bool): return V(B(x))
    if isinstance(x, int): return V(I(x))
    if isinstance(x, str): return V(S(x))
    raise TypeError('lift %r' % (x,))
def has(x, sub):
    if sym(x, sub): return V(tm.contains(lift(x).t, lift(sub).t))
    return sub in x
def idx(x, sub):
    """index of the first occurrence, -1 if none"""
    if sym(x, sub): return V(tm.index(lift(x).t, lift(sub).t, I(0)))
    return x.find(sub)
def starts(x, p):
    if sym(x, p): return V(tm.prefixof(lift(p).t, lift(x).t))
    return x.startswith(p)
def ends(x, p):
    if sym(x, p): return V(tm.suffixof(lift(p).t, lift(x).t))
    return x.endswith(p)
def clower(s): return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in s)
def lower(x): return V(lib.lower(x.t)) if isinstance(x, V) else clower(x)
def ite(c, a, b):
    if isinstance(c, V):
        if c.t is tm.TRUE: return a
        if c.t is tm.FALSE: return b
        s = a.t.sort if isinstance(a, V) else b.t.sort if isinstance(b, V) else None
        if s is None: a = lift(a); s = a.t.sort
        return V(tm.Ite(c.t, to_T(a, s), to_T(b, s)))
    return a if c else b
def And(*xs):
    if sym(*xs): return V(tm.And(*[to_T(x, 'B') for x in xs]))
    return all(xs)
def Or(*xs):
    if sym(*xs): return V(tm.Or(*[to_T(x, 'B') for x in xs]))
    return any(xs)
def Not(x): return V(tm.Not(x.t)) if isinstance(x, V) else V(tm.Not(x)) if isinstance(x, T) else not x
def eq(a, b):
    if sym(a, b): return V(Eq(a.t, to_T(b, a.t.sort))) if isinstance(a, V) else V(Eq(to_T(a, b.t.sort), b.t))
    return a == b
def seq(es, *xs):
    """sequence of elements of sort es"""
    if sym(*xs): return V(tm.cat(('Q', es), *[tm.unit(to_T(x, es)) for x in xs]))
    return tuple(xs)
def fn(name, ret, *args):
    """uninterpreted observer (symbolic only)"""
    return V(tm.app(name, [lift(a).t for a in args], ret))

# prefix-recursive specification functions: F(xs, params, 0) = base, F(xs, params, k+1) = step(F(xs, params, k), xs[k], params, k)
class Prec:
    def __init__(self, name, ret, base, step, always=False):
        self.always = always
        self.name, self.ret, self.base, self.step = name, ret, base, step
        def facts(t):
            xs, k, ps = t.args[1], t.args[2], t.args[3:]
            out = [tm.Implies(Eq(k, I(0)), Eq(t, self._base(ps)))]
            co, c = tm.lin(k)
            if k.op == 'int':
                if tm.val(k) > 0:
                    out.append(tm.Implies(Le(k, tm.len_(xs)), Eq(t, self._step(xs, tm.sub_i(k, I(1)), ps))))
            elif c >= 1 or c == 0 and (self.always or any(v == 1 and x.op == 'len' for x, v in co.items())):
                k1 = tm.sub_i(k, I(1))
                out.append(tm.Implies(tm.And(Ge(k1, I(0)), Lt(k1, tm.len_(xs))), Eq(t, self._step(xs, k1, ps))))
            return out
        tm.FACTS[name] = facts
    def _base(self, ps):
        b = self.base(*[V(p) for p in ps]) if callable(self.base) else self.base
        return to_T(b, self.ret)
    def _step(self, xs, k, ps):
        prev = V(tm.app(self.name, (xs, k) + tuple(ps), self.ret))
        return to_T(self.step(prev, V(tm.nth(xs, k)), V(k), *[V(p) for p in ps]), self.ret)
    def __call__(self, xs, k, *ps):
        if sym(xs, k, *ps) or isinstance(xs, V):
            return V(tm.app(self.name, (xs.t, to_T(k, 'I')) + tuple(lift(p).t for p in ps), self.ret))
        acc = self.base(*ps) if callable(self.base) else self.base
        for i in range(k): acc = self.step(acc, xs[i], i, *ps)
        return acc

# monoid homomorphisms on sequences: f(a ++ b) = f(a) . f(b)
class Hom:
    def __init__(self, name, ret, unit_fn, op, zero):
        self.name, self.ret, self.u, self.op, self.zero = name, ret, unit_fn, op, zero
        def rw(s, *ps):
            if s.op == 'empty' or (s.op == 'str' and tm.val(s) == ''): return to_T(zero, ret)
            if s.op == 'unit': return to_T(self.u(V(s.args[0]), *[V(p) for p in ps]), ret)
            if s.op == 'cat':
                r = None
                for x in s.args:
                    y = V(tm.app(name, (x,) + ps, ret))
                    r = y if r is None else self.op(r, y)
                return r.t
            return None
        tm.REWRITE[name] = rw
        def facts(t):
            s, ps = t.args[1], t.args[2:]
            out = [tm.Implies(Eq(tm.len_(s), I(0)), Eq(t, to_T(zero, ret)))]
            if s.op in ('sub', 'seg'):
                x, o, n = s.args
                mkf = lambda y: V(tm.app(name, (y,) + ps, ret))
                u = lambda i: V(to_T(self.u(V(tm.nth(x, i)), *[V(p) for p in ps]), ret))
                L = tm.len_(x)
                if n is tm.sub_i(L, o):      # suffix: peel the first element
                    o1 = tm.add(o, I(1))
                    c = tm.And(Ge(o, I(0)), Lt(o, L))
                    rest = tm.sub(x, o1, tm.sub_i(L, o1))
                    if not (o.op == 'lin' and tm.lin(o)[1] >= 2):
                        out.append(tm.Implies(c, Eq(t, to_T(self.op(u(o), mkf(rest)), ret))))
                else:                        # peel the last element
                    co, k = tm.lin(tm.add(o, n))
                    if k >= 1:
                        n1 = tm.sub_i(n, I(1))
                        c = tm.And(Ge(o, I(0)), Ge(n1, I(0)), Le(tm.add(o, n), L))
                        out.append(tm.Implies(c, Eq(t, to_T(self.op(mkf(tm.sub(x, o, n1)), u(tm.add(o, n1))), ret))))
                if tm.Eq(o, I(0)) is tm.TRUE:
                    # whole = prefix . suffix
                    out.append(tm.Implies(tm.And(Ge(n, I(0)), Le(n, L)),
                                          Eq(mkf(x).t, to_T(self.op(mkf(s), mkf(tm.sub(x, n, tm.sub_i(L, n)))), ret))))
            return out
        tm.FACTS[name] = facts
    def __call__(self, s, *ps):
        if sym(s, *ps): return V(tm.app(self.name, (s.t,) + tuple(lift(p).t for p in ps), self.ret))
        acc = None
        for x in s:
            y = self.u(x, *ps); acc = y if acc is None else self.op(acc, y)
        return self.zero if acc is None else acc
