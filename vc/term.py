"""Hash-consed terms, smart constructors (simplifier) and the translation to SMT (z3 / cvc5 via SMT-LIB text).

Sorts: 'B' Bool, 'I' Int, 'S' String (a C++ char is a string of length one), ('Q', s) sequence,
('D', name) datatype (fields in DT), ('U', name) uninterpreted sort.
"""
import functools, itertools, string as _string

class T:
    __slots__ = ('op', 'args', 'sort', 'id', '__weakref__')
    def __repr__(self): return show(self)

_tab = {}
_cnt = itertools.count()

def _mk(op, args, sort):
    key = (op, tuple(a.id if isinstance(a, T) else ('#', type(a).__name__, a) for a in args), sort)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.args = args; t.sort = sort; t.id = next(_cnt)
        _tab[key] = t
    return t

# ---- datatypes -------------------------------------------------------------------------------
DT = {}          # name -> list of (field, sort)
def declare_dt(name, fields):
    DT[name] = [(f, s) for f, s in fields]

def field_sort(dt, f):
    for n, s in DT[dt]:
        if n == f: return s
    raise KeyError('%s.%s' % (dt, f))

# ---- constants -------------------------------------------------------------------------------
def B(b): return _mk('bool', (bool(b),), 'B')
def I(n): return _mk('int', (int(n),), 'I')
def S(s): return _mk('str', (str(s),), 'S')
TRUE, FALSE = B(True), B(False)
def var(name, sort): return _mk('var', (name,), sort)
def isconst(t): return t.op in ('bool', 'int', 'str')
def val(t): return t.args[0]
def empty(sort): return S('') if sort == 'S' else _mk('empty', (), sort)
def unit(x): return _mk('unit', (x,), ('Q', x.sort))

def app(fn, args, sort):
    """uninterpreted function application (with registered rewriting)"""
    args = tuple(args)
    rw = REWRITE.get(fn)
    if rw:
        r = rw(*args)
        if r is not None: return r
    return _mk('app', (fn,) + args, sort)
REWRITE = {}
# facts generators: fn -> callable(term) -> list of Bool terms always true
FACTS = {}

# ---- booleans --------------------------------------------------------------------------------
def Not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return _mk('not', (a,), 'B')
def And(*xs):
    out = []
    for x in xs:
        if x is FALSE: return FALSE
        if x is TRUE: continue
        for y in (x.args if x.op == 'and' else (x,)):
            if y not in out: out.append(y)
    for y in out:
        if Not(y) in out: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return _mk('and', tuple(out), 'B')
def Or(*xs):
    out = []
    for x in xs:
        if x is TRUE: return TRUE
        if x is FALSE: continue
        for y in (x.args if x.op == 'or' else (x,)):
            if y not in out: out.append(y)
    for y in out:
        if Not(y) in out: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return _mk('or', tuple(out), 'B')
def Implies(a, b): return Or(Not(a), b)
def Ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'B':
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return Not(c)
        return And(Or(Not(c), a), Or(c, b))
    return _mk('ite', (c, a, b), a.sort)

def huge(d):
    """linear term over lengths and indices that cannot be 0: sizes are below 2^62 (max_size of the containers)"""
    co, k = lin(d)
    return abs(k) >= 2**62 and all(x.op in ('len', 'index') and abs(c) <= 4 for x, c in co.items())
def const_leaves(t): return isconst(t) or t.op == 'ite' and const_leaves(t.args[1]) and const_leaves(t.args[2])
def map_leaves(t, f): return f(val(t)) if t.op != 'ite' else Ite(t.args[0], map_leaves(t.args[1], f), map_leaves(t.args[2], f))
def Eq(a, b):
    if a is b: return TRUE
    if a.sort != b.sort: raise TypeError('Eq on %s and %s: %s / %s' % (a.sort, b.sort, show(a)[:200], show(b)[:200]))
    if isconst(a) and isconst(b): return B(val(a) == val(b))
    s = a.sort
    if s == 'B':
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return Not(b)
        if b is FALSE: return Not(a)
        if Not(a) is b: return FALSE
        if a.id > b.id: a, b = b, a
        return _mk('=', (a, b), 'B')
    if s == 'I':
        d = add(a, neg(b))
        if d.op == 'int': return B(val(d) == 0)
        if huge(d): return FALSE
        if d.op == 'ite' and const_leaves(d): return map_leaves(d, lambda v: B(v == 0))
        # canonical: sum with positive leading coefficient == 0
        co, k = lin(d)
        lead = min(co, key=lambda x: x.id)
        if co[lead] < 0: co = {x: -c for x, c in co.items()}; k = -k
        pos = mklin({x: c for x, c in co.items() if c > 0}, max(k, 0))
        ng = mklin({x: -c for x, c in co.items() if c < 0}, max(-k, 0))
        return _mk('=', (pos, ng), 'B')
    if s == 'S' or (isinstance(s, tuple) and s[0] == 'Q'):
        return eq_seq(a, b)
    if isinstance(s, tuple) and s[0] == 'D':
        if a.op == 'mk' and b.op == 'mk':
            return And(*[Eq(x, y) for x, y in zip(a.args, b.args)])
        if a.op == 'mk' or b.op == 'mk':
            m, o = (a, b) if a.op == 'mk' else (b, a)
            return And(*[Eq(x, sel(o, f)) for x, (f, _) in zip(m.args, DT[s[1]])])
    if a.op == 'ite' and (a.args[1] is b or a.args[2] is b):
        return Or(a.args[0], Eq(a.args[2], b)) if a.args[1] is b else Or(Not(a.args[0]), Eq(a.args[1], b))
    if a.id > b.id: a, b = b, a
    return _mk('=', (a, b), 'B')

def parts(s):
    return list(s.args) if s.op == 'cat' else ([] if is_empty(s) else [s])
def is_empty(s): return s.op == 'empty' or (s.op == 'str' and val(s) == '')

def eq_seq(a, b):
    if b.op == 'str' and len(val(b)) == 1: a, b = b, a
    if a.op == 'str' and len(val(a)) == 1 and b.op == 'seg' and b.args[2].op == 'int': b = at(b.args[0], b.args[1])
    pa, pb = parts(a), parts(b)
    # strip common ends
    ch = True
    while ch and pa and pb:
        ch = False
        if pa[0] is pb[0]: pa.pop(0); pb.pop(0); ch = True; continue
        if pa[-1] is pb[-1]: pa.pop(); pb.pop(); ch = True; continue
        if pa[0].op == 'str' and pb[0].op == 'str':
            x, y = val(pa[0]), val(pb[0]); n = min(len(x), len(y))
            if x[:n] != y[:n]: return FALSE
            pa[0:1] = [S(x[n:])] if x[n:] else []
            pb[0:1] = [S(y[n:])] if y[n:] else []
            ch = True; continue
        if pa[-1].op == 'str' and pb[-1].op == 'str':
            x, y = val(pa[-1]), val(pb[-1]); n = min(len(x), len(y))
            if x[len(x)-n:] != y[len(y)-n:]: return FALSE
            pa[-1:] = [S(x[:len(x)-n])] if x[:len(x)-n] else []
            pb[-1:] = [S(y[:len(y)-n])] if y[:len(y)-n] else []
            ch = True; continue
        if pa[0].op == 'unit' and pb[0].op == 'unit':
            h = Eq(pa[0].args[0], pb[0].args[0])
            r = eq_seq(cat(a.sort, *pa[1:]), cat(a.sort, *pb[1:]))
            return And(h, r)
        if pa[-1].op == 'unit' and pb[-1].op == 'unit':
            h = Eq(pa[-1].args[0], pb[-1].args[0])
            r = eq_seq(cat(a.sort, *pa[:-1]), cat(a.sort, *pb[:-1]))
            return And(h, r)
    if not pa and not pb: return TRUE
    if not pa or not pb:
        rest = pa or pb
        if any(x.op in ('unit', 'str') for x in rest): return FALSE
        return And(*[_len0(x) for x in rest])
    # length-based contradiction
    d = sub_i(len_(cat(a.sort, *pa)), len_(cat(a.sort, *pb)))
    if d.op == 'int' and val(d) != 0: return FALSE
    x, y = cat(a.sort, *pa), cat(a.sort, *pb)
    if x.id > y.id: x, y = y, x
    return _mk('=', (x, y), 'B')
def _len0(x): return Eq(len_(x), I(0))

# ---- integers --------------------------------------------------------------------------------
def lin(t):
    """(dict term->coef, const)"""
    if t.op == 'int': return {}, val(t)
    if t.op == 'lin':
        return dict(t.args[0]), t.args[1]
    return {t: 1}, 0
def mklin(co, k):
    co = {x: c for x, c in co.items() if c != 0}
    if not co: return I(k)
    if k == 0 and len(co) == 1:
        (x, c), = co.items()
        if c == 1: return x
    items = tuple(sorted(co.items(), key=lambda p: p[0].id))
    key = ('lin', tuple((x.id, c) for x, c in items), k)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = 'lin'; t.args = (items, k); t.sort = 'I'; t.id = next(_cnt); _tab[key] = t
    return t
def add(*ts):
    co, k = {}, 0
    for t in ts:
        c2, k2 = lin(t); k += k2
        for x, c in c2.items(): co[x] = co.get(x, 0) + c
    return mklin(co, k)
def mulc(t, c):
    co, k = lin(t)
    return mklin({x: v * c for x, v in co.items()}, k * c)
def neg(t): return mulc(t, -1)
def sub_i(a, b): return add(a, neg(b))
def mul(a, b):
    if a.op == 'int': return mulc(b, val(a))
    if b.op == 'int': return mulc(a, val(b))
    return _mk('mul', (a, b), 'I')
def div(a, b):   # euclidean, b const > 0, a >= 0 in all uses
    if isconst(a) and isconst(b): return I(val(a) // val(b))
    if b.op == 'int' and val(b) == 1: return a
    return _mk('div', (a, b), 'I')
def mod(a, b):
    if isconst(a) and isconst(b): return I(val(a) % val(b))
    return _mk('mod', (a, b), 'I')
def Le(a, b):
    d = sub_i(b, a)             # d >= 0 ?
    if d.op == 'int': return B(val(d) >= 0)
    if d.op == 'ite' and const_leaves(d): return map_leaves(d, lambda v: B(v >= 0))
    if huge(d): return B(lin(d)[1] > 0)
    co, k = lin(d)
    if k >= 0 and all(c > 0 and nonneg(x) for x, c in co.items()): return TRUE
    if k < 0 and all(c < 0 and nonneg(x) for x, c in co.items()): return FALSE
    if d.op == 'ite' and isconst(d.args[1]) and isconst(d.args[2]):
        return Ite(d.args[0], B(val(d.args[1]) >= 0), B(val(d.args[2]) >= 0))
    from math import gcd
    g = 0
    for c in co.values(): g = gcd(g, c)
    if g > 1:
        co = {x: c // g for x, c in co.items()}; k = k // g
    return _mk('ge0', (mklin(co, k),), 'B')
def Lt(a, b): return Le(add(a, I(1)), b)
def Ge(a, b): return Le(b, a)
def Gt(a, b): return Lt(b, a)
NONNEG_FN = set()
def nonneg(x):
    return x.op in ('len',) or (x.op == 'int' and val(x) >= 0) or (x.op == 'app' and x.args[0] in NONNEG_FN) or x.op == 'code'
def min_(a, b): return Ite(Le(a, b), a, b)
def max_(a, b): return Ite(Le(a, b), b, a)

# ---- strings / sequences ---------------------------------------------------------------------
def _seg_of(p):
    """(base, offset, length) of a valid slice, else None"""
    if p.op == 'seg': return p.args
    if p.op == 'unit' and p.args[0].op == 'nth' and _syn_nonneg(p.args[0].args[1]): return p.args[0].args[0], p.args[0].args[1], I(1)
    return None
def cat(sort, *xs):
    out = []
    for x in xs:
        for p in parts(x):
            while True:
                if not out: out.append(p); break
                q = out[-1]
                if q.op == 'str' and p.op == 'str': out[-1] = S(val(q) + val(p)); break
                if (q.op == 'seg' or p.op == 'seg'):
                    a, b = _seg_of(q), _seg_of(p)
                    if a and b and a[0] is b[0] and add(a[1], a[2]) is b[1]:
                        out.pop(); p = seg(a[0], a[1], add(a[2], b[2]))
                        if p.op == 'cat': out.extend(p.args); break
                        if is_empty(p): break
                        continue
                out.append(p); break
    if not out: return empty(sort)
    if len(out) == 1: return out[0]
    return _mk('cat', tuple(out), sort)
def seg(s, off, n):
    """slice known to be in range: 0 <= off, 0 <= n, off+n <= len(s)"""
    srt = s.sort
    if n.op == 'int' and val(n) <= 0: return empty(srt)
    ls = len_(s)
    if off is ls: return empty(srt)
    if off.op == 'int' and val(off) == 0 and n is ls: return s
    if s.op == 'str' and off.op == 'int' and n.op == 'int':
        o = val(off); return S(val(s)[o:o + val(n)])
    if s.op == 'seg': return seg(s.args[0], add(s.args[1], off), n)
    if s.op == 'unit': return s
    if s.op == 'cat':
        ps = list(s.args)
        l0 = len_(ps[0])
        if ps[0].op == 'str' and off.op == 'int' and 0 < val(off) < len(val(ps[0])):
            return seg(cat(srt, S(val(ps[0])[val(off):]), *ps[1:]), I(0), n)
        if _syn_nonneg(sub_i(off, l0)): return seg(cat(srt, *ps[1:]), sub_i(off, l0), n)
        e = add(off, n)
        l = sub_i(ls, len_(ps[-1]))
        if _syn_nonneg(sub_i(l, e)): return seg(cat(srt, *ps[:-1]), off, n)
        if ps[-1].op == 'str':
            d = sub_i(ls, e)
            if d.op == 'int' and 0 < val(d) < len(val(ps[-1])):
                return seg(cat(srt, *(ps[:-1] + [S(val(ps[-1])[:-val(d)])])), off, n)
        if off.op == 'int' and val(off) == 0 and _syn_nonneg(sub_i(n, l0)):
            return cat(srt, ps[0], seg(cat(srt, *ps[1:]), I(0), sub_i(n, l0)))
        if e is ls and _syn_nonneg(sub_i(n, len_(ps[-1]))):
            return cat(srt, seg(cat(srt, *ps[:-1]), off, sub_i(n, len_(ps[-1]))), ps[-1])
    return _mk('seg', (s, off, n), srt)
def cat2(a, b): return cat(a.sort, a, b)

def len_(s):
    if s.op == 'str': return I(len(val(s)))
    if s.op == 'empty': return I(0)
    if s.op == 'unit': return I(1)
    if s.op == 'cat': return add(*[len_(x) for x in s.args])
    if s.op == 'app' and s.args[0] in LENPRES: return len_(s.args[1])
    if s.op == 'seg': return s.args[2]
    if s.op == 'ite':
        return Ite(s.args[0], len_(s.args[1]), len_(s.args[2]))
    return _mk('len', (s,), 'I')
LENPRES = set()

def clen(s):
    l = len_(s)
    return val(l) if l.op == 'int' else None

def sub(s, off, n):
    """SMT-LIB str.substr / seq.extract semantics"""
    srt = s.sort
    if n.op == 'int' and val(n) <= 0: return empty(srt)
    if off.op == 'int' and val(off) < 0: return empty(srt)
    if is_empty(s): return s
    if s.op == 'str' and off.op == 'int' and n.op == 'int':
        o = val(off); return S(val(s)[o:o + val(n)])
    ls = len_(s)
    if off.op == 'int' and val(off) == 0 and (n is ls): return s
    if off is ls: return empty(srt)
    d = sub_i(off, ls)
    if d.op == 'int' and val(d) >= 0: return empty(srt)
    if s.op == 'unit' and off.op == 'int' and val(off) == 0 and n.op == 'int': return s
    # clip n to len-off when syntactically known to exceed
    over = sub_i(add(off, n), ls)
    if over.op == 'int' and val(over) > 0:
        return sub(s, off, sub_i(ls, off))
    if s.op == 'cat' and off.op == 'int':
        o = val(off); ps = list(s.args)
        # drop leading parts of known length
        l0 = clen(ps[0])
        if l0 is not None:
            if o >= l0: return sub(cat(srt, *ps[1:]), I(o - l0), n)
            if ps[0].op == 'str' and o > 0:
                return sub(cat(srt, S(val(ps[0])[o:]), *ps[1:]), I(0), n)
            if o == 0:
                rest = sub_i(n, I(l0))
                if rest.op == 'int' and val(rest) < 0:
                    return sub(ps[0], I(0), n)
                if rest.op == 'int' or _syn_nonneg(rest):
                    return cat(srt, ps[0], sub(cat(srt, *ps[1:]), I(0), rest))
    if s.op == 'cat':
        # offset/len at part boundaries: sub(a++b, |a|+k, n)
        ps = list(s.args); acc = I(0)
        if off.op == 'int' and val(off) == 0:
            tot = I(0)
            for i, p in enumerate(ps):
                if tot is n: return cat(srt, *ps[:i])
                tot = add(tot, len_(p))
        else:
            for i, p in enumerate(ps[:-1]):
                acc = add(acc, len_(p))
                dd = sub_i(off, acc)
                if dd.op == 'int' and val(dd) >= 0:
                    return sub(cat(srt, *ps[i + 1:]), dd, n)
    if s.op == 'sub' :
        # sub(sub(t,o2,n2),off,n) with all-constant nonneg offsets and n reaching the end
        t, o2, n2 = s.args
        if o2.op == 'int' and off.op == 'int':
            if n.op == 'int' and n2.op == 'int':
                m = min(val(n), val(n2) - val(off))
                return sub(t, add(o2, off), I(m)) if m > 0 else empty(srt)
            if n2 is sub_i(len_(t), o2):
                # s = drop(t,o2).  (len(s) stays opaque, so recognise n == len(s)-off too)
                if sub_i(len_(s), off) is n or sub_i(n2, off) is n:
                    return sub(t, add(o2, off), sub_i(len_(t), add(o2, off)))
                if n.op == 'int': return sub(t, add(o2, off), n)
    return _mk('sub', (s, off, n), srt)
def _syn_nonneg(t):
    co, k = lin(t)
    return k >= 0 and all(c > 0 and nonneg(x) for x, c in co.items())

def at(s, i): return sub(s, i, I(1))
def nth(s, i):
    """element of a sequence (arbitrary when out of range); for strings the length-1 substring"""
    if s.sort == 'S': return at(s, i)
    es = s.sort[1]
    if s.op == 'unit' and i.op == 'int' and val(i) == 0: return s.args[0]
    if s.op == 'cat':
        ps = list(s.args); acc = I(0)
        for k, p in enumerate(ps):
            if p.op == 'unit':
                d = sub_i(i, acc)
                if d.op == 'int' and val(d) == 0: return p.args[0]
            # i definitely beyond p?
            acc2 = add(acc, len_(p))
            d = sub_i(i, acc2)
            if d.op == 'int' and val(d) >= 0:
                acc = acc2; continue
            if k == 0 and i.op == 'int' and p.op == 'unit' and val(i) == 0: return p.args[0]
            if k > 0 and all(clen(q) is not None for q in ps[:k]) or k > 0:
                # peel the prefix only when i - acc is syntactically non-negative
                d0 = sub_i(i, acc)
                if _syn_nonneg(d0): return _mk('nth', (cat(s.sort, *ps[k:]), d0), es)
            break
        # from the back: last unit
        d = sub_i(i, sub_i(len_(s), I(1)))
        if d.op == 'int' and val(d) == 0 and ps[-1].op == 'unit': return ps[-1].args[0]
    if s.op == 'seg' and (i.op == 'int' and val(i) >= 0 and s.args[2].op != 'int' or _syn_nonneg(i)): return nth(s.args[0], add(s.args[1], i))
    if s.op == 'sub' and s.args[1].op == 'int' and i.op == 'int' and val(i) >= 0:
        t, o, n = s.args
        if n is sub_i(len_(t), o): return nth(t, add(o, i))
    return _mk('nth', (s, i), es)

def _one(t): return t.op == 'unit' or (t.op == 'str' and len(val(t)) == 1)
def index(s, t, frm):
    """str.indexof / seq.indexof"""
    if s.op == 'str' and t.op == 'str' and frm.op == 'int':
        f = val(frm)
        return I(val(s).find(val(t), f)) if 0 <= f <= len(val(s)) else I(-1)
    if s.op == 'cat' and _one(t) and frm.op == 'int' and val(frm) == 0:
        p, r = s.args[0], cat(s.sort, *s.args[1:])
        cp, cr = contains(p, t), contains(r, t)
        return Ite(cp, index(p, t, frm), Ite(cr, add(len_(p), index(r, t, frm)), I(-1)))
    return _mk('index', (s, t, frm), 'I')
def contains(s, t):
    if s.op == 'str' and t.op == 'str': return B(val(t) in val(s))
    if is_empty(t): return TRUE
    if is_empty(s): return Eq(len_(t), I(0))
    if s.op == 'cat' and _one(t): return Or(*[contains(x, t) for x in s.args])
    if s.op == 'unit' and t.op == 'unit': return Eq(s, t)
    return _mk('contains', (s, t), 'B')
def prefixof(p, s):
    if p.op == 'str' and s.op != 'str' and 0 < len(val(p)) <= 4:
        return And(*[Eq(at(s, I(i)), S(ch)) for i, ch in enumerate(val(p))])
    return _prefixof(p, s)
def _prefixof(p, s):
    if is_empty(p): return TRUE
    if p is s: return TRUE
    pp, ps = parts(p), parts(s)
    while pp and ps:
        if pp[0] is ps[0]: pp.pop(0); ps.pop(0); continue
        if pp[0].op == 'str' and ps[0].op == 'str':
            x, y = val(pp[0]), val(ps[0]); n = min(len(x), len(y))
            if x[:n] != y[:n]: return FALSE
            pp[0:1] = [S(x[n:])] if x[n:] else []
            ps[0:1] = [S(y[n:])] if y[n:] else []
            continue
        break
    if not pp: return TRUE
    p, s = cat(p.sort, *pp), cat(s.sort, *ps)
    if p.op == 'sub' and p.args[0] is s and p.args[1].op == 'int' and val(p.args[1]) == 0: return TRUE
    return _mk('prefixof', (p, s), 'B')
def suffixof(p, s):
    if is_empty(p): return TRUE
    if p is s: return TRUE
    if p.op == 'str' and s.op == 'str': return B(val(s).endswith(val(p)))
    if p.op == 'str' and len(val(p)) == 1: return Eq(at(s, sub_i(len_(s), I(1))), p)
    return _mk('suffixof', (p, s), 'B')
def str_lt(a, b):
    if a is b: return FALSE
    if a.op == 'str' and b.op == 'str': return B(val(a) < val(b))
    return _mk('str.<', (a, b), 'B')
def str_le(a, b):
    if a is b: return TRUE
    if a.op == 'str' and b.op == 'str': return B(val(a) <= val(b))
    return _mk('str.<=', (a, b), 'B')
def code(c):
    if c.op == 'str' and len(val(c)) == 1: return I(ord(val(c)))
    if c.op == 'fromcode': return c.args[0]
    return _mk('code', (c,), 'I')
def fromcode(i):
    if i.op == 'int' and 0 <= val(i) < 0x30000: return S(chr(val(i)))
    if i.op == 'code': return i.args[0]
    return _mk('fromcode', (i,), 'S')
def update(s, i, x):
    """sequence with element i replaced (i in range)"""
    if s.op == 'cat':
        ps = list(s.args); acc = I(0)
        for k, p in enumerate(ps):
            d = sub_i(i, acc)
            if p.op == 'unit' and d.op == 'int' and val(d) == 0:
                ps[k] = unit(x); return cat(s.sort, *ps)
            acc = add(acc, len_(p))
    if s.op == 'unit' and i.op == 'int' and val(i) == 0: return unit(x)
    ux = x if s.sort == 'S' else unit(x)
    return cat(s.sort, sub(s, I(0), i), ux, sub(s, add(i, I(1)), sub_i(len_(s), add(i, I(1)))))

# ---- datatypes -------------------------------------------------------------------------------
def mk(dt, **fields):
    fs = DT[dt]
    a = []
    for f, s in fs:
        x = fields[f]
        assert x.sort == s, '%s.%s: %s is not %s' % (dt, f, x.sort, s)
        a.append(x)
    # eta: mk(sel(x,f1),...,sel(x,fn)) == x
    if a and all(x.op == 'sel' and x.args[1] == f for x, (f, _) in zip(a, fs)):
        b = a[0].args[0]
        if b.sort == ('D', dt) and all(x.args[0] is b for x in a): return b
    return _mk('mk', tuple(a), ('D', dt))
def sel(x, f):
    dt = x.sort[1]
    if x.op == 'mk':
        for a, (n, _) in zip(x.args, DT[dt]):
            if n == f: return a
        raise KeyError(f)
    if x.op == 'ite': return Ite(x.args[0], sel(x.args[1], f), sel(x.args[2], f))
    return _mk('sel', (x, f), field_sort(dt, f))
def setf(x, f, v):
    dt = x.sort[1]
    field_sort(dt, f)
    return mk(dt, **{n: (v if n == f else sel(x, n)) for n, _ in DT[dt]})

# ---- traversal -------------------------------------------------------------------------------
def kids(t):
    if t.op == 'lin': return [x for x, _ in t.args[0]]
    return [a for a in t.args if isinstance(a, T)]
def rebuild(t, f):
    """rebuild t with children mapped by f, through the smart constructors"""
    o = t.op
    if o in ('bool', 'int', 'str', 'var', 'empty'): return t
    if o == 'lin':
        return add(*([mulc(f(x), c) for x, c in t.args[0]] + [I(t.args[1])]))
    a = [f(x) if isinstance(x, T) else x for x in t.args]
    return construct(o, a, t.sort)
def construct(o, a, sort):
    if o == 'not': return Not(a[0])
    if o == 'and': return And(*a)
    if o == 'or': return Or(*a)
    if o == '=': return Eq(a[0], a[1])
    if o == 'ge0': return Ge(a[0], I(0))
    if o == 'ite': return Ite(*a)
    if o == 'cat': return cat(sort, *a)
    if o == 'len': return len_(a[0])
    if o == 'sub': return sub(*a)
    if o == 'seg': return seg(*a)
    if o == 'nth': return nth(*a)
    if o == 'index': return index(*a)
    if o == 'contains': return contains(*a)
    if o == 'prefixof': return prefixof(*a)
    if o == 'suffixof': return suffixof(*a)
    if o == 'unit': return unit(a[0])
    if o == 'mk': return mk(sort[1], **{f: x for (f, _), x in zip(DT[sort[1]], a)})
    if o == 'sel': return sel(a[0], a[1])
    if o == 'app': return app(a[0], a[1:], sort)
    if o == 'mul': return mul(*a)
    if o == 'div': return div(*a)
    if o == 'mod': return mod(*a)
    if o == 'str.<': return str_lt(*a)
    if o == 'str.<=': return str_le(*a)
    if o == 'code': return code(a[0])
    if o == 'fromcode': return fromcode(a[0])
    raise KeyError(o)
def subst(t, m, memo=None):
    if memo is None: memo = {}
    r = memo.get(t.id)
    if r is not None: return r
    r = m.get(t)
    if r is None:
        r = rebuild(t, lambda x: subst(x, m, memo))
    memo[t.id] = r
    return r
def subterms(ts):
    seen = {}
    st = list(ts)
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen[t.id] = t
        st.extend(kids(t))
    return list(seen.values())

def show(t, d=8):
    if not isinstance(t, T): return repr(t)
    o = t.op
    if o in ('bool', 'int'): return str(t.args[0])
    if o == 'str': return repr(t.args[0])
    if o == 'var': return t.args[0]
    if d == 0: return '...'
    g = lambda x: show(x, d - 1)
    if o == 'lin':
        s = ' + '.join((g(x) if c == 1 else '%d*%s' % (c, g(x))) for x, c in t.args[0])
        return '(%s%s)' % (s, ' + %d' % t.args[1] if t.args[1] else '')
    if o == 'ge0': return '(%s >= 0)' % g(t.args[0])
    if o == '=': return '(%s == %s)' % (g(t.args[0]), g(t.args[1]))
    if o == 'cat': return '(' + ' ++ '.join(g(x) for x in t.args) + ')'
    if o == 'unit': return '[' + g(t.args[0]) + ']'
    if o == 'empty': return '[]'
    if o == 'sel': return g(t.args[0]) + '.' + t.args[1]
    if o == 'nth': return '%s[%s]' % (g(t.args[0]), g(t.args[1]))
    if o == 'mk': return '%s{%s}' % (t.sort[1], ', '.join('%s=%s' % (f, g(a)) for a, (f, _) in zip(t.args, DT[t.sort[1]])))
    if o == 'app': return '%s(%s)' % (t.args[0], ', '.join(g(x) for x in t.args[1:]))
    return '%s(%s)' % (o, ', '.join(g(x) for x in t.args))

# ---- SMT-LIB output --------------------------------------------------------------------------
def esc(s):
    out = []
    for ch in s:
        o = ord(ch)
        if 32 <= o < 127 and ch not in '"\\': out.append(ch)
        elif ch == '"': out.append('""')
        else: out.append('\\u{%x}' % o)
    return '"' + ''.join(out) + '"'

def sname(n):
    if n and all(c in _string.ascii_letters + _string.digits + '_!.' for c in n) and not n[0].isdigit(): return n
    return '|' + n.replace('|', '/').replace('\\', '/') + '|'

class SMT:
    """one SMT-LIB script: declarations plus assertions, shared subterms let-bound by define-fun"""
    def __init__(self):
        self.sorts_seen = []; self.vars = {}; self.fns = {}; self.usorts = []; self.dts = []
    def sort(self, s):
        if s == 'B': return 'Bool'
        if s == 'I': return 'Int'
        if s == 'S': return 'String'
        if s[0] == 'Q': return '(Seq %s)' % self.sort(s[1])
        if s[0] == 'U':
            if s[1] not in self.usorts: self.usorts.append(s[1])
            return sname(s[1])
        if s[0] == 'D':
            if s[1] not in self.dts:
                for _, fs in DT[s[1]]: self.sort(fs)
                if s[1] not in self.dts: self.dts.append(s[1])
            return sname(s[1])
        raise KeyError(s)
    def script(self, assertions, names=True):
        # topological with sharing
        refs = {}
        order = []
        seen = set()
        def visit(t):
            st = [(t, False)]
            while st:
                x, done = st.pop()
                if done:
                    order.append(x); continue
                refs[x.id] = refs.get(x.id, 0) + 1
                if x.id in seen: continue
                seen.add(x.id)
                st.append((x, True))
                for k in kids(x): st.append((k, False))
        for a in assertions: visit(a)
        txt = {}
        defs = []
        for t in order:
            s = self.one(t, txt)
            if len(s) > 60 and refs[t.id] > 1:
                n = '$%d' % t.id
                defs.append('(define-fun %s () %s %s)' % (n, self.sort(t.sort), s))
                s = n
            txt[t.id] = s
        head = []
        for u in self.usorts: head.append('(declare-sort %s 0)' % sname(u))
        for d in self.dts:
            fs = ' '.join('(%s %s)' % (sname('%s.%s' % (d, f)), self.sort(s)) for f, s in DT[d])
            head.append('(declare-datatypes ((%s 0)) (((%s %s))))' % (sname(d), sname('mk_' + d), fs))
        for n, s in self.vars.items(): head.append('(declare-const %s %s)' % (sname(n), self.sort(s)))
        for n, (a, r) in self.fns.items():
            head.append('(declare-fun %s (%s) %s)' % (sname(n), ' '.join(self.sort(x) for x in a), self.sort(r)))
        return '\n'.join(head + defs + ['(assert %s)' % txt[a.id] for a in assertions])
    def one(self, t, txt):
        o = t.op
        g = lambda x: txt[x.id]
        if o == 'bool': return 'true' if t.args[0] else 'false'
        if o == 'int': return str(t.args[0]) if t.args[0] >= 0 else '(- %d)' % -t.args[0]
        if o == 'str': return esc(t.args[0])
        if o == 'var':
            self.sort(t.sort); self.vars[t.args[0]] = t.sort; return sname(t.args[0])
        if o == 'lin':
            ps = []
            for x, c in t.args[0]:
                ps.append(g(x) if c == 1 else '(* %s %s)' % (c if c >= 0 else '(- %d)' % -c, g(x)))
            k = t.args[1]
            if k: ps.append(str(k) if k >= 0 else '(- %d)' % -k)
            return ps[0] if len(ps) == 1 else '(+ %s)' % ' '.join(ps)
        if o == 'not': return '(not %s)' % g(t.args[0])
        if o in ('and', 'or', 'ite'): return '(%s %s)' % (o, ' '.join(g(x) for x in t.args))
        if o == '=': return '(= %s %s)' % (g(t.args[0]), g(t.args[1]))
        if o == 'ge0': return '(>= %s 0)' % g(t.args[0])
        if o in ('mul', 'div', 'mod'): return '(%s %s)' % ({'mul': '*'}.get(o, o), ' '.join(g(x) for x in t.args))
        st = t.args[0].sort == 'S' if t.args and isinstance(t.args[0], T) else t.sort == 'S'
        if o == 'cat': return '(%s %s)' % ('str.++' if t.sort == 'S' else 'seq.++', ' '.join(g(x) for x in t.args))
        if o == 'len': return '(%s %s)' % ('str.len' if st else 'seq.len', g(t.args[0]))
        if o in ('sub', 'seg'): return '(%s %s)' % ('str.substr' if st else 'seq.extract', ' '.join(g(x) for x in t.args))
        if o == 'nth': return '(seq.nth %s)' % ' '.join(g(x) for x in t.args)
        if o == 'index': return '(%s %s)' % ('str.indexof' if st else 'seq.indexof', ' '.join(g(x) for x in t.args))
        if o in ('contains', 'prefixof', 'suffixof'): return '(%s.%s %s)' % ('str' if st else 'seq', o, ' '.join(g(x) for x in t.args))
        if o in ('str.<', 'str.<='): return '(%s %s)' % (o, ' '.join(g(x) for x in t.args))
        if o == 'code': return '(str.to_code %s)' % g(t.args[0])
        if o == 'fromcode': return '(str.from_code %s)' % g(t.args[0])
        if o == 'unit': return '(seq.unit %s)' % g(t.args[0])
        if o == 'empty': return '(as seq.empty %s)' % self.sort(t.sort)
        if o == 'mk': 
            self.sort(t.sort)
            return '(%s %s)' % (sname('mk_' + t.sort[1]), ' '.join(g(x) for x in t.args))
        if o == 'sel': return '(%s %s)' % (sname('%s.%s' % (t.args[0].sort[1], t.args[1])), g(t.args[0]))
        if o == 'app':
            fn, args = t.args[0], t.args[1:]
            for x in args: self.sort(x.sort)
            self.sort(t.sort)
            self.fns[fn] = (tuple(x.sort for x in args), t.sort)
            if not args: return sname(fn)
            return '(%s %s)' % (sname(fn), ' '.join(g(x) for x in args))
        raise KeyError(o)
