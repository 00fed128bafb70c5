"""Symbolic interpreter / VC generator over clang's AST.  One path per run; forks by replaying decision prefixes."""
import re, sys, time, ast as pyast
import term as tm
from term import *
import prove
from prove import feasible

class Unsupported(Exception): pass
class PathEnd(Exception): pass            # path finished (loop body end, infeasible)
class Restart(Exception): pass            # loop frame grew: explore again
class CppThrow(Exception):
    def __init__(self, v): self.v = v
class CppAbort(Exception): pass           # failed assert()
class _Break(Exception): pass
class _Continue(Exception): pass
class _Return(Exception):
    def __init__(self, v): self.v = v

# ---- values ----------------------------------------------------------------------------------
class Rec:
    """object with named fields (value semantics, copy on write)"""
    __slots__ = ('cls', 'f')
    def __init__(self, cls, f): self.cls = cls; self.f = f
    def set(self, k, v):
        g = dict(self.f); g[k] = v; return Rec(self.cls, g)
    def __repr__(self): return '%s%r' % (self.cls, self.f)
class Place:
    __slots__ = ('cell', 'path')
    def __init__(self, cell, path=()): self.cell = cell; self.path = path
    def sub(self, *p): return Place(self.cell, self.path + p)
    def __eq__(self, o): return isinstance(o, Place) and self.cell == o.cell and self.path == o.path
    def __hash__(self): return hash((self.cell, self.path))
    def __repr__(self): return '<%s%s>' % (self.cell, ''.join('.%s' % (p[1] if p[0] == 'f' else '[%s]' % (p[1],)) for p in self.path))
class Ptr:
    """pointer to a place"""
    __slots__ = ('place',)
    def __init__(self, place): self.place = place
    def __eq__(self, o): return isinstance(o, Ptr) and o.place == self.place
    def __hash__(self): return hash(self.place)
    def __repr__(self): return '&%r' % (self.place,)
class Null:
    def __repr__(self): return 'nullptr'
NULL = Null()
class It:
    """iterator: position pos in the sequence stored at place; rev: reverse iterator whose base() is pos"""
    __slots__ = ('place', 'pos', 'rev')
    def __init__(self, place, pos, rev=False): self.place = place; self.pos = pos; self.rev = rev
    def __repr__(self): return 'it(%r,%s%s)' % (self.place, show(self.pos), ',rev' if self.rev else '')
class Fn:
    """callable value: kind 'method' (node, this), 'lambda', 'fun', 'abstract', 'none', 'ite'"""
    __slots__ = ('kind', 'd')
    def __init__(self, kind, **d): self.kind = kind; self.d = d
    def __repr__(self): return 'fn<%s %s>' % (self.kind, self.d.get('name', ''))
class CList:
    """container of concrete length (elements arbitrary values)"""
    __slots__ = ('xs',)
    def __init__(self, xs): self.xs = tuple(xs)
    def __repr__(self): return 'CList%r' % (self.xs,)
class CMap:
    """map with constant keys"""
    __slots__ = ('d',)
    def __init__(self, d): self.d = dict(d)
    def __repr__(self): return 'CMap%r' % (self.d,)
class Opaque:
    __slots__ = ('what',)
    def __init__(self, what): self.what = what
    def __repr__(self): return 'opaque<%s>' % (self.what,)

NPOS = I(2**64 - 1)
BIG = 2**31

def is_int(v): return isinstance(v, T) and v.sort == 'I'
def is_seq(v): return isinstance(v, T) and (v.sort == 'S' or (isinstance(v.sort, tuple) and v.sort[0] == 'Q'))

# ---- C++ types -------------------------------------------------------------------------------
def norm_type(s):
    s = s.replace('const ', '').replace('volatile ', '').replace(' const', '').replace('struct ', '').replace('class ', '').replace('enum ', '')
    s = s.replace('typename ', '').strip()
    while s.endswith('&') or s.endswith(' '): s = s[:-1]
    return s
def split_targs(s):
    """'vector<a<b,c>, d>' -> ('vector', ['a<b,c>','d'])"""
    if not s.endswith('>'): return s, None
    d = 0
    for i in range(len(s) - 1, -1, -1):
        if s[i] == '>': d += 1
        elif s[i] == '<':
            d -= 1
            if d == 0: break
    name, inner = s[:i], s[i + 1:-1]
    out = []; d = 0; cur = ''
    for ch in inner:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return name.strip(), out

INT_TYPES = {'int', 'unsigned int', 'unsigned', 'long', 'unsigned long', 'size_t', 'std::size_t', 'size_type', 'short',
             'unsigned short', 'long long', 'unsigned long long', 'difference_type', 'ptrdiff_t', 'std::ptrdiff_t'}
UNSIGNED_RE = re.compile(r'(^|\b)(unsigned|size_t|size_type|uint\w*_t)\b')
CHAR_TYPES = {'char', 'wchar_t', 'unsigned char', 'signed char', 'char_type', 'charT'}
STR_TYPES = {'string', 'std::string', 'wstring', 'std::wstring'}

def type_of(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType') or ''

class Machine:
    """shared over all paths of one verification task"""
    def __init__(self, prog):
        self.prog = prog
        self.contracts = {}      # qualified name -> callable(ex, node, this, args) or None
        self.class_sort = {}     # class name -> sort
        self.rec_info = {}       # class name -> (tu, record node)
        self.inlined = set()
        self.used_contracts = set()
        self.lib_used = set()
        self.loops = {}          # loop key -> LoopInfo
        self.loop_templates = []
        self.warnings = set()
        self.exc_opaque = True
        self.field_over = {}     # (class, field) -> sort override
        self.max_unroll = 60; self.force_cut = set()
        self.fnspec = {}         # classes handled by library hooks
        self.hooks = {}          # name -> callable for library/other functions: (ex, name, this, args, node)
        self.asserts = 'abort'; self.euf_safety = 0
        self.default_cands = True
        self.base_types = {}

    # classes
    def find_record(self, name):
        base, targs = split_targs(name)
        b = base.split('::')[-1]
        for tu in self.prog.tus.values():
            for q, r in tu.records.items():
                if q.split('::')[-1] == b and r.get('_targs') is None or (q.split('::')[-1] == b):
                    return tu, r
        return None
    def record_for(self, name):
        r = self.rec_info.get(name)
        if r is None:
            r = self._record_for(name); self.rec_info[name] = r
        return r
    def _record_for(self, name):
        base, targs = split_targs(name)
        b = base.split('::')[-1]
        if b in ('option', 'woption'): b, targs = 'basic_option', ['char' if b == 'option' else 'wchar_t']
        if not targs and getattr(self, 'spec_arg', None):       # class of a blank object: the specialization over this character type
            for tu in self.prog.tus.values():
                for i, r in tu.byid.items():
                    if r.get('_sp') and r.get('name') == b and r.get('completeDefinition'):
                        if any(self.spec_arg in (split_targs(x)[1] or [x]) for x in r['_sp']): return tu, r
        for tu in self.prog.tus.values():
            for i, r in tu.byid.items():
                if r['kind'] in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl') and r.get('name') == b and r.get('completeDefinition'):
                    if r['kind'] == 'ClassTemplateSpecializationDecl' and targs:
                        ta = [c.get('type', {}).get('qualType') for c in r.get('inner', []) if c.get('kind') == 'TemplateArgument']
                        if ta[:len(targs)] != targs[:len(ta)] and [norm_type(x or '') for x in ta][:len(targs)] != [norm_type(x) for x in targs][:len(ta)]: continue
                    if r['kind'] == 'CXXRecordDecl' and targs: continue
                    return tu, r
        return None
    def all_fields(self, name):
        r = self.record_for(name)
        if r is None: return None
        tu, n = r
        out = []
        for b in n.get('bases', []):
            bn = norm_type(b['type'].get('desugaredQualType') or b['type']['qualType'])
            fs = self.all_fields(bn)
            if fs: out += fs
        for c in n.get('inner', []):
            if c.get('kind') == 'FieldDecl': out.append((c['name'], type_of(c), c))
        return out
    def bases(self, name):
        """all base class short names (transitively), including itself"""
        s = split_targs(norm_type(name))[0].split('::')[-1]
        out = [s]
        r = self.record_for(name)
        if r:
            for b in r[1].get('bases', []):
                out += self.bases(b['type'].get('desugaredQualType') or b['type']['qualType'])
        return out
    def sort_of(self, ty):
        ty = norm_type(ty)
        if ty in self.class_sort: return self.class_sort[ty]
        if ty == 'bool': return 'B'
        if ty in INT_TYPES or ty.endswith('::size_type') or ty.endswith('::difference_type'): return 'I'
        if ty in CHAR_TYPES or ty in STR_TYPES: return 'S'
        if ty.endswith('*') and norm_type(ty[:-1]) in CHAR_TYPES: return 'S'
        base, ta = split_targs(ty)
        b = base.split('::')[-1]
        if b in self.class_sort: return self.class_sort[b]
        if b == 'basic_string': return 'S'
        if b in ('vector', 'list', 'deque', 'initializer_list') and ta: return ('Q', self.sort_of(ta[0]))
        if b == 'shared_ptr' and ta: return self.sort_of(ta[0])
        if b == 'pair' and ta:
            sa, sb = self.sort_of(ta[0]), self.sort_of(ta[1])
            n = 'pair<%s,%s>' % (sa, sb)
            if n not in DT: declare_dt(n, [('first', sa), ('second', sb)])
            return ('D', n)
        # enums
        for tu in self.prog.tus.values():
            for n in tu.byid.values():
                if n['kind'] == 'EnumDecl' and n.get('name') == b: return 'I'
        fs = self.all_fields(ty)
        if fs is not None:
            short = b if not ta else '%s<%s>' % (b, ','.join(ta))
            if b == 'basic_option': short = 'option' if ta == ['char'] else 'woption'
            if b in ('option', 'woption'): short = b
            if short in self.class_sort: return self.class_sort[short]
            if short not in DT:
                declare_dt(short, [(f, self.field_over.get((b, f)) or self.sort_of(t)) for f, t, _ in fs])
            self.class_sort[ty] = ('D', short)
            return ('D', short)
        raise Unsupported('no sort for type %r' % ty)

class LoopInfo:
    def __init__(self):
        self.mods = set()          # (cell, path) modified by the body
        self.dropped = set()       # names of candidate invariants refuted
        self.vdropped = set()      # variants refuted
        self.cands = None
        self.names = set()
        self.kept = set(); self.vkept = set()
        self.visits = 0

def as_goal(g):
    if isinstance(g, T): return g
    if isinstance(g, bool): return B(g)
    return g.t
class Ctx:
    """one path"""
    def __init__(self, mach, prefix):
        self.m = mach
        self.prefix = prefix; self.pos = 0
        self.pc = []; self.pcids = set(); self.consts = {}
        self.alts = []            # alternative prefixes discovered
        self.obls = []            # (kind, name, pc, goal, meta)
        self.store = {}
        self.fresh_n = {}
        self.steps = 0
        self.taken = []
        self.trace = []
    def fresh(self, name, sort):
        k = self.fresh_n.get(name, 0); self.fresh_n[name] = k + 1
        return var(name if k == 0 else '%s!%d' % (name, k), sort)
    def assume(self, t):
        t = as_goal(t)
        if t is TRUE: return
        if t is FALSE: raise PathEnd('infeasible')
        for x in (t.args if t.op == 'and' else (t,)):
            if x.id not in self.pcids:
                self.pc.append(x); self.pcids.add(x.id)
                if x.op == '=':
                    a, b = x.args
                    if a.op == 'str': self.consts[b.id] = a
                    elif b.op == 'str': self.consts[a.id] = b
    def holds(self, t):
        """cheap: is t known on this path?"""
        if t is TRUE: return True
        if t is FALSE: return False
        if t.id in self.pcids: return True
        if Not(t).id in self.pcids: return False
        if t.op == '=':
            a, b = t.args
            if b.op == 'str': a, b = b, a
            if a.op == 'str' and b.id in self.consts: return self.consts[b.id] is a
        if t.op == 'not' and t.args[0].op == '=':
            h = self.holds(t.args[0])
            return None if h is None else not h
        if t.op in ('and', 'or'):
            hs = [self.holds(x) for x in t.args]
            if t.op == 'and':
                if any(h is False for h in hs): return False
                if all(h is True for h in hs): return True
            else:
                if any(h is True for h in hs): return True
                if all(h is False for h in hs): return False
        return None
    def sure(self, t):
        """arithmetic / congruence consequence of the path condition (no string theory)"""
        h = self.holds(t)
        if h is not None: return h
        return prove.euf_unsat(self.pc + [Not(t)])
    def slice(self, s, off, n):
        """n characters from off; a plain slice when that is in range"""
        if self.sure(And(Ge(off, I(0)), Ge(n, I(0)), Le(add(off, n), len_(s)))): return seg(s, off, n)
        return sub(s, off, n)
    def implied(self, t):
        if self.sure(t): return True
        return not feasible(self.pc + [Not(t)])
    def branch(self, c, why=''):
        if isinstance(c, bool): return c
        assert isinstance(c, T) and c.sort == 'B', 'branch on %r' % (c,)
        h = self.holds(c)
        if h is not None: return h
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]; self.pos += 1
            if d[1]: self.taken.append(d)
            else: self.taken.append(d)
            if d[0] in (True, False) and d[1] is False:   # forced decision (other side infeasible)
                pass
            self.assume(c if d[0] else Not(c))
            return d[0]
        ft = feasible(self.pc + [c])
        if not ft:
            # the other side must be feasible (or the path is dead, harmless)
            d = (False, False)
        else:
            ff = feasible(self.pc + [Not(c)])
            d = (True, ff)
            if ff: self.alts.append(tuple(self.taken) + ((False, True),))
        self.taken.append(d); self.pos += 1
        self.prefix = self.prefix + (d,)
        self.assume(c if d[0] else Not(c))
        return d[0]
    def choose(self, n, why=''):
        """nondeterministic choice among n alternatives"""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]; self.pos += 1; self.taken.append(d); return d[0]
        for k in range(1, n): self.alts.append(tuple(self.taken) + ((k, True),))
        d = (0, True)
        self.taken.append(d); self.pos += 1; self.prefix = self.prefix + (d,)
        return 0
    def oblige(self, kind, name, goal, meta=None):
        goal = as_goal(goal)
        self.obls.append((kind, name, tuple(self.pc), goal, meta))


class Frame:
    __slots__ = ('node', 'tu', 'env', 'this', 'fid', 'cls', 'tmap')
    def __init__(self, node, tu, this, fid, cls=None):
        self.node = node; self.tu = tu; self.env = {}; self.this = this; self.fid = fid; self.cls = cls; self.tmap = None

def unescape_c(v):
    """clang's printed string literal -> text"""
    pre = v[:v.index('"')]
    body = v[v.index('"') + 1:-1]
    out = []; i = 0
    while i < len(body):
        c = body[i]
        if c != '\\': out.append(c); i += 1; continue
        c = body[i + 1]
        m = {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', '"': '"', "'": "'", 'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v', '?': '?'}
        if c in m: out.append(m[c]); i += 2
        elif c == 'x':
            j = i + 2
            while j < len(body) and body[j] in '0123456789abcdefABCDEF': j += 1
            out.append(chr(int(body[i + 2:j], 16))); i = j
        elif c in '01234567':
            j = i + 1
            while j < len(body) and j < i + 4 and body[j] in '01234567': j += 1
            out.append(chr(int(body[i + 1:j], 8))); i = j
        else: raise Unsupported('escape ' + v)
    return ''.join(out)

LVALUE_OPS = {'='}
SKIP = {'ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr',
        'CXXDefaultInitExpr', 'FullExpr', 'CXXRewrittenBinaryOperator'}

class Exec:
    def __init__(self, ctx):
        self.c = ctx; self.m = ctx.m
        self.frames = []
        self.callsite = []
        self.curexc = []
        self.depth = 0
    @property
    def fr(self): return self.frames[-1]

    # ---- store ----
    def new_cell(self, label, v):
        self.c.store[label] = v
        return Place(label)
    def load(self, x):
        if not isinstance(x, Place): return x
        v = self.c.store.get(x.cell)
        if v is None: raise Unsupported('read of unknown cell %s' % x.cell)
        for p in x.path: v = self.select(v, p, x)
        return v
    def select(self, v, p, place=None):
        if p[0] == 'f':
            if isinstance(v, Rec):
                if p[1] not in v.f: raise Unsupported('no field %s in %s' % (p[1], v.cls))
                return v.f[p[1]]
            if isinstance(v, T) and isinstance(v.sort, tuple) and v.sort[0] == 'D': return sel(v, p[1])
            if isinstance(v, (It,)):   # map iterator handled by hooks
                raise Unsupported('field of iterator')
            raise Unsupported('field %s of %r' % (p[1], v))
        if p[0] == 'n':
            if isinstance(v, CList): return v.xs[tm.val(p[1])]
            if is_seq(v): return nth(v, p[1])
            raise Unsupported('element of %r' % (v,))
        if p[0] == 'k':
            return self.map_get(v, p[1])
        raise Unsupported('path %r' % (p,))
    def put(self, v, path, x):
        if not path: return x
        p = path[0]
        if p[0] == 'f':
            if isinstance(v, Rec): return v.set(p[1], self.put(v.f[p[1]], path[1:], x) if len(path) > 1 else x)
            if isinstance(v, T) and v.sort[0] == 'D':
                inner = self.put(sel(v, p[1]), path[1:], x) if len(path) > 1 else x
                return setf(v, p[1], self.to_term(inner, field_sort(v.sort[1], p[1])))
            raise Unsupported('write field %s of %r' % (p[1], v))
        if p[0] == 'n':
            if isinstance(v, CList):
                i = tm.val(p[1]); xs = list(v.xs); xs[i] = self.put(xs[i], path[1:], x) if len(path) > 1 else x
                return CList(xs)
            inner = self.put(nth(v, p[1]), path[1:], x) if len(path) > 1 else x
            es = v.sort[1] if v.sort != 'S' else 'S'
            return update(v, p[1], self.to_term(inner, es))
        if p[0] == 'k': return self.map_put(v, p[1], self.put(self.map_get(v, p[1]), path[1:], x) if len(path) > 1 else x)
        raise Unsupported('write path %r' % (p,))
    def store_to(self, place, x):
        if not isinstance(place, Place): raise Unsupported('assignment to a non-place %r' % (place,))
        old = self.c.store.get(place.cell)
        if not place.path:
            if isinstance(old, T) and isinstance(x, (T, Rec)) : x = self.to_term(x, old.sort) if isinstance(old.sort, tuple) and old.sort[0] == 'D' else x
            self.c.store[place.cell] = x
        else: self.c.store[place.cell] = self.put(old, place.path, x)
    def map_get(self, v, k):
        h = self.m.hooks.get('map_get')
        if isinstance(v, CMap):
            return v.d[tm.val(k)]
        if h: return h(self, v, k)
        raise Unsupported('map read')
    def map_put(self, v, k, x):
        if isinstance(v, CMap):
            d = dict(v.d); d[tm.val(k)] = x; return CMap(d)
        h = self.m.hooks.get('map_put')
        if h: return h(self, v, k, x)
        raise Unsupported('map write')
    def to_term(self, v, sort):
        v = self.load(v)
        if isinstance(v, T):
            if v.sort == sort: return v
            if sort == 'B' and v.sort == 'I': return Not(Eq(v, I(0)))
            if sort == 'I' and v.sort == 'B': return Ite(v, I(1), I(0))
            if sort == 'S' and v.sort == 'I': return fromcode(v)
            if sort == 'I' and v.sort == 'S': return code(v)
            if isinstance(sort, tuple) and sort[0] == 'D' and sort[1].startswith('P:') and dict(DT[sort[1]]).get('obj') == v.sort:
                return mk(sort[1], null=FALSE, obj=v)          # a reference to an object where a pointer is wanted
            raise Unsupported('sort %s where %s expected: %s' % (v.sort, sort, show(v)[:200]))
        if isinstance(v, Rec) and isinstance(sort, tuple) and sort[0] == 'D':
            return mk(sort[1], **{f: self.to_term(v.f[f], s) for f, s in DT[sort[1]]})
        if isinstance(v, CList) and isinstance(sort, tuple) and sort[0] == 'Q':
            return cat(sort, *[unit(self.to_term(x, sort[1])) for x in v.xs])
        if isinstance(v, CList) and not v.xs and sort == 'S': return S('')
        if isinstance(v, Ptr): return self.to_term(self.load(v.place), sort)
        h = self.m.hooks.get('to_term')
        if h:
            r = h(self, v, sort)
            if r is not None: return r
        raise Unsupported('cannot make %s of %r' % (sort, v))
    def truth(self, v):
        v = self.load(v)
        if isinstance(v, T):
            if v.sort == 'B': return v
            if v.sort == 'I': return Not(Eq(v, I(0)))
            if v.sort == 'S': return TRUE          # non-null const char*
            if isinstance(v.sort, tuple) and v.sort[0] == 'D' and v.sort[1].startswith('P:'): return Not(sel(v, 'null'))
            h = self.m.hooks.get('truth')
            r = h(self, v) if h else None
            return TRUE if r is None else r        # non-null smart pointer to a value
        if v is NULL: return FALSE
        if isinstance(v, (Ptr,)): return TRUE
        if isinstance(v, Fn):
            if v.kind == 'none': return FALSE
            if v.kind == 'abstract' and 'nonempty' in v.d: return v.d['nonempty']
            return TRUE
        if isinstance(v, Rec):
            h = self.m.hooks.get('truth')
            if h:
                r = h(self, v)
                if r is not None: return r
        raise Unsupported('truth of %r' % (v,))
    def br(self, v, why=''): return self.c.branch(self.truth(v), why)
    def fresh_of(self, name, ty):
        return self.c.fresh(name, self.m.sort_of(ty))
    def safety(self, what, cond):
        c = self.c
        if cond is TRUE: return
        sure = c.sure(cond)
        c.oblige('safety', what, cond, 'sure' if sure else None)
        if not sure: c.assume(cond)

    # ---- statements ----
    def st(self, n):
        k = n.get('kind')
        if k is None: return
        self.c.steps += 1
        if self.c.steps > 60000: raise Unsupported('path too long')
        f = getattr(self, 'st_' + k, None)
        if f is not None: return f(n)
        self.ev(n)
    def st_CompoundStmt(self, n):
        for s in n.get('inner', []): self.st(s)
    def st_NullStmt(self, n): pass
    def st_StaticAssertDecl(self, n): pass
    def st_DeclStmt(self, n):
        for d in n.get('inner', []):
            k = d['kind']
            if k == 'VarDecl': self.decl_var(d)
            elif k in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'UsingDirectiveDecl', 'StaticAssertDecl', 'CXXRecordDecl', 'UsingShadowDecl', 'FunctionDecl', 'EnumDecl', 'EmptyDecl'): pass
            elif k == 'DecompositionDecl': self.decl_decomp(d)
            else: raise Unsupported('declaration ' + k)
    def decl_var(self, d):
        ty = type_of(d); qt = d['type']['qualType']
        fr = self.fr
        init = [c for c in d.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr')]
        lab = '%s:%s#%s' % (fr.fid, d.get('name', '?'), d['id'][-6:])
        if qt.rstrip().endswith('&') or ty.rstrip().endswith('&'):
            v = self.ev(init[0])
            if not isinstance(v, Place): v = self.new_cell(lab, self.coerce(v, ty))
            fr.env[d['id']] = v
            return
        if d.get('storageClass') == 'static':
            lab = 'static:%s' % d['id'][-6:]
            if lab in self.c.store:
                fr.env[d['id']] = Place(lab); return
        fr.env[d['id']] = Place(lab)
        if init:
            v = self.load(self.ev(init[0]))
            v = self.coerce(v, ty)
        else: v = self.default_value(ty, uninit=True)
        self.c.store[lab] = v
    def decl_decomp(self, d):
        bs = [c for c in d.get('inner', []) if c.get('kind') == 'BindingDecl']
        init = [c for c in d.get('inner', []) if c.get('kind') and c['kind'] != 'BindingDecl']
        v = self.ev(init[0])
        if not isinstance(v, Place): v = self.new_cell('%s:decomp%s' % (self.fr.fid, d['id'][-6:]), v)
        val = self.load(v)
        names = list(val.f) if isinstance(val, Rec) else [f for f, _ in DT[val.sort[1]]]
        for b, f in zip(bs, names): self.fr.env[b['id']] = v.sub(('f', f))
    def coerce(self, v, ty):
        """value of declared type ty"""
        t = norm_type(ty)
        if isinstance(v, T):
            if t == 'bool' and v.sort != 'B': return self.truth(v)
            if v.sort == 'B' and t in INT_TYPES: return Ite(v, I(1), I(0))
            if v.sort == 'S' and t in INT_TYPES: return code(v)
            if v.sort == 'I' and t in CHAR_TYPES: return fromcode(v)
            if v.sort == 'I' and t in ('unsigned int', 'unsigned') and v is NPOS: return I(2**32 - 1)
        if v is NULL or isinstance(v, Opaque) and v.what == 'nullptr':
            # null pointer of a pointer-to-value class
            if t.endswith('*'):
                s = self.ptr_sort(t)
                if s: return mk(s[1], null=TRUE, obj=self.c.fresh('nullobj', field_sort(s[1], 'obj')))
        return v
    def ptr_sort(self, ty):
        """sort of nullable pointers to immutable objects of abstract class (if declared by the task)"""
        t = norm_type(ty)
        base, ta = split_targs(t)
        if base.split('::')[-1] in ('shared_ptr',) and ta: t = ta[0] + ' *'
        t = norm_type(t)
        if not t.endswith('*'): return None
        cl = split_targs(norm_type(t[:-1]))[0].split('::')[-1]
        n = 'P:' + cl
        return ('D', n) if n in DT else None
    def default_value(self, ty, uninit=False):
        t = norm_type(ty)
        h = self.m.hooks.get('default_value')
        if h:
            r = h(self, t)
            if r is not None: return r
        if t == 'bool': return self.c.fresh('uninit_b', 'B') if uninit else FALSE
        if t in INT_TYPES or t.endswith('::size_type') or t.endswith('::difference_type'): return self.c.fresh('uninit_i', 'I') if uninit else I(0)
        if t in CHAR_TYPES: return self.c.fresh('uninit_c', 'S') if uninit else S('\0')
        if t.endswith('*'):
            s = self.ptr_sort(t)
            if s: return mk(s[1], null=TRUE, obj=self.c.fresh('nullobj', field_sort(s[1], 'obj')))
            return NULL
        base, ta = split_targs(t)
        b = base.split('::')[-1]
        if t in STR_TYPES or b == 'basic_string': return S('')
        if b in ('vector', 'deque', 'list'):
            try: return empty(('Q', self.m.sort_of(ta[0])))
            except Unsupported: return CList(())
        if b == 'shared_ptr':
            s = self.ptr_sort(t)
            if s: return mk(s[1], null=TRUE, obj=self.c.fresh('nullobj', field_sort(s[1], 'obj')))
            return NULL
        if b in ('function', 'function0', 'function1', 'function2'): return Fn('none')
        if b in ('basic_stringstream', 'basic_ostringstream', 'stringstream', 'ostringstream'): return Rec('ostream', {'buf': S('')})
        if b in ('map',): return CMap({})
        if b in ('set',):
            r = self.m.hooks.get('empty_set')
            return r(self, ta) if r else Rec('set', {'elems': empty(('Q', self.m.sort_of(ta[0])))})
        if b == 'pair' and ta: return Rec('pair', {'first': self.default_value(ta[0]), 'second': self.default_value(ta[1])})
        if b == 'any': return Rec('any', {'full': FALSE})
        try:
            s = self.m.sort_of(t)
            if s in ('I',): return self.c.fresh('uninit_e', 'I')
        except Unsupported: s = None
        return self.construct(t, [], None)

    def st_ReturnStmt(self, n):
        inn = [c for c in n.get('inner', []) if c.get('kind')]
        if not inn: raise _Return(None)
        v = self.ev(inn[0])
        rt = self.fr.node.get('type', {}).get('qualType', '') if self.fr.node else ''
        rt = self.rettype(rt)
        if not rt.rstrip().endswith('&'):
            v = self.load(v)
            rd = rt
            v = self.coerce(v, rd)
        raise _Return(v)
    def rettype(self, qt):
        d = 0
        for i, ch in enumerate(qt):
            if ch == '<': d += 1
            elif ch == '>': d -= 1
            elif ch == '(' and d == 0: return qt[:i].strip()
        return qt
    def st_IfStmt(self, n):
        inn = list(n['inner'])
        if n.get('hasInit'): self.st(inn.pop(0))
        if n.get('hasVar'):
            self.st(inn.pop(0))
        cond = inn[0]
        if n.get('isConstexpr'):
            v = self.load(self.ev(cond))
            if self.br(v): self.st(inn[1])
            elif len(inn) > 2: self.st(inn[2])
            return
        if self.m.hooks.get('if_convert') and len(inn) == 2 and not n.get('hasInit') and not n.get('hasVar') and self.if_convert(cond, inn[1]): return
        if self.cond(cond): self.st(inn[1])
        elif len(inn) > 2: self.st(inn[2])
    def pure_cond(self, e):
        """value of a condition as a term"""
        k = e.get('kind')
        if k in ('ParenExpr', 'ExprWithCleanups') or k == 'ImplicitCastExpr' and e.get('castKind') == 'NoOp': return self.pure_cond(e['inner'][0])
        if k == 'BinaryOperator' and e['opcode'] in ('&&', '||'):
            return (And if e['opcode'] == '&&' else Or)(self.pure_cond(e['inner'][0]), self.pure_cond(e['inner'][1]))
        if k == 'UnaryOperator' and e['opcode'] == '!': return Not(self.pure_cond(e['inner'][0]))
        return self.truth(self.ev(e))
    def if_convert(self, cond, body):
        """state merging: 'if (c) body' as one state whose changed values are ite(c, new, old); False: do it by branching.
        Only when neither side branches, throws, leaves the body, or assumes anything"""
        c = self.c
        class Undecided(Exception): pass
        snap = (dict(c.store), [dict(f.env) for f in self.frames], len(c.pc), set(c.pcids), dict(c.consts), len(c.obls), dict(c.fresh_n))
        def restore():
            c.store = dict(snap[0])
            for f, e in zip(self.frames, snap[1]): f.env = dict(e)
            del c.pc[snap[2]:]; c.pcids = set(snap[3]); c.consts = dict(snap[4])
        def nb(t, why=''):
            if isinstance(t, bool): return t
            h = c.holds(t)
            if h is None: raise Undecided()
            return h
        ob, oc = c.branch, c.choose
        def noch(*a): raise Undecided()
        c.branch, c.choose = nb, noch
        nf = len(self.frames)
        ok = False
        try:
            t = self.pure_cond(cond)
            if c.holds(t) is not None or len(c.pc) != snap[2] or any(c.store.get(k) is not v for k, v in snap[0].items()): raise Undecided()
            c.assume(t)
            n0 = len(c.pc)
            self.st(body)
            if len(c.pc) != n0: raise Undecided()
            merged = dict(snap[0])
            for k, new in c.store.items():
                if k not in snap[0]: continue
                old = snap[0][k]
                if new is not old: merged[k] = self.merge(t, new, old)
            ok = True
        except (Undecided, Unsupported, PathEnd, _Break, _Continue, _Return, CppThrow, CppAbort): pass
        finally:
            c.branch, c.choose = ob, oc
            del self.frames[nf:]
        if not ok:
            del c.obls[snap[5]:]; restore(); c.fresh_n = dict(snap[6]); return False
        restore(); c.store = merged
        return True
    def merge(self, t, new, old):
        if isinstance(new, T) and isinstance(old, T) and new.sort == old.sort:
            if is_seq(new) and new.sort != 'S':
                a = new.args if new.op == 'cat' else (new,); b = old.args if old.op == 'cat' else () if old.op == 'empty' else (old,)
                if a[:len(b)] == tuple(b): return cat(new.sort, *(tuple(b) + (Ite(t, cat(new.sort, *a[len(b):]), cat(new.sort)),)))
            return Ite(t, new, old)
        if isinstance(new, Rec) and isinstance(old, Rec) and new.cls == old.cls and set(new.f) == set(old.f):
            return Rec(new.cls, {k: new.f[k] if new.f[k] is old.f[k] else self.merge(t, new.f[k], old.f[k]) for k in new.f})
        raise Unsupported('merge')
    def cond(self, e):
        """branch on a condition with short circuit"""
        k = e.get('kind')
        if k in ('ParenExpr', 'ExprWithCleanups'): return self.cond(e['inner'][0])
        if k == 'ImplicitCastExpr' and e.get('castKind') in ('NoOp', 'PointerToBoolean', 'IntegralToBoolean', 'UserDefinedConversion') and e['inner'][0].get('kind') in ('ParenExpr', 'BinaryOperator') and e.get('castKind') == 'NoOp':
            return self.cond(e['inner'][0])
        if k == 'BinaryOperator' and e['opcode'] == '&&': return self.cond(e['inner'][0]) and self.cond(e['inner'][1])
        if k == 'BinaryOperator' and e['opcode'] == '||': return self.cond(e['inner'][0]) or self.cond(e['inner'][1])
        if k == 'UnaryOperator' and e['opcode'] == '!': return not self.cond(e['inner'][0])
        return self.br(self.ev(e))
    def st_WhileStmt(self, n):
        inn = n['inner']
        if n.get('hasVar'):
            dv, cond, body = inn[0], inn[1], inn[2]
            def cf(): self.st(dv); return self.cond(cond)
            return self.loop(n, cf, body, None)
        self.loop(n, lambda: self.cond(inn[0]), inn[1], None)
    def st_ForStmt(self, n):
        init, _, cond, inc, body = n['inner']
        if init.get('kind'): self.st(init)
        const = not cond.get('kind')
        self.loop(n, (lambda: True) if const else (lambda: self.cond(cond)), body, (lambda: self.ev(inc)) if inc.get('kind') else None, endless=const)
    def st_DoStmt(self, n):
        body, cond = n['inner']
        # do S while(c): first iteration unrolled, then a while loop
        try: self.st(body)
        except _Break: return
        except _Continue: pass
        self.loop(n, lambda: self.cond(cond), body, None)
    def st_CXXForRangeStmt(self, n):
        inn = n['inner']
        init, rng, beg, end, cond, inc, var, body = inn
        if init.get('kind'): self.st(init)
        self.st(rng); self.st(beg); self.st(end)
        def b():
            self.st(var); self.st(body)
        self.loop(n, lambda: self.cond(cond), b, lambda: self.ev(inc))
    def st_BreakStmt(self, n): raise _Break()
    def st_ContinueStmt(self, n): raise _Continue()
    def st_CXXTryStmt(self, n):
        body, catches = n['inner'][0], n['inner'][1:]
        nf = len(self.frames)
        try: self.st(body)
        except CppThrow as e:
            del self.frames[nf:]
            exc = e.v
            bases = self.m.bases(exc.cls) if isinstance(exc, Rec) else []
            for cn in catches:
                inn = cn['inner']
                vd = inn[0] if inn[0].get('kind') == 'VarDecl' else None
                if vd is not None:
                    want = split_targs(norm_type(type_of(vd)))[0].split('::')[-1]
                    if want not in bases and want not in ('exception',): continue
                cell = self.new_cell('%s:exc#%s' % (self.fr.fid, cn.get('id', '')[-6:]), exc)
                if vd is not None: self.fr.env[vd['id']] = cell
                self.curexc.append(cell)
                try: self.st(inn[-1])
                finally: self.curexc.pop()
                return
            raise
    def st_SwitchStmt(self, n):
        inn = [c for c in n['inner'] if c.get('kind')]
        v = self.load(self.ev(inn[0]))
        v = self.to_term(v, 'I')
        body = inn[-1]
        # flatten: labels -> index in the statement list
        seq = []; labels = []
        def flat(s):
            while s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                ii = [c for c in s['inner'] if c.get('kind')]
                if s['kind'] == 'CaseStmt': labels.append((ii[0], len(seq)))
                else: labels.append((None, len(seq)))
                s = ii[-1]
            seq.append(s)
        for s in body.get('inner', []): flat(s)
        target = None; default = None
        for lab, ix in labels:
            if lab is None: default = ix; continue
            cv = self.to_term(self.load(self.ev(lab)), 'I')
            if self.c.branch(Eq(v, cv)): target = ix; break
        if target is None: target = default
        if target is None: return
        try:
            for s in seq[target:]: self.st(s)
        except _Break: pass

    # ---- loops ----
    def loop(self, n, cond, body, inc, endless=False):
        run = body if callable(body) else (lambda: self.st(body))
        key = (self.fr.fid, n['id'][-6:])
        c = self.c
        cuts = self.m.loops.get(key)
        cnt = 0; nbr = 0; prevpos = c.pos
        while cuts is None:
            # concrete unrolling as long as the condition is decided without branching
            if endless or self.fr.fid in self.m.force_cut:
                cuts = self.m.loops.setdefault(key, LoopInfo()); break
            before = (c.pos, len(c.pc))
            save = dict(c.store); envs = [dict(f.env) for f in self.frames]
            decided = self.try_decided(cond)
            if decided is None:
                c.store = save
                for f, e in zip(self.frames, envs): f.env = e
                cuts = self.m.loops.setdefault(key, LoopInfo())
                raise Restart('new loop %s' % (key,))
            if not decided: return
            cnt += 1
            # an unrolled body that keeps branching is not a concrete loop (say, while(!done)): cut it
            if cnt > 1 and before[0] > prevpos: nbr += 1
            prevpos = before[0]
            if cnt > self.m.max_unroll or nbr > 5:
                cuts = self.m.loops.setdefault(key, LoopInfo()); raise Restart('unroll limit')
            try: run()
            except _Break: return
            except _Continue: pass
            if inc: inc()
        self.cut_loop(key, cuts, n, cond, run, inc)
    def try_decided(self, cond):
        """evaluate the condition; None if it needs a real branch"""
        c = self.c
        orig = c.branch
        class Undecided(Exception): pass
        def nb(t, why=''):
            if isinstance(t, bool): return t
            h = c.holds(t)
            if h is None:
                raise Undecided()
            return h
        c.branch = nb
        try: return cond()
        except Undecided: return None
        finally: c.branch = orig

    def cut_loop(self, key, info, n, cond, run, inc):
        c = self.c
        info.visits += 1
        # a peeled cut: is the condition already false at entry?  handled by havoc + cond (invariants carry the state)
        entry = dict(c.store)
        L = LoopCtx(self, key, info, entry)
        flags = L.flags = self.flags_of(n)
        if info.cands is None or True:
            L.build()
        # initial validity of the candidates
        for nm, f in L.cands:
            if nm in info.dropped: continue
            g = L.eval(f)
            if g is None: info.dropped.add(nm); continue
            if c.holds(g): continue
            c.oblige('inv-init', (key, nm), g)
        # havoc
        for (cell, path) in sorted(info.mods, key=repr):
            if cell not in c.store: continue
            self.havoc(cell, path, key)
        L.at_head()
        for nm, f in L.cands:
            if nm in info.dropped: continue
            g = L.eval(f)
            if g is None: info.dropped.add(nm); continue
            c.assume(g)
        L.vals_head()
        head = dict(c.store)
        L.headst = head
        if not cond(): return
        try: run()
        except _Break:
            self.forget_inner(head); return
        except _Continue: pass
        if inc: inc()
        # a flag in the condition (while (!done)): where the body decides the condition, without effects, to be false
        # the path leaves the loop here, with all it knows
        if flags:
            for f in flags:
                v = self.load(f)
                if isinstance(v, T) and v.sort == 'B' and not isconst(v): self.store_to(f, B(c.branch(v)))
            save = dict(c.store)
            dec = self.try_decided(cond)
            same = all(c.store.get(k) is v for k, v in save.items())
            c.store = save
            if dec is False and same: return
        # frame of the loop: what did the iteration change
        grew = False
        for cell, old in head.items():
            new = c.store.get(cell)
            if new is old: continue
            for path in self.diff(old, new):
                if not any(cell == mc and path[:len(mp)] == mp for mc, mp in info.mods):
                    info.mods.add((cell, path)); grew = True
        if grew: raise Restart('loop frame')
        # consecution
        L.phase = 'end'
        for nm, f in L.cands:
            if nm in info.dropped: continue
            g = L.eval(f)
            if g is None: info.dropped.add(nm); continue
            if c.holds(g): continue
            c.oblige('inv-step', (key, nm), g)
        # termination measure
        live = []
        for nm, before, now in L.variants():
            if nm in info.vdropped: continue
            live.append((nm, And(Lt(now, before), Ge(before, I(0)))))
        c.oblige('variant', (key, tuple(nm for nm, _ in live)), TRUE, live)
        raise PathEnd('loop body end')
    def flags_of(self, n):
        """boolean variables tested by the loop condition"""
        inn = n.get('inner', []); k = n.get('kind')
        cn = inn[1] if k == 'DoStmt' else inn[2] if k == 'ForStmt' else inn[0] if k == 'WhileStmt' and not n.get('hasVar') else None
        todo = [cn] if cn else []; out = []
        while todo:
            e = todo.pop(); rd = e.get('referencedDecl') or {}
            if e.get('kind') == 'DeclRefExpr' and rd.get('kind') == 'VarDecl' and e.get('type', {}).get('qualType') == 'bool':
                q = self.fr.env.get(rd.get('id'))
                if isinstance(q, Place) and q not in out: out.append(q)
            todo += e.get('inner', [])
        return out
    def forget_inner(self, head): pass
    def diff(self, old, new, path=()):
        if old is new: return []
        if isinstance(old, Rec) and isinstance(new, Rec) and old.cls == new.cls and set(old.f) == set(new.f):
            out = []
            for k in old.f: out += self.diff(old.f[k], new.f[k], path + (('f', k),))
            return out
        if isinstance(old, T) and isinstance(new, T) and old.sort == new.sort and isinstance(old.sort, tuple) and old.sort[0] == 'D':
            out = []
            for f, _ in DT[old.sort[1]]:
                a, b = sel(old, f), sel(new, f)
                if a is not b: out.append(path + (('f', f),))
            return out
        if isinstance(old, It) and isinstance(new, It) and old.place == new.place and old.rev == new.rev and old.pos is new.pos: return []
        if isinstance(old, (Ptr, It)) and old == new: return []
        if isinstance(old, CList) and isinstance(new, CList) and len(old.xs) == len(new.xs):
            out = []
            for i, (a, b) in enumerate(zip(old.xs, new.xs)): out += self.diff(a, b, path + (('n', I(i)),))
            return out
        if isinstance(old, CMap) and isinstance(new, CMap) and set(old.d) == set(new.d):
            if all(not self.diff(old.d[k], new.d[k]) for k in old.d): return []
        return [path]
    def havoc(self, cell, path, key):
        p = Place(cell, path)
        v = self.load(p)
        nm = '%s%s' % (cell.split('/')[-1].split('#')[0].split(':')[-1], ''.join('.' + str(q[1]) for q in path))
        nm = nm + '@' + key[1]
        self.store_to(p, self.havoc_val(v, nm))
    def havoc_val(self, v, nm):
        c = self.c
        if isinstance(v, T): return c.fresh(nm, v.sort)
        if isinstance(v, It): return It(v.place, c.fresh(nm + '.pos', 'I'), v.rev)
        if isinstance(v, Rec): return Rec(v.cls, {k: self.havoc_val(x, nm + '.' + k) for k, x in v.f.items()})
        h = self.m.hooks.get('havoc')
        if h:
            r = h(self, v, nm)
            if r is not None: return r
        raise Unsupported('loop modifies %r' % (v,))

    # ---- calls ----
    def call_node(self, fn, this, args, site, cls=None):
        """call a function of the repository: contract, else inline"""
        q = fn.get('_q') or ''
        ctr = self.m.contracts.get(q)
        if ctr is None:
            for k in (fn.get('mangledName'),):
                ctr = self.m.contracts.get(k)
        if ctr is not None and not (self.m.top is not None and fn.get('_mn', 1) == self.m.top and not self.frames):
            self.m.used_contracts.add(q)
            np_ = len([p for p in fn.get('inner', []) if p.get('kind') == 'ParmVarDecl'])
            while len(args) < np_:
                try: args = list(args) + [self.default_arg(fn, len(args))]
                except Unsupported: break
            return ctr(self, fn, this, args)
        tu = fn['_tu']
        d = fn if tu.body(fn) is not None else tu.defs.get(fn['id'])
        if d is None:
            mn = fn.get('mangledName')
            d = self.m.prog.find_body(mn) if mn else None
            if d is None and mn:
                self.m.prog.load([x for x in self.m.prog.SRCS if x not in ('winmain', 'convert', 'utf8_codecvt_facet')])
                d = self.m.prog.find_body(mn)
        if d is None:
            r = self.implicit_call(fn, this, args)
            if r is not None: return r[0]
            raise Unsupported('no body or contract for %s' % q)
        return self.inline(d, this, args, site)
    def implicit_call(self, fn, this, args):
        if fn.get('name') == 'operator=' and len(args) == 1:
            self.store_to(this, self.load(args[0])); return (this,)
        if fn['kind'] == 'CXXDestructorDecl': return (None,)
        h = self.m.hooks.get('nobody')
        if h: return h(self, fn, this, args)
        return None
    def inline(self, d, this, args, site, cls=None):
        self.m.inlined.add(d.get('_q', d.get('name', '?')))
        if self.depth > 40: raise Unsupported('recursion of %s without contract' % d.get('_q'))
        fid = '%s/%s' % (self.fr.fid, (site or d)['id'][-6:]) if self.frames else d.get('name', 'fn')
        fr = Frame(d, d['_tu'], this, fid)
        params = [p for p in d.get('inner', []) if p.get('kind') == 'ParmVarDecl']
        nf = len(self.frames)
        for i, p in enumerate(params):
            if i < len(args): a = args[i]
            else:
                a = self.default_arg(d, i)
            ty = type_of(p)
            lab = '%s:%s#%s' % (fid, p.get('name', 'p%d' % i), p['id'][-6:])
            if ty.rstrip().endswith('&') or p['type']['qualType'].rstrip().endswith('&'):
                if not isinstance(a, Place): a = self.new_cell(lab, self.coerce(a, ty))
                fr.env[p['id']] = a
            else:
                v = self.coerce(self.load(a), ty)
                fr.env[p['id']] = self.new_cell(lab, v)
        self.frames.append(fr); self.depth += 1
        try:
            if d['kind'] == 'CXXConstructorDecl': self.ctor_inits(d, this, site)
            try: self.st(d['_tu'].body(d))
            except _Return as r: return r.v
            return None
        finally:
            self.depth -= 1
            del self.frames[nf:]
    def default_arg(self, d, i):
        """default argument i of function d (taken from whichever declaration has it)"""
        cands = [d]
        for tu in [d['_tu']] + [t for t in self.m.prog.tus.values() if t is not d['_tu']]:
            for n in tu.byid.values():
                if n['kind'] == d['kind'] and n.get('mangledName') == d.get('mangledName') and n.get('name') == d.get('name'): cands.append(n)
        for n in cands:
            ps = [p for p in n.get('inner', []) if p.get('kind') == 'ParmVarDecl']
            if i < len(ps) and ps[i].get('inner'):
                self.frames.append(Frame(n, n['_tu'], None, 'defarg'))
                try: return self.load(self.ev(ps[i]['inner'][0]))
                finally: self.frames.pop()
        raise Unsupported('default argument %d of %s' % (i, d.get('_q')))
    def ctor_inits(self, d, this, site):
        cls = self.load(this).cls
        inited = set()
        for ci in d.get('inner', []):
            if ci.get('kind') != 'CXXCtorInitializer': continue
            expr = ci['inner'][0]
            if 'anyInit' in ci:
                f = ci['anyInit']['name']; inited.add(f)
                qt = ci['anyInit'].get('type', {}).get('qualType', '')
                if expr.get('kind') == 'CXXDefaultInitExpr' and not expr.get('inner'):
                    fd = self.fr.tu.byid.get(ci['anyInit']['id']); expr = [c for c in fd.get('inner', []) if c.get('kind')][0]
                v = self.ev(expr)
                if not qt.rstrip().endswith('&'): v = self.coerce(self.load(v), ci['anyInit'].get('type', {}).get('desugaredQualType') or qt)
                elif isinstance(v, Place): v = Ptr(v)
                self.store_to(this.sub(('f', f)), v)
            elif 'baseInit' in ci:
                # run the base constructor on the same object
                bt = ci['baseInit'].get('desugaredQualType') or ci['baseInit']['qualType']
                e = expr
                while e.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr'): e = e['inner'][0]
                self.construct_base(bt, e, this)
    def construct_base(self, bt, e, this):
        if e.get('kind') != 'CXXConstructExpr': return
        args = [self.ev(a) for a in e.get('inner', [])]
        while args and isinstance(args[-1], Opaque) and args[-1].what == 'defarg': args.pop()
        cd = self.find_ctor(norm_type(bt), e.get('ctorType', {}).get('qualType'), len(args))
        if cd is None: return
        ctr = self.m.contracts.get(cd.get('_q'))
        if ctr is not None:
            self.m.used_contracts.add(cd['_q']); ctr(self, cd, this, args); return
        self.inline(cd, this, args, e)
    def find_ctor(self, ty, ctor_type, nargs):
        r = self.m.record_for(ty)
        if r is None: return None
        tu, rec = r
        cs = []
        for c in rec.get('inner', []):
            ns = [c] if c.get('kind') == 'CXXConstructorDecl' else \
                 [x for x in c.get('inner', []) if x.get('kind') == 'CXXConstructorDecl'] if c.get('kind') == 'FunctionTemplateDecl' else []
            for n in ns:
                if n.get('isImplicit') and tu.body(n) is None: continue
                cs.append(n)
        best = [n for n in cs if n.get('type', {}).get('qualType') == ctor_type]
        if not best:
            best = [n for n in cs if len([p for p in n.get('inner', []) if p.get('kind') == 'ParmVarDecl']) == nargs]
        if not best: return None
        n = best[0]
        d = n if tu.body(n) is not None else tu.defs.get(n['id'])
        if d is None and n.get('mangledName'):
            d = self.m.prog.find_body(n['mangledName'])
            if d is None:
                self.m.prog.load([x for x in self.m.prog.SRCS if x not in ('winmain', 'convert', 'utf8_codecvt_facet')])
                d = self.m.prog.find_body(n['mangledName'])
        if d is not None and d.get('isImplicit') : return None
        return d
    def blank(self, ty):
        """object of class ty with default-initialised fields"""
        fs = self.m.all_fields(ty)
        if fs is None: raise Unsupported('class %s' % ty)
        f = {}
        for name, t, node in fs:
            init = [c for c in node.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr') and c['kind'] != 'FullComment']
            if init and node.get('hasInClassInitializer'):
                f[name] = self.coerce(self.load(self.ev(init[0])), t)
            else:
                try: f[name] = self.default_value(t, uninit=True)
                except Unsupported as e: f[name] = Opaque('field %s' % name)
        b, ta = split_targs(norm_type(ty))
        return Rec(b.split('::')[-1], f)
    def construct(self, ty, args, node, ctor_type=None):
        t = norm_type(ty)
        base, ta = split_targs(t)
        b = base.split('::')[-1]
        h = self.m.hooks.get('construct')
        if h:
            r = h(self, t, b, ta, args, node)
            if r is not None: return r
        if len(args) == 1 and b in self.m.class_sort:
            src = self.load(args[0])
            if isinstance(src, T) and src.sort == self.m.class_sort[b]: return src
        r = LIB.construct(self, t, b, ta, args, node)
        if r is not None: return r
        # copy / move
        if len(args) == 1 and ctor_type:
            pt = ctor_type[ctor_type.index('(') + 1:ctor_type.rindex(')')] if '(' in ctor_type else ''
            pb = split_targs(norm_type(pt.rstrip('&').strip()))[0].split('::')[-1]
            if pb == b or (b == 'basic_option' and pb in ('option', 'woption')):
                src = self.load(args[0])
                if isinstance(src, (Rec, T)): return src
        cd = self.find_ctor(t, ctor_type, len(args))
        q = cd.get('_q') if cd else None
        if cd is not None:
            ctr = self.m.contracts.get(q)
            if ctr is not None:
                self.m.used_contracts.add(q)
                return ctr(self, cd, None, args)
            obj = self.blank(t)
            lab = '%s:new#%s' % (self.fr.fid if self.frames else 'top', (node or cd)['id'][-6:])
            this = self.new_cell(lab, obj)
            self.inline(cd, this, args, node)
            return self.load(this)
        if not args: return self.blank(t)
        # aggregate
        fs = self.m.all_fields(t)
        if fs and len(args) == len(fs):
            return Rec(b, {f: self.coerce(self.load(a), ft) for (f, ft, _), a in zip(fs, args)})
        raise Unsupported('construct %s from %d args' % (ty, len(args)))

    # ---- expressions ----
    def ev(self, n):
        k = n.get('kind')
        if k in SKIP:
            inn = [c for c in n.get('inner', []) if c.get('kind')]
            if k == 'SubstNonTypeTemplateParmExpr': return self.ev(inn[-1])
            if not inn:
                raise Unsupported(k)
            return self.ev(inn[0])
        f = getattr(self, 'ev_' + str(k), None)
        if f is None: raise Unsupported('expression kind %s' % k)
        return f(n)
    def ev_IntegerLiteral(self, n): return I(int(n['value']))
    def ev_CharacterLiteral(self, n): return S(chr(n['value']))
    def ev_CXXBoolLiteralExpr(self, n): return B(n['value'])
    def ev_CXXNullPtrLiteralExpr(self, n): return NULL
    def ev_GNUNullExpr(self, n): return NULL
    def ev_StringLiteral(self, n): return S(unescape_c(n['value']))
    def ev_PredefinedExpr(self, n): return S('fn')
    def ev_SourceLocExpr(self, n): return Opaque('source location')
    def ev_ImplicitValueInitExpr(self, n): return self.default_value(type_of(n))
    def ev_CXXScalarValueInitExpr(self, n): return self.default_value(type_of(n))
    def ev_CXXThisExpr(self, n): return Ptr(self.fr.this)
    def ev_CXXDefaultArgExpr(self, n):
        inn = [c for c in n.get('inner', []) if c.get('kind')]
        if inn: return self.ev(inn[0])
        return Opaque('defarg')
    def ev_MaterializeTemporaryExpr(self, n):
        v = self.ev(n['inner'][0])
        if isinstance(v, Place): return v
        return self.new_cell('%s:tmp%s' % (self.fr.fid, n['id'][-6:]), v)
    def ev_DeclRefExpr(self, n):
        r = n['referencedDecl']
        k, i = r['kind'], r['id']
        for fr in ([self.fr] if True else []):
            if i in fr.env: return fr.env[i]
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            for fr in reversed(self.frames):
                if i in fr.env: return fr.env[i]
            return self.global_var(r)
        if k == 'EnumConstantDecl':
            return self.enum_const(r)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            fn = self.fr.tu.byid.get(i)
            return Fn('fun', name=r.get('name'), node=fn)
        if k == 'NonTypeTemplateParmDecl': raise Unsupported('template parameter value')
        raise Unsupported('reference to ' + k)
    def enum_const(self, r):
        if 'codecvt_base' in (r.get('type', {}).get('qualType') or '') and r.get('name') in ('ok', 'partial', 'error', 'noconv'):
            return I(('ok', 'partial', 'error', 'noconv').index(r['name']))
        nd = None
        for tu in [self.fr.tu] + list(self.m.prog.tus.values()):
            nd = tu.byid.get(r['id'])
            if nd is not None and nd.get('name') == r.get('name'): break
            nd = None
        v = enum_value(nd, self.fr.tu) if nd is not None else None
        if v is None: return Opaque('enum ' + str(r.get('name')))
        return I(v)
    def global_var(self, r):
        nm = r.get('name', '?')
        if nm in ('npos',): return NPOS
        if nm in ('_1', '_2', '_3'): return Opaque(nm)
        lab = 'global:' + nm
        if lab in self.c.store: return Place(lab)
        nd = self.fr.tu.byid.get(r['id'])
        h = self.m.hooks.get('global')
        if h:
            v = h(self, nm, nd)
            if v is not None: return self.new_cell(lab, v)
        if nd is not None:
            init = [c for c in nd.get('inner', []) if c.get('kind') and not c['kind'].endswith('Attr')]
            if not init:
                for m in self.fr.tu.byid.values():
                    if m.get('previousDecl') == r['id'] and m.get('kind') == 'VarDecl' and m.get('inner'):
                        init = [c for c in m['inner'] if c.get('kind') and not c['kind'].endswith('Attr')]
            if init: return self.new_cell(lab, self.coerce(self.load(self.ev(init[0])), type_of(nd)))
        if nm in ('cout', 'cerr'): return self.new_cell(lab, Rec('ostream', {'buf': S('')}))
        return Opaque('global ' + nm)
    def ev_MemberExpr(self, n):
        b = self.ev(n['inner'][0])
        nm = n.get('name', '')
        if nm.endswith('npos'): return NPOS
        mem = self.fr.tu.byid.get(n.get('referencedMemberDecl'))
        if mem is not None and mem['kind'] == 'EnumConstantDecl': return I(enum_value(mem, self.fr.tu))
        if mem is not None and mem['kind'] == 'VarDecl': return self.global_var({'id': mem['id'], 'name': nm})
        if n.get('isArrow'): b = self.deref(b)
        if not isinstance(b, Place):
            b = self.new_cell('%s:tmp%s' % (self.fr.fid, n['id'][-6:]), b)
        cur = self.load(b)
        h = self.m.hooks.get('member')
        if h:
            r = h(self, b, cur, nm)
            if r is not None: return r
        p = b.sub(('f', nm))
        # reference members hold a Ptr
        v = self.load(p)
        if isinstance(v, Ptr) and mem is not None and mem.get('type', {}).get('qualType', '').rstrip().endswith('&'): return v.place
        return p
    def deref(self, v, at=''):
        v = self.load(v)
        if isinstance(v, Ptr): return v.place
        if isinstance(v, T) and isinstance(v.sort, tuple):
            if v.sort[0] == 'D' and v.sort[1].startswith('P:'):
                self.safety('pointer is not null', Not(sel(v, 'null')))
                return self.new_cell('obj:%d' % sel(v, 'obj').id, sel(v, 'obj'))
            return self.new_cell('obj:%d' % v.id, v)     # smart pointer to a value
        if isinstance(v, It): return self.deref_it(v)
        if v is NULL:
            self.c.oblige('safety', 'pointer is not null', FALSE); raise PathEnd('null deref')
        if isinstance(v, Rec):
            h = self.m.hooks.get('deref')
            if h:
                r = h(self, v)
                if r is not None: return r
        if isinstance(v, T) and v.sort == 'S': return self.new_cell('chr:%d' % v.id, at_term(v, I(0)))
        raise Unsupported('dereference of %r' % (v,))
    def deref_it(self, v):
        seq = self.load(v.place)
        if isinstance(seq, CList):
            return v.place.sub(('n', v.pos))
        pos = sub_i(v.pos, I(1)) if v.rev else v.pos
        if not is_seq(seq): raise Unsupported('iterator into %r' % (seq,))
        self.safety('iterator dereference in range', And(Ge(pos, I(0)), Lt(pos, len_(seq))))
        return v.place.sub(('n', pos))
    def ev_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        e = n['inner'][0]
        if ck in ('LValueToRValue',): return self.load(self.ev(e))
        if ck == 'ArrayToPointerDecay' and self.m.hooks.get('array_decay'):
            v = self.ev(e)
            if isinstance(v, Place) and isinstance(self.load(v), T) and self.load(v).sort == 'S': return It(v, I(0))
            return v
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'ArrayToPointerDecay', 'FunctionToPointerDecay', 'UserDefinedConversion',
                  'ConstructorConversion', 'BuiltinFnToFnPtr', 'BitCast', 'BaseToDerived', 'Dynamic', 'ToVoid', 'DerivedToBaseMemberPointer', 'MatchingAutoPtr', 'LValueBitCast'):
            return self.ev(e)
        v = self.load(self.ev(e))
        return self.cast(ck, v, type_of(n), n)
    def cast(self, ck, v, ty, n):
        t = norm_type(ty)
        if ck == 'NullToPointer':
            s = self.ptr_sort(t)
            if s: return mk(s[1], null=TRUE, obj=self.c.fresh('nullobj', field_sort(s[1], 'obj')))
            return NULL
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'): return self.truth(v)
        if ck in ('IntegralCast', 'NoOp', 'FloatingToIntegral', 'IntegralToFloating'):
            if isinstance(v, Opaque): return v
            if t == 'bool': return self.truth(v)
            if t in CHAR_TYPES:
                if isinstance(v, T) and v.sort == 'I': return fromcode(v)
                return v
            if isinstance(v, T) and v.sort == 'B': return Ite(v, I(1), I(0))
            if isinstance(v, T) and v.sort == 'S':
                if self.m.hooks.get('char_as_int'): return self.m.hooks['char_as_int'](self, v)
                return v          # stays a character until arithmetic needs its code
            if isinstance(v, T) and v.op == 'int':
                x = tm.val(v)
                if t in ('unsigned int', 'unsigned'): return I(x % 2**32)
                if t in ('unsigned long', 'size_t', 'std::size_t', 'unsigned long long') or t.endswith('size_type'): return I(x % 2**64)
                if t == 'int':
                    x %= 2**32; return I(x - 2**32 if x >= 2**31 else x)
                if t in ('long', 'ptrdiff_t', 'long long') or t.endswith('difference_type'):
                    x %= 2**64; return I(x - 2**64 if x >= 2**63 else x)
            return v
        if ck == 'ArrayToPointerDecay': return v
        if ck == 'PointerToIntegral': return v
        raise Unsupported('cast %s' % ck)
    def ev_CXXStaticCastExpr(self, n): return self.explicit_cast(n)
    def ev_CStyleCastExpr(self, n): return self.explicit_cast(n)
    def ev_CXXFunctionalCastExpr(self, n): return self.explicit_cast(n)
    def ev_CXXConstCastExpr(self, n): return self.ev(n['inner'][0])
    def ev_CXXReinterpretCastExpr(self, n): return self.ev(n['inner'][0])
    def ev_CXXDynamicCastExpr(self, n): raise Unsupported('dynamic_cast')
    def explicit_cast(self, n):
        ck = n.get('castKind')
        e = [c for c in n['inner'] if c.get('kind')][0]
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'ArrayToPointerDecay'):
            v = self.ev(e)
            t = norm_type(type_of(n))
            if isinstance(v, T) and v.sort == 'I' and (t in CHAR_TYPES): return fromcode(v)
            return v
        if ck == 'ToVoid': self.ev(e); return None
        if ck == 'LValueToRValue': return self.load(self.ev(e))
        return self.cast(ck, self.load(self.ev(e)), type_of(n), n)
    def ev_InitListExpr(self, n):
        ty = norm_type(type_of(n))
        inn = [c for c in n.get('inner', []) if c.get('kind')]
        base, ta = split_targs(ty)
        if ty in INT_TYPES or ty == 'bool' or ty in CHAR_TYPES or ty.endswith('*'):
            return self.load(self.ev(inn[0])) if inn else self.default_value(ty)
        if ty.endswith(']'):
            return CList([self.load(self.ev(c)) for c in inn])
        vals = [self.load(self.ev(c)) for c in inn]
        fs = self.m.all_fields(ty)
        if fs:
            out = {}
            for i, (f, ft, node) in enumerate(fs): out[f] = self.coerce(vals[i], ft) if i < len(vals) else self.default_value(ft)
            return Rec(base.split('::')[-1], out)
        return CList(vals)
    def ev_CXXStdInitializerListExpr(self, n):
        return self.load(self.ev(n['inner'][0]))
    def ev_ConditionalOperator(self, n):
        c, a, b = n['inner']
        return self.ev(a) if self.cond(c) else self.ev(b)
    def ev_ArraySubscriptExpr(self, n):
        b = self.load(self.ev(n['inner'][0])); i = self.load(self.ev(n['inner'][1]))
        if isinstance(b, CList): 
            return self.load_c(b, i)
        if isinstance(b, It):
            return self.deref_it(It(b.place, add(b.pos, i), b.rev))
        if is_seq(b):
            self.safety('array index in range', And(Ge(i, I(0)), Le(i, len_(b))))
            return nul_at(b, i)
        h = self.m.hooks.get('subscript')
        if h:
            r = h(self, b, i)
            if r is not None: return r
        raise Unsupported('subscript of %r' % (b,))
    def load_c(self, b, i):
        return b.xs[tm.val(i)]
    def ev_UnaryOperator(self, n):
        op = n['opcode']; e = n['inner'][0]
        if op == '!': 
            return Not(self.truth(self.ev(e)))
        if op == '-':
            return neg(self.to_term(self.ev(e), 'I'))
        if op == '+': return self.load(self.ev(e))
        if op == '*': return self.deref(self.ev(e))
        if op == '&':
            if e.get('kind') == 'DeclRefExpr' and e['referencedDecl']['kind'] in ('CXXMethodDecl', 'FunctionDecl'): return self.ev(e)
            v = self.ev(e)
            if isinstance(v, Fn): return v
            if not isinstance(v, Place): raise Unsupported('address of temporary')
            cur = self.load(v)
            return self.addr(v, cur)
        if op in ('++', '--'):
            p = self.ev(e); v = self.load(p)
            if isinstance(v, It): nv = self.it_add(v, 1 if op == '++' else -1)
            elif is_int(v):
                if op == '++': nv = add(v, I(1))
                else: nv = self.usub(v, I(1), type_of(e))
            elif isinstance(v, Ptr):
                raise Unsupported('pointer arithmetic')
            elif isinstance(v, T) and v.sort == 'S':
                raise Unsupported('char pointer arithmetic')
            else:
                h = self.m.hooks.get('operator' + op); r = h(self, [p], n) if h else None
                if r is None: raise Unsupported('%s on %r' % (op, v))
                return v if n.get('isPostfix') else p
            self.store_to(p, nv)
            return v if n.get('isPostfix') else p
        if op == '~': return self.bnot(self.to_term(self.ev(e), 'I'))
        if op == '__extension__': return self.ev(e)
        raise Unsupported('unary ' + op)
    def addr(self, place, cur):
        if isinstance(cur, T) and isinstance(cur.sort, tuple) and cur.sort[0] == 'D':
            n = 'P:' + cur.sort[1]
            if n in DT: return mk(n, null=FALSE, obj=cur)
        return Ptr(place)
    def it_add(self, v, k):
        k = I(k) if isinstance(k, int) else k
        return It(v.place, sub_i(v.pos, k) if v.rev else add(v.pos, k), v.rev)
    def usub(self, a, b, ty):
        """subtraction, exact for unsigned types"""
        d = sub_i(a, b)
        t = norm_type(ty)
        if d.op == 'int' and tm.val(d) >= 0: return d
        if UNSIGNED_RE.search(t):
            w = 2**32 if t in ('unsigned int', 'unsigned') else 2**64
            if d.op == 'int': return I(tm.val(d) % w)
            if self.c.branch(Ge(a, b)): return d
            return add(d, I(w))
        return d
    def bnot(self, t):
        if t.op == 'int': return I(~tm.val(t))
        raise Unsupported('~')
    def ev_BinaryOperator(self, n):
        op = n['opcode']; x, y = n['inner']
        if op == '=':
            # C++17: right operand first
            v = self.load(self.ev(y)); p = self.ev(x)
            self.store_to(p, self.coerce(v, type_of(x)))
            return p
        if op == '&&': return B(True) if (self.cond(x) and self.cond(y)) else B(False)
        if op == '||': return B(True) if (self.cond(x) or self.cond(y)) else B(False)
        if op == ',': self.ev(x); return self.ev(y)
        a = self.load(self.ev(x)); b = self.load(self.ev(y))
        return self.binop(op, a, b, type_of(n), type_of(x))
    def ev_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]; x, y = n['inner']
        p = self.ev(x); b = self.load(self.ev(y)); a = self.load(p)
        r = self.binop(op, a, b, type_of(x), type_of(x))
        self.store_to(p, self.coerce(r, type_of(x)))
        return p
    def num(self, v):
        if isinstance(v, T):
            if v.sort == 'I': return v
            if v.sort == 'B': return Ite(v, I(1), I(0))
            if v.sort == 'S': return code(v)
        if v is NULL: return I(0)
        raise Unsupported('number expected: %r' % (v,))
    def binop(self, op, a, b, ty, opty):
        if op in ('==', '!='):
            r = self.equal(a, b)
            return r if op == '==' else Not(r)
        if isinstance(a, It) or isinstance(b, It):
            return LIB.it_op(self, op, a, b)
        if isinstance(a, T) and isinstance(b, T) and a.sort == 'S' and b.sort == 'S' and op in ('<', '>', '<=', '>='):
            return {'<': str_lt(a, b), '>': str_lt(b, a), '<=': str_le(a, b), '>=': str_le(b, a)}[op]
        if isinstance(a, T) and a.sort == 'S' and op == '+' and norm_type(opty).endswith('*'):
            # const char* + n
            return self.c.slice(a, b, sub_i(len_(a), b))
        a, b = self.num(a), self.num(b)
        if op == '+':
            r = add(a, b)
            if r.op == 'int' and UNSIGNED_RE.search(norm_type(ty)):
                w = 2**32 if norm_type(ty) in ('unsigned int', 'unsigned') else 2**64
                return I(tm.val(r) % w)
            if (a is NPOS or b is NPOS): return sub_i(add(a, b), I(2**64))
            return r
        if op == '-': return self.usub(a, b, ty)
        if op == '*': return mul(a, b)
        if op == '/': return div(a, b)
        if op == '%': return mod(a, b)
        if op == '<': return Lt(a, b)
        if op == '<=': return Le(a, b)
        if op == '>': return Lt(b, a)
        if op == '>=': return Le(b, a)
        if op == '&': return band(a, b)
        if op == '|': return bor(a, b)
        raise Unsupported('operator ' + op)
    def equal(self, a, b):
        a, b = self.load(a), self.load(b)
        if isinstance(a, It) and isinstance(b, It):
            if a.place != b.place: 
                h = self.m.hooks.get('it_eq')
                r = h(self, a, b) if h else None
                if r is not None: return r
                raise Unsupported('comparison of iterators into different containers')
            return Eq(a.pos, b.pos)
        if a is NULL or b is NULL:
            o = b if a is NULL else a
            if o is NULL: return TRUE
            if is_int(o): return Eq(o, I(0))
            return Not(self.truth(o))
        if isinstance(a, Ptr) and isinstance(b, Ptr): return B(a == b)
        if isinstance(a, T) and isinstance(b, T):
            if a.sort == b.sort: return Eq(a, b)
            if a.sort == 'S' and b.sort == 'I': return Eq(code(a), b) if b.op != 'int' else Eq(a, fromcode(b))
            if b.sort == 'S' and a.sort == 'I': return self.equal(b, a)
            return Eq(self.num(a), self.num(b))
        if isinstance(a, CList) and isinstance(b, T): return Eq(self.to_term(a, b.sort), b)
        if isinstance(b, CList) and isinstance(a, T): return Eq(self.to_term(b, a.sort), a)
        h = self.m.hooks.get('equal')
        if h:
            r = h(self, a, b)
            if r is not None: return r
        raise Unsupported('equality of %r and %r' % (a, b))
    def ev_CXXThrowExpr(self, n):
        inn = [c for c in n.get('inner', []) if c.get('kind')]
        if not inn:
            if not self.curexc: raise Unsupported('rethrow outside catch')
            raise CppThrow(self.load(self.curexc[-1]))
        raise CppThrow(self.load(self.ev(inn[0])))
    def ev_CXXNewExpr(self, n):
        inn = [c for c in n.get('inner', []) if c.get('kind')]
        v = self.load(self.ev(inn[-1])) if inn else self.default_value(norm_type(type_of(n))[:-1])
        if isinstance(v, T): return v
        return Ptr(self.new_cell('%s:heap#%s' % (self.fr.fid, n['id'][-6:]), v))
    def ev_CXXDeleteExpr(self, n): self.ev(n['inner'][0]); return None
    def ev_CXXConstructExpr(self, n):
        args = [self.ev(a) for a in n.get('inner', []) if a.get('kind')]
        args = [a for a in args if not (isinstance(a, Opaque) and a.what == 'defarg')]
        return self.construct(type_of(n), args, n, n.get('ctorType', {}).get('qualType'))
    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr
    ev_CXXUnresolvedConstructExpr = ev_CXXConstructExpr
    def ev_LambdaExpr(self, n):
        # closure: captures by reference to the current frame
        rec = [c for c in n['inner'] if c.get('kind') == 'CXXRecordDecl'][0]
        ops = [c for c in rec.get('inner', []) if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()']
        ops += [x for c in rec.get('inner', []) if c.get('kind') == 'FunctionTemplateDecl' for x in c.get('inner', []) if x.get('kind') == 'CXXMethodDecl']
        op = ops[-1]
        body = [c for c in n['inner'] if c.get('kind') == 'CompoundStmt'][-1]
        return Fn('lambda', node=op, body=body, env=dict(self.fr.env), this=self.fr.this, tu=self.fr.tu)
    def call_fn(self, f, args, site):
        f = self.load(f)
        if isinstance(f, Ptr): f = self.load(f.place)
        if isinstance(f, Fn):
            if f.kind == 'lambda':
                op = f.d['node']
                fr = Frame(op, f.d['tu'], f.d['this'], '%s/%s' % (self.fr.fid, site['id'][-6:]))
                fr.env = dict(f.d['env'])
                for i, p in enumerate([p for p in op.get('inner', []) if p.get('kind') == 'ParmVarDecl']):
                    a = args[i]; lab = '%s:%s#%s' % (fr.fid, p.get('name', 'p%d' % i), p['id'][-6:])
                    if p['type']['qualType'].rstrip().endswith('&'):
                        fr.env[p['id']] = a if isinstance(a, Place) else self.new_cell(lab, a)
                    else: fr.env[p['id']] = self.new_cell(lab, self.load(a))
                nf = len(self.frames)
                self.frames.append(fr)
                try:
                    try: self.st(f.d['body'])
                    except _Return as r: return r.v
                    return None
                finally: del self.frames[nf:]
            if f.kind == 'method':
                node = f.d['node']
                pre = f.d.get('bound')
                full = []
                if pre is not None:
                    for b in pre: full.append(args[int(b.what[1:]) - 1] if isinstance(b, Opaque) and b.what.startswith('_') else b)
                else: full = args
                return self.call_node(node, f.d['this'], full, site)
            if f.kind == 'fun':
                node = f.d.get('node')
                if node is not None and node.get('_tu') is not None: return self.call_node(node, None, args, site)
                return LIB.free(self, f.d['name'], args, site)
            if f.kind == 'abstract':
                return f.d['call'](self, args)
            if f.kind == 'none':
                self.c.oblige('safety', 'call of an empty function object', FALSE); raise PathEnd('empty function')
        h = self.m.hooks.get('call')
        if h:
            r = h(self, f, args)
            if r is not None: return r[0]
        if isinstance(f, Rec):
            nd = self.method_by_name(f.cls, 'operator()', len(args))
            if nd is not None: return self.call_node(nd, self.new_cell('functor', f), args, site)
        raise Unsupported('call of %r' % (f,))
    def ev_CallExpr(self, n):
        callee = n['inner'][0]; argn = n['inner'][1:]
        c = callee
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        if c.get('kind') == 'DeclRefExpr':
            r = c['referencedDecl']; nm = r.get('name', '')
            fn = self.fr.tu.byid.get(r['id'])
            if nm in ('__assert_fail',):
                self.m.lib_used.add('assert')
                raise CppAbort('assert')
            local = None
            if r['id'] in self.fr.env: local = self.fr.env[r['id']]
            if local is not None: return self.call_fn(local, [self.ev(a) for a in argn], n)
            h = self.m.hooks.get('free:' + nm)
            if h: return h(self, [self.ev(a) for a in argn], n)
            if fn is not None and fn['kind'] in ('FunctionDecl', 'CXXMethodDecl') and fn.get('_tu'):
                args = [self.ev(a) for a in argn]
                return self.call_node(fn, None, args, n)
            args = [self.ev(a) for a in argn]
            return LIB.free(self, nm, args, n)
        return self.call_fn(self.ev(callee), [self.ev(a) for a in argn], n)
    def ev_CXXMemberCallExpr(self, n):
        me = n['inner'][0]; argn = [a for a in n['inner'][1:]]
        while me.get('kind') in ('ParenExpr', 'ImplicitCastExpr'): me = me['inner'][0]
        if me.get('kind') != 'MemberExpr': raise Unsupported('member call through %s' % me.get('kind'))
        nm = me.get('name', '')
        b = self.ev(me['inner'][0])
        if me.get('isArrow'): b = self.deref(b)
        mem = self.fr.tu.byid.get(me.get('referencedMemberDecl'))
        return self.member_call(b, nm, mem, argn, n, me)
    def member_call(self, b, nm, mem, argn, n, me=None):
        args = [self.ev(a) for a in argn]
        args = [a for a in args if not (isinstance(a, Opaque) and a.what == 'defarg')]
        cur = self.load(b) if isinstance(b, Place) else b
        h = self.m.hooks.get('method:' + nm)
        if h:
            r = h(self, b, cur, args, n, mem)
            if r is not None: return r[0]
        if mem is None and isinstance(cur, Rec): mem = self.method_by_name(cur.cls, nm, len(args))
        if mem is not None and mem['kind'] in ('CXXMethodDecl', 'CXXConversionDecl', 'CXXDestructorDecl') and mem.get('_tu') is not None:
            if not isinstance(b, Place): b = self.new_cell('%s:tmp%s' % (self.fr.fid, n['id'][-6:]), b)
            # virtual dispatch on the dynamic class (unless the call is qualified)
            if mem.get('virtual') or mem.get('isOverride') or any(c.get('kind') == 'OverrideAttr' for c in mem.get('inner', [])) or True:
                if isinstance(cur, Rec) and not self.qualified(me, n):
                    ov = self.find_override(cur.cls, mem)
                    if ov is not None: mem = ov
            return self.call_node(mem, b, args, n)
        if nm.startswith('operator '):   # conversion
            r = LIB.method(self, b, cur, nm, args, n)
            return r
        return LIB.method(self, b, cur, nm, args, n)
    def qualified(self, me, n):
        """A::f() calls f of A.  clang's JSON does not print the qualifier: read it from the source range"""
        if me is None: return False
        try:
            rg = me['range']; b, e = rg['begin'], rg['end']
            src = source_text(self.fr.tu.path if True else None, self.fr.node)
            o1 = b.get('offset'); o2 = e.get('offset')
            if src is None or o1 is None or o2 is None: return False
            return '::' in src[o1:o2]
        except KeyError: return False
    def method_by_name(self, cls, nm, nargs):
        """a method of a class whose declaration was dumped separately (other filter)"""
        todo = [cls]
        while todo:
            r = self.m.record_for(todo.pop(0))
            if r is None: continue
            tu, rec = r
            for c in rec.get('inner', []):
                if c.get('kind') == 'CXXMethodDecl' and c.get('name') == nm and len([p for p in c.get('inner', []) if p.get('kind') == 'ParmVarDecl']) == nargs:
                    c = tu.byid.get(c['id'], c)
                    if c.get('_tu') is not None: return c
                if c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == nm:      # the instantiation (only those have a mangled name)
                    for d in c.get('inner', []):
                        if d.get('kind') == 'CXXMethodDecl' and d.get('mangledName') and tu.body(d) is not None and \
                           len([p for p in d.get('inner', []) if p.get('kind') == 'ParmVarDecl']) == nargs: return tu.byid.get(d['id'], d)
            todo += [norm_type(b['type'].get('desugaredQualType') or b['type']['qualType']) for b in rec.get('bases', [])]
        return None
    def find_override(self, cls, mem):
        r = self.m.record_for(cls)
        seen = set()
        while r:
            tu, rec = r
            if rec.get('_dep'): return None            # the pattern of a template: nothing to dispatch to
            for c in rec.get('inner', []):
                if c.get('kind') == 'CXXMethodDecl' and c.get('name') == mem.get('name') and \
                   c.get('type', {}).get('qualType', '').split('(')[1:] == mem.get('type', {}).get('qualType', '').split('(')[1:]:
                    return tu.byid.get(c['id'], c) if c.get('_tu') is None else c
            bs = rec.get('bases', [])
            nxt = None
            for b in bs:
                bn = norm_type(b['type'].get('desugaredQualType') or b['type']['qualType'])
                rr = self.m.record_for(bn)
                if rr: nxt = rr; break
            r = nxt
        return None
    def ev_CXXOperatorCallExpr(self, n):
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        r = c.get('referencedDecl', {})
        op = r.get('name', '').replace('operator', '')
        argn = n['inner'][1:]
        fn = self.fr.tu.byid.get(r.get('id'))
        if op == '=' or (op.endswith('=') and op not in ('==', '!=', '<=', '>=')):
            vals = [None] * len(argn)
            for i in reversed(range(len(argn))): vals[i] = self.ev(argn[i])
            args = vals
        else: args = [self.ev(a) for a in argn]
        if op == '()' :
            if fn is not None and fn.get('_tu') is not None:
                f0 = self.load(args[0])
                if not isinstance(f0, Fn): return self.call_node(fn, args[0], args[1:], n)
            f0 = self.load(args[0])
            if isinstance(f0, Rec):
                nd = self.method_by_name(f0.cls, 'operator()', len(args) - 1)
                if nd is not None: return self.call_node(nd, args[0] if isinstance(args[0], Place) else self.new_cell('functor', f0), args[1:], n)
            return self.call_fn(args[0], args[1:], n)
        if fn is not None and fn.get('_tu') is not None:
            if fn['kind'] == 'CXXMethodDecl':
                this = args[0]
                if not isinstance(this, Place): this = self.new_cell('%s:tmp%s' % (self.fr.fid, n['id'][-6:]), this)
                cur = self.load(this)
                if isinstance(cur, Rec):
                    ov = self.find_override(cur.cls, fn)
                    if ov is not None: fn = ov
                return self.call_node(fn, this, args[1:], n)
            return self.call_node(fn, None, args, n)
        h = self.m.hooks.get('operator' + op)
        if h:
            rr = h(self, args, n)
            if rr is not None: return rr[0]
        return LIB.oper(self, op, args, n)

_src = {}
def source_text(path, fnnode):
    f = (fnnode or {}).get('loc', {}).get('file') or path
    if path not in _src:
        try: _src[path] = open(path, encoding='latin-1').read()
        except OSError: _src[path] = None
    return _src[path]

def at_term(s, i): return at(s, i)
def nul_at(s, i):
    """character i of a string, NUL at position size()"""
    if s.sort != 'S': return nth(s, i)
    d = sub_i(i, len_(s))
    if d.op == 'int': return S('\0') if tm.val(d) == 0 else at(s, i)
    return at(s, i)

def enum_value(n, tu):
    inn = [c for c in n.get('inner', []) if c.get('kind') and not c['kind'].endswith('Comment')]
    def lit(e):
        if 'value' in e and e.get('kind') in ('ConstantExpr', 'IntegerLiteral'): return int(e['value'])
        for c in e.get('inner', []):
            r = lit(c)
            if r is not None: return r
        return None
    if inn:
        return lit(inn[0])
    # implicit value: previous + 1
    for p in tu.byid.values():
        if p['kind'] == 'EnumDecl' and any(c.get('id') == n['id'] for c in p.get('inner', [])):
            v = -1
            for c in p['inner']:
                if c.get('kind') != 'EnumConstantDecl': continue
                i2 = [x for x in c.get('inner', []) if x.get('kind') and not x['kind'].endswith('Comment')]
                v = lit(i2[0]) if i2 else v + 1
                if c['id'] == n['id']: return v
    return None

# ---- bit fields ------------------------------------------------------------------------------
def bit_atoms(t):
    """t = k + sum of ite(b, 2^i, 0): -> ({bit: cond}, k) or None"""
    if t.op == 'ite': co, k = {t: 1}, 0
    else: co, k = lin(t)
    bits = {}
    if k < 0: return None
    for i in range(64):
        if k >> i & 1: bits[i] = TRUE
    for x, c in co.items():
        if x.op != 'ite' or not isconst(x.args[1]) or not isconst(x.args[2]) or tm.val(x.args[2]) != 0: return None
        v = tm.val(x.args[1]) * c
        if v <= 0 or v & (v - 1): return None
        b = v.bit_length() - 1
        if b in bits: return None
        bits[b] = x.args[0]
    return bits
def from_bits(bits): return add(*([I(0)] + [Ite(c, I(1 << b), I(0)) for b, c in bits.items()]))
def band(a, b):
    if isconst(a) and isconst(b): return I(tm.val(a) & tm.val(b))
    x, y = bit_atoms(a), bit_atoms(b)
    if x is None or y is None: raise Unsupported('bitwise and of %s' % show(a)[:80])
    return from_bits({i: And(x[i], y[i]) for i in x if i in y})
def bor(a, b):
    if isconst(a) and isconst(b): return I(tm.val(a) | tm.val(b))
    x, y = bit_atoms(a), bit_atoms(b)
    if x is None or y is None: raise Unsupported('bitwise or')
    return from_bits({i: Or(x.get(i, FALSE), y.get(i, FALSE)) for i in set(x) | set(y)})

class LoopCtx:
    """what candidate invariants can talk about at one loop"""
    def __init__(self, ex, key, info, entry):
        self.ex = ex; self.key = key; self.info = info; self.entry = entry; self.cands = []; self.head = None; self.phase = 'entry'
    def mod_values(self):
        """(label, place, value) of what the loop modifies"""
        out = []
        for cell, path in sorted(self.info.mods, key=repr):
            if cell in self.ex.c.store:
                out.append((Place(cell, path), self.ex.load(Place(cell, path))))
        return out
    def slots(self):
        """all readable (name, Place) scalar/sequence slots in scope, with a flag modified"""
        ex = self.ex
        out = []; seen = set()
        mods = self.info.mods
        cells = []
        for fr in ex.frames[-1:]:
            for d, p in fr.env.items():
                if isinstance(p, Place): cells.append(p)
            if isinstance(fr.this, Place): cells.append(fr.this)
        for cell, path in mods: cells.append(Place(cell))
        for p in cells:
            if p in seen: continue
            seen.add(p)
            if p.cell not in ex.c.store: continue
            try: v = ex.load(p)
            except Exception: continue
            self.expand(p, v, out, 0)
        uniq = {}
        for p, v in out: uniq.setdefault(p, v)
        return [(p, v, any(p.cell == c and (p.path[:len(q)] == q or q[:len(p.path)] == p.path) for c, q in mods)) for p, v in uniq.items()]
    def expand(self, p, v, out, d):
        if isinstance(v, Rec) and d < 2:
            for k, x in v.f.items(): self.expand(p.sub(('f', k)), x, out, d + 1)
        elif isinstance(v, T) and isinstance(v.sort, tuple) and v.sort[0] == 'D' and d < 2 and not v.sort[1].startswith('P:'):
            out.append((p, v))
            for f, s in DT[v.sort[1]]: self.expand(p.sub(('f', f)), sel(v, f), out, d + 1)
        elif isinstance(v, (T, It)): out.append((p, v))
    def name(self, p): return repr(p)
    def build(self):
        sl = self.slots()
        self.sl = sl
        ex = self.ex
        cands = []
        def cval(p):
            v = ex.load(p)
            return v.pos if isinstance(v, It) else v
        self.cval = cval
        ints = [(p, m) for p, v, m in sl if isinstance(v, It) or is_int(v)]
        seqs = [(p, m) for p, v, m in sl if is_seq(v)]
        # default candidates: bounds of modified integers / iterators, entry values
        for p, m in (ints if ex.m.default_cands else []):
            if not m: continue
            e0 = self.eload(p)
            cands.append(('%s>=0' % self.name(p), (lambda p=p: Ge(cval(p), I(0)))))
            if e0 is not None and isconst(e0) is False or (e0 is not None and tm.val(e0) != 0):
                cands.append(('%s>=entry' % self.name(p), (lambda p=p, e0=e0: Ge(cval(p), e0))))
                cands.append(('%s<=entry' % self.name(p), (lambda p=p, e0=e0: Le(cval(p), e0))))
            v = ex.load(p)
            if isinstance(v, It):
                cands.append(('%s<=len' % self.name(p), (lambda p=p, v=v: Le(cval(p), len_(ex.load(v.place))))))
            else:
                for q, mq in seqs:
                    cands.append(('%s<=len(%s)' % (self.name(p), self.name(q)), (lambda p=p, q=q: Le(cval(p), len_(cval(q))))))
        for p in self.flags:
            if isinstance(self.eload(p), T): cands.append(('flag %s' % self.name(p), (lambda p=p: Eq(cval(p), self.eload(p)))))
        for tpl in ex.m.loop_templates:
            for nm, f in tpl(self): cands.append((nm, f))
        seen = set(); self.cands = []
        for nm, f in cands:
            if nm not in seen: seen.add(nm); self.cands.append((nm, f))
        self.info.names |= seen
        self.info.cands = True
    def eload(self, p):
        """value at loop entry"""
        ex = self.ex
        cur = ex.c.store
        ex.c.store = self.entry
        try:
            v = ex.load(p)
            return v.pos if isinstance(v, It) else v
        except Unsupported: return None
        finally: ex.c.store = cur
    def eval(self, f):
        try:
            g = f()
        except (Unsupported, TypeError, KeyError, AttributeError) as e:
            return None
        if g is True: return TRUE
        if g is False: return FALSE
        g = getattr(g, 't', g)
        return g
    def at_head(self): self.phase = 'head'
    def hval(self, p):
        """value at the head of this iteration"""
        cur = self.ex.c.store; self.ex.c.store = self.headst
        try:
            v = self.ex.load(p)
            return v.pos if isinstance(v, It) else v
        finally: self.ex.c.store = cur
    def vals_head(self):
        self.hv = self.measure()
    def measure(self):
        out = {}
        ex = self.ex
        ints = []; seqs = []
        for p, v, m in self.sl:
            try: cur = ex.load(p)
            except Unsupported: continue
            if isinstance(cur, It):
                seq = ex.load(cur.place)
                if m and is_seq(seq):
                    out['len-%r' % (p,)] = cur.pos if cur.rev else sub_i(len_(seq), cur.pos)
                    out['%r' % (p,)] = sub_i(len_(seq), cur.pos) if cur.rev else cur.pos
            elif is_int(cur): ints.append((p, cur, m))
            elif is_seq(cur): seqs.append((p, cur, m))
        for p, cur, m in seqs:
            if m: out['len(%r)' % (p,)] = len_(cur)
        for p, cur, m in ints:
            if m:
                out['%r' % (p,)] = cur
                for q, s, mq in seqs: out['len(%r)-%r' % (q, p)] = sub_i(len_(s), cur)
                for q, s, mq in ints:
                    if q != p: out['%r-%r' % (q, p)] = sub_i(s, cur)
        for nm, f in getattr(ex.m, 'variants', []):
            try: v = f(self)
            except Exception: continue
            if v is not None: out[nm] = v
        return out
    def variants(self):
        now = self.measure()
        for k, v in self.hv.items():
            if k in now: yield k, v, now[k]

import lib as LIB
