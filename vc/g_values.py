"""Case generation and judging for value semantics (C17, C22)."""
from conc import *
import registry, re
from harness import esc
def enc(s): return esc(s)
INT_RE = re.compile(r'^[+-]?[0-9]+$')
def to_int(s):
    if not INT_RE.match(s): return None
    v = int(s)
    return v if -2**31 <= v < 2**31 else None
NARROW = ['untyped', 'untyped0', 'string', 'int', 'bool', 'vstring', 'vint', 'oint', 'switch', 'ostring', 'soint', 'own', 'vown']
WIDE = ['wstring', 'wbool', 'wnstring', 'wint', 'wvint', 'wvstring', 'wvnstring', 'woint']
TRUES, FALSES = ['on', 'yes', '1', 'true'], ['off', 'no', '0', 'false']
def wt(s): return ','.join(str(ord(c)) for c in s)
class Bad(Exception):
    def __init__(self, *alts): self.alts = alts          # acceptable (class, kind) pairs
def bad_value(kind): 
    if kind in ('bool', 'wbool', 'switch'): return ('invalid_bool_value', 32)
    if kind in ('own', 'vown'): return ('validation_error', 33)
    return ('invalid_option_value', 33)
def one(kind, s):
    """the text as a value, or None"""
    if kind in ('bool', 'wbool', 'switch'):
        l = clower(s)
        return True if l == '' or l in TRUES else False if l in FALSES else None
    if kind in ('int', 'vint', 'oint', 'soint', 'wint', 'wvint', 'woint'): return to_int(s)
    if kind in ('own', 'vown'): return None if s == 'BAD' else '[' + s + ']'
    return s
VEC = ('vstring', 'vint', 'wvint', 'wvstring', 'wvnstring', 'vown')
def show(kind, v):
    if v is None: return '-'
    if kind in ('untyped', 'untyped0', 'string', 'wnstring'): return 's:' + v
    if kind == 'wstring': return 'w:' + wt(v)
    if kind in ('bool', 'wbool', 'switch'): return 'b:1' if v else 'b:0'
    if kind in ('int', 'wint'): return 'i:%d' % v
    if kind in ('vstring', 'wvnstring'): return 'v:' + ''.join(enc(x) + ' ' for x in v)
    if kind in ('vint', 'wvint'): return 'V:' + ''.join('%d ' % x for x in v)
    if kind == 'wvstring': return 'W:' + ''.join(wt(x) + ' ' for x in v)
    if kind in ('oint', 'woint', 'soint'): return 'o:%d' % v
    if kind == 'ostring': return 'o:' + enc(v)
    if kind == 'own': return 't:' + v
    if kind == 'vown': return 'T:' + ''.join(enc(x) + ' ' for x in v)
def litv(kind, s):
    """a declared default or implicit value given as this text"""
    if kind in ('int', 'wint', 'oint', 'woint', 'soint'): return int(s)
    if kind in ('bool', 'wbool', 'switch'): return s == '1'
    if kind in ('vint', 'wvint'): return [int(s)]
    if kind in VEC: return [s]
    return s
def last(attrs, k):
    r = None
    for a in attrs:
        if a[0] == k: r = a
    return r
def occur(kind, imp, held, toks):
    """one occurrence: the value held afterwards, or the acceptable errors"""
    if not toks and imp is not None: return litv(kind, imp)
    if kind in VEC:
        out = list(held) if held is not None else []
        for t in toks:
            v = one(kind, t)
            if v is None: raise Bad(bad_value(kind))
            out.append(v)
        return out
    errs = []
    if kind == 'own' and held is not None and not (len(toks) != 1 or one(kind, toks[0]) is None): return one(kind, toks[0])     # a validator of the application's own
    if held is not None and kind != 'own': errs.append(('multiple_occurrences', None))
    if kind in ('untyped', 'untyped0'):
        if len(toks) > 1: errs.append(('multiple_values', None))
        if errs: raise Bad(*errs)
        return toks[0] if toks else ''
    if kind == 'own':
        if len(toks) != 1 or one(kind, toks[0]) is None: raise Bad(bad_value(kind))
        return one(kind, toks[0])
    if len(toks) > 1: errs.append(('validation_error', 30))
    elif not toks:
        if kind in ('bool', 'wbool', 'switch'):
            if errs: raise Bad(*errs)
            return True
        errs.append(('validation_error', 31))
    else:
        v = one(kind, toks[0])
        if v is None: errs.append(bad_value(kind))
    if errs: raise Bad(*errs)
    return v
class Base(registry.Prop):
    files = ['src/value_semantic.cpp', 'include/boost/program_options/detail/value_semantic.hpp', 'include/boost/program_options/value_semantic.hpp']
    def command(self, c): return ['occ', c['kind'], [list(a) for a in c['attrs']], c['utf8']] + [list(t) for t in c['occ']]
    def reduce(self, c):
        for i in range(len(c['occ'])): yield dict(c, occ=c['occ'][:i] + c['occ'][i + 1:])
        for i in range(len(c['attrs'])): yield dict(c, attrs=c['attrs'][:i] + c['attrs'][i + 1:])
        for i, t in enumerate(c['occ']):
            for j in range(len(t)):
                yield dict(c, occ=c['occ'][:i] + [t[:j] + t[j + 1:]] + c['occ'][i + 1:])
                if len(t[j]) > 1: yield dict(c, occ=c['occ'][:i] + [t[:j] + [t[j][:-1]] + t[j + 1:]] + c['occ'][i + 1:]); yield dict(c, occ=c['occ'][:i] + [t[:j] + [t[j][1:]] + t[j + 1:]] + c['occ'][i + 1:])
    def cases(self, rng, n, hints, done):
        lits, chars, nums = hints
        for _ in range(n): yield self.make(rng, lits, nums)
    def text(self, r, kind, lits, nums):
        q = r.random()
        if kind in ('bool', 'wbool', 'switch'):
            w = r.choice(TRUES + FALSES)
            w = ''.join(c.upper() if r.random() < .4 else c for c in w)
            if q < .55: return w
            if q < .62: return ''
            if q < .72: return w + r.choice([' ', 'x', 'e', 's', '\0', 'n', 'f'])
            if q < .82: return w[:-1]
            if q < .9: return r.choice([' ', 'x', 't', 'y', 'o']) + w
            return r.choice(['t', 'f', 'y', 'n', '2', '01', '00', '11', 'True ', 'enable', 'TRUES', 'of', 'o'] + lits)
        if 'int' in kind:
            v = r.choice([0, 1, -1, 7, 42, 2**31 - 1, -2**31, 2**31, -2**31 - 1, 10**10, r.randint(-99999, 99999)] + nums)
            s = str(v)
            if q < .6: return s
            return r.choice(['', '+' + s, '-' + s, ' ' + s, s + ' ', s + 'x', 'x', '0x10', '00' + s.lstrip('-'), s + '.0', '1e3', '--1', '-', '+'])
        return r.choice(['', 'a', 'bc', '1', '-x', '--foo', 'a b', 'BAD', 'x=y', '\t', 'on', '*', '%', 'a' * 40] + lits)
    def attrs(self, r, kind, decl):
        if kind in ('untyped', 'untyped0'): return []
        out = []
        def lv():
            if 'int' in kind: return str(r.choice([0, 1, -3, 99]))
            if kind in ('bool', 'wbool', 'switch'): return r.choice('01')
            return r.choice(['', 'd', 'def', 'a b'])
        ps = ('imp', 'def', 'req', 'comp', 'multi', 'zero', 'name')
        for k in ps:
            if r.random() < (.35 if decl else .3 if k == 'imp' else .12):
                if k == 'name': out.append(('name', r.choice(['', 'N', 'file'])))
                elif k in ('imp', 'def'):
                    out.append((k, lv()))
                    if r.random() < .2: out.append((k, lv()))
                else: out.append((k,))
        if r.random() < (.5 if decl else .2): out.append(('note', r.choice([1, 2])))
        if decl and r.random() < .15: out.append(('note', 3))
        r.shuffle(out)
        if r.random() < (.5 if decl else .2): out.insert(0, ('bind', 5))
        return out
    def make(self, r, lits, nums):
        kind = r.choice(NARROW + WIDE)
        attrs = self.attrs(r, kind, self.decl)
        occ = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3] if not self.decl else [0, 1, 1, 1, 2])):
            n = r.choice([0, 1, 1, 1, 1, 2, 3] if not self.decl else [0, 1, 1, 1, 1, 1, 1, 2])
            occ.append([self.text(r, kind, lits, nums) for _ in range(n)])
        if r.random() < .1:
            j = [(i, k) for i, t in enumerate(occ) for k in range(len(t))]
            if j:
                i, k = r.choice(j); occ[i][k] = r.choice(['\xc3\xa9', '\xc3', '\xe2\x82\xac', 'a\xffb', '\x80']) if kind not in ('own', 'vown') else occ[i][k]
        return dict(kind=kind, attrs=attrs, utf8=r.random() < .4, occ=occ)
    def walk(self, c, r):
        """yields (tokens, held before, expected value or Bad, got exception or None, shown)"""
        it = iter(r[9:]); held = None
        imp = last(c['attrs'], 'imp')
        for toks in c['occ']:
            x = next(it)
            e = None
            if isinstance(x, list): e = Exc(x); x = next(it)
            yield toks, held, imp and imp[1], e, x
            held = self.after
        self.rest = list(it)
    def conv(self, c, toks):
        """the tokens the value sees; None: not valid text; False: not judged"""
        if all(ord(ch) < 128 for t in toks for ch in t): return toks
        if not c['utf8']: return False if c['kind'] in WIDE else toks
        out = []
        for t in toks:
            try: w = t.encode('latin-1').decode('utf-8')
            except UnicodeDecodeError: return None
            if c['kind'] not in WIDE and any(ord(ch) > 127 for ch in w): return None      # not in the local (C) encoding
            out.append(w)
        return out
def wide_local(kind, toks): return kind in ('wnstring', 'wvnstring') and any(ord(ch) > 127 for t in toks for ch in t)
class C17(Base):
    decl = False; quick_n = 16000
    rule = ('successive occurrences parsed into one value: 21 value types (narrow and wide strings, numbers, booleans, switches, vectors, boost and std optionals, untyped, types with a validator of their own), '
            'with and without implicit values, 0 to 3 tokens, near misses of every accepted literal, UTF-8 and local text')
    def judge(self, c, r):
        if bad(r): return 'parsing values died: ' + str(died(r))
        if r[0] == 'exc': return 'unexpected %r' % (r,)
        kind = c['kind']
        for toks, held, imp, e, shown in self.walk(c, r):
            what = 'tokens %r, held %s' % (toks, show(kind, held))
            self.after = held
            ts = self.conv(c, toks)
            if ts is False: return None
            if ts is None:
                if e is None: return '%s: expected an exception, got %s' % (what, shown)
                if kind in VEC and held is None: return None
                if shown != show(kind, held): return '%s: the value held became %s' % (what, shown)
                continue
            if wide_local(kind, ts):                       # a wide text that the local encoding cannot represent
                if e is None: return '%s: expected an exception, got %s' % (what, shown)
                if kind in VEC: return None
                if shown != show(kind, held): return '%s: the value held became %s' % (what, shown)
                continue
            try: v = occur(kind, imp, held, ts)
            except Bad as b:
                if e is None: return '%s: expected %s, got %s' % (what, ' or '.join(x[0] for x in b.alts), shown)
                if not any(e.cls == k and (kk is None or e.kind == kk) for k, kk in b.alts): return '%s: expected %r, got %r, kind %d' % (what, b.alts, e, e.kind)
                if kind in VEC:
                    if not shown.startswith(show(kind, held if held is not None else []).rstrip(' ')) and shown != '-': return '%s: the values held became %s' % (what, shown)
                    return None
                if shown != show(kind, held): return '%s: the value held became %s' % (what, shown)
                continue
            if e is not None: return '%s: expected %s, got %r' % (what, show(kind, v), e)
            if shown != show(kind, v): return '%s: expected %s, got %s' % (what, show(kind, v), shown)
            self.after = v
        return None
class C22(Base):
    decl = True; quick_n = 12000
    rule = 'random sequences of declaration calls on 21 value types, then up to two occurrences, the default, and notification with and without bound variable and notifier'
    def judge(self, c, r):
        if bad(r): return 'declaration died: ' + str(died(r))
        if r[0] == 'exc': return 'unexpected %r' % (r,)
        kind, at = c['kind'], c['attrs']
        has = lambda k: last(at, k) is not None
        mn, mx, comp, req, nm, dres, dval, dkeep = int(r[1]), int(r[2]), r[3] == '1', r[4] == '1', r[5], r[6] == '1', r[7], r[8]
        zero = has('zero') or kind in ('switch', 'untyped0')
        wmn = 0 if zero or (has('imp')) else 1
        wmx = UMAX if has('multi') else 0 if zero else 1
        if mn != wmn: return 'minimum tokens: expected %d, got %d' % (wmn, mn)
        if mx != wmx: return 'maximum tokens: expected %d, got %d' % (wmx, mx)
        if comp != has('comp'): return 'composing: expected %s, got %s' % (has('comp'), comp)
        if req != has('req'): return 'required: expected %s, got %s' % (has('req'), req)
        d = last(at, 'def'); dv = litv(kind, d[1]) if d else False if kind == 'switch' else None
        if dres != (dv is not None): return 'apply_default: expected %s, got %s' % (dv is not None, dres)
        if dval != show(kind, dv): return 'apply_default: expected %s, got %s' % (show(kind, dv), dval)
        if dkeep != (show(kind, dv) if dv is not None else 's:keep'): return 'apply_default on a value held: got %s' % dkeep
        shown = '-'
        for toks, held, imp, e, shown in self.walk(c, r): self.after = None
        notes, outs = self.rest[0], self.rest[1]
        if not c['occ']: notes, outs = r[9], r[10]
        n = last(at, 'note'); b = last(at, 'bind')
        if kind in ('untyped', 'untyped0'): n = b = None
        want = ['%d=%s%s' % (n[1], shown, '@' + shown if b else '')] if n and shown != '-' else []
        if notes != want: return 'notification: expected %r, got %r' % (want, notes)
        if b and shown != '-' and outs != ['5=' + shown]: return 'bound variable: expected %s, got %r' % (shown, outs)
        return None
