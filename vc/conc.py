"""Concrete world: descriptions as the properties describe them, case generation, judging real outputs."""
import random, re
import sp
from sp import R, SpecThrow, clower
UMAX = 2**32 - 1

class COpt:
    def __init__(self, names, kind='string', descr='', attrs=()):
        self.names, self.kind, self.descr, self.attrs = names, kind, descr, list(attrs)
        ls = names.split(',')
        if len(ls) > 1 and ls[-1] == '': ls = ls[:-1]         # text after a trailing comma is not a name
        self.short = ''
        if len(ls) > 1 and len(ls[-1]) == 1:
            self.short = '-' + ls.pop()
            if ls == ['']: ls = []
        self.longs = ls
    def sx(self): return [self.names, list(self.kind) if isinstance(self.kind, tuple) else self.kind, self.descr, [list(a) for a in self.attrs]]
    def at(self, k):
        r = None
        for a in self.attrs:
            if a[0] == k: r = a
        return r
    def min_tokens(self):
        if isinstance(self.kind, tuple): return self.kind[1]
        if self.kind in ('none', 'untyped0'): return 0
        if self.kind == 'untyped': return 1
        if self.kind == 'switch' or self.at('zero') or self.at('imp'): return 0
        return 1
    def max_tokens(self):
        if isinstance(self.kind, tuple): return self.kind[2]
        if self.kind in ('none', 'untyped0'): return 0
        if self.kind == 'untyped': return 1
        if self.at('multi'): return UMAX
        if self.kind == 'switch' or self.at('zero'): return 0
        return 1
    def key(self, name):
        if self.longs: return name if '*' in self.longs[0] else self.longs[0]
        return self.short
    def exact(self, name, lic, sic):
        lo = clower if lic else (lambda s: s)
        so = clower if sic else (lambda s: s)
        return any(l != '' and lo(l) == lo(name) for l in self.longs) or so(self.short) == so(name)
    def approx(self, name, abbr, lic):
        lo = clower if lic else (lambda s: s)
        return any(l != '' and ((l.endswith('*') and lo(name).startswith(lo(l[:-1]))) or (abbr and lo(l).startswith(lo(name)))) for l in self.longs)

class CDesc:
    def __init__(self, opts=(), caption='', line=80, mindesc=40, groups=()):
        self.own, self.caption, self.line, self.mindesc, self.groups = list(opts), caption, line, mindesc, list(groups)
    @property
    def opts(self):
        r = list(self.own)
        for g in self.groups: r += g.opts
        return r
    def sx(self): return ['desc', self.caption, self.line, self.mindesc, [o.sx() for o in self.own], [g.sx() for g in self.groups]]
    def find_nothrow(self, name, approx, lic, sic):
        ex = [o for o in self.opts if o.exact(name, lic, sic)]
        if len(ex) > 1: raise SpecThrow('ambiguous_option', alternatives=tuple(o.key(name) for o in ex))
        if ex: return ex[0]
        ap = [o for o in self.opts if o.approx(name, approx, lic)]
        if len(ap) > 1: raise SpecThrow('ambiguous_option', alternatives=tuple(o.key(name) for o in ap))
        return ap[0] if ap else None

# ---- literals of the current sources: inputs worth trying ------------------------------------------------------
def literals(files):
    out = set(); nums = set(); chars = set()
    for f in files:
        try: s = open(f, errors='replace').read()
        except OSError: continue
        s = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', s, flags=re.S)
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', s):
            try: t = m.group(1).encode('latin-1', 'replace').decode('unicode_escape')
            except Exception: continue
            if len(t) <= 24 and '%' not in t: out.add(t)
        for m in re.finditer(r"'((?:[^'\\\n]|\\.))'", s):
            try: t = m.group(1).encode().decode('unicode_escape')
            except Exception: continue
            chars.add(t)
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', s):
            n = int(m.group(1))
            if n <= 4096: nums.add(n)
    return sorted(out), sorted(chars), sorted(nums)

# ---- judging ----------------------------------------------------------------------------------------------------
class Exc:
    def __init__(self, x):
        self.cls = x[1]; self.what = x[2] if len(x) > 2 else ''; self.repeat = x[3] == '1' if len(x) > 3 else True
        self.kind = int(x[4]) if len(x) > 4 else 0
        self.option, self.token, self.style, self.canon = (x[5], x[6], int(x[7]), x[8]) if len(x) > 8 else ('', '', 0, '')
        self.alts = tuple(x[9]) if len(x) > 9 else ()
        self.line = x[10] if len(x) > 10 else ''; self.value = x[11] if len(x) > 11 else ''
    def __repr__(self): return 'throws %s (%s)' % (self.cls, self.what)
class Opt:
    def __init__(self, x):
        self.string_key, self.position_key = x[0], int(x[1]); self.value, self.original_tokens = tuple(x[2]), tuple(x[3])
        self.unregistered, self.case_insensitive = x[4] == '1', x[5] == '1'
    def tup(self): return (self.string_key, self.position_key, self.value, self.original_tokens, self.unregistered)
    def __repr__(self): return 'option(key=%r, pos=%d, value=%r, tokens=%r%s)' % (self.string_key, self.position_key, list(self.value), list(self.original_tokens), ', unregistered' if self.unregistered else '')
def bad(x): return x is None or x[0] in ('crash', 'hang', 'skipped')
def died(x): return '%s' % (': '.join(x),) if bad(x) else None
def popts(x): return [Opt(o) for o in x]
