"""Case generation and judging for option names and look-up (C05, C06)."""
from conc import *
import registry
from g_cmdline import Gen
from model import BIT

class OptProp(registry.Prop):
    tus = ['options_description']; files = ['src/options_description.cpp', 'include/boost/program_options/options_description.hpp']
    def ok(self, c): return True
    def cases(self, rng, n, hints, done):
        g = Gen(rng, hints)
        for _ in range(n): yield self.make(g)

class C05(OptProp):
    quick_n = 12000
    rule = 'random option descriptions (duplicates, abbreviations, wildcards, case variants) and names close to the declared ones, all flag combinations'
    def make(self, g):
        r = g.r
        ops = []
        for _ in range(r.choice([1, 2, 3, 4, 5, 8])):
            if ops and r.random() < .35:          # related to an earlier one
                b = r.choice(ops); l = [x for x in b.longs if x] or ['foo']
                s = r.choice(l); s = r.choice([s, s.upper(), s + g.word(1, 2), s[:max(1, len(s) - 1)], s[:max(1, len(s) - 1)] + '*', s + '*', s.swapcase()])
                ops.append(COpt(s + (',' + r.choice('fFoObBxX') if r.random() < .4 else ''), 'string'))
            else: ops.append(COpt(g.names(), 'string'))
        d = CDesc(ops)
        if r.random() < .15: k = r.randint(0, len(ops)); d = CDesc(ops[:k], groups=[CDesc(ops[k:])])
        q = r.random()
        if q < .75: n = g.decl(d)
        elif q < .85: o = r.choice(ops); n = o.short or '-' + r.choice('fobFOB'); n = n.swapcase() if r.random() < .4 else n
        else: n = g.name()
        if r.random() < .1: n = r.choice(['*', 'foo*', n + '*', n + n, n[:1]]) if n else 'f'
        return dict(desc=d, name=n or 'f', approx=r.random() < .5, lic=r.random() < .5, sic=r.random() < .5)
    def command(self, c): return ['find', c['desc'].sx(), c['name'], c['approx'], c['lic'], c['sic']]
    def reduce(self, c):
        o = c['desc'].opts
        for i in range(len(o)):
            if len(o) > 1: yield dict(c, desc=CDesc(o[:i] + o[i + 1:]))
        if len(c['name']) > 1:
            for i in range(len(c['name'])): yield dict(c, name=c['name'][:i] + c['name'][i + 1:])
    def judge(self, c, r):
        if bad(r): return 'the look-up died: ' + str(died(r))
        d, n = c['desc'], c['name']
        try:
            e = d.find_nothrow(n, c['approx'], c['lic'], c['sic'])
            ex = None
        except SpecThrow as s: e, ex = None, s
        # reply: ok (found ix key | none | exc...) (found ix | exc ...)
        parts = []; i = 1
        while i < len(r):
            if r[i] == 'found': k = 3 if not parts else 2; parts.append(('found',) + tuple(r[i + 1:i + k])); i += k
            elif r[i] == 'none': parts.append(('none',)); i += 1
            elif isinstance(r[i], (list, tuple)): parts.append(('exc', Exc(r[i]))); i += 1
            else: return 'reply %r' % (r,)
        a, b = parts
        if ex is not None:
            for p in (a, b):
                if p[0] != 'exc' or p[1].cls != 'ambiguous_option': return 'expected an ambiguity of %r, got %r' % (ex.kw['alternatives'], p)
                if p[1].alts != ex.kw['alternatives']: return 'expected the alternatives %r, got %r' % (ex.kw['alternatives'], p[1].alts)
            return None
        if e is None:
            if a[0] != 'none': return 'expected no match, got %r' % (a,)
            if b[0] != 'exc' or b[1].cls != 'unknown_option': return 'expected unknown_option from find, got %r' % (b,)
            return None
        ix = [k for k, o in enumerate(d.opts) if o is e][0]
        if a[0] != 'found' or int(a[1]) != ix: return 'expected option %d (%s), got %r' % (ix, e.names, a)
        if a[2] != e.key(n): return 'expected the key %r, got %r' % (e.key(n), a[2])
        if b[0] != 'found' or int(b[1]) != ix: return 'find: expected option %d (%s), got %r' % (ix, e.names, b)

class C06(OptProp):
    quick_n = 12000
    rule = 'random comma-separated name texts (short names, several long names, empty pieces, wildcards), every prefix style'
    def make(self, g):
        r = g.r
        q = r.random()
        if q < .55: n = g.names()
        elif q < .8: n = ','.join(r.choice([g.name(), g.word(1, 2), '', r.choice('abcX?*-,=')]) for _ in range(r.randint(1, 4)))
        else: n = ''.join(r.choice('ab,,*-X') for _ in range(r.randint(1, 6)))
        if n == '': n = 'a'
        src = r.choice([n, g.name(), g.word(), '-' + g.word(1, 1), 'foo', ''])
        st = r.choice([0] + [BIT[k] for k in ('allow_long', 'allow_long_disguise', 'allow_dash_for_short', 'allow_slash_for_short')] + [r.getrandbits(13)])
        return dict(names=n, src=src, style=st, lic=r.random() < .5, sic=r.random() < .5, approx=r.random() < .5)
    def command(self, c): return ['od', c['names'], c['src'], c['style'], c['lic'], c['sic'], c['approx']]
    def reduce(self, c):
        for i in range(len(c['names'])):
            if len(c['names']) > 1: yield dict(c, names=c['names'][:i] + c['names'][i + 1:])
    def cases(self, rng, n, hints, done):
        g = Gen(rng, hints); k = 0
        while k < n:
            c = self.make(g); o = COpt(c['names'])
            if not o.longs and not o.short: continue          # nothing to display: outside the property
            k += 1; yield c
    def judge(self, c, r):
        if bad(r): return 'the option description died: ' + str(died(r))
        if r[0] == 'exc': return 'unexpected exception %r' % (r,)
        o = COpt(c['names']); st = c['style']
        key, ln, lns, disp, fmt = r[1], r[2], tuple(r[3]), r[4], r[5]
        if lns != tuple(o.longs): return 'long names of %r are %r, expected %r' % (c['names'], lns, o.longs)
        if ln != (o.longs[0] if o.longs else ''): return 'long_name() of %r is %r' % (c['names'], ln)
        if key != o.key(c['src']): return 'key of %r for %r is %r, expected %r' % (c['names'], c['src'], key, o.key(c['src']))
        e = display(o, st)
        if disp != e: return 'display name of %r with style %d is %r, expected %r' % (c['names'], st, disp, e)
        e = format_name(o)
        if fmt != e: return 'format_name of %r is %r, expected %r' % (c['names'], fmt, e)
        e = 1 if o.exact(c['src'], c['lic'], c['sic']) else 2 if o.approx(c['src'], c['approx'], c['lic']) else 0
        if c['src'] != '' and int(r[6]) != e: return 'match of %r against %r is %s, expected %d' % (c['src'], c['names'], r[6], e)
        if r[7] != 'txt': return 'description() is %r' % (r[7],)

def display(o, st):
    if o.longs and st == BIT['allow_long']: return '--' + o.longs[0]
    if o.longs and st == BIT['allow_long_disguise']: return '-' + o.longs[0]
    if o.short and st == BIT['allow_slash_for_short']: return '/' + o.short[1]
    if o.short and st == BIT['allow_dash_for_short']: return '-' + o.short[1]
    return o.longs[0] if o.longs else o.short
def format_name(o):
    if o.short: return o.short + ' [ --' + o.longs[0] + ' ]' if o.longs else o.short
    return '--' + o.longs[0]
