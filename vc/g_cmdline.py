"""Case generation and judging for the command line properties (bounded replay on the real code)."""
import random, re
from conc import *
from model import Style, BIT
import spec_cmdline as sc
import registry

UNIX = 0
def valid_style(n):
    s = Style.of(n)
    if (s.allow_long or s.allow_long_disguise) and not (s.long_allow_adjacent or s.long_allow_next): return False
    if s.allow_short and not (s.short_allow_adjacent or s.short_allow_next): return False
    if s.allow_short and not (s.allow_dash_for_short or s.allow_slash_for_short): return False
    return True
DEFAULT = sum(BIT[k] for k in ('allow_short', 'short_allow_adjacent', 'short_allow_next', 'allow_long', 'long_allow_adjacent', 'long_allow_next', 'allow_sticky', 'allow_guessing', 'allow_dash_for_short'))
ALPH = 'abcfoxFOAB'
class Gen:
    def __init__(self, rng, hints):
        self.r = rng; self.strs, self.chars, self.nums = hints
    def word(self, lo=1, hi=4, alph=ALPH): return ''.join(self.r.choice(alph) for _ in range(self.r.randint(lo, hi)))
    def name(self):
        r = self.r.random()
        if r < .45: return self.r.choice(['foo', 'fo', 'f', 'foobar', 'bar', 'b', 'Foo', 'FOO', 'baz', 'ba', 'x', 'o', 'a'])
        if r < .5: return self.r.choice(['foo*', 'f*', '*', 'b*', 'bar.*', 'ba*'])
        if r < .53: return self.r.choice([s for s in self.strs if s and ',' not in s and '\0' not in s] or ['q'])
        if r < .57: return self.word(1, 3) + self.r.choice('-_.=: ') + self.word(1, 3)
        if r < .6: return self.word(5, 40)
        return self.word()
    def names(self):
        r = self.r.random()
        if r < .35: return self.name()
        if r < .75: return self.name() + ',' + self.r.choice('abcfoxFOX1?')
        if r < .85: return ',' + self.r.choice('abcfoxFOX')
        if r < .95: return self.name() + ',' + self.name() + ',' + self.r.choice('abcfoxBG')
        return self.name() + ',' + self.name()
    def kind(self):
        r = self.r.random()
        if r < .3: return ('none', [])
        if r < .55: return ('string', [])
        if r < .65: return ('vstring', [('multi',)])
        if r < .72: return ('string', [('imp', 'I')])
        if r < .77: return ('switch', [])
        if r < .8: return ('vstring', [('imp', 'I'), ('multi',)])
        mn = self.r.choice([0, 0, 1, 1, 2, 3]); mx = self.r.choice([mn, mn, mn + 1, mn + 2, UMAX])
        return (('cust', mn, mx), [])
    def desc(self, lo=1, hi=6, uniq=False):
        ops = []
        for _ in range(self.r.randint(lo, hi)):
            k, a = self.kind(); ops.append(COpt(self.names(), k, 'd', a))
        d = CDesc(ops)
        if self.r.random() < .1: d = CDesc(ops[:len(ops) // 2], groups=[CDesc(ops[len(ops) // 2:])])
        return d
    def style(self):
        r = self.r.random()
        if r < .35: return DEFAULT
        while True:
            n = self.r.getrandbits(13) if r < .8 else DEFAULT ^ (1 << self.r.randrange(13)) ^ (1 << self.r.randrange(13))
            if n and valid_style(n): return n
    def value(self):
        r = self.r.random()
        if r < .5: return self.word(1, 3, 'vwxyz')
        if r < .6: return self.r.choice(['=', '-', '--', 'a=b', '==', '-5', '/', '---', '-=x', ' ', '"', 'a b', '\xc3\xa9', '*', '@', '%', '#'])
        if r < .65: return self.r.choice(self.strs + self.chars) or 'v'
        if r < .68: return self.word(1, 2) * self.r.choice([5, 17, 64, 128, 257])
        return self.word(0, 5, 'ab=-/x1 ')
    def decl(self, d):
        """name of a declared option, perhaps abbreviated or altered"""
        o = self.r.choice(d.opts)
        pool = [l for l in o.longs if l]
        if o.short: pool.append(o.short[1])
        n = self.r.choice(pool) if pool else 'zz'
        if n.endswith('*'): n = n[:-1] + self.r.choice(['', 'q', 'abc'])
        r = self.r.random()
        if r < .15 and len(n) > 1: n = n[:self.r.randint(1, len(n) - 1)]
        elif r < .2: n = n + self.r.choice('aox')
        elif r < .28: n = n.swapcase()
        return n
    def token(self, d):
        r = self.r.random()
        nm = self.decl(d) if self.r.random() < .75 else self.name().replace('*', 'k')
        if r < .22: return '--' + nm
        if r < .4: return '--' + nm + '=' + (self.value() if self.r.random() < .9 else '')
        if r < .47: return '-' + nm + self.r.choice(['', '=' + self.value()])
        if r < .52: return '/' + nm + self.r.choice(['', '=' + self.value(), self.value()])
        if r < .66:
            return '-' + ''.join(self.shortc(d) for _ in range(self.r.randint(1, 5))) + self.r.choice(['', '', self.value()])
        if r < .72: return '--'
        if r < .75: return self.r.choice(['-', '', '--=', '--=x', '-=', '/=', '/', '---', '--a', '-a', '--=a=b', '-=v', '@k:v', '@x', '+f', '@', '+', '---=', '--==', '-/', '/-', '/--', '-a='])
        if r < .79: return self.r.choice('@+') + nm + self.r.choice(['', ':' + self.value()])
        return self.value()
    def shortc(self, d):
        s = [o.short[1] for o in d.opts if o.short]
        if s and self.r.random() < .85: return self.r.choice(s)
        return self.r.choice('abcfox=-F1')
    def args(self, d, hi=7): 
        n = self.r.randint(0, hi) if self.r.random() < .97 else self.r.choice([20, 40, 70])
        a = tuple(self.token(d) for _ in range(n))
        if self.r.random() < .003: a += ('--',) * self.r.randint(0, 1) + tuple(self.value() for _ in range(self.r.choice([260, 300, 520])))
        return a
    def pos(self, frac=.3):
        if self.r.random() > frac: return None
        ns = [k + d for k in self.nums for d in (-1, 0, 1) if 0 < k + d < 100] or [1]
        p = [(self.r.choice(['foo', 'pos', 'bar', 'p2']), self.r.choice([1, 1, 2, 3]) if self.r.random() < .93 else self.r.choice(ns)) for _ in range(self.r.randint(0, 3))]
        if self.r.random() < .4: p.append(('rest', -1))
        return p
    def case(self, **kw):
        c = dict(desc=self.desc(), style=self.style(), unreg=self.r.random() < .3, pos=self.pos(), flags=[])
        if self.r.random() < .08: c['flags'] = self.r.choice([['ext'], ['sty'], ['ext', 'sty'], ['extp', 'sty'], ['sty', 'extp']])
        c['args'] = self.args(c['desc'])
        c.update(kw)
        return c
    def bits(self, style, on=(), off=()):
        for k in on: style |= BIT[k]
        for k in off: style &= ~BIT[k]
        return style
def expected(c):
    try: return sc.run(Style.of(c['style']), c['desc'], c['args'], c['unreg'], c['pos'], c['flags'])
    except SpecThrow as e: return e

class CmdProp(registry.Prop):
    tus = ['cmdline']; files = ['src/cmdline.cpp', 'include/boost/program_options/detail/cmdline.hpp', 'include/boost/program_options/detail/parsers.hpp', 'include/boost/program_options/option.hpp']
    rule = 'random option descriptions, style combinations and argument lists weighted towards the syntaxes of this property, literals of the current sources mixed in; a case is distinct by its text'
    def command(self, c):
        return ['parse', c['desc'].sx(), c['style'], c['unreg'], 'no' if c['pos'] is None else [list(p) for p in c['pos']], list(c['args']), c['flags']]
    def reduce(self, c):
        a = c['args']
        for i in range(len(a)): yield dict(c, args=a[:i] + a[i + 1:])
        o = c['desc'].opts
        for i in range(len(o)):
            if len(o) > 1: yield dict(c, desc=CDesc(o[:i] + o[i + 1:]))
        if c['pos'] is not None: yield dict(c, pos=None)
        for i in range(len(a)):
            for j in range(len(a[i])):
                if len(a[i]) < 40: yield dict(c, args=a[:i] + (a[i][:j] + a[i][j + 1:],) + a[i + 1:])
    def ok(self, c): return True
    def cases(self, rng, n, hints, done):
        g = Gen(rng, hints)
        k = 0
        while k < n:
            c = self.make(g)
            if self.ok(c): k += 1; yield c
    def make(self, g): return g.case()
    def judge(self, c, r):
        if bad(r): return 'the parser died: ' + str(died(r))
        e = expected(c)
        got = Exc(r) if r[0] == 'exc' else popts(r[1])
        return self.compare(c, e, got)
    fields = ('string_key', 'position_key', 'value', 'original_tokens', 'unregistered')
    def compare(self, c, e, got):
        if isinstance(e, SpecThrow):
            if not isinstance(got, Exc): return 'expected %s, got %r' % (e.cls, got)
            if got.cls != e.cls or ('kind' in e.kw and got.kind != e.kw['kind']): return 'expected %r, got %r' % (e, got)
            return None
        if isinstance(got, Exc): return 'expected %d options, got %r' % (len(e), got)
        if len(e) != len(got): return 'expected %d options %r, got %d: %r' % (len(e), e, len(got), got)
        for i, (x, y) in enumerate(zip(e, got)):
            for f in self.fields:
                if getattr(x, f) != getattr(y, f): return 'option %d: %s is %r, expected %r' % (i, f, getattr(y, f), getattr(x, f))
        return None

class C01(CmdProp):
    quick_n = 6000
    def make(self, g):
        c = g.case(flags=[], pos=None)
        c['style'] = g.bits(g.style(), on=[g.r.choice(['allow_long', 'allow_long_disguise'])] + ['long_allow_adjacent'], off=['allow_short'])
        return c

LIBERR = {'ambiguous_option', 'unknown_option', 'invalid_command_line_syntax', 'too_many_positional_options_error', 'invalid_command_line_style', 'error'}
class C02(CmdProp):
    quick_n = 6000
    def make(self, g):
        c = g.case(flags=[], pos=None)
        c['style'] = g.bits(g.style(), on=['allow_short', 'short_allow_adjacent', g.r.choice(['allow_dash_for_short', 'allow_slash_for_short', 'allow_dash_for_short'])], off=['allow_long', 'allow_long_disguise'])
        if g.r.random() < .7: c['style'] |= BIT['allow_sticky']
        t = []
        for x in c['args']:
            if g.r.random() < .5: x = g.r.choice('-----/') + ''.join(g.shortc(c['desc']) for _ in range(g.r.choice([1, 1, 2, 2, 3, 4, 5, 6, 9, 17]))) + g.r.choice(['', '', g.value()])
            t.append(x)
        c['args'] = tuple(t)
        return c
class C03(CmdProp):
    quick_n = 6000
    def make(self, g):
        c = g.case(flags=[])
        a = list(c['args'])
        for _ in range(g.r.choice([1, 1, 1, 2, 3])): a.insert(g.r.randint(0, len(a)), '--')
        if g.r.random() < .3:
            o = g.r.choice(c['desc'].opts)
            if o.longs and o.longs[0] and '*' not in o.longs[0]: a[a.index('--'):a.index('--')] = ['--' + o.longs[0]] + [g.value() for _ in range(g.r.randint(0, 2))]
        c['args'] = tuple(a)
        return c
    def judge(self, c, r):
        if bad(r): return 'the parser died: ' + str(died(r))
        e = expected(c); term = sc.run.term
        got = Exc(r) if r[0] == 'exc' else popts(r[1])
        if isinstance(e, SpecThrow):
            return None
        if isinstance(got, Exc): return 'expected %d options, got %r' % (len(e), got) if term else None
        if term is None:
            return None if len(sum((o.original_tokens for o in got), ())) == len(c['args']) else 'tokens %r recorded for %r' % ([o.original_tokens for o in got], c['args'])
        m = term - 1
        k = len(c['args']) - term
        tail = got[len(got) - m:] if m <= len(got) else []
        for t, o in zip(c['args'][k + 1:], tail):
            if o.value != (t,) or o.original_tokens != (t,) or o.position_key < 0 or o.unregistered: return 'token %r after -- became %r' % (t, o)
        if len(tail) != m: return '%d tokens after --, %d options' % (m, len(got))
        if sum((o.original_tokens for o in got[:len(got) - m]), ()) != c['args'][:k]: return 'options before -- hold %r, expected tokens %r' % (got[:len(got) - m], c['args'][:k])
class C04(CmdProp):
    quick_n = 8000
    def make(self, g): return g.case(flags=[])
    def judge(self, c, r):
        if bad(r): return 'the parser died: ' + str(died(r))
        if r[0] == 'exc':
            return None if Exc(r).cls in LIBERR else 'not a library error: %r' % Exc(r)
        got = popts(r[1])
        toks = sum((o.original_tokens for o in got), ()); a = c['args']
        if toks != a and not any(a[i] == '--' and toks == a[:i] + a[i + 1:] for i in range(len(a))): return 'arguments %r, recorded tokens %r' % (a, toks)
        for o in got:
            if o.position_key != -1 and o.value != o.original_tokens and not re.match(r'(--|-|/)=', o.original_tokens[0]): return 'positional option altered: %r' % o
        e = expected(c)
        if isinstance(e, SpecThrow): return None
        x = [o.value for o in e if o.position_key != -1]; y = [o.value for o in got if o.position_key != -1]
        if x != y: return 'positional tokens %r, expected %r' % (y, x)
class C07(CmdProp):
    quick_n = 8000; fields = ('string_key', 'value', 'original_tokens')
    def make(self, g):
        c = g.case(flags=[], pos=None)
        if g.r.random() < .5: c['desc'] = CDesc([COpt(g.names(), ('cust', m, g.r.choice([m, m + 1, m + 2, UMAX])), 'd', []) for m in [g.r.choice([0, 0, 1, 2, 3]) for _ in range(g.r.randint(1, 4))]])
        if g.r.random() < .004:      # more values than a byte, or than a short, can count
            n, m = g.r.choice([(256, 300), (255, 256), (260, UMAX), (300, 300), (257, 32768 + 3), (300, 65536)])
            c['desc'] = CDesc([COpt('foo,f', ('cust', g.r.choice([0, 1, 2, m]) if m < 400 else g.r.choice([0, 1, 2]), m), 'd', []), COpt('bar,b', 'none', 'd', [])])
            c['args'] = ('--foo',) + tuple(g.r.choice('uvw') for _ in range(n + g.r.choice([-1, 0, 1, 50]))) + g.r.choice([(), ('--bar',)]); return c
        if g.r.random() < .6:
            a = []
            for _ in range(g.r.randint(1, 4)):
                a.append(g.token(c['desc'])); a += [g.r.choice([g.value(), g.value(), g.token(c['desc'])]) for _ in range(g.r.randint(0, 4))]
            c['args'] = tuple(a)
        return c
class C08(CmdProp):
    quick_n = 6000
    def make(self, g):
        c = g.case(flags=[]); c['pos'] = g.pos(.85)
        if c['pos'] and g.r.random() < .1:
            k = sum(n for _, n in c['pos'] if n > 0)
            c['args'] = tuple(['v'] * max(0, k + g.r.choice([-1, 0, 1, 2]))); return c
        if g.r.random() < .5: c['args'] = tuple(g.r.choice([g.value().lstrip('-/') or 'v', g.token(c['desc'])]) for _ in range(g.r.randint(0, 9)))
        return c
    def judge(self, c, r):
        if bad(r): return 'the parser died: ' + str(died(r))
        e = expected(c)
        if isinstance(e, SpecThrow):
            if e.cls != 'too_many_positional_options_error': return None
            return None if r[0] == 'exc' and r[1] == e.cls else 'expected %s, got %r' % (e.cls, Exc(r) if r[0] == 'exc' else popts(r[1]))
        if r[0] == 'exc': return 'got %r' % Exc(r) if r[1] == 'too_many_positional_options_error' or c['pos'] else None
        got = popts(r[1])
        x = [(o.position_key, o.string_key if o.position_key != -1 else None) for o in e]; y = [(o.position_key, o.string_key if o.position_key != -1 else None) for o in got]
        return None if x == y else 'positions %r, expected %r' % (y, x)
class C18(CmdProp):
    quick_n = 6000
    def make(self, g):
        if g.r.random() < .2:
            os_ = []
            for _ in range(g.r.randint(0, 6)):
                p = g.r.choice([-1, -1, 0, 1, 2, 7])
                os_.append([g.r.choice(['', 'k', 'foo']), p, [g.value() for _ in range(g.r.randint(0, 2))], [g.value() for _ in range(g.r.choice([0, 1, 1, 2, 3]))], g.r.random() < .5, 0])
            return dict(collect=os_, mode=g.r.random() < .5)
        c = g.case(flags=[]); c['unreg'] = g.r.random() < .75
        if g.r.random() < .15: c['flags'] = g.r.choice([['ext'], ['sty'], ['ext', 'sty'], ['extp']])
        lead = ['--', '-', '--', '/'] + (['@', '+', '@'] if c['flags'] else [])
        if c['unreg'] and g.r.random() < .1: c['flags'] = c['flags'] + ['unreg2']
        c['args'] = tuple(x if g.r.random() < .6 else g.r.choice(lead) + g.r.choice(['zz', 'unk', 'q', 'zeta', 'Y']) + g.r.choice(['', '', '=v', '=' + g.value()] + ([':v', ':' + g.value()] if c['flags'] else [])) for x in c['args'])
        return c
    def command(self, c):
        if 'collect' in c: return ['collect', c['mode']] + c['collect']
        return CmdProp.command(self, c)
    def reduce(self, c): return iter(()) if 'collect' in c else CmdProp.reduce(self, c)
    def judge(self, c, r):
        if bad(r): return 'died: ' + str(died(r))
        if 'collect' in c:
            x = [t for o in c['collect'] if o[4] or (c['mode'] and o[1] != -1) for t in o[3]]
            return None if r[1] == x else 'collected %r, expected %r' % (r[1], x)
        e = expected(c)
        if isinstance(e, SpecThrow):
            if e.cls != 'unknown_option': return None
            if r[0] != 'exc' or r[1] != e.cls: return 'expected %r, got %r' % (e, Exc(r) if r[0] == 'exc' else popts(r[1]))
            x = Exc(r)
            return None if x.token == e.kw['original_token'] else 'unknown option names %r, expected %r' % (x.token, e.kw['original_token'])
        if r[0] == 'exc': return 'got %r' % Exc(r) if r[1] == 'unknown_option' else None
        got = popts(r[1])
        x = [o for o in e if o.unregistered]; y = [o for o in got if o.unregistered]
        if [(o.string_key, o.value, o.original_tokens, o.position_key) for o in x] != [(o.string_key, o.value, o.original_tokens, o.position_key) for o in y]: return 'unregistered options %r, expected %r' % (y, x)
STD = sum(BIT[k] for k in ())
class C21(CmdProp):
    quick_n = 6000; fields = ('string_key', 'position_key', 'value', 'original_tokens', 'unregistered', 'case_insensitive')
    def make(self, g):
        if g.r.random() < .4:
            return dict(styles=[g.r.choice([0, g.r.getrandbits(13), g.r.getrandbits(13), g.style(), g.bits(g.style(), off=[g.r.choice(list(BIT))])]) for _ in range(g.r.randint(1, 4))])
        c = g.case(); c['flags'] = g.r.choice([[], [], ['ext'], ['sty'], ['ext', 'sty'], ['extp'], ['extp', 'sty'], ['sty', 'extp']])
        if c['flags'] and g.r.random() < .5: c['args'] = tuple(x if g.r.random() < .6 else g.r.choice('@++') + g.decl(c['desc']) for x in c['args'])
        return c
    def command(self, c):
        if 'styles' in c: return ['style'] + c['styles']
        return CmdProp.command(self, c)
    def reduce(self, c):
        if 'styles' in c:
            for i in range(len(c['styles'])): yield dict(styles=c['styles'][:i] + c['styles'][i + 1:])
        else:
            for x in CmdProp.reduce(self, c): yield x
    def judge(self, c, r):
        if 'styles' not in c: return CmdProp.judge(self, c, r)
        if bad(r): return 'died: ' + str(died(r))
        cur = DEFAULT; out = []
        for n in c['styles']:
            m = n or DEFAULT
            if valid_style(m): cur = m; out.append('ok')
            else: out.append('invalid_command_line_style')
            out.append(str(sc.cprefix(Style.of(cur))))
        return None if r[1:] == out else 'styles %r give %r, expected %r' % (c['styles'], r[1:], out)
