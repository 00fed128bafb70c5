"""Case generation and judging for configuration files and the environment (C12, C13, C14)."""
from conc import *
import registry
from g_cmdline import Gen
WS = ' \t\r\n'
def lines_of(text):
    ls = text.split('\n')
    return ls[:-1] if ls[-1] == '' else ls
def parse_config(text, names, allow_unreg):
    """(options, error): the options read before the first error; options as (key, value, unregistered)"""
    mem = {n for n in names if not n.endswith('*')}; stems = {n[:-1] for n in names if n.endswith('*')}
    px = ''; out = []
    for l in lines_of(text):
        b = l.split('#')[0].strip(WS)
        if b == '': continue
        if b.startswith('[') and b.endswith(']'):
            px = b[1:-1]
            if not px.endswith('.'): px += '.'
        elif '=' in b:
            n, v = b.split('=', 1); n = px + n.strip(WS); v = v.strip(WS)
            reg = n in mem or any(n.startswith(s) for s in stems)
            if not reg and not allow_unreg: return out, ('unknown_option', n)
            out.append((n, v, not reg))
        else: return out, ('invalid_config_file_syntax', b)
    return out, None
def declared_error(names):
    """declaration is rejected?"""
    if any(n == '' for n in names): return True
    st = sorted({n[:-1] for n in names if n.endswith('*')})
    return any(a != b and b.startswith(a) for a in st for b in st)

class CfgProp(registry.Prop):
    tus = ['config_file', 'config_file@eof_iterator']; files = ['src/config_file.cpp', 'include/boost/program_options/detail/config_file.hpp', 'src/parsers.cpp']
    def cases(self, rng, n, hints, done):
        g = Gen(rng, hints)
        for _ in range(n): yield self.make(g)
    def word(self, g): 
        r = g.r.random()
        if r < .5: return g.r.choice(['a', 'b', 'foo', 'bar', 'gv1', 'm1.v1', 'b.m1', 's.a', 's.b', 'sec.foo', 'x', '\xc3\xa9', 'fo', 'a.b.c', '/a', '-', '_x', 'a-b'])
        if r < .6: return g.word(1, 6, 'abs.')
        if r < .65: return g.r.choice(g.strs) or 'q'
        if r < .68: return g.word(1, 2) * g.r.choice([10, 40, 130])
        return g.word(1, 3)
    def names(self, g, wild=.3):
        out = []
        for _ in range(g.r.randint(0, 5)):
            n = self.word(g)
            if out and g.r.random() < .3: n = g.r.choice(out).rstrip('*') + g.r.choice(['', 'a', '.', '.a', 'z'])
            n = n.replace(',', '').replace('\0', '').replace('\n', '')
            if g.r.random() < wild: n = n.rstrip('*') + '*'
            out.append(n or 'n')
        return out
    def ws(self, g): return ''.join(g.r.choice(' \t\r \x0b\x0c' if g.r.random() < .1 else ' \t\r') for _ in range(g.r.choice([0, 0, 0, 1, 2])))
    def value(self, g):
        r = g.r.random()
        if r < .1: return ''
        if r < .5: return g.value().replace('\n', ' ')
        return g.word(0, 4, 'ab= \t[]"\'.;:\\')
    def line(self, g, names):
        r = g.r.random()
        def nm():
            n = g.r.choice(names) if names and g.r.random() < .85 else self.word(g)
            if n.endswith('*'): n = n[:-1] + g.r.choice(['', 'q', '.a', '*', 'zz'])
            if '.' in n and g.r.random() < .6: n = n.split('.', g.r.choice([1, 1, 5]))[-1] if g.r.random() < .8 else n.split('.')[0]
            return n
        w = lambda: self.ws(g)
        if r < .5: s = w() + nm() + w() + '=' + w() + self.value(g) + w()
        elif r < .7:
            n = g.r.choice([x for x in names if '.' in x] or [self.word(g)]); k = n.split('.')
            s = w() + '[' + g.r.choice([k[0], '.'.join(k[:-1]), k[0] + '.', n, '', '.', ' ' + k[0], k[0] + ' ', '[', ']', k[0] + '.*']) + ']' + w()
        elif r < .8: s = w()
        elif r < .85: s = g.r.choice(['[a', 'a]', '[', ']', '=', '= b', '[=]', '[a]=b', 'a=[b]', '[a=b]', '[a]]', '[a] b', '.', '.=.', ' = ', 'a', '[]=[]', '\x0b', '[a].', 'a==', '\xa0'])
        elif r < .9: s = nm()
        else: s = ''.join(g.r.choice('ab=[]. \t\r#') for _ in range(g.r.randint(0, 8)))
        if g.r.random() < .12: k = g.r.randint(0, len(s)); s = s[:k] + '#' + g.r.choice(['', ' c', '=', ']', 'a=b', '#', '[s]']) + g.r.choice(['', s[k:]])
        return s.replace('\n', ' ').replace('\0', ' ')
    def text(self, g, names):
        n = g.r.choice([0, 1, 1, 2, 3, 4, 6, 9]) if g.r.random() < .985 else g.r.choice([40, 130])
        ls = [self.line(g, names) for _ in range(n)]
        if g.r.random() < .5:               # keep whole files readable most of the time
            ls = [l for l in ls if parse_config(l, names, True)[1] is None]
        t = '\n'.join(ls)
        if g.r.random() < .7: t += '\n'
        if g.r.random() < .05: t += '\n'
        return t
    def make(self, g):
        op = g.r.choices(['cfg', 'wcfg', 'cfgi', 'cfgf'], [5, 2, 2, 1])[0]
        ns = self.names(g)
        c = dict(op=op, names=ns, extra=[g.r.choice(['', ',x', ',longer,y']) for _ in ns], text=self.text(g, ns), allow=g.r.random() < .5, short=op != 'cfgi' and g.r.random() < .04, gone=op == 'cfgf' and g.r.random() < .03)
        return c
    def command(self, c):
        if c['op'] == 'cfgi': return ['cfgi', c['names'], c['allow'], c['text']]
        ops = [COpt(n + e, 'string') for n, e in zip(c['names'], c['extra'])]
        if c['short']: ops.append(COpt(',s', 'none'))
        t = [ord(x) for x in c['text'].encode('latin-1').decode('utf-8', 'replace')] if c['op'] == 'wcfg' else c['text']
        return [c['op'], CDesc(ops).sx(), c['allow']] + ([] if c['gone'] else [t])
    def reduce(self, c):
        for i in range(len(c['names'])): yield dict(c, names=c['names'][:i] + c['names'][i + 1:], extra=c['extra'][:i] + c['extra'][i + 1:])
        ls = c['text'].split('\n')
        for i in range(len(ls)): yield dict(c, text='\n'.join(ls[:i] + ls[i + 1:]))
        if len(c['text']) < 120:
            for i in range(len(c['text'])): yield dict(c, text=c['text'][:i] + c['text'][i + 1:])
    def judge(self, c, r):
        if bad(r): return 'the reader died: ' + str(died(r))
        if c['gone']: return None if r[0] == 'exc' and r[1] == 'reading_file' else 'expected reading_file for a file that does not exist, got %r' % (r[:2],)
        ns = list(c['names']) + ([''] if c['short'] else [])
        if declared_error(ns):
            return None if r[0] == 'exc' and r[1] == 'error' else 'expected the declarations %r to be rejected, got %r' % (ns, r[:2])
        t = c['text']
        if c['op'] == 'wcfg': t = t.encode('latin-1').decode('utf-8', 'replace').encode('utf-8').decode('latin-1')
        e, err = parse_config(t, ns, c['allow'])
        if err:
            if r[0] != 'exc' or r[1] != err[0]: return 'expected %s for %r, got %r' % (err[0], err[1], r)
            x = Exc(r); got = x.token if err[0] == 'unknown_option' else x.line
            if got != err[1]: return 'expected %s about %r, got %r' % (err[0], err[1], got)
            return None
        if r[0] == 'exc': return 'unexpected %r; expected the options %r' % (Exc(r), e)
        got = popts(r[1])
        if c['op'] == 'wcfg':
            for o in got: o.value = tuple(self.utf8(v) for v in o.value)
        a = [(o.string_key, o.value, o.unregistered) for o in got]; b = [(n, (v,), u) for n, v, u in e]
        if self.proj(a) != self.proj(b): return 'expected the options %r, got %r' % (b, a)
        if any(o.position_key != -1 for o in got): return 'an option of a file has a position: %r' % (got,)
    def utf8(self, v):
        return ''.join(chr(int(x)) for x in v.split(',') if x).encode('utf-8').decode('latin-1') if isinstance(v, str) else v
    def proj(self, a): return a
class C12(CfgProp):
    quick_n = 16000
    rule = 'random configuration files: sections, comments, blanks, CR, repeated = and brackets, invalid lines, with and without a final newline; narrow, wide and bare iterator'
    def proj(self, a): return [x[:2] for x in a]
class C13(CfgProp):
    quick_n = 16000
    rule = 'random sets of declared names with related wildcard stems, files whose names are close to them; allowed and disallowed unregistered options'
    def make(self, g):
        c = CfgProp.make(self, g)
        if g.r.random() < .7:
            ns = self.names(g, .6); c['names'] = ns; c['extra'] = ['' for _ in ns]; ls = []
            for _ in range(g.r.choice([1, 1, 2, 3])):
                n = g.r.choice(ns).rstrip('*') if ns else 'a'; n = n + g.r.choice(['', '', 'a', 'zz', '*', '.']) if g.r.random() < .8 else n[:-1]
                ls.append((n or 'q') + '=1')
            c['text'] = '\n'.join(l.replace('#', '').replace('[', '') for l in ls) + '\n'
        return c

class C14(registry.Prop):
    quick_n = 12000
    tus = ['parsers', 'parsers@eof_iterator', 'parsers@environment_iterator']
    files = ['src/parsers.cpp', 'include/boost/program_options/environment_iterator.hpp', 'include/boost/program_options/eof_iterator.hpp']
    rule = 'random environments (empty values, = in values, repeated and empty names), prefixes at, inside and beyond names, mappers'
    def cases(self, rng, n, hints, done):
        g = Gen(rng, hints)
        for _ in range(n): yield self.make(g)
    def make(self, g):
        r = g.r; W = lambda lo=0, hi=5: ''.join(r.choice('abAB_X.[@Z') for _ in range(r.randint(lo, hi)))
        p = r.choice(['', 'A', 'AB_', 'POST_', 'a', 'AA', W()])
        es = []
        for _ in range(r.choice([0, 1, 2, 3, 5, 8, 60] if r.random() < .1 else [0, 1, 2, 3, 5])):
            n = r.choice([p + W(), p, W(), W() + p + W(), p.lower() + W(), p[:-1], p + p, p[1:] + W()])
            v = r.choice(['', W(), W() + '=' + W(), '=', 'Va Lue', g.value(), W(1, 2) * 60]).replace('\0', '').replace('\n', '')
            es.append(n.replace('=', '').replace('\0', '') + '=' + v)
        mode = r.choice(['prefix', 'cprefix', 'map'])
        mp = {}
        for e in es:
            if r.random() < .6: mp[e.split('=', 1)[0]] = r.choice(['', 'k', W(1), 'A=b', e.split('=')[0]])
        return dict(mode=mode, prefix=p.replace('\0', ''), env=es, map=sorted(mp.items()))
    def command(self, c): return ['env', c['mode'], c['prefix'], c['env'], [list(x) for x in c['map']]]
    def reduce(self, c):
        for i in range(len(c['env'])): yield dict(c, env=c['env'][:i] + c['env'][i + 1:])
    def judge(self, c, r):
        if bad(r): return 'the environment reader died: ' + str(died(r))
        if r[0] == 'exc': return 'unexpected exception %r' % (r,)
        mp = dict(c['map']); e = []
        for x in c['env']:
            n, v = x.split('=', 1)
            k = mp.get(n, '') if c['mode'] == 'map' else clower(n[len(c['prefix']):]) if n.startswith(c['prefix']) else ''
            if k: e.append((k, (v,)))
        got = popts(r[1])
        if [(o.string_key, o.value) for o in got] != e: return 'expected %r, got %r' % (e, got)
        if any(o.position_key != -1 or o.unregistered for o in got): return 'flags of %r' % (got,)
