"""Case generation and judging for command line splitting (C15, C23)."""
from conc import *
import registry
from g_cmdline import Gen
def ux_split(s, seps, quotes, escs):
    out = []; cur = ''; q = False; i = 0
    while i < len(s):
        c = s[i]
        if c in escs:
            if i + 1 >= len(s): return None
            d = s[i + 1]
            if d == 'n': cur += '\n'
            elif d in quotes or d in seps or d in escs: cur += d
            else: return None
            i += 1
        elif c in seps:
            if q: cur += c
            else:
                if cur: out.append(cur)
                cur = ''
        elif c in quotes: q = not q
        else: cur += c
        i += 1
    if cur: out.append(cur)
    return out
SP = ' \t\n\v\f\r'
def win_split(s):
    out = []; cur = ''; q = False; started = False; i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            j = i
            while j < len(s) and s[j] == '\\': j += 1
            n = j - i; started = True
            if j < len(s) and s[j] == '"':
                cur += '\\' * (n // 2)
                if n % 2: cur += '"'; i = j + 1
                else: i = j                 # the quote is handled next
            else: cur += '\\' * n; i = j
        elif c == '"': q = not q; started = True; i += 1
        elif c in SP and not q:
            if started: out.append(cur)
            cur = ''; started = False; i += 1
        else: cur += c; started = True; i += 1
    return out, cur, q, started
def win_expected(s):
    """the arguments; the last one is kept when it is not empty or quoted at the end"""
    out, cur, q, started = win_split(s)
    if not started: return [out]
    if cur or q: return [out + [cur]]
    return [out + ['']]
def wide_in(s): return [ord(x) for x in s]
def wide_out(x): return ''.join(chr(int(v)) for v in x.split(',') if v)
class Split(registry.Prop):
    def cases(self, rng, n, hints, done):
        g = Gen(rng, hints)
        for _ in range(n): yield self.make(g)
    def reduce(self, c):
        t = c['text']
        if len(t) > 24:
            for k in (len(t) // 2, len(t) // 4):
                for i in range(0, len(t), k): yield dict(c, text=t[:i] + t[i + k:])
        else:
            for i in range(len(t)): yield dict(c, text=t[:i] + t[i + 1:])
class C15(Split):
    quick_n = 60000; files = ['src/split.cpp']
    rule = 'random command lines over separators, quotes, escapes and n, with default, overlapping, empty and multi-character sets; narrow and wide'
    def make(self, g):
        r = g.r; w = r.random() < .4
        d = r.random() < .4; al = ' \t\'"\\nab,;:#'
        if d: sets = (' \t', '\'"', '\\')
        else: sets = tuple(''.join(r.choice(al + ('\u20ac\u0130' if w else '\xe9\xff')) for _ in range(r.choice([0, 1, 1, 2, 3]))) for _ in range(3))
        pool = ''.join(sets) * 2 + 'nab' + al + ('\u20ac\u0130\U0001f600' if w else '\xe9\xff\0')
        n = r.choice([0, 1, 2, 3, 4, 6, 9, 14]) if r.random() < .97 else r.choice([80, 300])
        t = ''.join(r.choice(pool) for _ in range(n))
        if r.random() < .3: t = ''.join(ch if ch not in sets[2] else r.choice(['x', ch + r.choice((''.join(sets) or 'n') + 'n')]) for ch in t)
        return dict(wide=w, text=t, sets=None if d and r.random() < .7 else sets)
    def command(self, c):
        e = wide_in if c['wide'] else (lambda x: x)
        return ['wsplit' if c['wide'] else 'split', e(c['text'])] + [e(x) for x in (c['sets'] or ())]
    def judge(self, c, r):
        if bad(r): return 'split_unix died: ' + str(died(r))
        e = ux_split(c['text'], *(c['sets'] or (' \t', '\'"', '\\')))
        if e is None: return None if r[0] == 'exc' else 'expected an error for %r, got %r' % (c['text'], r)
        if r[0] == 'exc': return 'unexpected %r for %r with %r; expected %r' % (r, c['text'], c['sets'], e)
        got = [wide_out(x) if c['wide'] else x for x in r[1]]
        if got != e: return 'expected %r, got %r' % (e, got)
class C23(Split):
    quick_n = 60000; files = ['src/winmain.cpp']
    rule = 'random command lines over backslashes, double quotes, white space and letters; narrow and wide'
    def make(self, g):
        r = g.r; w = r.random() < .3
        pool = '\\\\\\""""  \tab' + ('\u20ac\U0001f600\xe9\xa0\x85' if w else '\xc3\xa9\xa0\n\v')
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12]) if r.random() < .97 else 200
        t = ''.join(r.choice(pool) for _ in range(n))
        if r.random() < .2: t = t + '\\' * r.randint(0, 9) + r.choice(['', '"', '""', '" ', ' ""'])
        return dict(wide=w, text=t)
    def command(self, c): return ['wwinm', wide_in(c['text'])] if c['wide'] else ['winm', c['text']]
    def judge(self, c, r):
        if bad(r): return 'split_winmain died: ' + str(died(r))
        if r[0] == 'exc': return 'unexpected %r' % (r,)
        t = c['text'].encode('utf-8').decode('latin-1') if c['wide'] else c['text']
        got = [wide_out(x).encode('utf-8').decode('latin-1') if c['wide'] else x for x in r[1]]
        es = win_expected(t)
        if got not in es: return 'expected %r, got %r' % (es[0], got)
