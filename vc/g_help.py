"""Case generation and judging for help output (C20)."""
from conc import *
from g_cmdline import Gen
from g_options import format_name
import registry

# ---- the text the property describes ---------------------------------------------------------------------------
def parameter(o):
    if o.max_tokens() == 0: return ''
    if o.kind in ('none', 'untyped', 'untyped0'): return 'arg'
    n = o.at('name'); var = n[1] if n and n[1] else 'arg'
    if isinstance(o.kind, tuple): return n[1] if n else 'arg'
    d, i = o.at('def'), o.at('imp')
    dt = ' (=' + d[1] + ')' if d and d[1] else ''
    if i and i[1]: return '[=' + var + '(=' + i[1] + ')]' + dt
    return var + dt
def first(o): return '  ' + format_name(o) + ' ' + parameter(o)
def column(d):
    w = 23
    for o in d.opts: w = max(w, len(first(o)))
    for g in d.groups: w = max(w, column(g))
    return min(w, d.line - d.mindesc - 1) + 1
def paragraph(p, indent, line):
    """lines of one paragraph; line: total length available"""
    w = line - indent; tab = p.find('\t')
    if p.count('\t') > 1: raise SpecThrow('error')
    if tab >= 0: p = p[:tab] + p[tab + 1:]
    else: tab = 0
    out = ''; a = 0; l = w
    while a < len(p):
        if out and p[a] == ' ' and a + 1 < len(p) and p[a + 1] != ' ': a += 1
        e = min(a + l, len(p))
        if e < len(p) and p[e - 1] != ' ' and p[e] != ' ':
            s = p.rfind(' ', a, e) + 1
            if s > a and e - s < l // 2: e = s
        out += p[a:e]
        if e < len(p): out += '\n' + ' ' * (indent + tab)
        a = e; l = w - tab
    return out
def one(o, col, line):
    f = first(o)
    if not o.descr: return f
    f += '\n' + ' ' * col if len(f) >= col else ' ' * (col - len(f))
    return f + ('\n' + ' ' * col).join(paragraph(p, col, line - 1) for p in o.descr.split('\n'))
def printed(d, width):
    w = width or column(d); s = d.caption + ':\n' if d.caption else ''
    for o in d.own: s += one(o, w, d.line) + '\n'
    for g in d.groups: s += '\n' + printed(g, w)
    return s
def alldesc(d):
    yield d
    for g in d.groups: yield from alldesc(g)
def within(d, width):
    """the documented preconditions"""
    w = width or column(d)
    for x in alldesc(d):
        if x.line < 3 or x.mindesc < 2 or x.mindesc >= x.line - 1: return False
        if w >= x.line - 1: return False
        for o in x.own:
            if not o.longs and not o.short: return False
            for p in o.descr.split('\n'):
                if '\t' in p and p.count('\t') == 1 and p.find('\t') >= x.line - 1 - w: return False
    return True
class C20(registry.Prop):
    id = 'C20'; title = 'Help output'; files = ['src/options_description.cpp']; quick_n = 12000
    rule = 'random descriptions (own options, groups in groups, captions, parameter texts, line lengths and description widths) with texts of words, blanks, tabs and newlines whose lengths are near the line length; the output compared with the text the property determines'
    def text(self, g, w):
        r = g.r; q = r.random()
        if q < .08: return ''
        if q < .2: return g.word(1, 12)
        n = r.choice([1, 1, 1, 2, 3]) if q < .9 else 4
        return '\n'.join(self.par(g, w) for _ in range(n))
    def par(self, g, w):
        r = g.r; q = r.random(); w = max(2, w)
        if q < .06: return ''
        target = r.choice([w - 2, w - 1, w, w + 1, 2 * w - 1, 2 * w, 2 * w + 1, 3 * w, r.randint(0, 4 * w), r.randint(0, w)])
        s = ''
        while len(s) < target:
            s += g.word(1, r.choice([2, 5, 9, max(2, w // 2), w + 3]), 'abcx') + r.choice([' ', ' ', ' ', '  ', '   ', '', '-'])
        s = s[:max(0, target)]
        if r.random() < .25 and s:
            k = r.choice([0, 1, 2, r.randint(0, len(s)), max(0, w - 1), max(0, w - 2), w // 2]); k = min(k, len(s)); s = s[:k] + '\t' + s[k:]
            if r.random() < .1: k = r.randint(0, len(s)); s = s[:k] + '\t' + s[k:]
        if r.random() < .1: s = ' ' * r.randint(1, 3) + s
        return s
    def desc(self, g, depth=0, line=None):
        r = g.r
        line = r.choice([80, 80, 40, 30, r.randint(6, 60), r.randint(6, 30), 26, 27, 25, 100]) if line is None or r.random() < .2 else line
        md = r.choice([line // 2, line // 2, 2, 3, line - 2, r.randint(2, max(2, line - 2)), line - 25, line - 24, line - 26]); md = max(2, min(md, line - 2))
        ops = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            nm = g.names().replace('*', 'q') or 'foo'
            if r.random() < .15: nm = g.word(1, 3) + g.word(8, 30) + r.choice(['', ',x'])
            k = r.choice(['none', 'none', 'string', 'string', 'untyped', 'untyped0', 'int', 'switch', 'vstring', ('cust', 0, '0'), ('cust', 0, '2')])
            at = []
            if k in ('string', 'vstring') or isinstance(k, tuple):
                if r.random() < .4: at.append(('name', r.choice(['N', 'file', '', g.word(1, 20)])))
            if k == 'string':
                if r.random() < .3: at.append(('def', r.choice(['dv', '', g.word(1, 15)])))
                if r.random() < .3: at.append(('imp', r.choice(['iv', '', g.word(1, 15)])))
            if k == 'vstring' and r.random() < .5: at.append(('multi',))
            if isinstance(k, tuple): k = ('cust', 0, int(k[2]))
            ops.append(COpt(nm, k, '', at))
        gs = [self.desc(g, depth + 1, line) for _ in range(r.choice([0, 0, 1, 2]) if depth < 2 else 0)]
        return CDesc(ops, r.choice(['', '', 'Options', g.word(1, 5), 'a:']), line, md, gs)
    def make(self, g):
        r = g.r; d = self.desc(g); width = 0
        if r.random() < .12: width = r.choice([1, 2, 5, 10, 20, r.randint(1, max(1, d.line - 2))])
        c0 = width or column(d)
        for x in alldesc(d):
            for o in x.own: o.descr = self.text(g, x.line - 1 - c0)
        return dict(desc=d, width=width)
    def cases(self, rng, n, hints, done):
        g = Gen(rng, hints); k = 0
        while k < n:
            c = self.make(g)
            if not within(c['desc'], c['width']): continue
            k += 1; yield c
    def command(self, c): return ['helpd', c['desc'].sx(), c['width']]
    def reduce(self, c):
        d = c['desc']
        def ok(x): return [dict(c, desc=x)] if within(x, c['width']) else []
        for i in range(len(d.groups)):
            yield from ok(CDesc(d.own, d.caption, d.line, d.mindesc, d.groups[:i] + d.groups[i + 1:]))
            yield from ok(d.groups[i])
        for i in range(len(d.own)): yield from ok(CDesc(d.own[:i] + d.own[i + 1:], d.caption, d.line, d.mindesc, d.groups))
        if d.caption: yield from ok(CDesc(d.own, '', d.line, d.mindesc, d.groups))
        for i, o in enumerate(d.own):
            for t in {o.descr[:len(o.descr) // 2], o.descr[len(o.descr) // 2:], o.descr[:-1], o.descr[1:]}:
                if t != o.descr: yield from ok(CDesc(d.own[:i] + [COpt(o.names, o.kind, t, o.attrs)] + d.own[i + 1:], d.caption, d.line, d.mindesc, d.groups))
    def judge(self, c, r):
        if bad(r): return 'printing the help died: ' + str(died(r))
        d, w = c['desc'], c['width']
        try: e = printed(d, w)
        except SpecThrow:
            if r[0] != 'exc' or r[1] != 'error': return 'a paragraph with two tabs: expected an error, got %r' % (r,)
            return None
        if r[0] == 'exc': return 'unexpected exception %r' % (r,)
        if int(r[2]) != column(d): return 'the description column is %s, expected %d' % (r[2], column(d))
        if r[1] != e:
            for i, (a, b) in enumerate(zip(r[1].split('\n') + [None], e.split('\n') + [None])):
                if a != b: return 'line %d of the help is %r, expected %r\n%s' % (i, a, b, r[1])
