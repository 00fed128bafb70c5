"""Case generation and judging for error messages (C19)."""
from conc import *
from g_cmdline import Gen
import g_cmdline, p_errors_tables as pt
import registry
FILES = ['src/value_semantic.cpp', 'src/cmdline.cpp', 'include/boost/program_options/errors.hpp']
PREFIX = {0: '', 1: '--', 4: '-', 8: '/', 4096: '-'}
CTOR = {'required': "the option '%canonical_option%' is required but missing", 'multval': "option '%canonical_option%' only takes a single argument",
        'multocc': "option '%canonical_option%' cannot be specified more than once", 'unknown': "unrecognised option '%canonical_option%'", 'ambig': "option '%canonical_option%' is ambiguous"}
def strip(s):
    t = s.lstrip('-/')
    return t if t else s
class Err:
    """an error object as the property describes it"""
    def __init__(self, template, option='', token='', style=0, named=True, alts=None, **subs):
        self.template, self.style, self.named, self.alts = template, style, named, alts
        self.subs = dict(option=option, original_token=token); self.subs.update(subs); self.defs = dict(pt.DEFAULTS)
    def canon(self):
        o, t = self.subs['option'], self.subs['original_token']
        if not o: return t
        if self.style in (1, 4096): return PREFIX[self.style] + strip(o)
        if self.style and strip(t): return PREFIX[self.style] + strip(t)[0]
        return strip(o)
    def text(self):
        d = dict(self.subs); d['canonical_option'] = self.canon(); d['prefix'] = PREFIX[self.style]
        m = self.template
        for k in sorted(self.defs):
            if not d.get(k): m = m.replace(*self.defs[k])
        m = pt.py_subst(m, d)
        if self.alts is not None and self.style not in (4, 8):
            u = sorted(set(self.alts), key=lambda s: s.encode('latin-1', 'replace')); p = PREFIX[self.style]
            m += ' and matches '
            if len(u) > 1: m += ''.join("'%s%s', " % (p, x) for x in u[:-1]) + 'and '
            if len(self.alts) > 1 and len(u) == 1: m += 'different versions of '
            m += "'%s%s'" % (p, u[-1])
        return m
def build(c, a):
    if c == 'base': return Err(a[0], a[1], a[2], a[3])
    if c == 'noname': return Err(a[0], '', a[1], named=False)
    if c == 'unknown': return Err(CTOR[c], '', a[0], named=False)
    if c == 'ambig': return Err(CTOR[c], named=False, alts=a)
    if c == 'syntax': return Err(pt.SYNTAX[a[0]], a[1], a[2], a[3])
    if c == 'cfgsyntax': return Err(pt.SYNTAX[a[1]], invalid_line=a[0])
    if c == 'validation': return Err(pt.VALID[a[0]], a[1], a[2], a[3])
    if c in ('value', 'wvalue'): return Err(pt.VALID[33], value=a[0])
    if c == 'bool': return Err(pt.VALID[32], value=a[0])
    if c == 'required': return Err(CTOR[c], '', a[0])
    return Err(CTOR[c])
def of_exc(e):
    """the error object a thrown exception must be"""
    t = {'invalid_command_line_syntax': lambda: pt.SYNTAX.get(e.kind), 'invalid_config_file_syntax': lambda: pt.SYNTAX.get(e.kind), 'invalid_syntax': lambda: pt.SYNTAX.get(e.kind),
         'validation_error': lambda: pt.VALID.get(e.kind), 'invalid_option_value': lambda: pt.VALID[33], 'invalid_bool_value': lambda: pt.VALID[32],
         'required_option': lambda: CTOR['required'], 'multiple_values': lambda: CTOR['multval'], 'multiple_occurrences': lambda: CTOR['multocc'],
         'unknown_option': lambda: CTOR['unknown'], 'ambiguous_option': lambda: CTOR['ambig']}.get(e.cls)
    t = t and t()
    if t is None: return None
    x = Err(t, e.option, e.token, e.style, alts=e.alts if e.cls == 'ambiguous_option' else None)
    if e.value: x.subs['value'] = e.value
    if e.line or e.cls == 'invalid_config_file_syntax': x.subs['invalid_line'] = e.line
    return x
NAMED = ['%value%', '%option%', '%canonical_option%', '%prefix%', '%original_token%', '%invalid_line%', '%', '%%', '%s', "option '%canonical_option%'", "argument ('%value%')", '%%value%%', 'option', 'value', '%value', 'value%', '%foo%', '100%', '%a%value%', '%prefix%%value%']
class C19(registry.Prop):
    id = 'C19'; title = 'Error messages'
    files = FILES; quick_n = 40000; rule = 'error objects of every class with random names, tokens, values, styles and later changes; errors thrown by parsing such text; the message compared with the text the property describes, asked for repeatedly'
    def txt(self, g):
        r = g.r.random()
        if r < .3: return g.r.choice(NAMED)
        if r < .45: return g.r.choice(['', 'foo', '-f', '--foo', '/x', '-', '--', '/', '-/', '--foo=bar', 'f', '-fx'])
        if r < .65: return ''.join(g.r.choice(NAMED + ['a', '-', ' ', 'foo']) for _ in range(g.r.randint(1, 4)))
        if r < .72: return g.r.choice(g.strs or ['q'])
        if r < .76: return g.word(1, 4) * g.r.choice([10, 50])
        return g.word(0, 6, 'ab%-/ \'')
    def template(self, g):
        t = g.r.choice(list(pt.SYNTAX.values()) + list(pt.VALID.values()) + list(CTOR.values()))
        return t if g.r.random() < .5 else ''.join(g.r.choice(NAMED + ['text ', 'x', ' ']) for _ in range(g.r.randint(0, 5)))
    def make(self, g):
        if g.r.random() < .3:
            nm = g.r.choice(['foo', 'f%value%', '%prefix%', '%option%', 'b%b', 'foobar', '%canonical_option%x'])
            from g_cmdline import UMAX
            d = CDesc([COpt(n + g.r.choice(['', ',' + g.r.choice('fgh%')]), *[(k, 'd', a) for k, a in [g.kind()]][0]) for n in [nm] + [g.r.choice(['fo', 'foo', 'bar', '%prefix', '%p', '%v', 'b%']) for _ in range(g.r.randint(0, 2))]])
            names = [l for o in d.opts for l in o.longs] + ['zz', '%value%']
            def tok():
                w = g.r.choice(names)[:g.r.choice([1, 2, 9, 9])]
                return g.r.choice(['--%s', '--%s=', '--%s=' + self.txt(g).replace('%', '%%'), '-%s', '/%s', '%s']) % w
            k = g.r.choice(['parse', 'parse', 'cfg', 'vm'])
            if k == 'parse': return dict(op='parse', desc=d, style=g.style(), args=tuple(tok() for _ in range(g.r.randint(1, 3))))
            if k == 'cfg': return dict(op='cfg', desc=d, text='\n'.join(g.r.choice(['%s=1', '[%s]', '%s']) % (g.r.choice(names) if g.r.random() < .7 else self.txt(g)) for _ in range(g.r.randint(1, 3))))
            return dict(op='vm', desc=CDesc([COpt(nm, g.r.choice(['int', 'vint', 'bool', 'own', 'string', 'wint']), 'd', g.r.choice([[], [], [('req',)]]))]), style=g.style(), args=tuple(g.r.choice(['--%s=%s', '--%s', '-%s%s', '--%s=%s', '/%s=%s']).replace('%s', '\0').replace('\0', nm, 1).replace('\0', self.txt(g)) for _ in range(g.r.randint(0, 2))))
        c = g.r.choice(['base', 'base', 'base', 'noname', 'unknown', 'ambig', 'ambig', 'syntax', 'syntax', 'cfgsyntax', 'validation', 'value', 'wvalue', 'bool', 'required', 'multval', 'multocc'])
        st = lambda: g.r.choice([0, 1, 4, 8, 4096]); x = lambda: self.txt(g)
        a = {'base': lambda: [self.template(g), x(), x(), st()], 'noname': lambda: [self.template(g), x()], 'unknown': lambda: [x()],
             'ambig': lambda: [g.r.choice(['foo', 'foobar', 'fo', x(), x()]) for _ in range(g.r.choice([1, 2, 2, 3, 3, 5, 9]))],
             'syntax': lambda: [g.r.choice(list(pt.SYNTAX)), x(), x(), st()], 'cfgsyntax': lambda: [x(), g.r.choice(list(pt.SYNTAX))], 'validation': lambda: [g.r.choice(list(pt.VALID)), x(), x(), st()],
             'value': lambda: [x()], 'wvalue': lambda: [x()], 'bool': lambda: [x()], 'required': lambda: [x()], 'multval': lambda: [], 'multocc': lambda: []}[c]()
        ms = []
        for _ in range(g.r.choice([0, 1, 1, 2, 4])):
            k = g.r.choice(['sub', 'def', 'ctx', 'ctx', 'opt', 'tok', 'pre', 'what'])
            ms.append({'sub': lambda: ('sub', g.r.choice(['value', 'option', 'original_token', 'foo', 'prefix', 'canonical_option', 'invalid_line']), x()),
                       'def': lambda: ('def', g.r.choice(['value', 'foo', 'canonical_option', 'prefix', 'zz']), x() or 'o', x()), 'ctx': lambda: ('ctx', x(), x(), st()),
                       'opt': lambda: ('opt', x()), 'tok': lambda: ('tok', x()), 'pre': lambda: ('pre', st()), 'what': lambda: ('what',)}[k]())
        return dict(op='err', cls=c, args=a, muts=ms)
    def cases(self, rng, n, hints, done):
        g = Gen(rng, hints)
        for _ in range(n): yield self.make(g)
    def command(self, c):
        if c['op'] == 'err':
            a = [[ord(ch) for ch in c['args'][0]]] if c['cls'] == 'wvalue' else list(c['args'])
            if c['cls'] == 'wvalue': a = [','.join(str(ord(ch)) for ch in c['args'][0])] if False else [[ord(ch) for ch in c['args'][0]]]
            return ['err', c['cls'], a] + [list(m) for m in c['muts']]
        if c['op'] == 'parse': return ['parse', c['desc'].sx(), c['style'], 0, 'no', list(c['args']), []]
        if c['op'] == 'cfg': return ['cfg', c['desc'].sx(), 0, c['text']]
        return ['vm', [c['desc'].sx()], 1, [['cmd', 0, 0, c['style'], list(c['args'])], ['notify', 0]]]
    def judge(self, c, r):
        d = died(r)
        if c['op'] != 'err':
            if d: return 'ends abnormally (%s)' % d if r is None or r[0] != 'skipped' else None
            for x in excs(r):
                e = Exc(x); o = of_exc(e)
                if o is None: continue
                for w, got, exp in (('message', e.what, o.text()), ('option name', e.canon, o.canon())):
                    if got != exp: return 'error %s: %s %r, expected %r' % (e.cls, w, got, exp)
                if not e.repeat: return 'error %s: asking again gives another text' % e.cls
            return None
        if d: return 'no message (%s)' % d
        if r[0] != 'ok': return 'producing the message throws %s' % Exc(r)
        o = build(c['cls'], c['args']); i = 1
        for m in c['muts']:
            if m[0] == 'sub': o.subs[m[1]] = m[2]
            elif m[0] == 'def': o.defs[m[1]] = (m[2], m[3])
            elif m[0] == 'ctx':
                if o.named: o.subs['option'] = m[1]
                o.subs['original_token'], o.style = m[2], m[3]
            elif m[0] == 'opt':
                if o.named: o.subs['option'] = m[1]
            elif m[0] == 'tok': o.subs['original_token'] = m[1]
            elif m[0] == 'pre': o.style = m[1]
            else:
                if r[i] != o.text(): return 'message %r, expected %r' % (r[i], o.text())
                i += 1
        for w, got, exp in (('message', r[i], o.text()), ('message asked for again', r[i + 1], o.text()), ('option name', r[i + 2], o.canon())):
            if got != exp: return '%s %r, expected %r' % (w, got, exp)
        return None
def excs(r):
    if isinstance(r, (list, tuple)):
        if r and r[0] == 'exc' and len(r) > 8: yield r
        for x in r: yield from excs(x)
