"""Case generation and judging for variables maps (C09, C10, C11)."""
from conc import *
import registry, re
import g_values as gv
from harness import esc
KINDS = ['string', 'vstring', 'int', 'vint', 'bool', 'switch', 'untyped', 'untyped0', ('cust', 0, 3), ('cust', 1, 1)]
PRE = {'long': 1, 'dash': 4, 'slash': 8, 'disguise': 4096}
def display(o, prefix):
    if o.longs and prefix == 1: return '--' + o.longs[0]
    if o.longs and prefix == 4096: return '-' + o.longs[0]
    if o.short and prefix == 8: return '/' + o.short[1:]
    if o.short and prefix == 4: return '-' + o.short[1:]
    return o.longs[0] if o.longs else o.short
def is_cust(k): return isinstance(k, tuple)
def shown(kind, v):
    if v is None: return '-'
    if isinstance(v, tuple): return 's:' + v[0]         # a text put there by the application, or a text default
    if is_cust(kind): return 'v:' + ''.join(esc(x) + ' ' for x in v)
    return gv.show(kind, v)
def occur(o, held, toks):
    if is_cust(o.kind):
        if 'BAD' in toks: raise gv.Bad(('invalid_option_value', None))
        return (list(held) if isinstance(held, list) else []) + ['<'] + list(toks) + ['>']
    if isinstance(held, tuple):                           # a value the application put there
        held = held[0]
    imp = o.at('imp')
    return gv.occur(o.kind, imp and imp[1], held, list(toks))
def default(o):
    d = o.at('def')
    if o.kind in ('untyped', 'untyped0'): return None
    if is_cust(o.kind): return [d[1]] if d else None         # a list, as the driver's own semantic makes it
    if d: return gv.litv(o.kind, d[1])
    return False if o.kind == 'switch' else None
class Entry:
    def __init__(self, kind=None, val=None, dflt=False, opt=None): self.kind, self.val, self.dflt, self.opt = kind, val, dflt, opt
    def copy(self): return Entry(self.kind, self.val, self.dflt, self.opt)
    def row(self, k): return (k, shown(self.kind, self.val), self.dflt, self.val is None)
class VMap:
    def __init__(self): self.e = {}; self.final = set(); self.req = {}; self.next = None
class Mis(Exception):
    def __init__(self, tag, msg): self.tag, self.msg = tag, msg
class Sim:
    def __init__(self, descs, n): self.d, self.m = descs, [VMap() for _ in range(n)]
    def store(self, mi, d, prefix, opts):
        """yields nothing; returns (None, set of names set) or (alternatives of the error, failing option)"""
        m = self.m[mi]; newf = set(); touched = set()
        for o in opts:
            key, pos, vals, toks, unreg, ci = o
            if not key or unreg or key in m.final: continue
            try: x = d.find_nothrow(key, False, False, False)
            except SpecThrow: return [('ambiguous_option', None)], o, touched, x_none
            if x is None: return [('unknown_option', None)], o, touched, x_none
            e = m.e.get(key) or Entry()
            if e.dflt: e = Entry()
            m.e[key] = e
            try: v = occur(x, e.val, vals)
            except gv.Bad as b: return list(b.alts), o, touched, x
            e.val, e.opt, e.kind = v, x, x.kind; touched.add(key)
            if not x.at('comp'): newf.add(key)
        m.final |= newf
        for x in d.opts:
            key = x.key('')
            if not key: continue
            if key not in m.e:
                v = default(x)
                if v is not None: m.e[key] = Entry(x.kind, v, True, x)
            if x.at('req') and not x.kind in ('untyped', 'untyped0'):
                dn = display(x, prefix)
                if len(dn) > len(m.req.get(key, '')): m.req[key] = dn
                else: m.req.setdefault(key, '')
        return None, None, touched, None
    def notify(self, mi):
        m = self.m[mi]
        for k in sorted(m.req, key=lambda s: s.encode('latin-1', 'replace')):
            if k not in m.e or m.e[k].val is None: return m.req[k], []
        out = []
        for k in sorted(m.e, key=lambda s: s.encode('latin-1', 'replace')):
            e = m.e[k]; n = e.opt.at('note') if e.opt else None
            if n and e.opt.kind not in ('untyped', 'untyped0'): out.append('%d=%s' % (n[1], shown(e.kind, e.val)))
        return None, out
    def get(self, mi, name):
        m = self.m[mi]; own = m.e.get(name) or Entry()
        if m.next is None: return own
        if own.val is None: return self.get(m.next, name)
        if own.dflt:
            w = self.get(m.next, name)
            return w if w.val is not None and not w.dflt else own
        return own
x_none = None
NAMES = ['alpha', 'beta', 'gamma,g', 'delta', ',s', 'eps,e', 'al', 'w*', 'zeta,zeta2,z']
class Base(registry.Prop):
    files = ['src/variables_map.cpp', 'include/boost/program_options/variables_map.hpp']; quick_n = 12000
    rule = ('histories of 1 to 10 steps (store with hand-made parse results, notify, clear, link, look-up, entries put by the application) over 1 to 4 maps and 1 to 3 descriptions '
            'with composing, defaulted, required, wildcard, short-only and repeated names and 10 kinds of values')
    def command(self, c): return ['vm', [d.sx() for d in c['descs']], c['n']] + [list(s) for s in c['steps']]
    def reduce(self, c):
        for i in range(len(c['steps'])): yield dict(c, steps=c['steps'][:i] + c['steps'][i + 1:])
        for i, s in enumerate(c['steps']):
            if s[0] == 'store':
                for j in range(5, len(s)): yield dict(c, steps=c['steps'][:i] + [s[:j] + s[j + 1:]] + c['steps'][i + 1:])
        for i, d in enumerate(c['descs']):
            for j in range(len(d.own)): yield dict(c, descs=c['descs'][:i] + [CDesc(d.own[:j] + d.own[j + 1:], d.caption)] + c['descs'][i + 1:])
            for j, o in enumerate(d.own):
                for k in range(len(o.attrs)): yield dict(c, descs=c['descs'][:i] + [CDesc(d.own[:j] + [COpt(o.names, o.kind, o.descr, o.attrs[:k] + o.attrs[k + 1:])] + d.own[j + 1:], d.caption)] + c['descs'][i + 1:])
    def cases(self, rng, n, hints, done):
        lits = [l for l in hints[0] if l and ',' not in l and '*' not in l and l.isprintable() and not l[0] in '-/w' and len(l) > 2 and l not in ('zeta2', 'nosuch')]
        for _ in range(n): yield self.make(rng, lits)
    w_get = 1
    def make(self, r, lits):
        kinds = {}
        def opt(nm):
            kind = kinds.setdefault(nm, r.choice(KINDS)); at = []
            if kind not in ('untyped', 'untyped0'):
                if r.random() < .4: at.append(('def', r.choice(['0', '1', '7']) if not is_cust(kind) and ('int' in kind) else r.choice(['0', '1']) if kind in ('bool', 'switch') else r.choice(['', 'd', 'dd'])))
                if r.random() < .25 and not is_cust(kind): at.append(('imp', r.choice(['0', '5']) if 'int' in kind else r.choice(['0', '1']) if kind in ('bool', 'switch') else 'imp'))
                if r.random() < .3: at.append(('req',))
                if r.random() < .45: at.append(('comp',))
                if r.random() < .5: at.append(('note', r.randint(10, 99)))
            return COpt(nm, kind, '', at)
        pool = NAMES + (lits and [r.choice(lits)] or [])
        share = [opt(nm) for nm in pool]
        descs = []
        for i in range(r.choice([1, 1, 2, 2, 3])):
            os_ = [x if r.random() < .6 else opt(x.names) for x in r.sample(share, r.randint(1, 5))]
            if r.random() < .08: os_.append(opt(r.choice(os_).names))
            descs.append(CDesc(os_, 'd%d' % i))
        if self.w_get > 1 and r.random() < .3: return self.chain(r, opt, pool)
        n = r.choice([1, 1, 2, 3] if self.w_get == 1 else [1, 2, 3, 4]); steps = []; links = {}
        keys = sorted({k for d in descs for o in d.opts for k in (o.longs + ([o.short] if o.short else [])) if k}) + ['nosuch', 'we', 'w', '']
        def txt(o):
            if o is None: return r.choice(['', 'a', '1'])
            if not is_cust(o.kind) and 'int' in o.kind: return r.choice(['1', '2', '-5', '42', 'x'] if r.random() < .2 else ['1', '2', '33'])
            if o.kind in ('bool', 'switch'): return r.choice(['on', 'off', 'yes', '0', 'maybe'] if r.random() < .2 else ['on', 'off'])
            return r.choice(['a', 'b', '', 'x y', 'BAD'] if r.random() < .2 else ['a', 'b', 'c'])
        def one(d):
            os_ = [o for o in d.opts if o.names]; o = r.choice(os_); q = r.random()
            key = o.key('we') if q < .82 else r.choice(keys)
            ex_ = [x for x in d.opts if x.exact(key, False, False)]
            o = ex_[0] if ex_ else o
            nv = 1 if not is_cust(o.kind) and o.kind not in ('vstring', 'vint', 'untyped0', 'switch') else r.randint(0, 3)
            if r.random() < .1: nv = r.randint(0, 2)
            if o.kind in ('untyped0', 'switch') and r.random() < .8: nv = 0
            vals = [txt(o) for _ in range(nv)]
            toks = [] if r.random() < .2 else [r.choice(['--', '-', '/']) + key] + vals
            return [key, -1 if q < .95 else 0, vals, toks, r.random() < .05, r.random() < .1]
        for _ in range(r.randint(1, 10)):
            q = r.random(); m = r.randrange(n)
            if q < .5 or not steps:
                di = r.randrange(len(descs)); os_ = [one(descs[di]) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]
                if r.random() < .5 and os_:                       # the same option again, not always next to the first
                    a = r.choice(os_); b = one(descs[di]); b = [a[0], a[1], a[2] if r.random() < .5 else b[2] if b[0] == a[0] else a[2], a[3], False, False]; os_.insert(r.randint(0, len(os_)), b)
                steps.append(['store', m, di, r.choice([0, 1, 1, 4, 8, 4096]), int(r.random() < .2)] + os_)
            elif q < .62: steps.append(['notify', m])
            elif q < .66: steps.append(['clear', m])
            elif q < .78 and n > 1:
                if m + 1 < n: steps.append(['next', m, r.randint(m + 1, n - 1) if r.random() < .9 else -1])
            elif q < .82: steps.append(['put', m, r.choice(['zz', 'nosuch'] + [o.longs[0] for d in descs for o in d.opts if o.longs and o.kind == 'string']), r.choice(['', 'pv']), int(r.random() < .4)])
            elif q < .88:
                o = r.choice(share); steps.append(['erase', m, o.key('we')])
                if r.random() < .7: steps += [['store', m, r.randrange(len(descs)), 1, 0], ['notify', m]]
            else: steps.append(['get', m, r.choice(keys + ['zz'])])
            if self.w_get > 1 and r.random() < .6: steps.append(['get', 0, r.choice(keys)])
        return dict(descs=descs, n=n, steps=steps)
    def chain(self, r, opt, pool):
        """a chain of 2 to 4 maps; in each, one of a few names is absent, defaulted or explicit"""
        n = r.randint(2, 4); nms = [x for x in r.sample(pool, min(len(pool), 3)) if x != 'w*']; descs = []; steps = []
        for i in range(n):
            os_ = []
            for nm in nms:
                if r.random() < .25: continue
                o = opt(nm); o = COpt(nm, o.kind, '', [a for a in o.attrs if a[0] not in ('def', 'req')])
                if r.random() < .65 and o.kind not in ('untyped', 'untyped0'): o.attrs.append(('def', str(i) if o.kind not in ('bool', 'switch') else str(i % 2)))
                os_.append(o)
            descs.append(CDesc(os_, 'd%d' % i)); st = []
            for o in os_:
                if r.random() < .3:
                    v = [] if o.kind in ('untyped0', 'switch') else ['on' if o.kind == 'bool' else str(i + 4)]
                    st.append([o.key('we'), -1, v, [], False, False])
            steps.append(['store', i, i, 1, 0] + st)
        links = [['next', i, i + 1] for i in range(n - 1)]; r.shuffle(links)
        if r.random() < .15: links.append(['next', r.randrange(n - 1), -1])
        steps += links; r.random() < .3 and r.shuffle(steps)
        for nm in nms: steps += [['get', r.choice([0, 0, 0, r.randrange(n)]), nm.split(',')[0] or nm.split(',')[1]]]
        return dict(descs=descs, n=n, steps=steps)
    def judge(self, c, r):
        if bad(r): return 'a sequence of calls on variables maps died: ' + str(died(r))
        if r[0] == 'exc': return 'unexpected %r' % (Exc(r),)
        try: self.run(c, r[1:])
        except Mis as m: return m.msg if m.tag in self.tags else None
        return None
    def run(self, c, rs):
        s = Sim(c['descs'], c['n'])
        for st, rep in zip(c['steps'], rs):
            op = st[0]; body, notes, outs, maps = rep[:-3], rep[-3], rep[-2], rep[-1]
            exc = Exc(body[0]) if body and isinstance(body[0], list) else None
            before = [{k: e.row(k) for k, e in m.e.items()} for m in s.m]; what = repr(st); mi = st[1]; m = s.m[mi]; err = None; touched = set(); stop = False
            if exc is None and body[-1] != 'done': raise Mis('any', 'reply %r' % (rep,))
            if op == 'store':
                prior = {k: e.copy() for k, e in m.e.items()}
                alts, o, touched, x = s.store(mi, c['descs'][st[2]], st[3], st[5:])
                if alts:
                    if exc is None: raise Mis('exc', '%s: expected %s for %r' % (what, ' or '.join(a[0] for a in alts), o[0]))
                    if not any(exc.cls == a[0] and (a[1] is None or exc.kind == a[1]) for a in alts): raise Mis('exc', '%s: expected %r, got %r' % (what, alts, exc))
                    tok = o[3][0] if o[3] else ''
                    if exc.token != tok or exc.style != st[3] or exc.cls not in ('unknown_option', 'ambiguous_option') and exc.option != o[0]:
                        raise Mis('exc', '%s: the error speaks of option %r, token %r, style %d; expected %r, %r, %d' % (what, exc.option, exc.token, exc.style, o[0], tok, st[3]))
                    got = {e[0]: e for e in maps[mi]}; k = o[0]
                    if x is not None:                       # the failing occurrence itself: what it leaves is not specified beyond what was held
                        if k in got:
                            e = m.e[k]
                            if is_cust(x.kind) or x.kind not in gv.VEC:
                                if k in prior and got[k][1:] == ['1' if isinstance(v, bool) and v else '0' if isinstance(v, bool) else v for v in before[mi][k][1:]] and not touched & {k}: m.e[k] = prior[k]
                            else: stop = True
                        else: m.e.pop(k, None)
                elif exc is not None: raise Mis('exc', '%s: unexpected %r' % (what, exc))
            elif op == 'notify':
                dn, want = s.notify(mi)
                if dn is not None:
                    if exc is None or exc.cls != 'required_option': raise Mis('notify', '%s: expected required_option for %r, got %r, notified %r' % (what, dn, exc or 'no error', notes))
                    if exc.token != dn: raise Mis('notify', '%s: the missing option is %r, the error names %r' % (what, dn, exc.token))
                elif exc is not None: raise Mis('notify', '%s: unexpected %r' % (what, exc))
                if notes != want: raise Mis('notify', '%s: notified %r, expected %r' % (what, notes, want))
            elif op == 'clear': s.m[mi] = n = VMap(); n.next = m.next
            elif op == 'next': m.next = st[2] if st[2] >= 0 else None
            elif op == 'get':
                e = s.get(mi, st[2]); w = [shown(e.kind, e.val), '1' if e.dflt else '0', '1' if e.val is None else '0']
                if e.val is None: ok = body[2] == '1'
                else: ok = body[:3] == w
                if not ok: raise Mis('get', '%s: expected %r, got %r' % (what, w, body[:3]))
                if (body[3] != '0') != (st[2] in m.e): raise Mis('get', '%s: count is %s' % (what, body[3]))
            elif op == 'erase': m.e.pop(st[2], None)
            elif op == 'put':
                if st[2] not in m.e: m.e[st[2]] = Entry('string', (st[3],), bool(st[4]))
            if op != 'notify' and notes: raise Mis('notify', '%s: notified %r' % (what, notes))
            for i, (mm, gm) in enumerate(zip(s.m, maps)):
                want = {k: e.row(k) for k, e in mm.e.items()}; got = {g[0]: (g[0], g[1], g[2] == '1', g[3] == '1') for g in gm}
                if len(got) != len(gm): raise Mis('any', 'repeated key')
                for k in sorted(set(want) | set(got)):
                    if want.get(k) == got.get(k): continue
                    if stop and i == mi and k == o[0]: continue
                    tag = 'get' if op == 'get' else 'clear' if op in ('clear', 'notify') else 'default' if (want.get(k) and want[k][2] and k not in before[i]) or (k not in want and got[k][2]) else 'explicit'
                    raise Mis(tag, '%s: map %d has %r, expected %r' % (what, i, got.get(k), want.get(k)))
            if stop: raise Stop()
class Stop(Mis):
    def __init__(self): Mis.__init__(self, 'stop', '')
class C09(Base): tags = ('explicit', 'exc', 'any')
class C10(Base): tags = ('default', 'notify', 'clear', 'any')
class C11(Base): tags = ('get', 'any'); w_get = 2
