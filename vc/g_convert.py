"""Case generation and judging for character conversion (C16)."""
from conc import *
import registry
from g_cmdline import Gen
def u8dec(b):
    """the rule of the library's UTF-8 facet; None: not UTF-8, or it ends inside a character"""
    out = []; i = 0
    while i < len(b):
        c = b[i]
        if 0x80 <= c <= 0xbf or c > 0xfd: return None
        n = 0 if c <= 0x7f else 1 if c <= 0xdf else 2 if c <= 0xef else 3 if c <= 0xf7 else 4 if c <= 0xfb else 5
        v = c - (0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc)[n]
        if i + n >= len(b) + 0 and i + n > len(b) - 1: return None
        for j in range(n):
            x = b[i + 1 + j]
            if not 0x80 <= x <= 0xbf: return None
            v = v * 64 + x - 0x80
        out.append(v); i += n + 1
    return out
def u8enc(w):
    out = bytearray()
    for v in w:
        n = 0 if v < 0x80 else 1 if v < 0x800 else 2 if v < 0x10000 else 3 if v < 0x200000 else 4 if v < 0x4000000 else 5
        out.append((0, 0xc0, 0xe0, 0xf0, 0xf8, 0xfc)[n] + (v >> (6 * n)))
        for j in range(n - 1, -1, -1): out.append(0x80 + ((v >> (6 * j)) & 63))
    return bytes(out)
def strict(b):
    try: return [ord(x) for x in b.decode('utf-8')]
    except UnicodeDecodeError: return None
def shift_dec(b):
    out = []; sh = 0
    for c in b:
        if c == 0x0e: sh = 1
        elif c == 0x0f: sh = 0
        elif c >= 0x80: return None
        else: out.append(c + 0x100 * sh)
    return out if not sh else None
def codes(x): return [int(v) for v in x.split(',') if v]
CH = [0x41, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0, 0x0a, 0x0e, 0x22]
LEN = [0, 1, 2, 3, 5, 8, 14, 15, 16, 17, 29, 30, 31, 32, 33, 34, 47, 48, 62, 63, 64, 65, 66, 95, 96, 97, 98, 127, 128, 129]
class C16(registry.Prop):
    quick_n = 24000; files = ['src/convert.cpp', 'src/parsers.cpp', 'include/boost/program_options/detail/convert.hpp', 'include/boost/program_options/detail/parsers.hpp']
    rule = ('random texts of 0 to 300 characters, many of lengths near multiples of 32, characters of 1 to 6 octets, truncated and corrupted texts; the UTF-8 facet of the library, the same facet converting '
            'few characters per call, the facet of the C.utf8 locale, a facet with shift states; wide parsed options; parsing of wide command lines against the narrow ones')
    def cases(self, rng, n, hints, done):
        g = Gen(rng, hints)
        for _ in range(n): yield self.make(g)
    def text(self, g, big=True):
        r = g.r
        n = r.choice(LEN) if r.random() < .6 else r.randint(0, 40) if r.random() < .9 else r.randint(100, 300)
        if not big: n = r.choice([0, 0, 1, 2, 3, 8, 31, 32, 33, 65])
        m = r.random(); x = r.choice(CH)
        pool = [x] if m < .25 else [0x61] * 9 + [x] if m < .5 else CH if m < .8 else [0x61, 0x62]
        if r.random() < .1: pool = pool + [0x200000, 0x3ffffff, 0x4000000, 0x7fffffff, 0xd800, 0x1fffff]
        return [r.choice(pool) for _ in range(n)]
    def spoil(self, g, b):
        r = g.r; b = bytearray(b); q = r.random()
        if q < .5 and b: del b[len(b) - r.randint(1, min(3, len(b))):]
        elif q < .7: b.insert(r.randint(0, len(b)), r.choice([0x80, 0xbf, 0xff, 0xfe, 0xc3, 0xe2, 0xf0]))
        elif b: b[r.randrange(len(b))] = r.choice([0x80, 0xff, 0xc3, 0xe2, 0x41, 0xfd])
        return bytes(b)
    def make(self, g):
        r = g.r; q = r.random()
        if q < .15:
            os = []
            for _ in range(r.choice([1, 1, 2, 3, 5])):
                def vs(): return [(self.spoil(g, x) if r.random() < .03 else x) for x in (u8enc(self.text(g, False)) for _ in range(r.choice([0, 1, 1, 2, 3])))]
                os.append((r.choice(['', 'foo', 'a.b', '-x']), r.choice([-1, 0, 1, 7, 300]), vs(), vs(), r.random() < .4, r.random() < .4))
            return dict(op='wopt', os=os)
        if q < .25:
            t = [self.text(g, False) for _ in range(r.choice([1, 2, 3]))]
            return dict(op='wparse', args=[([0x2d, 0x2d, 0x66, 0x6f, 0x6f, 0x3d] if r.random() < .5 and x else []) + [c for c in x if c < 0x110000 and not 0xd800 <= c < 0xe000 and c] for x in t])
        what = r.choice(['from8', 'from8', 'from8', 'to8', 'to8', 'fromutf8', 'toutf8', 'toutf8', 'int8', 'intw', 'fromlocal', 'tolocal'])
        k = 0
        if what in ('from8', 'to8') and r.random() < .6: k = r.choice([1, 1, 2, 3, 7, 31, 32, 33, -1, -1] + ([-2, -3, -5, -33, -40] if what == 'from8' else []))
        w = self.text(g)
        if what in ('to8', 'toutf8', 'intw'):
            if k == -1: w = [c for c in w if c < 0x110000 and not 0xd800 <= c < 0xe000]
            return dict(op='conv', what=what, k=k, arg=w)
        if what == 'tolocal': return dict(op='conv', what=what, k=0, arg=[c & 0x7f for c in w])
        if what == 'fromlocal': return dict(op='conv', what=what, k=0, arg=bytes(c & 0x7f for c in w))
        if k <= -2:
            b = bytearray()
            for c in w:
                if r.random() < .15: b.append(0x0e if r.random() < .6 else 0x0f)
                b.append(max(c & 0x7f, 0x20))
            if len(b) and shift_dec(bytes(b)) is None: b += b'\x0fz'
            if r.random() < .05 and b: b[r.randrange(len(b))] = 0x90
            b = bytes(b)
            if shift_dec(b) is None and max(b) < 0x80: b = b''
            return dict(op='conv', what=what, k=k, arg=b)
        if k == -1: w = [c for c in w if c < 0x110000 and not 0xd800 <= c < 0xe000]
        b = u8enc(w)
        if r.random() < .3: b = self.spoil(g, b)
        return dict(op='conv', what=what, k=k, arg=b)
    DESCR = ['desc', '', 80, 40, [['foo', 'string', 'd', [['multi']]]], []]
    def command(self, c):
        if c['op'] == 'wopt': return ['wopt'] + [[k, p, list(v), list(t), u, i] for k, p, v, t, u, i in c['os']]
        if c['op'] == 'wparse': return ['wparse', self.DESCR, 'none', 1, 'no', [list(x) for x in c['args']], []]
        return ['conv', c['what'], c['arg'] if isinstance(c['arg'], bytes) else list(c['arg']), c['k']]
    def reduce(self, c):
        if c['op'] == 'conv':
            t = c['arg']
            for i in range(min(len(t), 200)): yield dict(c, arg=t[:i] + t[i + 1:])
        elif c['op'] == 'wopt':
            for i in range(len(c['os'])): yield dict(c, os=c['os'][:i] + c['os'][i + 1:])
            for i, o in enumerate(c['os']):
                for f in (2, 3):
                    for j in range(len(o[f])): yield dict(c, os=c['os'][:i] + [o[:f] + (o[f][:j] + o[f][j + 1:],) + o[f + 1:]] + c['os'][i + 1:])
        else:
            for i in range(len(c['args'])): yield dict(c, args=c['args'][:i] + c['args'][i + 1:])
    def judge(self, c, r):
        if bad(r): return 'conversion died: ' + str(died(r))
        if c['op'] == 'wopt':
            dec = [[[u8dec(x) for x in f] for f in (o[2], o[3])] for o in c['os']]
            if any(x is None for o in dec for f in o for x in f): return None if r[0] == 'exc' else 'expected an exception: a value or token is not UTF-8'
            if r[0] == 'exc': return 'unexpected %r' % (r,)
            if len(r[1]) != len(c['os']): return 'expected %d wide options, got %d' % (len(c['os']), len(r[1]))
            for o, d, x in zip(c['os'], dec, r[1]):
                got = (x[0], int(x[1]), [codes(y) for y in x[2]], [codes(y) for y in x[3]], x[4] == '1', x[5] == '1')
                want = (o[0], o[1], d[0], d[1], bool(o[4]), bool(o[5]))
                if got != want: return 'wide option: expected %r, got %r' % (want, got)
            if r[2] != '7': return 'the option prefix is %s, not 7' % r[2]
            for o, x in zip(c['os'], r[3]):
                if [y.encode('latin-1') for y in x[2]] != list(o[2]) or x[0] != o[0]: return 'narrow option not kept: %r' % (x,)
            return None
        if c['op'] == 'wparse':
            want = [bytes(u8enc(x)) for x in c['args']]
            if r[0] == 'exc': return None
            toks = [t for o in r[1] for t in o[3]]; nt = [t for o in r[3] for t in o[3]]
            if [codes(t) for t in toks] != c['args']: return 'wide tokens: expected %r, got %r' % (c['args'], [codes(t) for t in toks])
            if [t.encode('latin-1') for t in nt] != want: return 'narrow tokens: expected %r, got %r' % (want, nt)
            for a, b in zip(r[1], r[3]):
                if a[0] != b[0] or a[1] != b[1] or a[4:] != b[4:] or [bytes(u8enc(codes(y))) for y in a[2]] != [y.encode('latin-1') for y in b[2]]: return 'wide option %r, narrow option %r' % (a, b)
            return None
        w, k, a = c['what'], c['k'], c['arg']
        if w in ('to8', 'toutf8', 'intw', 'tolocal'): e = u8enc(a)
        elif w == 'int8': e = a
        elif k <= -2: e = shift_dec(a)
        elif k == -1:
            e = strict(a)
            if e is None and u8dec(a) is not None: return None          # odd forms: this facet decides
        else: e = u8dec(a)
        if e is None: return None if r[0] == 'exc' else 'expected an exception, got %r' % (r,)
        if r[0] == 'exc': return 'unexpected %r' % (r,)
        got = r[1].encode('latin-1') if isinstance(e, bytes) else codes(r[1])
        if got != e: return 'expected %r, got %r' % (e, got)
