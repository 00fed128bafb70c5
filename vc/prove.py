"""Back ends: z3 (in process for feasibility, binary for obligations) and cvc5 (binary)."""
import subprocess, time, os, threading, sys, hashlib
from concurrent.futures import ThreadPoolExecutor
import z3
import term as tm
from term import *

sys.setrecursionlimit(100000)
NCPU = int(os.environ.get('VC_CPUS', '8'))
Z3BIN = 'z3-new'
T_OBL = float(os.environ.get('VC_TIMEOUT', '20'))

# ---- facts -----------------------------------------------------------------------------------
def collect_facts(ts, rounds=3):
    """instances of the background axioms for the uninterpreted symbols occurring in ts"""
    out = []; seen = set(); have = set()
    cur = list(ts)
    for _ in range(rounds):
        new = []
        for t in subterms(cur):
            if t.id in seen: continue
            seen.add(t.id)
            key = t.args[0] if t.op == 'app' else t.op
            g = FACTS.get(key)
            if g:
                for f in g(t):
                    if f is TRUE or f.id in have: continue
                    have.add(f.id); out.append(f); new.append(f)
        if not new: break
        cur = new
    return out

# ---- z3 in process ---------------------------------------------------------------------------
_zc = {}
_zs = {}
_zd = {}
def zsort(s):
    r = _zs.get(s)
    if r is not None: return r
    if s == 'B': r = z3.BoolSort()
    elif s == 'I': r = z3.IntSort()
    elif s == 'S': r = z3.StringSort()
    elif s[0] == 'Q': r = z3.SeqSort(zsort(s[1]))
    elif s[0] == 'U': r = z3.DeclareSort(s[1])
    elif s[0] == 'D':
        d = z3.Datatype(s[1])
        d.declare('mk_' + s[1], *[('%s.%s' % (s[1], f), zsort(fs)) for f, fs in DT[s[1]]])
        r = d.create()
    _zs[s] = r
    return r
def toz3(t):
    st = [t]
    while st:
        x = st[-1]
        if x.id in _zc: st.pop(); continue
        ks = [k for k in kids(x) if k.id not in _zc]
        if ks: st.extend(ks); continue
        _zc[x.id] = (_z1(x), x); st.pop()
    return _zc[t.id][0]
def _z1(t):
    o = t.op; g = lambda x: _zc[x.id][0]; a = t.args
    if o == 'bool': return z3.BoolVal(a[0])
    if o == 'int': return z3.IntVal(a[0])
    if o == 'str': return z3.StringVal(esc(a[0])[1:-1].replace('""', '"'))
    if o == 'var': return z3.Const(a[0], zsort(t.sort))
    if o == 'lin':
        r = z3.Sum([g(x) * c if c != 1 else g(x) for x, c in a[0]]) if len(a[0]) > 1 else (g(a[0][0][0]) * a[0][0][1] if a[0][0][1] != 1 else g(a[0][0][0]))
        return r + a[1] if a[1] else r
    if o == 'not': return z3.Not(g(a[0]))
    if o == 'and': return z3.And([g(x) for x in a])
    if o == 'or': return z3.Or([g(x) for x in a])
    if o == 'ite': return z3.If(g(a[0]), g(a[1]), g(a[2]))
    if o == '=': return g(a[0]) == g(a[1])
    if o == 'ge0': return g(a[0]) >= 0
    if o == 'mul': return g(a[0]) * g(a[1])
    if o == 'div': return g(a[0]) / g(a[1])
    if o == 'mod': return g(a[0]) % g(a[1])
    if o == 'cat': return z3.Concat([g(x) for x in a])
    if o == 'len': return z3.Length(g(a[0]))
    if o in ('sub', 'seg'): return z3.SubSeq(g(a[0]), g(a[1]), g(a[2]))
    if o == 'nth': return g(a[0])[g(a[1])] if a[0].sort != 'S' else z3.SubSeq(g(a[0]), g(a[1]), 1)
    if o == 'index': return z3.IndexOf(g(a[0]), g(a[1]), g(a[2]))
    if o == 'contains': return z3.Contains(g(a[0]), g(a[1]))
    if o == 'prefixof': return z3.PrefixOf(g(a[0]), g(a[1]))
    if o == 'suffixof': return z3.SuffixOf(g(a[0]), g(a[1]))
    if o == 'str.<': return g(a[0]) < g(a[1])
    if o == 'str.<=': return g(a[0]) <= g(a[1])
    if o == 'code': return z3.StrToCode(g(a[0]))
    if o == 'fromcode': return z3.StrFromCode(g(a[0]))
    if o == 'unit': return z3.Unit(g(a[0]))
    if o == 'empty': return z3.Empty(zsort(t.sort))
    if o == 'mk': return zsort(t.sort).constructor(0)(*[g(x) for x in a])
    if o == 'sel':
        zs = zsort(a[0].sort)
        for i, (f, _) in enumerate(DT[a[0].sort[1]]):
            if f == a[1]: return zs.accessor(0, i)(g(a[0]))
    if o == 'app':
        fn, args = a[0], a[1:]
        if not args: return z3.Const(fn, zsort(t.sort))
        key = (fn, tuple(x.sort for x in args), t.sort)
        f = _zd.get(key)
        if f is None:
            f = z3.Function(fn, *([zsort(x.sort) for x in args] + [zsort(t.sort)])); _zd[key] = f
        return f(*[g(x) for x in args])
    raise KeyError(o)

# ---- EUF + linear arithmetic abstraction (no string theory): sound for unsat --------------------
_ec = {}; _ef = {}; _es = {}
def esort(s):
    if s == 'B': return z3.BoolSort()
    if s == 'I': return z3.IntSort()
    r = _es.get(s)
    if r is None: r = z3.DeclareSort('E!%d' % len(_es)); _es[s] = r
    return r
def etz(t):
    st = [t]
    while st:
        x = st[-1]
        if x.id in _ec: st.pop(); continue
        ks = [k for k in kids(x) if k.id not in _ec]
        if ks: st.extend(ks); continue
        _ec[x.id] = (_e1(x), x); st.pop()
    return _ec[t.id][0]
def _e1(t):
    o = t.op; g = lambda x: _ec[x.id][0]; a = t.args
    if o == 'bool': return z3.BoolVal(a[0])
    if o == 'int': return z3.IntVal(a[0])
    if o == 'lin':
        r = z3.Sum([g(x) * c if c != 1 else g(x) for x, c in a[0]])
        return r + a[1] if a[1] else r
    if o == 'not': return z3.Not(g(a[0]))
    if o == 'and': return z3.And([g(x) for x in a])
    if o == 'or': return z3.Or([g(x) for x in a])
    if o == 'ite': return z3.If(g(a[0]), g(a[1]), g(a[2]))
    if o == '=': return g(a[0]) == g(a[1])
    if o == 'ge0': return g(a[0]) >= 0
    if o in ('var', 'str', 'empty'): return z3.Const('c!%d' % t.id, esort(t.sort))
    ks = [x for x in a if isinstance(x, T)]
    nm = 'sub' if o == 'seg' else o
    nm += '|'.join(str(x) for x in a if not isinstance(x, T))
    key = (nm, tuple(x.sort for x in ks), t.sort)
    f = _ef.get(key)
    if f is None:
        f = z3.Function('f!%d' % len(_ef), *([esort(x.sort) for x in ks] + [esort(t.sort)])); _ef[key] = f
    return f(*[g(x) for x in ks]) if ks else f()
def efacts(ts):
    """theorems of the string theory about the terms that occur"""
    out = []
    strs = {}
    for t in subterms(ts):
        o = t.op
        if t.sort == 'S' or (isinstance(t.sort, tuple) and t.sort[0] == 'Q'):
            if o == 'str': strs[t.id] = t
            l = tm._mk('len', (t,), 'I')
            e = tm.empty(t.sort)
            if t.sort == 'S': strs[e.id] = e
            out.append(z3.And(etz(l) >= 0, (etz(l) == 0) == (etz(t) == etz(e))))
            ll = tm.len_(t)
            if ll is not l: out.append(etz(l) == etz(ll))
            if o == 'sub':
                s, off, n = (etz(x) for x in t.args); ls = etz(tm.len_(t.args[0])); L = etz(l)
                out.append(z3.And(L <= z3.If(n >= 0, n, 0), L <= ls, z3.Implies(z3.And(off >= 0, n >= 0, off + n <= ls), L == n),
                                  z3.Implies(L > 0, z3.And(off >= 0, off + L <= ls))))
        elif o == 'index':
            s, x, f = t.args
            i, ls, lx, fz = etz(t), etz(tm.len_(s)), etz(tm.len_(x)), etz(f)
            out.append(z3.And(i >= -1, z3.Or(i == -1, z3.And(i >= fz, i + lx <= ls))))
            if f.op == 'int' and tm.val(f) == 0: out.append(z3.And((i >= 0) == etz(tm._mk('contains', (s, x), 'B')), (i == 0) == etz(tm.prefixof(x, s))))
        elif o == 'contains':
            out.append(z3.Implies(etz(t), etz(tm.len_(t.args[0])) >= etz(tm.len_(t.args[1]))))
        elif o in ('prefixof', 'suffixof'):
            out.append(z3.Implies(etz(t), etz(tm.len_(t.args[0])) <= etz(tm.len_(t.args[1]))))
        elif o == 'sel' and t.args[0].op == 'mk': pass
    if len(strs) > 1: out.append(z3.Distinct(*[etz(x) for x in strs.values()]))
    return out
_xc = {}
def euf_unsat(ts, ms=300):
    key = frozenset(t.id for t in ts)
    r = _xc.get(key)
    if r is None:
        s = z3.SimpleSolver(); s.set('timeout', ms)
        cs = list(ts) + collect_facts(ts, 2)
        for p in cs: s.add(etz(p))
        for f in efacts(cs): s.add(f)
        t0 = time.time()
        try: r = s.check() == z3.unsat
        except z3.Z3Exception: r = False
        STAT['euf'] += 1; STAT['euf_s'] += time.time() - t0
        _xc[key] = r
    return r

STAT = {'feas': 0, 'feas_cached': 0, 'feas_s': 0.0, 'euf': 0, 'euf_s': 0.0}
_fcache = {}
FEAS_RLIMIT = 3000000
def feasible(pc, ms=250):
    """can the conjunction be satisfied?  (unknown counts as yes)"""
    pc = [p for p in pc if p is not TRUE]
    if any(p is FALSE for p in pc): return False
    key = frozenset(p.id for p in pc)
    r = _fcache.get(key)
    if r is not None:
        STAT['feas_cached'] += 1; return r
    ids = key
    for p in pc:
        if Not(p).id in ids:
            _fcache[key] = False; return False
    if euf_unsat(pc):
        _fcache[key] = False; return False
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', ms)
    s.set('rlimit', FEAS_RLIMIT)
    for p in pc: s.add(toz3(p))
    for f in collect_facts(pc, 2): s.add(toz3(f))
    try: r = s.check() != z3.unsat
    except z3.Z3Exception: r = True
    STAT['feas'] += 1; STAT['feas_s'] += time.time() - t0
    _fcache[key] = r
    return r

def zmodel(pc, ms=4000):
    s = z3.Solver(); s.set('timeout', ms)
    for p in pc: s.add(toz3(p))
    for f in collect_facts(pc, 2): s.add(toz3(f))
    try:
        if s.check() == z3.sat: return s.model()
    except z3.Z3Exception: pass
    return None

# ---- obligations (binaries, in a pool) --------------------------------------------------------
def run_bin(cmd, text, tmo, box):
    try:
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        box.append(p)
        try: out, _ = p.communicate(text, timeout=tmo)
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate(); return 'timeout'
    except OSError as e: return 'error %s' % e
    for l in out.split('\n'):
        l = l.strip()
        if l in ('sat', 'unsat', 'unknown', 'timeout'): return l
    return 'error ' + out[:300]

_ocache = {}
SCALE = 1.0
def solve_obligation(pc, goal, tmo=None, quick=False, slow=False):
    """-> (verdict, backend, seconds)  verdict in proved / sat / unknown"""
    tmo = (tmo or T_OBL) * SCALE * (4 if slow else 1)
    key = (frozenset(p.id for p in pc), goal.id)
    r = _ocache.get(key)
    if r and not slow and (r[0] != 'unknown' or quick or r[3]): return r[:3]
    t0 = time.time()
    ng = Not(goal)
    cs = [p for p in pc if p is not TRUE] + [ng]
    facts = collect_facts(cs)
    smt = SMT()
    body = smt.script(cs + facts)
    z = '(set-option :timeout %d)\n' 
    zs = body + '\n(check-sat)\n'
    cv = '(set-logic ALL)\n(set-option :strings-exp true)\n' + body + '\n(check-sat)\n'
    b = []
    v = run_bin([Z3BIN, '-in', '-t:%d' % int(1500 * SCALE)], zs, 1.5 * SCALE + 1.5, b)
    be = 'z3'
    log = ['z3(1.5s): ' + v]
    if v not in ('sat', 'unsat'):
        res = {}
        if quick: plan = [('cvc5', ['cvc5', '--lang', 'smt2', '--tlimit', str(int(3000 * SCALE)), '-'], cv, 3 * SCALE + 1)]
        else: plan = [('cvc5', ['cvc5', '--lang', 'smt2', '--tlimit', str(int(tmo * 1000)), '-'], cv, tmo + 1),
                      ('z3', [Z3BIN, '-in', '-t:%d' % int(tmo * 1000)], zs, tmo + 1),
                      ('z3-4.8', ['z3', '-in', '-t:%d' % int(tmo * 500)], zs, tmo / 2 + 1)]
        boxes = []
        done = threading.Event()
        def go(n, c, s, t):
            bx = []; boxes.append(bx)
            r = run_bin(c, s, t, bx); res[n] = r
            if r in ('unsat', 'sat'): done.set()
        ths = [threading.Thread(target=go, args=p) for p in plan]
        for t in ths: t.start()
        while not done.is_set() and any(t.is_alive() for t in ths): done.wait(0.05)
        for bx in boxes:
            for p in bx:
                try: p.kill()
                except Exception: pass
        for t in ths: t.join()
        for n, r in res.items(): log.append('%s: %s' % (n, r))
        for n in ('cvc5', 'z3', 'z3-4.8'):
            if res.get(n) == 'unsat': v, be = 'unsat', n
        if v != 'unsat':
            for n in ('cvc5', 'z3'):
                if res.get(n) == 'sat': v, be = 'sat', n
    verdict = {'unsat': 'proved', 'sat': 'sat'}.get(v, 'unknown')
    r = (verdict, be if verdict != 'unknown' else '; '.join(log), time.time() - t0, not quick)
    _ocache[key] = r
    return r[:3]

def solve_text(txt, tmo=20):
    t0 = time.time()
    for n, cmd in (('z3', [Z3BIN, '-in', '-t:%d' % (tmo * 1000)]), ('cvc5', ['cvc5', '--lang', 'smt2', '--strings-exp', '--tlimit', str(tmo * 1000), '-'])):
        v = run_bin(cmd, (txt if n == 'z3' else '(set-logic ALL)\n' + txt) + '\n(check-sat)\n', tmo + 2, [])
        if v == 'unsat': return 'proved', n, time.time() - t0
        if v == 'sat': return 'sat', n, time.time() - t0
    return 'unknown', v, time.time() - t0

_pool = None
def pool():
    global _pool
    if _pool is None: _pool = ThreadPoolExecutor(NCPU)
    return _pool

def smt_text(pc, goal):
    cs = [p for p in pc if p is not TRUE] + [Not(goal)]
    return SMT().script(cs + collect_facts(cs)) + '\n(check-sat)\n(get-model)\n'
