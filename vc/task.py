"""Verification tasks: one function against its contract."""
import time, traceback
import term as tm
from term import *
import interp as ip
from interp import *
import prove, sp, os
DROPDBG = os.environ.get('DROPDBG')
from sp import V, SpecThrow

class Result:
    def __init__(self, name):
        self.name = name; self.failed = []; self.obligations = []; self.paths = 0; self.rounds = 0
        self.solver_s = 0.0; self.wall = 0.0; self.error = None; self.inlined = set(); self.contracts = set(); self.lib = set()
        self.backends = {}; self.loops = {}; self.covered = 0; self.undecided = 0
    @property
    def ok(self): return not self.failed and self.error is None and self.covered > 0 and len(self.obligations) > 0

class Task:
    """name; fn: AST node; setup(ex) -> (this place, args); post(ex, outcome, env)"""
    def __init__(self, name, mach, fn, setup, post, templates=(), variants=(), termination=True):
        self.name, self.m, self.fn, self.setup, self.post = name, mach, fn, setup, post
        self.templates = list(templates); self.variants = list(variants); self.termination = termination

class Lemma:
    """an argument over definitions only: each (label, SMT-LIB text) must be unsatisfiable"""
    def __init__(self, name, goals): self.name, self.goals = name, goals
def T_mono(prog):
    """'some element among the first k' is monotone in k: the induction step"""
    return Lemma('monotone existence', [('some element among the first k, then among the first m, then among the first m+1',
        '(declare-fun E (Int) Bool)(declare-fun P (Int) Bool)(declare-const k Int)(declare-const m Int)(assert (= (E (+ m 1)) (or (E m) (P m))))(assert (=> (E k) (E m)))(assert (not (=> (E k) (E (+ m 1)))))'),
        ('no element among the first m+1, then none among the first m', '(declare-fun E (Int) Bool)(declare-fun P (Int) Bool)(declare-const m Int)(assert (= (E (+ m 1)) (and (E m) (P m))))(assert (E (+ m 1)))(assert (not (E m)))')])
def run_lemma(task, res):
    t0 = time.time(); res.covered = res.paths = 1
    for lab, txt in task.goals:
        v, be, s = prove.solve_text(txt)
        res.solver_s += s
        res.obligations.append(dict(kind='lemma', name=lab, verdict=v, backend=be, seconds=round(s, 3)))
        if v == 'proved': res.backends[be] = res.backends.get(be, 0) + 1
        else: res.failed.append((('lemma', lab, (), FALSE, None), v, be))
    res.wall = time.time() - t0
    return res
def run_task(task, budget=300, verbose=False):
    res = Result(task.name)
    if isinstance(task, Lemma): return run_lemma(task, res)
    m = task.m
    t0 = time.time()
    m.loops = {}; m.loop_templates = task.templates; m.variants = task.variants
    m.inlined = set(); m.used_contracts = set(); m.lib_used = set()
    m.top = task.fn.get('_mn') if task.fn is not None else None
    try:
        explore(task, res, t0, budget, verbose)
    except Unsupported as e:
        res.error = 'outside the supported subset: %s' % e
    except RecursionError:
        res.error = 'recursion limit'
    except Exception as e:
        res.error = 'internal error: %s\n%s' % (e, traceback.format_exc())
    res.wall = time.time() - t0
    res.inlined = set(m.inlined); res.contracts = set(m.used_contracts); res.lib = set(m.lib_used)
    return res

def one_pass(task, res, t0, budget):
    """all paths; returns obligations or None for restart"""
    m = task.m
    work = [()]; obls = []; n = 0; covered = 0; seen = set()
    while work:
        pre = work.pop()
        if time.time() - t0 > budget: raise Unsupported('time budget exhausted')
        c = Ctx(m, pre)
        ex = Exec(c)
        sp.CUR[0] = c
        n += 1
        if n > 4000: raise Unsupported('too many paths')
        try:
            env = task.setup(ex)
            try:
                v = task.fn_call(ex, env) if hasattr(task, 'fn_call') else ex.inline(task.fn, env['this'], env['args'], task.fn)
                out = ('return', v)
            except CppThrow as e: 
                del ex.frames[:]
                out = ('throw', e.v)
            except CppAbort:
                del ex.frames[:]
                out = ('abort', None)
            task.post(ex, out, env)
            covered += 1
        except PathEnd: pass
        except Restart as r:
            res.restarts = getattr(res, 'restarts', 0) + 1
            return None, n, covered
        for o in c.obls:
            k = (o[0], repr(o[1]), tuple(p.id for p in o[2]), o[3].id)
            if k not in seen: seen.add(k); obls.append(o)
        work.extend(c.alts)
    return obls, n, covered

def explore(task, res, t0, budget, verbose):
    m = task.m
    while True:
        res.rounds += 1
        if res.rounds > 400: raise Unsupported('no fixpoint of loop invariants')
        m.inlined = set(); m.used_contracts = set()
        obls, n, covered = one_pass(task, res, t0, budget)
        if obls is None: continue
        if verbose: print('  round %d: %d paths, %d obligations' % (res.rounds, n, len(obls)), '%.1fs' % (time.time() - t0))
        inv = [o for o in obls if o[0] in ('inv-init', 'inv-step')]
        var = [o for o in obls if o[0] == 'variant']
        # candidates: refute in parallel
        ch = False
        def chk(o):
            (key, nm) = o[1]
            if nm in m.loops[key].dropped or id(o) in easy: return o, ('skip', '', 0)
            return o, prove.solve_obligation(o[2], o[3], quick=True)
        inv.sort(key=lambda o: o[0])
        easy = {id(o) for o in inv if prove.euf_unsat([p for p in o[2] if p is not TRUE] + [Not(o[3])])}
        for o, r in prove.pool().map(chk, inv):
            key, nm = o[1]
            if r[0] in ('proved', 'skip'): continue
            if nm not in m.loops[key].dropped:
                if verbose: print('    drop', key, nm, o[0], r[0])
                if DROPDBG and DROPDBG in nm: open('/tmp/drop.smt2', 'w').write(prove.smt_text(o[2], o[3])); print('\n     '.join(tm.show(p) for p in o[2]), '\n  |-', tm.show(o[3]), '\n')
                m.loops[key].dropped.add(nm); ch = True
                if r[0] == 'unknown': res.undecided += 1
        if ch: continue
        # termination measures
        if task.termination:
            for o in var:
                key = o[1][0]
                for nm, g in o[4]:
                    if nm in m.loops[key].vdropped: continue
                    # one proven measure per loop is enough; check lazily below
            loops = {}
            for o in var: loops.setdefault(o[1][0], []).append(o)
            for key, os in loops.items():
                names = None
                for o in os:
                    s = {nm for nm, _ in o[4]}
                    names = s if names is None else names & s
                good = None
                for nm in sorted(names or (), key=lambda s: (s not in m.loops[key].vkept, len(s))):
                    rs = list(prove.pool().map(lambda o: prove.solve_obligation(o[2], dict(o[4])[nm], quick=True), os))
                    if all(r[0] == 'proved' for r in rs):
                        good = nm; m.loops[key].vkept.add(nm); break
                    if any(r[0] == 'unknown' for r in rs): res.undecided += 1
                for i, o in enumerate(os):
                    g = dict(o[4])[good] if good else FALSE
                    obls.append(('termination', 'loop %s terminates (measure %s)' % (key[0] + '#' + key[1], good), o[2], g, None))
        obls = [o for o in obls if o[0] != 'variant']
        break
    res.paths = n; res.covered = covered
    for k, info in m.loops.items(): res.loops['%s#%s' % k] = sorted(info.names - info.dropped)
    # discharge
    pre = {}
    for i, o in enumerate(obls):
        if o[4] == 'sure' or prove.euf_unsat([p for p in o[2] if p is not TRUE] + [Not(o[3])]): pre[i] = ('proved', 'z3-euf', 0.0)
    def dis(io):
        i, o = io
        return o, pre[i] if i in pre else prove.solve_obligation(o[2], o[3])
    for o, (v, be, s) in prove.pool().map(dis, list(enumerate(obls))):
        nm = o[1] if isinstance(o[1], str) else '%s: %s' % (o[0], o[1])
        res.solver_s += s
        rec = dict(kind=o[0], name=nm, verdict=v, backend=be, seconds=round(s, 3))
        res.obligations.append(rec)
        if v == 'proved': res.backends[be] = res.backends.get(be, 0) + 1
        else: res.failed.append((o, v, be))
    if verbose:
        print('  %d obligations, %d failed, backends %r' % (len(res.obligations), len(res.failed), res.backends))

# ---- comparing outcomes ------------------------------------------------------------------------
def as_term(ex, v, sort):
    if isinstance(v, V): v = v.t
    if isinstance(v, (sp.R, tuple, list, str, bool, int)): return sp.to_T(v, sort)
    return ex.to_term(ex.load(v), sort)

class Ref:
    """mutable reference handed to a spec"""
    def __init__(self, v): self.v = v
    def get(self): return self.v
    def set(self, v): self.v = v

def exc_equal(ex, a, cls, kw):
    """exception value a (Rec) against SpecThrow(cls, kw): class and the given fields"""
    if a.cls != cls: return FALSE
    gs = []
    for k, w in kw.items():
        if k not in a.f: return FALSE
        x = ex.load(a.f[k])
        gs.append(Eq(as_term(ex, x, x.sort), as_term(ex, w, x.sort)))
    return And(*gs)

def outcome_post(spec, name=''):
    """postcondition: same outcome as spec(env) -> (result, [(label, got place, expected V)]) or SpecThrow"""
    def post(ex, out, env):
        try:
            r, finals = spec(ex, env)
            want = ('return', r)
        except SpecThrow as e:
            want = ('throw', e)
            finals = []
        c = ex.c
        if out[0] == 'abort':
            c.oblige('post', name + ': no assertion fails', FALSE); return
        if want[0] == 'return':
            if out[0] == 'throw':
                c.oblige('post', name + ': does not throw (got %s)' % getattr(out[1], 'cls', out[1]), FALSE); return
            if r is not None:
                got = ex.load(out[1])
                s = got.sort if isinstance(got, T) else (r.t.sort if isinstance(r, V) else None)
                if s is None:
                    s = 'B' if isinstance(r, bool) else 'I' if isinstance(r, int) else 'S'
                c.oblige('post', name + ': result', Eq(ex.to_term(got, s), as_term(ex, r, s)))
            for lab, pl, w in finals:
                got = ex.load(pl)
                s = w.t.sort if isinstance(w, V) else got.sort
                c.oblige('post', name + ': ' + lab, Eq(ex.to_term(got, s), as_term(ex, w, s)))
        else:
            e = want[1]
            if out[0] != 'throw':
                c.oblige('post', name + ': throws %s' % e.cls, FALSE); return
            c.oblige('post', name + ': throws %s with the right details' % e.cls, exc_equal(ex, out[1], e.cls, e.kw))
    return post
