"""check.py <property>: proves the property's contracts on /repo's current source, replays and searches on the real code."""
import sys, os, json, time, random, hashlib, threading, traceback, multiprocessing as mp, importlib, subprocess
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import cast, harness, conc, task as tk, prove
from interp import Unsupported
import term as tm
import registry

SEED = int(os.environ.get('VERIF_SEED', '1') or 1); TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'

def run_one(mk, prog, budget, q):
    """child process: one function against its contract"""
    name = getattr(mk, '__name__', str(mk)); started = time.time()
    try:
        t = mk(prog); name = t.name
        r = tk.run_task(t, budget=budget)
        if r.error is None and r.failed and not isinstance(t, tk.Lemma):          # anything the solvers could not settle: once more, unhurried
            again = []
            for (o, v, be) in r.failed:
                v2, be2, s2 = prove.solve_obligation(o[2], o[3], slow=True)
                r.solver_s += s2
                if v2 == 'proved':
                    r.backends[be2] = r.backends.get(be2, 0) + 1
                    for rec in r.obligations:
                        if rec['verdict'] != 'proved' and rec['name'] == (o[1] if isinstance(o[1], str) else '%s: %s' % (o[0], o[1])):
                            rec['verdict'] = 'proved'; rec['backend'] = be2; break
                else: again.append((o, v2, be2))
            r.failed = again
            # the solvers may have lost an invariant to a time-out: all of it once more, with longer ones
            left = budget * 1.5 + 40 - (time.time() - started)
            if again and r.undecided and left > 30:
                prove.SCALE = 3.0
                for k in [k for k, v in prove._ocache.items() if v[0] == 'unknown']: del prove._ocache[k]
                r2 = tk.run_task(mk(prog), budget=left)
                if r2.error is None and not r2.failed: r = r2
        d = dict(name=r.name, paths=r.paths, rounds=r.rounds, wall=round(r.wall, 1), solver_s=round(r.solver_s, 1), error=r.error,
                 obligations=len(r.obligations), discharged=sum(o['verdict'] == 'proved' for o in r.obligations), backends=r.backends,
                 inlined=sorted(r.inlined), contracts=sorted(r.contracts), library=sorted(r.lib), loops=r.loops, covered=r.covered,
                 kinds={}, failed=[dict(kind=o[0], obligation=str(o[1]), verdict=v, backend=be, path=[tm.show(p)[:300] for p in o[2]][-40:], goal=tm.show(o[3])[:2000]) for o, v, be in r.failed[:12]],
                 nfailed=len(r.failed))
        for o in r.obligations: d['kinds'][o['kind']] = d['kinds'].get(o['kind'], 0) + 1
        if r.error is None and (r.covered == 0 or not r.obligations): d['error'] = 'no path or obligation was generated'
    except (Unsupported, cast.ExtractError) as e: d = dict(name=name, error='outside the supported subset: %s' % e)
    except BaseException as e: d = dict(name=name, error='internal error: %s\n%s' % (e, traceback.format_exc()[-1500:]))
    q.put(d)

def run_tasks(mks, prog, budget, deadline, log):
    ctx = mp.get_context('fork'); out = []; live = []
    todo = list(mks); n = max(1, min(8, len(todo)))
    while todo or live:
        while todo and len(live) < n:
            mk = todo.pop(0); q = ctx.Queue(); p = ctx.Process(target=run_one, args=(mk, prog[tuple(getattr(mk, 'tus', None) or ())], budget, q)); p.start(); live.append((p, q, mk, time.time()))
        time.sleep(0.05)
        nl = []
        for p, q, mk, ts in live:
            try: d = q.get_nowait()
            except Exception: d = None
            if d is None:
                late = time.time() - ts > budget * 1.5 + 60 or time.time() > deadline
                if p.is_alive() and not late: nl.append((p, q, mk, ts)); continue
                try: d = q.get(timeout=0.3)
                except Exception: d = dict(name=getattr(mk, '__name__', str(mk)), error='time budget exhausted' if late else 'prover process died (rc=%s)' % p.exitcode)
                if late: kill_tree(p.pid)
            out.append(d)
            log('  %-52s %s' % (d['name'], ('NOT PROVED THIS RUN: ' + d['error'].split('\n')[0]) if d.get('error') else '%d/%d obligations, %d paths, %.1fs %r' % (d['discharged'], d['obligations'], d['paths'], d['wall'], d['backends'])))
            p.join(2)
            if p.is_alive(): kill_tree(p.pid)
        live = nl
    return out
def kill_tree(pid):
    try:
        kids = subprocess.run(['pgrep', '-P', str(pid)], stdout=subprocess.PIPE, text=True).stdout.split()
        for k in kids: kill_tree(int(k))
        os.kill(pid, 9)
    except Exception: pass

def known(cid):
    out = []
    try:
        for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS.jsonl')):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('property') == cid and d.get('status') == 'open': out.append(d)
    except OSError: pass
    return out

def search(prop, exe, rng, n, hints, limit, log):
    """-> (number run, first failing (case, message, got), samples)"""
    t0 = time.time(); done = 0; samples = []; fails = []; seen = set(); kf = known(prop.id)
    hit = set()
    while done < n and time.time() - t0 < limit and not fails:
        k = min(n - done, 4000)
        cases = []
        for c in prop.cases(rng, k, hints, done): cases.append(c)
        if not cases: break
        cmds = [prop.command(c) for c in cases]
        rs = harness.run_parallel(exe, cmds, timeout=max(10, limit - (time.time() - t0)))
        for c, r in zip(cases, rs):
            if r is not None and r[0] == 'skipped': continue
            done += 1
            seen.add(hashlib.md5(repr(harness.dump(prop.command(c))).encode()).digest()[:8])
            try: msg = prop.judge(c, r)
            except Exception as e: msg = None; prop.oracle_errors = getattr(prop, 'oracle_errors', 0) + 1; prop.last_oracle_error = traceback.format_exc()[-600:]
            if msg:
                f = next((i for i, f in enumerate(kf) if prop.is_known(c, f)), None)
                if f is not None: hit.add(f); continue
                fails.append((c, msg, r))
            elif len(samples) < 3 and rng.random() < 0.01: samples.append(harness.dump(prop.command(c))[:400])
    return done, len(seen), fails, samples, [kf[i] for i in sorted(hit)]

def shrink(prop, exe, c, msg, r):
    """greedy minimisation with the property's own reducer"""
    red = getattr(prop, 'reduce', None)
    if red is None: return c, msg, r
    t0 = time.time(); changed = True
    while changed and time.time() - t0 < 20:
        changed = False
        cs = list(red(c))[:400]
        if not cs: break
        rs = harness.run_parallel(exe, [prop.command(x) for x in cs], timeout=30)
        for x, y in zip(cs, rs):
            if y is None or y[0] == 'skipped': continue
            try: m = prop.judge(x, y)
            except Exception: m = None
            if m: c, msg, r = x, m, y; changed = True; break
    return c, msg, r

def main(cid):
    t0 = time.time()
    prop = registry.get(cid)
    log = lambda s: print(s, flush=True)
    log('%s %s (%s, seed %d)' % (cid, prop.title, TIER, SEED))
    b = {}
    def bt():
        try: b['exe'] = harness.build()
        except Exception as e: b['err'] = str(e)
    th = threading.Thread(target=bt); th.start()
    prog = {}; res = []; err = None
    try:
        for mk in prop.tasks:
            k = tuple(getattr(mk, 'tus', None) or ())
            if k not in prog: prog[k] = cast.Program(); prog[k].load(list(k) or prop.tus)
    except cast.ExtractError as e: err = str(e)
    th.join()           # compilation first: the solvers' time limits assume a quiet machine
    if 'err' in b:
        # the sources do not compile: nothing can hold
        log('build failed: ' + b['err'])
        rp = save(cid, dict(property=cid, build_error=b['err']))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (cid, rp)); evidence(prop, [], None, t0); return 1
    budget = 600 if THOROUGH else 200
    deadline = t0 + (1500 if THOROUGH else 480)
    if err is None: res = run_tasks(prop.tasks, prog, budget, deadline, log)
    else: res = [dict(name=getattr(m, '__name__', '?'), error='extraction: ' + err) for m in prop.tasks]
    failed = [d for d in res if d.get('nfailed')]
    unproved = [d for d in res if d.get('error')]
    hints = prop.hints()
    rng = random.Random(SEED)
    base = prop.quick_n * (6 if THOROUGH else 1)
    limit = 40 if not THOROUGH else 240
    if failed or unproved: base *= 8; limit = min(260, max(120, deadline + 240 - time.time()))
    n, distinct, fails, samples, hits = search(prop, b['exe'], rng, base, hints, limit, log)
    log('  bounded replay on the real code: %d cases (%d distinct), %d failing%s' % (n, distinct, len(fails), '; oracle errors %d' % prop.oracle_errors if getattr(prop, 'oracle_errors', 0) else ''))
    if getattr(prop, 'oracle_errors', 0): log(prop.last_oracle_error)
    for f in hits: print('KNOWN-FINDING: property=%s %s' % (cid, f['what']))
    rc = 0
    if fails:
        c, msg, r = fails[0]
        c, msg, r = shrink(prop, b['exe'], c, msg, r)
        rp = save(cid, dict(property=cid, case=harness.dump(prop.command(c)), problem=msg, observed=r, failed_obligations=[(d['name'], d['failed']) for d in failed],
                            how='echo CASE | %s (driver built from /repo by vc/harness.py)' % os.path.relpath(b['exe'], VERIF)))
        log('failing input: %s\n  %s' % (harness.dump(prop.command(c))[:600], msg))
        print('VIOLATION property=%s replay=%s' % (cid, rp)); rc = 1
    elif failed:
        for d in failed:
            for f in d['failed'][:3]: log('failed obligation in %s: %s %s (%s)' % (d['name'], f['kind'], f['obligation'], f['verdict']))
        rp = save(cid, dict(property=cid, failed_obligations=[(d['name'], d['failed']) for d in failed]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (cid, rp)); rc = 1
    evidence(prop, res, dict(cases=n, distinct=distinct, samples=samples, rule=prop.rule, failing=len(fails)), t0)
    log('%s %s in %.0fs' % (cid, 'violated' if rc else 'holds', time.time() - t0))
    return rc

def save(cid, d):
    os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
    s = json.dumps(d, indent=1, default=str)
    p = os.path.join('replay', '%s-%s.json' % (cid, hashlib.md5(s.encode()).hexdigest()[:10]))
    open(os.path.join(VERIF, p), 'w').write(s)
    return p

def evidence(prop, res, bounded, t0):
    ok = [d for d in res if not d.get('error')]
    bk = {}
    for d in ok:
        for k, v in d['backends'].items(): bk[k] = bk.get(k, 0) + v
    cov = dict(obligations=sum(d['obligations'] for d in ok), discharged=sum(d['discharged'] for d in ok),
               checker_cmd='python3-vt vc/check.py %s' % prop.id,
               trusted_base=prop.trusted(ok),
               functions_under_contract=[dict(function=d['name'], obligations=d['obligations'], discharged=d['discharged'], paths=d['paths'], kinds=d['kinds'], back_ends=d['backends'],
                    solver_s=d['solver_s'], wall_s=d['wall'], inlined=d['inlined'], callees_by_contract=d['contracts'], loop_invariants={k: v for k, v in d['loops'].items()}) for d in ok],
               back_ends=bk, solver_s=round(sum(d['solver_s'] for d in ok), 1),
               not_proved_this_run=[dict(function=d['name'], reason=d['error'].split('\n')[0]) for d in res if d.get('error')],
               assumptions=prop.assumptions(), extraction=prop.extraction(),
               bounded_replay=dict(label='bounded; not counted as proved', **(bounded or {})))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(dict(property=prop.id, tier=TIER, seed=SEED, level='proof', coverage=cov, wall_s=round(time.time() - t0, 1)),
              open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w'), indent=1)

if __name__ == '__main__':
    try: rc = main(sys.argv[1])
    except SystemExit: raise
    except BaseException: traceback.print_exc(); rc = 2
    sys.stdout.flush(); os._exit(rc)
