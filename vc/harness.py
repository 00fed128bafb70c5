"""Builds the replay driver from /repo's current sources and runs cases on it."""
import os, subprocess, hashlib, shutil, time, glob, sys
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('PO_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DRV = os.path.join(VERIF, 'drv')
FLAGS = ['-std=gnu++17', '-w', '-O0', '-g0', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=undefined']

class BuildError(Exception): pass

def esc(s):
    if not s: return '%'
    b = s.encode('latin-1') if isinstance(s, str) else s
    return ''.join('%%%02x' % c if c <= 32 or c >= 127 or c in b'%()' else chr(c) for c in b)
def dump(x):
    if isinstance(x, bool): return '1' if x else '0'
    if isinstance(x, int): return str(x)
    if isinstance(x, (str, bytes)): return esc(x)
    return '(' + ' '.join(dump(y) for y in x) + ')'
def unesc(s):
    if s == '%': return ''
    if '%' not in s: return s
    out = []; i = 0
    while i < len(s):
        if s[i] == '%': out.append(chr(int(s[i + 1:i + 3], 16))); i += 3
        else: out.append(s[i]); i += 1
    return ''.join(out)
def parse(line):
    st = [[]]
    for t in line.split():
        if t == '(': st.append([])
        elif t == ')': x = st.pop(); st[-1].append(x)
        else: st[-1].append(unesc(t))
    return st[0][0] if st[0] else None

def tree_hash():
    h = hashlib.sha256()
    fs = sorted(glob.glob(REPO + '/src/*.cpp') + glob.glob(REPO + '/include/**/*.hpp', recursive=True) + glob.glob(REPO + '/src/*.ipp') + glob.glob(DRV + '/*'))
    for f in fs:
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]

def build():
    """path of the driver binary"""
    d = os.path.join(VERIF, 'build', tree_hash())
    exe = os.path.join(d, 'drv')
    if os.path.exists(exe): return exe
    os.makedirs(d, exist_ok=True)
    for o in glob.glob(os.path.join(VERIF, 'build', '*')):       # keep few old builds
        if o != d and time.time() - os.path.getmtime(o) > 3600: shutil.rmtree(o, ignore_errors=True)
    srcs = sorted(glob.glob(REPO + '/src/*.cpp')) + [DRV + '/drv.cpp', DRV + '/winm.cpp']
    srcs = [s for s in srcs if not s.endswith('src/winmain.cpp')]
    srcs.sort(key=lambda s: -os.path.getsize(s) - (10**6 if 'drv.cpp' in s else 0))
    tag = '.%d' % os.getpid()
    def cc(s):
        o = os.path.join(d, os.path.basename(s) + tag + '.o')
        p = subprocess.run(['g++'] + FLAGS + ['-DPO_WINMAIN="%s/src/winmain.cpp"' % REPO, '-I' + REPO + '/include', '-I' + DRV, '-c', s, '-o', o],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: raise BuildError('%s does not compile: %s' % (s, p.stdout[-1500:]))
        return o
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(cc, srcs))
    p = subprocess.run(['g++'] + FLAGS + objs + ['-o', exe + tag], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise BuildError('link: ' + p.stdout[-1500:])
    os.rename(exe + tag, exe)
    for o in objs: os.unlink(o)
    return exe

ENV = {'PATH': os.environ.get('PATH', ''), 'LC_ALL': 'C', 'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=77', 'UBSAN_OPTIONS': 'print_stacktrace=0'}
def run_cases(exe, cases, timeout=600):
    """list of parsed results; ('crash', text) or ('hang',) where the real code died"""
    out = []; i = 0
    t0 = time.time()
    lines = [dump(c) for c in cases]
    crashes = 0
    while i < len(lines):
        left = timeout - (time.time() - t0)
        if left <= 0 or crashes > 20: out += [('skipped',)] * (len(lines) - i); break
        try:
            p = subprocess.run([exe], input=('\n'.join(lines[i:]) + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=left, env=ENV)
            so, se, rc = p.stdout, p.stderr, p.returncode
        except subprocess.TimeoutExpired as e:
            so, se, rc = e.stdout or b'', b'', -14
        rs = so.decode('latin-1').split('\n')
        rs = rs[:-1]
        out += [parse(r) for r in rs]
        i += len(rs)
        if i < len(lines):
            crashes += 1
            if rc == -14: out.append(('hang',))
            else: out.append(('crash', 'rc=%d %s' % (rc, first_diag(se.decode('latin-1')))))
            i += 1
    return out
def first_diag(s):
    ls = [l for l in s.splitlines() if l.strip()]
    for l in ls:
        if 'ERROR' in l or 'runtime error' in l or 'Assertion' in l or 'assert' in l: return l.strip()[:300]
    return ls[0][:300] if ls else ''
def run_parallel(exe, cases, jobs=8, timeout=600):
    n = max(1, (len(cases) + jobs - 1) // jobs)
    parts = [cases[i:i + n] for i in range(0, len(cases), n)]
    with ThreadPoolExecutor(jobs) as ex: rs = list(ex.map(lambda p: run_cases(exe, p, timeout), parts))
    return [r for p in rs for r in p]
if __name__ == '__main__':
    t = time.time(); e = build(); print(e, time.time() - t)
    print(run_cases(e, [['ping'], ['parse', ['desc', '', 80, 40, [['foo,f', 'string', 'd', []], ['bar', ['cust', 2, 3], 'd', []]], []], 'none', 0, 'no', ['--foo=x', '--bar', 'a', 'b', 'c', 'pos'], []], ['winm', 'a "" b'],
         ['find', ['desc', '', 80, 40, [['foo,f', 'string', 'd', []], ['fool', 'string', 'd', []]], []], 'fo', 1, 0, 0]]))
