"""Extraction of the verified text: clang's AST (JSON) of /repo's current sources, one translation unit at a time."""
import json, os, subprocess, hashlib, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('PO_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
INST = os.path.join(HERE, 'inst.cpp')        # instantiation unit for the header templates

class ExtractError(Exception): pass

FN = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')
SCOPES = ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplateDecl', 'LinkageSpecDecl',
          'FunctionTemplateDecl', 'ClassTemplatePartialSpecializationDecl', 'EnumDecl')

def load_docs(s):
    d = json.JSONDecoder(); i = 0; out = []
    n = len(s)
    while i < n:
        while i < n and s[i].isspace(): i += 1
        if i >= n: break
        if s[i] != '{':
            j = s.find('\n', i); i = n if j < 0 else j + 1; continue
        o, i = d.raw_decode(s, i); out.append(o)
    return out

class TU:
    """one parsed translation unit"""
    def __init__(self, path, filt='program_options', extra=(), defs=()):
        self.path = path
        cmd = ['clang++', '-std=gnu++17', '-w', '-I' + os.path.join(REPO, 'include'), '-fsyntax-only',
               '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt] + list(extra) + [path]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
        if p.returncode != 0:
            raise ExtractError('clang rejects %s: %s' % (path, p.stderr[-2000:]))
        self.docs = load_docs(p.stdout)
        if not self.docs: raise ExtractError('no declarations matching %s in %s' % (filt, path))
        self.byid = {}        # decl id -> node
        self.qual = {}        # decl id -> qualified name
        self.owner = {}       # method id -> record node
        self.bodies = {}      # mangled name -> function node with a body
        self.fns = {}         # qualified name -> list of nodes with bodies
        self.records = {}     # qualified name -> record node (complete)
        self.lambdas = {}
        for d in self.docs: self.index(d, d.get('_q', ''))
        # definitions found under another id: map each declaration to a definition
        self.defs = {}
        for i, n in self.byid.items():
            if n['kind'] in FN and n.get('mangledName') in self.bodies:
                self.defs[i] = self.bodies[n['mangledName']]
    def index(self, n, q, rec=None):
        if n.get('kind') == 'ClassTemplateDecl':              # its first record is the pattern: uninstantiated text
            for c in n.get('inner', []):
                if c.get('kind') == 'CXXRecordDecl': self.mark(c)
        k = n.get('kind')
        if k is None: return
        if 'id' in n and k.endswith('Decl'):
            old = self.byid.get(n['id'])
            if old is None or (not old.get('inner') and n.get('inner')): self.byid[n['id']] = n
        nm = n.get('name', '')
        q2 = q
        if k in FN:
            if n.get('previousDecl') in self.qual:
                q2 = self.qual[n['previousDecl']]; rec = rec or self.owner.get(n['previousDecl'])
            elif n.get('parentDeclContextId') in self.qual and k != 'FunctionDecl':
                q2 = self.qual[n['parentDeclContextId']] + '::' + nm
                rec = rec or self.byid.get(n['parentDeclContextId'])
            else: q2 = q + '::' + nm if q else nm
            self.qual[n['id']] = q2
            if rec is not None: self.owner[n['id']] = rec
            if any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in n.get('inner', [])):
                if q2 not in self.fns: self.fns[q2] = []
                if not any(x['id'] == n['id'] for x in self.fns[q2]): self.fns[q2].append(n)
                mn = n.get('mangledName') or ('%s#%s' % (q2, n.get('type', {}).get('qualType')))
                n['_mn'] = mn
                self.bodies[mn] = n
            n['_q'] = q2; n['_tu'] = self
            for c in n.get('inner', []): self.index(c, q2, None)
            return
        if k == 'LambdaExpr':
            for c in n.get('inner', []): self.index(c, q + '::<lambda>', None)
            return
        if k in SCOPES:
            if k in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'EnumDecl', 'ClassTemplateDecl') and nm:
                q2 = (q + '::' + nm) if q else nm
                if k == 'ClassTemplateSpecializationDecl':
                    q2 = (q + '::' + nm) if q else nm
            if k == 'ClassTemplateDecl': q2 = q
            self.qual[n['id']] = q2
            if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
                n['_q'] = q2; n['_tu'] = self
                if k == 'ClassTemplateSpecializationDecl': n['_sp'] = [c.get('type', {}).get('qualType') or '' for c in n.get('inner', []) if c.get('kind') == 'TemplateArgument']
                elif rec is not None and rec.get('_sp'): n['_sp'] = rec['_sp']
                if n.get('completeDefinition'):
                    self.records.setdefault(q2, n)
                    n['_targs'] = [c for c in n.get('inner', []) if c.get('kind') == 'TemplateArgument']
                rec = n
            for c in n.get('inner', []): self.index(c, q2, rec if k != 'EnumDecl' else None)
            return
        if k == 'EnumConstantDecl' or k == 'VarDecl' or k == 'FieldDecl':
            self.qual[n['id']] = q + '::' + nm
        for c in n.get('inner', []): self.index(c, q2, rec)
    def mark(self, r):
        r['_dep'] = True
        for c in r.get('inner', []):
            if c.get('kind') == 'CXXRecordDecl': self.mark(c)
    def body(self, n):
        for c in n.get('inner', []):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'): return c
        return None

class Program:
    """lazily loaded set of translation units"""
    SRCS = ['cmdline', 'options_description', 'value_semantic', 'variables_map', 'config_file', 'parsers',
            'positional_options', 'convert', 'split', 'winmain', 'utf8_codecvt_facet']
    def __init__(self):
        self.tus = {}
    def spec(self, name):
        if '@' in name:                    # another dump filter over the same file (names outside namespace program_options)
            n, f = name.split('@'); p = self.spec(n); return (p[0], f, p[2])
        if name == 'inst': return (INST, 'program_options', ())
        if name == 'winmain':
            return (os.path.join(HERE, 'winmain_unit.cpp'), 'program_options', ('-DPO_WINMAIN="%s/src/winmain.cpp"' % REPO,))
        if name == 'convert':
            return (os.path.join(REPO, 'src/convert.cpp'), 'boost::detail::convert', ())
        if name == 'tokfn':
            return (INST, 'boost::escaped_list_separator', ())
        return (os.path.join(REPO, 'src', name + '.cpp'), 'program_options', ())
    def load(self, names):
        todo = [n for n in names if n not in self.tus]
        with ThreadPoolExecutor(8) as ex:
            for n, t in zip(todo, ex.map(lambda n: TU(*self.spec(n)), todo)): self.tus[n] = t
        return [self.tus[n] for n in names]
    def find_body(self, mangled):
        for t in self.tus.values():
            if mangled in t.bodies: return t.bodies[mangled]
        return None
    def function(self, qname, tu=None, pick=None):
        """the definition with this qualified name (suffix match)"""
        cands = []
        for nm, t in self.tus.items():
            if tu and nm != tu: continue
            for q, ns in t.fns.items():
                if q == qname or q.endswith('::' + qname):
                    for n in ns:
                        if pick is None or pick(n): cands.append(n)
        uniq = {}
        for n in cands: uniq.setdefault(n['_mn'], n)
        return list(uniq.values())

if __name__ == '__main__':
    P = Program()
    for t in P.load(sys.argv[1:]):
        print(t.path, len(t.byid), 'decls')
        for q, ns in sorted(t.fns.items()):
            print('  ', q, [n['type']['qualType'] for n in ns])
