"""property id -> the machinery that decides it"""
import importlib
MODS = {}
for m, ids in {'p_run': 'C01 C02 C03 C04 C07 C08 C18 C21', 'p_options': 'C05 C06', 'p_config': 'C12 C13 C14', 'p_split': 'C15 C23', 'p_convert': 'C16', 'p_values': 'C17 C22', 'p_errors': 'C19', 'p_help': 'C20', 'p_vm': 'C09 C10 C11'}.items():
    for i in ids.split(): MODS[i] = m
def get(cid):
    m = importlib.import_module(MODS[cid])
    return m.PROPS[cid]()
class Prop:
    id = None; title = ''; tus = []; tasks = []; quick_n = 3000; rule = ''
    files = []
    def hints(self):
        import conc, os, cast
        return conc.literals([os.path.join(cast.REPO, f) for f in self.files])
    def cases(self, rng, n, hints, done): return []
    def command(self, c): raise NotImplementedError
    def judge(self, c, r): raise NotImplementedError
    def is_known(self, c, f): return False
    def trusted(self, ok):
        lib = sorted({x for d in ok for x in d['library']})
        return ['clang 18 AST (JSON) of the current sources', 'verification condition generator /verif/vc (interp.py, lib.py, term.py)',
                'z3 5.x, z3 4.8, cvc5 1.1.2 answering unsat', 'models of the C++ library used by these functions: ' + ', '.join(lib)]
    base_assumptions = ['sizes of strings and vectors are below 2^62 and below the range of the loop counters used', 'memory allocation does not fail',
                        'machine integers are mathematical except where unsigned wrap-around is modelled']
    extra_assumptions = []
    def assumptions(self): return self.base_assumptions + self.extra_assumptions
    def extraction(self): return 'functions are taken from clang\'s AST of /repo\'s sources on every run; dropped: source locations, attributes, noexcept, destructors of library types'
def _note(self):
    return 'proved for all inputs: ' + '; '.join(self.proved) + ('. ' + self.limits if self.limits else '')
Prop.note = _note; Prop.proved = (); Prop.limits = ''
