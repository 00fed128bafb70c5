"""plant.py: (re)create seeded/<id>/ from tools/plants/*.py entries: dict(id, property, file, old, new, demo, needs, breaks)."""
import os, sys, json, subprocess, shutil, glob, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); REPO = '/repo'
DEMO = r'''#!/bin/bash
# exit 0: behaves as it should; nonzero: broken.  Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d) || exit 3; trap 'rm -r "$w"' EXIT
for s in src/*.cpp; do case $s in */winmain.cpp) ;; *) (g++ -std=gnu++17 -w -O0 -Iinclude -c "$s" -o "$w/$(basename "$s").o" || touch "$w/bad") & ;; esac; done
(g++ -std=gnu++17 -w -O0 -Iinclude -I. -c "$here/demo.cpp" -o "$w/demo.o" || touch "$w/bad") &
wait; [ -e "$w/bad" ] && exit 4
g++ "$w"/*.o -o "$w/demo" || exit 4
cd "$w" && timeout 20 ./demo
'''
PRE = r'''#include <boost/program_options.hpp>
#include <iostream>
#include <sstream>
#include <cstdlib>
#include <string>
#include <vector>
using namespace boost::program_options;
namespace po = boost::program_options;
typedef std::vector<std::string> VS;
#define CHECK(c) do { if (!(c)) { std::cerr << "broken: " #c << std::endl; return 1; } } while (0)
'''
def make(p):
    d = os.path.join(V, 'seeded', p['id'])
    if os.path.isdir(d): shutil.rmtree(d)
    os.makedirs(d)
    eds = p.get('edits') or [(p['file'], p['old'], p['new'])]
    try:
        for f, old, new in eds:
            path = os.path.join(REPO, f); s = open(path).read()
            n = s.count(old)
            if n != 1: print(p['id'], 'old text occurs %d times in %s' % (n, f)); return False
            open(path, 'w').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', REPO, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    finally: subprocess.run(['git', '-C', REPO, 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO)
    open(d + '/demo.cpp', 'w').write(PRE + p.get('pre', '') + 'int main() {\n' + p['demo'] + '\nreturn 0; }\n')
    json.dump(dict(property=p['property'], needs=p['needs'], what_it_breaks=p['breaks']), open(d + '/meta.json', 'w'), indent=1)
    return True
if __name__ == '__main__':
    for f in sorted(glob.glob(V + '/tools/plants/*.py')):
        for p in runpy.run_path(f)['PLANTS']:
            if len(sys.argv) > 1 and not any(p['id'].startswith(a) for a in sys.argv[1:]): continue
            print(p['id'], make(p))
