"""mk(id, prop, [(file, old, new)], demo_cpp, srcs, needs, breaks): writes seeded/<id>/"""
import os, json, subprocess, shutil, difflib
V = '/verif'
def mk(i, prop, edits, demo, srcs, needs, breaks, libs='', extra=''):
    d = os.path.join(V, 'seeded', i); os.makedirs(d, exist_ok=True)
    per = {}
    for f, o, n in edits:
        t = per.get(f) or (open('/repo/' + f, encoding='latin-1', newline='').read(),) * 2
        assert t[1].count(o) == 1, (f, o, t[1].count(o))
        per[f] = (t[0], t[1].replace(o, n))
    out = ''
    for f, (a, b) in per.items():
        x = difflib.unified_diff(a.splitlines(True), b.splitlines(True), 'a/' + f, 'b/' + f)
        out += ''.join(l if l.endswith('\n') else l + '\n\\ No newline at end of file\n' for l in x)
    open(d + '/patch.diff', 'w', encoding='latin-1', newline='').write(out)
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# compiles the demonstration against /repo's current sources (cwd) in a scratch directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -O1 -w -I. "$here/demo.cpp" %s -o "$t/demo" %s || exit 0
%s"$t/demo"
''' % (srcs, libs or '-lm', extra))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
