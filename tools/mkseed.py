#!/usr/bin/env python3
"""mkseed.py: reads a seed description (python file defining ID, PROP, FILE, EDITS=[(old,new)], NEEDS, BREAKS, DEMO (C++), SRCS) and
writes seeded/<ID>, after confirming in a scratch copy that the patched tree compiles and that the demo passes without and fails with it."""
import sys, os, subprocess, json, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = next(l[6:] for l in open(os.path.join(H, 'harness', 'p05.cpp')) if l.startswith('//SRC:')).strip()
def one(g):
    d = os.path.join(H, 'seeded', g['ID']); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed'); r = os.path.join(w, 'repo')
    try:
        subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'], check=True)
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        edits = g['EDITS'] if isinstance(g['EDITS'][0][0], str) and len(g['EDITS'][0]) == 3 else [(g['FILE'], a, b) for a, b in g['EDITS']]
        for (f, a, b) in edits:
            p = os.path.join(r, f); s = open(p).read()
            assert s.count(a) == 1, (g['ID'], f, s.count(a), a)
            open(p, 'w').write(s.replace(a, b))
        diff = subprocess.run(['git', '-C', r, 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cpp', 'w').write(g['DEMO'])
        for hh in ('h.h', 'model.h', 'walk.h'):
            if 'model.h' in g['DEMO'] or 'walk.h' in g['DEMO'] or ('"h.h"' in g['DEMO'] and hh == 'h.h'): shutil.copy(os.path.join(H, 'harness', hh), d)
        g["SRCS"] = g.get("SRCS", "").replace("MODEL", MODEL)
        srcs = ' '.join('src/' + s for s in g.get('SRCS', '').split())
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run in the repository; exit 0 when the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -fno-access-control -w %s -I src -I "$D" -o "$T/demo" "$D/demo.cpp" %s || exit 3
cd "$T" && timeout 120 ./demo
''' % (g.get('FLAGS', ''), srcs)); os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=g['PROP'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
        a = subprocess.run([d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        b = subprocess.run([d + '/demo.sh'], cwd=r, capture_output=True, text=True)
        print(g['ID'], 'unpatched', a.returncode, 'patched', b.returncode, (a.stdout + a.stderr)[-200:] if a.returncode else '', b.stdout[-150:] + b.stderr[-200:])
        if a.returncode != 0 or b.returncode in (0, 3): print('   *** NOT CONFIRMED', g['ID'])
    finally: shutil.rmtree(w, ignore_errors=True)
for f in sys.argv[1:]:
    src = open(f).read()
    for part in src.split('\n#---\n'):
        g = {}; exec(part, g); one(g)
