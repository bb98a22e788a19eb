#!/usr/bin/env python3-vt
"""writes specs/baseline.json: for every contract the locals its annotations refer to, its loop shape and a hash of the verified text"""
import os, sys, json, tempfile, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + '/vcg', H + '/specs']
import driver
p = H + '/specs/baseline.json'
bl = json.load(open(p)) if os.path.exists(p) else {}
only = sys.argv[1:]
for f in sorted(os.listdir(H + '/specs')):
    if not (f.startswith('p') and f.endswith('.py')) or (only and f[:-3] not in only): continue
    wd = tempfile.mkdtemp()
    spec = driver.load_spec(H + '/specs/' + f); ll = driver.compile_unit(spec['tu'], wd, 'tu', spec['flags']); mod = driver.load_module(ll)
    for c in spec['list']:
        if c.assumed: continue
        try: bl[c.name] = driver.describe(mod, spec, c)
        except Exception as e: print(f, c.name, repr(e))
    subprocess.run(['rm', '-rf', wd])
json.dump(bl, open(p, 'w'), indent=0, sort_keys=True)
print(len(bl), 'contracts')
