#!/usr/bin/env python3-vt
"""check.py <property> : decides one property on /repo's current tree.  See DESIGN.md, section "What a check does"."""
import os, sys, json, time, subprocess, tempfile, shutil, hashlib, re, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vcg')); sys.path.insert(0, os.path.join(HERE, 'specs'))
REPO = os.environ.get('VERIF_REPO', '/repo')
PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
if '--tier' in sys.argv: TIER = sys.argv[sys.argv.index('--tier') + 1]
SEED = int(os.environ.get('VERIF_SEED', '1'))
T0 = time.time()
OUT = os.path.join(HERE, 'build', 'replay'); os.makedirs(OUT, exist_ok=True); os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
WD = tempfile.mkdtemp(prefix='verif-%s-' % PROP)
CXX = ['clang++-18', '-std=c++17', '-O1', '-g', '-w', '-fno-access-control', '-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment,shift,signed-integer-overflow,float-cast-overflow,null,nonnull-attribute', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer']

def known():
    ks = {}; out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == PROP: ks[m.group(2)] = m.group(3)
    return ks
KNOWN = known()

# ---------------------------------------------------------------- bounded part / replay
def harness_files():
    r = []
    for f in sorted(os.listdir(os.path.join(HERE, 'harness'))):
        if re.match(PROP.lower() + r'[a-z]?(_\w+)?\.cpp$', f): r.append(os.path.join(HERE, 'harness', f))
    return r
def run_harness(f, res):
    name = os.path.basename(f)[:-4]; d = os.path.join(WD, name); os.makedirs(d)
    src = open(f).read()
    flags = re.findall(r'^//FLAGS: (.*)$', src, re.M); srcs = re.findall(r'^//SRC: (.*)$', src, re.M); libs = re.findall(r'^//LIBS: (.*)$', src, re.M)
    fl = [x.replace('$REPO', REPO) for l in flags for x in l.split()]
    units = [f] + [os.path.join(REPO, 'src', x) for l in srcs for x in l.split()]
    procs = []; objs = []
    for i, u in enumerate(units):
        o = os.path.join(d, '%d.o' % i); objs.append(o)
        procs.append((u, subprocess.Popen(CXX + fl + ['-I' + REPO + '/src', '-I' + os.path.join(HERE, 'harness'), '-c', u, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    r = dict(name=name, status='ok', fails=[], known=[], cases=0, nontrivial=0, samples=[], log='')
    res.append(r)
    for u, p in procs:
        o, _ = p.communicate()
        if p.returncode != 0: r['status'] = 'nobuild'; r['log'] += o[-1500:]
    if r['status'] == 'nobuild': return
    exe = os.path.join(d, 'h')
    lk = subprocess.run(CXX + fl + objs + ['-o', exe] + [x.replace('$REPO', REPO) for l in libs for x in l.split()], capture_output=True, text=True)
    if lk.returncode != 0: r['status'] = 'nobuild'; r['log'] = lk.stderr[-1500:]; return
    env = dict(os.environ, VERIF_SEED=str(SEED), VERIF_TIER=TIER, H_KNOWN=' '.join(KNOWN), ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='exitcode=98:print_stacktrace=1')
    t = time.time()
    try:
        p = subprocess.run([exe], cwd=d, env=env, capture_output=True, text=True, timeout=600 if TIER == 'quick' else 3000, errors='replace')
    except subprocess.TimeoutExpired:
        r['status'] = 'timeout'; return
    r['wall'] = round(time.time() - t, 1)
    for l in p.stdout.splitlines():
        if l.startswith('FAIL '): r['fails'].append(l[5:])
        elif l.startswith('KNOWN '): r['known'].append(l[6:])
        elif l.startswith('SAMPLE '): r['samples'].append(l[7:])
        elif l.startswith('STAT '):
            m = dict(x.split('=') for x in l[5:].split()); r['cases'] = int(m['cases']); r['nontrivial'] = int(m['nontrivial'])
    if r['fails']: r['status'] = 'fail'
    elif p.returncode != 0: r['status'] = 'error'; r['log'] = p.stdout[-500:] + p.stderr[-500:]

# ---------------------------------------------------------------- proof part
def specs():
    return [os.path.join(HERE, 'specs', f) for f in sorted(os.listdir(os.path.join(HERE, 'specs'))) if re.match(PROP.lower() + r'[a-z]?(_\w+)?\.py$', f)]
def baseline():
    p = os.path.join(HERE, 'specs', 'baseline.json')
    return json.load(open(p)) if os.path.exists(p) else {}

def main():
    hres = []; threads = []
    hf = harness_files()
    def hrun():
        for f in hf: run_harness(f, hres)
    th = threading.Thread(target=hrun); th.start()
    import driver
    bl = baseline(); proofs = {}; notes = []; ax_ok = {}
    for sf in specs():
        try:
            out, ll = driver.run_spec(sf, WD, timeout=10.0 if TIER == 'quick' else 40.0, jobs=6 if hf else 8, baseline=bl)
            for k, v in out.items(): proofs[(os.path.basename(sf), k)] = v
        except driver.BuildError as e:
            notes.append('verification unit of %s does not compile: %s' % (os.path.basename(sf), str(e)[-400:]))
    if any('cntmath' in open(sf).read() or 'M.AXIOMS' in open(sf).read() for sf in specs()):
        import cntmath; ax_ok = cntmath.prove_axioms()
    for sf in specs():
        g = driver.load_spec(sf)
        if g.get('prove_lemmas'): ax_ok.update(g['prove_lemmas']())
    for k, v in ax_ok.items():
        if not v: notes.append('lemma %s was not re-proved in this run (solver limit)' % k)
    th.join()
    # ---- verdict
    viol = []; suspects = []; undecided = []
    for h in hres:
        for f in h['fails']: viol.append((h['name'], f))
        if h['status'] in ('nobuild', 'error', 'timeout'): notes.append('bounded check %s: %s %s' % (h['name'], h['status'], h['log'][-300:]))
    for (sf, k), r in proofs.items():
        if r['status'] == 'proved': continue
        b = bl.get(k) or {}
        if r['status'] == 'failed':
            if b.get('irhash') == r.get('irhash'): r['verdict'] = 'undischarged within the resource limit; the code is the text for which it was discharged before'; undecided.append(k)
            elif r.get('shape') is not None and b.get('shape') == r.get('shape'): r['verdict'] = 'violated'; suspects.append((k, r))
            else: r['verdict'] = 'the loop structure or the locals the annotations refer to changed: annotations do not apply'; undecided.append(k)
        else: undecided.append(k)
    rc = 0
    for k in KNOWN: print('KNOWN-FINDING: property=%s %s: %s' % (PROP, k, KNOWN[k]))
    if viol:
        rp = os.path.join(OUT, '%s.txt' % PROP)
        with open(rp, 'w') as f:
            f.write('property %s violated on %s\n' % (PROP, REPO))
            for n, t in viol: f.write('bounded check / replay %s (seed %d, tier %s):\n  %s\n' % (n, SEED, TIER, t))
            for k, r in suspects:
                for o in r['failed']: f.write('failed obligation: %s at %s (%s)\n  path: %s\n' % (o['name'], o['loc'], o['status'], ' | '.join(o['trace'])))
        print('failing input: ' + viol[0][1][:1500])
        for k, r in suspects: print('failed obligations of %s: %s' % (k, '; '.join(o['name'] for o in r['failed'])[:600]))
        print('VIOLATION property=%s replay=%s' % (PROP, rp)); rc = 1
    elif suspects:
        rp = os.path.join(OUT, '%s.txt' % PROP)
        with open(rp, 'w') as f:
            f.write('property %s: obligations that hold on the reference tree fail; no failing input was found by the replay harness\n' % PROP)
            for k, r in suspects:
                for o in r['failed']: f.write('failed obligation: %s at %s (%s)\n  path: %s\n  goal: %s\n  model: %s\n' % (o['name'], o['loc'], o['status'], ' | '.join(o['trace']), o.get('goal'), o.get('model')))
        for k, r in suspects: print('failed obligations of %s: %s' % (k, '; '.join(o['name'] for o in r['failed'])[:600]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (PROP, rp)); rc = 1
    # ---- evidence
    allp = list(proofs.values()); fully = [k[1] for k, r in proofs.items() if r['status'] == 'proved']
    nob = sum(r['obligations'] for r in allp); nd = sum(r['discharged'] for r in allp)
    sol = {}
    for r in allp:
        for s, (n, t) in r['solvers'].items():
            d = sol.setdefault(s, dict(obligations=0, seconds=0.0)); d['obligations'] += n; d['seconds'] = round(d['seconds'] + t, 2)
    man = {}
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']: man[c['property']] = c
    except Exception: pass
    lvl = man.get(PROP, {}).get('level', 'proof' if proofs else 'exploration')
    cov = dict(obligations=nob, discharged=nd, checker_cmd='python3-vt /verif/check.py %s --tier %s' % (PROP, TIER),
        trusted_base=['clang 18 front end (IR at -O0)', 'z3 / cvc5', '/verif/vcg (VC generator and its memory model, DESIGN.md)'] + sorted({'model: ' + m for r in allp for m in r.get('models', [])}),
        functions_under_contract={k[1]: dict(status=r['status'], obligations=r['obligations'], discharged=r['discharged'], seconds=round(r['time'], 2), reason=r.get('reason'), verdict=r.get('verdict'), inlined=r.get('inlined'), callee_contracts=r.get('callees')) for k, r in proofs.items()},
        functions_proved=len(fully), functions_not_proved=undecided + [k for k, r in suspects], back_ends=sol,
        counting_lemmas={k: bool(v) for k, v in ax_ok.items()},
        bounded=[dict(name=h['name'], status=h['status'], cases=h['cases'], nontrivial=h['nontrivial'], wall=h.get('wall'), label='BOUNDED: not counted as proved') for h in hres],
        evaluations=sum(h['cases'] for h in hres), distinct_nontrivial=sum(h['nontrivial'] for h in hres),
        rule='bounded part: cases enumerated up to the stated size, then seeded random cases until the time budget; non-trivial as defined by each harness (see its head comment)',
        samples=[s for h in hres for s in h['samples']][:6] or ['none'], notes=notes)
    cov['explanation'] = 'Obligations: every proof obligation generated this run from the current sources; the bounded part exercises the real code natively against an independent reference.'
    g = {}
    ev = dict(property=PROP, tier=TIER, seed=SEED, level=lvl, coverage=cov, assumptions=ASSUME + [a for r in allp for a in r.get('assumptions', [])], wall_s=round(time.time() - T0, 1), violations=1 if rc else 0)
    json.dump(ev, open(os.path.join(HERE, 'evidence', PROP + '.json'), 'w'), indent=1)
    print('%s: %d functions under contract (%d proved), %d/%d obligations discharged, bounded cases %d, %.1fs' % (PROP, len(allp), len(fully), nd, nob, cov['evaluations'], time.time() - T0))
    for k in undecided: print('not decided: %s: %s' % (k, [r.get('verdict') or r.get('reason') for kk, r in proofs.items() if kk[1] == k][0]))
    for n in notes: print('note: ' + n)
    return rc
ASSUME = ['machine integers are treated as mathematical integers except where a contract uses bit-vector mode', 'memory model: distinct allocations do not overlap; pointers into one object differ only by their index (DESIGN.md)',
          'out of memory and C++ exceptions are not modelled', 'standard library entities behave as their models state (listed in trusted_base)', 'floating point values are treated as real numbers']
if __name__ == '__main__':
    try: rc = main()
    finally: shutil.rmtree(WD, ignore_errors=True)
    sys.exit(rc)
