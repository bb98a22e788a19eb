"""Runs the verifier on a set of contracts: compiles the verification unit from /repo's current sources, generates the obligations of every
contract and discharges them."""
import re, os, sys, subprocess, time, json, multiprocessing as mp, traceback, hashlib, tempfile, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import ir, vc, models
from vc import Verifier, AnnotationMismatch, TooManyPaths, Obl
from ir import Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')
FLAGS = ['-std=c++17', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-fno-exceptions', '-g', '-fstandalone-debug', '-DNDEBUG', '-w']

class BuildError(Exception): pass

def compile_unit(text, outdir, name='tu', flags=()):
    cpp = os.path.join(outdir, name + '.cpp'); ll = os.path.join(outdir, name + '.ll')
    open(cpp, 'w').write(text)
    r = subprocess.run(['clang++-18'] + FLAGS + [f.replace('$REPO', REPO) for f in flags] + ['-I' + REPO + '/src', '-S', '-emit-llvm', cpp, '-o', ll], capture_output=True, text=True)
    if r.returncode != 0: raise BuildError(r.stderr[-3000:])
    return ll

def z3_check(o, ax, timeout, mbqi, seed=0, simple=True):
    s = z3.SimpleSolver() if simple else z3.Solver()
    s.set('timeout', int(timeout * 1000))
    if not mbqi:
        s.set('auto_config', False); s.set('smt.mbqi', False)
    s.set('random_seed', seed)
    for f in ax: s.add(f)
    for f in o.facts: s.add(f)
    s.add(z3.Not(o.goal))
    r = s.check()
    return r, s

def relevant(o): return o.facts

def ext_solver(txt, cmd, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
    try:
        r = subprocess.run(cmd + [f.name], capture_output=True, text=True, timeout=timeout + 5)
        return r.stdout.strip().startswith('unsat')
    except subprocess.TimeoutExpired: return False
    finally: os.unlink(f.name)

def solve(o, ax, timeout=10.0, deep=True, extra=()):
    """ax: axioms of the memory model; extra: lemma library of the specification (tried without it first)"""
    t0 = time.time()
    o.status = 'unknown'; o.solver = None
    ax = list(ax); full = ax + list(extra)
    txt = [None]
    def smt():
        if txt[0] is None:
            s = z3.Solver()
            for f in full: s.add(f)
            for f in o.facts: s.add(f)
            s.add(z3.Not(o.goal))
            txt[0] = '(set-logic ALL)\n' + s.to_smt2()
        return txt[0]
    plan = []
    if extra: plan.append(('z3', lambda: z3_check(o, ax, 1.5, False)))
    plan.append(('z3', lambda: z3_check(o, full, 3, False)))
    if deep:
        plan += [('cvc5', lambda: ext_solver(smt(), ['cvc5', '--tlimit=%d' % int(timeout * 500), '-q'], timeout / 2)),
                 ('z3', lambda: z3_check(o, full, timeout, False, 7)), ('z3', lambda: z3_check(o, full, timeout / 2, False, 0, False)),
                 ('z3-mbqi', lambda: z3_check(o, full, timeout / 2, True)),
                 ('z3-4.8', lambda: ext_solver(smt(), ['z3', '-T:%d' % int(timeout)], timeout))]
        if extra: plan.append(('z3', lambda: z3_check(o, ax, timeout, False, 3)))
        plan.append(('cvc5', lambda: ext_solver(smt(), ['cvc5', '--tlimit=%d' % int(timeout * 2000), '-q', '--enum-inst'], timeout * 2)))
    for nm, f in plan:
        r = f()
        if r is True: o.status = 'proved'; o.solver = nm; break
        if isinstance(r, tuple):
            r, s = r
            if r == z3.unsat: o.status = 'proved'; o.solver = nm; break
            if r == z3.sat and nm == 'z3-mbqi':
                o.status = 'refuted'; o.solver = nm
                try: o.model = str(s.model())[:4000]
                except Exception: pass
                break
    o.time = time.time() - t0
    return o

_M = {}
def load_module(ll):
    if ll not in _M: _M[ll] = ir.Module(ll)
    return _M[ll]

def gen(mod, spec, c, rename=None):
    opts = dict(spec.get('opts', {})); opts.update(c.opts)
    ver = Verifier(mod, spec['contracts'], list(spec.get('models', [])) + models.MODELS, spec.get('axioms', ()), c.mode, opts=opts)
    if c.axioms: ver.axioms += list(c.axioms)
    if rename: ver.rename = rename
    ver.verify(c)
    return ver

def local_decls(mod, name):
    """source names of the locals and parameters in declaration order"""
    fn = mod.funcs[name]; r = []
    for b in fn.order:
        for ins in fn.blocks[b]:
            if ins.op == 'call' and ins.a[1].k == 'glob' and ins.a[1].v.startswith('@llvm.dbg.declare'):
                md = ins.a[2][1].v
                nm = mod.mdattr(int(md[1:]), 'name')
                ln = mod.mdattr(int(md[1:]), 'line')
                if nm: r.append((nm, int(ln or 0)))
    return [x[0] for x in r]

def ir_hash(mod, fnames):
    """hash of the text of functions without debug metadata, value numbering kept"""
    h = hashlib.sha256()
    for n in sorted(fnames):
        f = mod.funcs.get(n)
        if f is None: continue
        for l in f._lines:
            if 'llvm.dbg' in l: continue
            h.update(re.sub(r'(, )?!\w[\w.]* !\d+|#\d+', '', l).encode()); h.update(b'\n')
    return h.hexdigest()
def shape_of(mod, name, ver):
    """what the annotations are attached to: number of locals and the loops of the function and its inlined callees"""
    return [len(local_decls(mod, name)), len(getattr(ver, 'loop_ordinals', {}))]
def describe(mod, spec, c):
    """entry of specs/baseline.json"""
    ver = gen(mod, spec, c)
    names = [ver.fn_name] + [n for d in ver.inlined for n in map(mod.resolve, mod.bydem.get(d, []))]
    return dict(locals=local_decls(mod, ver.fn_name), irhash=ir_hash(mod, set(names)), shape=shape_of(mod, ver.fn_name, ver))

def check_contract(ll, spec, c, timeout, deep=True, baseline=None, part=(0, 1), verbose=False):
    """-> dict(status=proved|failed|undecided, ...)"""
    t0 = time.time()
    res = dict(name=c.name, status='undecided', obligations=0, discharged=0, failed=[], solvers={}, time=0.0, reason=None, inlined=[], models=[], callees=[])
    try:
        mod = load_module(ll)
        attempts = [None]
        nm = None
        for k in range(3):
            try:
                ver = gen(mod, spec, c, attempts[k]); break
            except AnnotationMismatch as e:
                if k == 0 and baseline and baseline.get(c.name):
                    v0 = Verifier(mod, spec['contracts'], [], (), c.mode, opts={})
                    nm = v0.find_function(c.name)
                    if nm is None: raise
                    now = local_decls(mod, nm); old = baseline[c.name]['locals']
                    if len(now) == len(old): attempts.append({a: b for a, b in zip(old, now) if a != b}); continue
                    gone = [x for x in old if x not in now]; new = [x for x in now if x not in old]
                    if len(gone) == len(new): attempts.append(dict(zip(gone, new))); continue
                raise
    except (Unsupported, AnnotationMismatch, TooManyPaths) as e:
        res['reason'] = '%s: %s' % (type(e).__name__, e); res['time'] = time.time() - t0
        if verbose: traceback.print_exc()
        return res
    except Exception as e:
        res['reason'] = 'internal: ' + ''.join(traceback.format_exception_only(type(e), e)).strip(); res['time'] = time.time() - t0
        if verbose: traceback.print_exc()
        return res
    ax = list(ver.extra_axioms); lib = list(ver.axioms)
    covers = {}
    obls = [o for o in ver.obls if o.kind != 'cover']
    covs = [o for o in ver.obls if o.kind == 'cover']
    obls = [o for i, o in enumerate(obls) if i % part[1] == part[0]]
    names = [ver.fn_name] + [n for d in ver.inlined for n in map(mod.resolve, mod.bydem.get(d, []))]
    res['irhash'] = ir_hash(mod, set(names)); res['shape'] = shape_of(mod, ver.fn_name, ver); res['assumptions'] = ['lemma library: ' + x for x in spec.get('assumed_lemmas', [])]
    unchanged = bool(baseline and baseline.get(c.name, {}).get('irhash') == res['irhash'])
    bad = 0
    for o in obls:
        solve(o, ax, timeout, deep and (bad < 2 or unchanged) and time.time() - t0 < (400 if unchanged else 150), lib)
        if o.status != 'proved' and unchanged and deep: solve(o, ax, timeout * 4, deep, lib)
        if o.status != 'proved': bad += 1
        if verbose: print('   %-9s %-8s %.2fs %s  [%s]' % (o.status, o.solver, o.time, o.name, o.loc), flush=True)
        if verbose and o.status != 'proved': print('        trace:', ' | '.join(o.trace))
    # vacuity: each cover point must have at least one path whose assumptions are not contradictory
    cov = {}
    if part[0] == 0:
        for o in covs:
            if cov.get(o.name): continue
            s = z3.Solver(); s.set('timeout', 3000); s.set('auto_config', False); s.set('smt.mbqi', False)
            for f in ax + lib: s.add(f)
            for f in o.facts: s.add(f)
            cov[o.name] = s.check() != z3.unsat
    res['obligations'] = len(obls)
    res['discharged'] = sum(o.status == 'proved' for o in obls)
    for o in obls:
        if o.status == 'proved':
            d = res['solvers'].setdefault(o.solver, [0, 0.0]); d[0] += 1; d[1] += o.time
        else: res['failed'].append(dict(name=o.name, status=o.status, loc=o.loc, trace=o.trace, model=o.model, goal=str(o.goal)[:1500]))
    res['vacuous'] = [k for k, v in cov.items() if not v]
    res['covers'] = len(cov)
    res['inlined'] = sorted(ver.inlined); res['models'] = sorted(ver.used_models); res['callees'] = sorted(ver.used_contracts)
    res['paths'] = ver.paths
    res['status'] = 'proved' if res['discharged'] == res['obligations'] and not res['vacuous'] else ('vacuous' if res['vacuous'] else 'failed')
    if part[1] == 1 and res['obligations'] == 0 and not c.opts.get('trivial'): res['status'] = 'undecided'; res['reason'] = 'no obligations'
    res['time'] = time.time() - t0
    return res

def _worker(a):
    ll, specfile, cname, timeout, deep, baseline, part = a
    try:
        spec = load_spec(specfile)
        c = [x for x in spec['list'] if x.name == cname][0]
        return check_contract(ll, spec, c, timeout, deep, baseline, part)
    except Exception as e:
        return dict(name=cname, status='undecided', obligations=0, discharged=0, failed=[], solvers={}, time=0, reason='internal: %r' % e, inlined=[], models=[], callees=[])

_S = {}
def load_spec(path):
    if path in _S: return _S[path]
    g = {'__file__': path, '__name__': 'spec'}
    sys.path.insert(0, os.path.dirname(path))
    src = open(path).read()
    exec(compile(src, path, 'exec'), g)
    spec = dict(tu=g['TU'], list=g['CONTRACTS'], contracts={}, models=g.get('MODELS', []), axioms=g.get('AXIOMS', []), opts=g.get('OPTS', {}), flags=g.get('FLAGS', []), split=g.get('SPLIT', {}), also=g.get('ASSUMED', []), prove_lemmas=g.get('prove_lemmas'))
    for c in list(g['CONTRACTS']) + list(g.get('ASSUMED', [])): spec['contracts'][c.name] = c
    _S[path] = spec
    return spec

def run_spec(specfile, workdir, timeout=10.0, deep=True, only=None, jobs=8, baseline=None):
    spec = load_spec(specfile)
    ll = compile_unit(spec['tu'], workdir, os.path.basename(specfile).replace('.py', ''), spec['flags'])
    load_module(ll)
    tasks = []
    for c in spec['list']:
        if c.assumed: continue
        if only and only not in c.name: continue
        n = spec['split'].get(c.name, 1)
        for k in range(n): tasks.append((ll, specfile, c.name, c.timeout or timeout, deep, baseline, (k, n)))
    tasks.sort(key=lambda t: -t[6][1])
    with mp.get_context('fork').Pool(jobs, maxtasksperchild=1) as pool:
        rs = pool.map(_worker, tasks, chunksize=1)
    out = {}
    for r in rs:
        if r['name'] not in out: out[r['name']] = r
        else:
            o = out[r['name']]
            for k in ('obligations', 'discharged', 'time'): o[k] += r[k]
            for k in ('irhash', 'shape'): o[k] = o.get(k) or r.get(k)
            o['failed'] += r['failed']
            for k, v in r['solvers'].items():
                d = o['solvers'].setdefault(k, [0, 0.0]); d[0] += v[0]; d[1] += v[1]
            if r.get('vacuous'): o['vacuous'] = o.get('vacuous', []) + r['vacuous']
            order = ['proved', 'failed', 'vacuous', 'undecided']
            if order.index(r['status']) > order.index(o['status']): o['status'] = r['status']; o['reason'] = r['reason']
    return out, ll

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('spec'); ap.add_argument('--only'); ap.add_argument('-v', action='store_true'); ap.add_argument('-t', type=float, default=10)
    ap.add_argument('-j', type=int, default=8); ap.add_argument('--shallow', action='store_true')
    a = ap.parse_args()
    wd = tempfile.mkdtemp(prefix='vcg')
    spec = load_spec(os.path.abspath(a.spec))
    if a.v:
        ll = compile_unit(spec['tu'], wd, 'tu', spec['flags'])
        for c in spec['list']:
            if a.only and a.only not in c.name: continue
            print(c.name, flush=True)
            r = check_contract(ll, spec, c, c.timeout or a.t, not a.shallow, verbose=True)
            print('  =>', r['status'], r['discharged'], '/', r['obligations'], '%.1fs' % r['time'], r['reason'] or '', r.get('vacuous'), flush=True)
    else:
        out, ll = run_spec(os.path.abspath(a.spec), wd, a.t, not a.shallow, a.only, a.j)
        for k, r in out.items():
            print('%-10s %3d/%3d %6.1fs %s %s %s' % (r['status'], r['discharged'], r['obligations'], r['time'], k, r['reason'] or '', r.get('vacuous') or ''))
            for f in r['failed']: print('      ', f['status'], f['name'], f['loc'])
    subprocess.run(['rm', '-rf', wd])
