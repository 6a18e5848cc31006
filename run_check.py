#!/usr/bin/env python3
"""Decides one property by symbolic execution of the real code.
   run_check.py PROPERTY [quick|thorough]"""
import fcntl, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('REPO', '/repo')
sys.path.insert(0, V)
import checks
BUILD = os.path.join(V, 'build')
LIBSX = os.path.join(BUILD, 'libsx.bc')
SX = os.path.join(BUILD, 'sx')
INC = ['-I' + V + '/harness', '-I' + V + '/stubs', '-I' + REPO + '/include', '-I/usr/include/eigen3']
COMMON = ['-w', '-std=c++20', '-ffp-contract=off', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_CPUID', '-DEIGEN_STACK_ALLOCATION_LIMIT=0', '-DSHOW_STACKTRACE=0']
MAXREPLAY = 6

def sh(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, text=True, errors='replace')
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace') if isinstance(e.stdout, bytes) else (e.stdout or ''), 'timeout'

def engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as l: # checks started together build it once
        fcntl.flock(l, fcntl.LOCK_EX)
        rc, o, e = sh(['make', '-s', '-C', os.path.join(V, 'engine')], 900)
    if rc: sys.exit('engine build failed:\n' + o + e)

def compile_bc(v, wd, i):
    out = f'{wd}/{i}.bc'
    rc, o, e = sh(['clang++-18', *COMMON, '-O1', '-Xclang', '-disable-llvm-passes', '-g1', '-emit-llvm', '-c', '-fno-threadsafe-statics', *INC, *v.defs,
                   f'{V}/harness/{v.src}', '-o', out], 300)
    return (out, '') if rc == 0 else (None, e)

def native(v, wd, i, kind):
    """Ordinary build of the harness: 'asan' or 'plain' (for valgrind)."""
    out = f'{wd}/{i}.{kind}'
    if os.path.exists(out): return out, ''
    fl = ['-O0', '-g', '-fsanitize=address'] if kind == 'asan' else ['-O0', '-g']
    rt = f'{wd}/rt.{i}.{kind}.o'
    for src, extra, dst in ((f'{V}/harness/replay_rt.cpp', ['-c'], rt), (f'{V}/harness/{v.src}', [rt], out + '.tmp')):
        rc, o, e = sh(['clang++-18', *COMMON, *fl, *INC, *v.defs, src, *extra, '-o', dst], 400)
        if rc: return None, e
    os.rename(out + '.tmp', out)
    return out, ''

def run_native(exe, values, tags, tol, kind, wd, name):
    vf = f'{wd}/{name}.values'
    with open(vf, 'w') as f:
        for k, x in values.items(): f.write(f'{k}={x}\n')
    env = dict(os.environ, SX_TAGS=tags, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99')
    cmd = [exe, vf, repr(tol)]
    if kind == 'plain': cmd = ['valgrind', '-q', '--error-exitcode=98', '--leak-check=no'] + cmd
    rc, o, e = sh(cmd, 300, env)
    m = re.search(r'DONE checks=(\d+) fails=(\d+)', o)
    return dict(rc=rc, done=bool(m), checks=int(m[1]) if m else 0, fails=re.findall(r'^FAIL (.*)$', e, re.M), out=o[-1500:], err=e[-3000:], cmd=cmd, values_file=vf)

def one(v, wd, i, tier, seed):
    t0 = time.time()
    r = dict(name=v.name, variant=v, i=i)
    bc, e = compile_bc(v, wd, i)
    r['compile_s'] = time.time() - t0
    if not bc:
        r['nocompile'] = e[-2500:]
        return r
    out = f'{wd}/{i}.json'
    cmd = [SX, '--max-secs', str(v.secs), '--samples', str(v.native or 1), '--seed', str(seed)]
    if v.tags: cmd += ['--tags', v.tags]
    rc, o, e = sh(cmd + [bc, LIBSX, '-o', out], v.secs + 120)
    try: r['j'] = json.load(open(out))
    except Exception: r['error'] = f'engine failed (exit {rc}): ' + e[-2000:]
    return r

def reproduce(v, viol, wd, i):
    """Replays the counterexample against an ordinary build of the real code."""
    kind = 'plain' if viol['kind'] == 'uninitialised' else 'asan'
    exe, e = native(v, wd, i, kind)
    if not exe: return None, 'native build failed: ' + e[-1500:]
    tol = max(min(viol.get('margin') or 1e-7, 1e-2) / 4, 1e-10)
    n = run_native(exe, viol['values'], v.tags, tol, kind, wd, f'v{i}_{hashlib.md5(json.dumps(viol, sort_keys=True).encode()).hexdigest()[:8]}')
    if viol['kind'] == 'assert': ok = bool(n['fails']) or (not n['done'] and n['rc'] != 77)
    elif viol['kind'] == 'uninitialised': ok = n['rc'] == 98 or (not n['done'] and n['rc'] != 77) or bool(n['fails'])
    else: ok = (n['rc'] not in (0, 1, 77)) or not n['done'] or bool(n['fails'])
    if n['rc'] == 77: ok = False
    return ok, n

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    engine()
    bounds, vs = checks.C[prop]
    vs = [v for v in vs if v.tier == 'q' or tier == 'thorough']
    if os.environ.get('ONLY'): vs = [v for v in vs if re.search(os.environ['ONLY'], v.name)]
    wd = os.path.join(BUILD, 'run', f'{prop}-{os.getpid()}')
    os.makedirs(wd, exist_ok=True)
    keep = os.path.join(BUILD, 'replay', prop)
    shutil.rmtree(keep, ignore_errors=True)
    known = []
    kf = os.path.join(V, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'known: property=(\S+) match=/(.*)/ (.*)', l.strip())
            if m and m[1] == prop: known.append((re.compile(m[2]), m[3]))
    try:
        rc = go(prop, tier, seed, bounds, vs, wd, keep, known, t0)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    sys.exit(rc)

def go(prop, tier, seed, bounds, vs, wd, keep, known, t0):
    errors, notes, viols, res, nat = [], [], [], [], []
    with cf.ThreadPoolExecutor(int(os.environ.get('JOBS', '8'))) as ex:
        runs = [ex.submit(one, v, wd, i, tier, seed) for i, v in enumerate(vs)]
        pre = {i: ex.submit(native, v, wd, i, 'asan') for i, v in enumerate(vs) if v.native}
        for f in runs:
            r = f.result()
            res.append(r)
            if 'error' in r: errors.append(f"{r['name']}: {r['error']}")
        # sizes the tree cannot be instantiated with are reported and left out; at least one must remain
        nc = [r for r in res if 'nocompile' in r]
        for r in nc: (errors if len(nc) == len(res) else notes).append(f"{r['name']}: does not compile against the tree: {(re.findall('error: (.*)', r['nocompile']) or [r['nocompile'][-300:]])[0][:300]}")
        for r in res:
            if 'j' not in r: continue
            v, i, j = r['variant'], r['i'], r['j']
            for e in j['errors']: errors.append(f"{r['name']}: {e}")
            if j['limit']: notes.append(f"{r['name']}: stopped at the time limit with {j['pending']} paths pending")
            if not j['violations'] and not j['errors'] and not j['limit']:
                miss = [c for c in v.cov if c not in j['covers']]
                if miss: errors.append(f"{r['name']}: never reached {miss}: the check would be vacuous")
                if j['paths'] == 0: errors.append(f"{r['name']}: no path finished")
        # counterexamples: replay against the real code
        jobs = []
        for r in res:
            for n, w in enumerate(r.get('j', {}).get('violations', [])[:MAXREPLAY]): jobs.append((r, w))
        for r, w in jobs[:16]:
            exec_ = reproduce(r['variant'], w, wd, r['i'])
            viols.append((r, w, *exec_))
            if sum(1 for x in viols if x[2]) >= 3: break
        # sampled paths: does the ordinary build agree with the symbolic run?
        for i, f in pre.items():
            exe, e = f.result()
            r = res[i]
            if not exe: notes.append(f"{r['name']}: native build failed"); continue
            for k, smp in enumerate(r.get('j', {}).get('samples', [])[:vs[i].native]):
                n = run_native(exe, smp['values'], vs[i].tags, 1e-5, 'asan', wd, f's{i}_{k}')
                nat.append(dict(variant=r['name'], path=smp['path'], agrees=n['done'] and not n['fails'] and n['checks'] == smp['checks'], checks=n['checks'], expected=smp['checks'],
                                fails=n['fails'][:3], values={a: smp['values'][a] for a in list(smp['values'])[:12]}, inputs=len(smp['values']), rc=n['rc']))
    tot = lambda k: sum(r['j'][k] for r in res if 'j' in r)
    found, knownHit, unrep = [], [], []
    for r, w, ok, n in viols:
        what = f"{r['name']}: {w['kind']}: {w['msg']} [{w['stack'].split(' < ')[0]}]"
        k = next((t for rx, t in known if rx.search(what)), None)
        if k: knownHit.append(k); continue
        if ok is False: unrep.append((what, n)); continue
        os.makedirs(keep, exist_ok=True)
        p = os.path.join(keep, f'{len(found)}.json')
        json.dump(dict(property=prop, harness=r['variant'].src, defs=r['variant'].defs, kind=w['kind'], check=w['msg'], stack=w['stack'], values=w['values'], margin=w.get('margin'),
                       native=(dict(exit=n['rc'], fails=n['fails'], stderr=n['err'][-1500:]) if isinstance(n, dict) else n)), open(p, 'w'), indent=1)
        found.append((what, p))
    for what, n in unrep: errors.append('counterexample not confirmed by the real code: ' + what + (f" (exit {n['rc']}, {n['checks']} checks)" if isinstance(n, dict) else ''))
    lines = {}
    funcs = set()
    for r in res:
        if 'j' not in r: continue
        for f in r['j']['functions']:
            funcs.add(f[-90:])
        for f, n in r['j']['lines'].items():
            lines[f] = max(n, lines.get(f, 0))
    agree = sum(1 for x in nat if x['agrees'])
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(found), assumptions=ASSUME,
              coverage=dict(
        states=tot('paths') + tot('killed'), transitions=tot('instrs'), traces_validated_against_impl=agree,
        states_are='feasible execution paths of the harness over the real code, each decided for every value of its symbolic inputs', transitions_are='LLVM instructions executed symbolically',
        exhaustive=not errors and not notes, bounds=bounds,
        runs=[dict(harness=r['name'], paths=r['j']['paths'], forks=r['j']['forks'], checks=r['j']['checks'], wall_s=round(r['j']['wall_s'], 2)) for r in res if 'j' in r],
        assertions=dict(total=tot('checks'), solved_individually=tot('checks_by_solver'), same_term=tot('checks_same_term'), concrete_on_their_path=tot('checks_concrete'),
                        within_1e_9_only=tot('checks_within_1e-9'), inconclusive=tot('inconclusive')),
        solver=dict(name='Z3 ' + z3ver(), queries=tot('queries'), sat=tot('sat'), unsat=tot('unsat'), unknown=tot('unknown'), seconds=round(sum(r['j']['solver_s'] for r in res if 'j' in r), 2),
                    path_obligations=tot('obligations'), path_obligations_confirmed=tot('confirmed'), branches_undecided=tot('unknown_branches')),
        functions_encoded=sorted(funcs)[:150], lines_encoded={k: n for k, n in sorted(lines.items())},
        environment_models=['nlopt C API' if any(re.match(r'nl|\w+_nl', v.src) for v in vs) else None, 'OSQP 0.6 C API' if any(re.match(r'lm|\w+_lm|misc_log|misc_prof', v.src) for v in vs) else None],
        reached=sorted({c for r in res if 'j' in r for c in r['j']['covers']}),
        native_replays=len(nat), native_disagreements=[x for x in nat if not x['agrees']][:5], samples=nat[:3] or [s for r in res if 'j' in r for s in r['j']['samples'][:1]][:2],
        errors=[e[:400] for e in errors][:10], notes=notes, found=[f[0][:300] for f in found], known=knownHit))
    ev['coverage']['environment_models'] = [x for x in ev['coverage']['environment_models'] if x]
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    s = json.dumps(ev, indent=1)
    if len(s) > 60000:
        ev['coverage']['samples'] = ev['coverage']['samples'][:1]; ev['coverage']['functions_encoded'] = ev['coverage']['functions_encoded'][:40]
        s = json.dumps(ev, indent=1)
    open(os.path.join(V, 'evidence', prop + '.json'), 'w').write(s)
    c = ev['coverage']
    print(f"{prop} {tier}: {c['states']} paths, {c['assertions']['total']} assertions, {c['solver']['queries']} solver queries ({c['solver']['unsat']} unsat), {agree}/{len(nat)} native replays agree, {ev['wall_s']} s")
    for n in notes: print('NOTE', n)
    for k in sorted(set(knownHit)): print(f'KNOWN-FINDING: property={prop} {k}')
    for what, p in found: print(f'  {what}'); print(f'VIOLATION property={prop} replay={p}')
    for e in errors: print('ERROR', e, file=sys.stderr)
    if found: return 1
    return 2 if errors else 0

ASSUME = ['double arithmetic is treated as exact real arithmetic (differences above 1e-9 are reported)', 'the solvers (nlopt, OSQP) may return anything their API allows; their internals are not encoded',
          'single thread', 'inputs are within the ranges stated in the harness']
def z3ver():
    try: return re.search(r'version (\S+)', sh(['z3', '--version'])[1])[1]
    except Exception: return '4.8'
if __name__ == '__main__': main()
