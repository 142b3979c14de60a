#!/usr/bin/env python3
"""check.py PROP            run the check of one property (tier from VERIF_TIER, default quick)
   check.py PROP --replay F  replay one recorded counterexample against the natively compiled code
   check.py --setup          build the executor and the library models
"""
import sys, os, json, subprocess, time, glob, shutil, tempfile, re, signal, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
B = os.path.join(HERE, 'build')
LL = '/usr/lib/llvm-18/bin/'
NCPU = os.cpu_count() or 4
INC = ['-I' + HERE + '/models/inc', '-I' + REPO, '-I' + HERE + '/models', '-I' + REPO + '/pwned-lib']
BCF = [LL + 'clang++', '-std=c++17', '-O1', '-DNO_POPCNT', '-DNDEBUG', '-fno-vectorize', '-fno-slp-vectorize', '-fno-pic', '-fno-pie', '-w'] + INC + ['-c', '-emit-llvm']
NTF = ['-std=c++17', '-O1', '-g1', '-DNO_POPCNT', '-DNDEBUG', '-DSX_NATIVE', '-w', '-ftrivial-auto-var-init=pattern', '-I' + REPO, '-I' + HERE + '/models', '-I' + REPO + '/pwned-lib']
MODELS = ['stdmodel', 'fsmodel', 'sxthread', 'sxboost']
sys.path.insert(0, HERE)

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

class BuildError(Exception):
    pass

def must(cmd, **kw):
    p = run(cmd, **kw)
    if p.returncode:
        raise BuildError(' '.join(cmd)[:300] + '\n' + p.stdout[-3000:])
    return p.stdout

def newer(out, deps):
    if not os.path.exists(out):
        return False
    t = os.path.getmtime(out)
    return all(os.path.getmtime(d) <= t for d in deps)

def setup():
    os.makedirs(B, exist_ok=True)
    must(['make', '-s', '-j8', '-C', HERE + '/engine'])
    hdr = glob.glob(HERE + '/models/*.h*') + glob.glob(HERE + '/models/inc/bits/*')
    jobs = []
    for m in MODELS:
        src = f'{HERE}/models/{m}.cpp'
        out = f'{B}/{m}.bc'
        if os.path.exists(src) and not newer(out, [src] + hdr):
            jobs.append(BCF + ['-fno-access-control', '-fno-builtin', src, '-o', out + '.tmp'])
            jobs[-1:] = [(jobs[-1], out)]
    nat = [('sxnative', ['-DSX_MD5'])]
    def one(j):
        must(j[0]); os.replace(j[1] + '.tmp', j[1])
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, jobs))
    return [f'{B}/{m}.bc' for m in MODELS if os.path.exists(f'{HERE}/models/{m}.cpp')]

def sources(cfg):
    out = []
    for pat in cfg.get('sources', ['pwned-lib/*.cpp']):
        out += sorted(glob.glob(os.path.join(REPO, pat)))
    ex = {os.path.join(REPO, e) for e in cfg.get('exclude', [])}
    r = []
    for s in out:
        if s not in r and s not in ex:
            r.append(s)
    return r

def build(cfg, prop, wd):
    models = setup()
    srcs = sources(cfg)
    harness = f"{HERE}/harness/{cfg['harness']}"
    mains = {os.path.join(REPO, k): v for k, v in cfg.get('mains', {}).items()}
    defs = cfg.get('defs', [])
    san = cfg.get('sanitize', ['-fsanitize=address'])
    thr = cfg.get('threads', False)
    jobs = []
    bcs, objs = [], []
    for i, s in enumerate([harness] + srcs):
        extra = defs + (['-Dmain=' + mains[s]] if s in mains else [])
        bc, ob = f'{wd}/{i}.bc', f'{wd}/{i}.o'
        bcs.append(bc); objs.append(ob)
        jobs.append(BCF + extra + (['-fno-access-control'] if s == harness else []) + [s, '-o', bc])
        jobs.append([LL + 'clang++'] + NTF + san + extra + (['-fno-access-control'] if s == harness else []) + ['-c', s, '-o', ob])
    nats = ['sxnative'] + (['sxthread'] if thr else [])
    for m in nats:
        ob = f'{wd}/{m}.o'; objs.append(ob)
        jobs.append([LL + 'clang++'] + NTF + san + (['-DSX_THREADS', '-fno-access-control'] if thr else []) + ['-c', f'{HERE}/models/{m}.cpp', '-o', ob])
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(must, jobs))
    libs = cfg.get('libs', []) + ['-lboost_program_options', '-lboost_filesystem', '-lbz2', '-lcrypto', '-ldl', '-lpthread']
    wrap = ['-Wl,--wrap=_Znam'] + ['-Wl,--wrap=pthread_mutex_lock', '-Wl,--wrap=pthread_mutex_unlock', '-Wl,--wrap=pthread_mutex_trylock', '-Wl,--wrap=pthread_once', '-Wl,--wrap=getc', '-Wl,--wrap=getchar', '-Wl,--wrap=pthread_setschedparam', '-Wl,--wrap=pthread_getschedparam'] if thr else ['-Wl,--wrap=_Znam']
    entries = sorted({'sxh_' + e['name'] for e in cfg['entries']})
    def lnk():
        must([LL + 'clang++'] + san + objs + ['-o', f'{wd}/replay'] + wrap + cfg.get('wrap', []) + libs)
    def bcl():
        must([LL + 'llvm-link'] + bcs + models + ['-o', f'{wd}/l.bc'])
        keep = ','.join(entries)
        nm = must([LL + 'llvm-nm', f'{wd}/l.bc'])
        ov = [l.split()[-1] for l in nm.splitlines() if 'sxo$' in l]
        must([LL + 'opt', '-passes=internalize,globaldce', '-internalize-public-api-list=' + ','.join([keep] + ov), f'{wd}/l.bc', '-o', f'{wd}/m.bc'])
    with ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(lnk), ex.submit(bcl)]:
            f.result()
    return f'{wd}/m.bc', f'{wd}/replay', srcs

ASAN = 'detect_leaks=0:abort_on_error=0:exitcode=76:allocator_may_return_null=1:detect_odr_violation=0:alloc_dealloc_mismatch=1:max_malloc_fill_size=1048576:malloc_fill_byte='

def native(binary, entry, path, wd, timeout=20, fill=190):
    """runs one assignment against the compiled code; returns (outcome, text, observations)"""
    sd = tempfile.mkdtemp(prefix='scratch', dir=wd)
    obsf = sd + '.obs'
    env = dict(os.environ, ASAN_OPTIONS=ASAN + str(fill), UBSAN_OPTIONS='halt_on_error=1:exitcode=76', LC_ALL='C', HOME=sd, TMPDIR=sd)
    try:
        p = subprocess.Popen([binary, entry, path, obsf, sd], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, start_new_session=True, cwd=sd)
        try:
            _, er = p.communicate(timeout=timeout)
            rc = p.returncode
            er = er.decode(errors='replace')
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.communicate()
            return 'hang', f'still running after {timeout} s', []
        obs = []
        if os.path.exists(obsf):
            for l in open(obsf):
                a = l.rstrip('\n').split(' ')
                obs.append([a[0], a[1] if len(a) > 1 else ''])
        if rc == 0: return 'ok', '', obs
        if rc == 77: return 'fail', '\n'.join(l for l in er.splitlines() if 'SXFAIL' in l)[:500], obs
        if rc == 96: return 'assume', er[-300:], obs
        if rc == 97: return 'desync', er[-300:], obs
        if rc == 98: return 'unsupported', er[-300:], obs
        m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*)', er)
        return 'crash', (m.group(1) if m else f'exit status {rc} {er[-300:]}'), obs
    finally:
        shutil.rmtree(sd, ignore_errors=True)
        if os.path.exists(obsf): os.unlink(obsf)

def write_replay(path, prop, entry, rec, bounds, preempt):
    with open(path, 'w') as f:
        f.write(f"# property {prop} entry {entry}: {rec['kind']}: {rec['msg']}\n".replace('\r', ' '))
        for k, v in bounds.items(): f.write(f'A {k} {v}\n')
        f.write(f'A preempt {preempt}\n')
        for n, h in rec['inputs']: f.write(f"I {n} {h}\n")
        for i, o in rec.get('md5', []): f.write(f"M {i or '-'} {o}\n")

def load_known():
    p = HERE + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else []

def main():
    if sys.argv[1] == '--setup':
        setup(); print('setup done'); return 0
    prop = sys.argv[1]
    import props
    cfg = props.PROPS[prop]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier not in ('quick', 'thorough'): tier = 'quick'
    only = None; rep = None; verbose = False
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == '--thorough': tier = 'thorough'
        elif x == '--quick': tier = 'quick'
        elif x == '--only': only = a.pop(0)
        elif x == '--replay': rep = os.path.abspath(a.pop(0))
        elif x == '-v': verbose = True
    t0 = time.time()
    wd = os.path.join(B, 'run', prop); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    rdir = os.path.join(B, 'replay'); os.makedirs(rdir, exist_ok=True)
    try:
        bc, nat, srcs = build(cfg, prop, wd)
    except BuildError as e:
        print('CHECK-ERROR: build failed\n' + str(e)); return 2
    if rep:
        ent = re.search(r'entry (\S+):', open(rep).readline()).group(1)
        r = native(nat, ent, rep, wd); print(r[0], r[1]); return 1 if r[0] in ('fail', 'crash', 'hang') else 0
    tb = time.time() - t0
    tot = dict(ok=0, infeasible=0, error=0, unsup=0, limit=0, ins=0, asserts=0, decided=0, forks=0, merges=0, unknown_branches=0, queries=0, sat=0, unsat=0, unknown=0, cached=0, solver_s=0.0)
    smax = 0.0; fns = set(); validated = 0; samples = []; problems = []; incomplete = []; violations = []; known_hit = []; ent_ev = []
    known = [k for k in load_known() if k.get('property') == prop and k.get('status') == 'known']
    deadline = t0 + (780 if tier == 'quick' else cfg.get('thorough_limit', 7200))
    mats = [e for e in cfg['entries'] if (not only or e['name'] == only) and (tier == 'thorough' or not e.get('thorough_only'))]
    for ei, e in enumerate(mats):
        bounds = dict(e.get('quick', {}))
        if tier == 'thorough': bounds.update(e.get('thorough', {}))
        preempt = bounds.pop('preempt', 2)
        maxins = bounds.pop('max_ins', 30000000)
        left = max(20.0, (deadline - time.time()) / (len(mats) - ei) * (1 if ei == len(mats) - 1 else 1.5))
        out = f"{wd}/{e['name']}.{ei}"; os.makedirs(out)
        cmd = [B + '/sxe', '--entry', 'sxh_' + e['name'], '--out', out, '--time', f'{min(left, deadline - time.time() + 20):.0f}', '--workers', str(NCPU), '--seed', str(seed), '--preempt', str(preempt), '--max-ins', str(maxins), '--samples', '6' if tier == 'quick' else '40', '--grace', '20', '--rlimit', str(e.get('rlimit', 0) or 60000000)]
        for k, v in bounds.items(): cmd += ['--arg', f'{k}={v}']
        te = time.time()
        p = run(cmd + [bc])
        if os.environ.get('SXFORK'): print(p.stdout[-9000:])
        if p.returncode or not os.path.exists(out + '/main.out'):
            problems.append(f"{e['name']}: executor failed: {p.stdout[-500:]}"); continue
        recs, oks, reach, timed = [], [], {}, False; esum = {}
        for f in glob.glob(out + '/*.out'):
            for l in open(f, errors='replace'):
                tag, body = l[0], l[2:].rstrip('\n')
                if tag == 'P': recs.append(json.loads(body))
                elif tag == 'K': oks.append(json.loads(body))
                elif tag == 'F': fns.add(body)
                elif tag == 'R':
                    m = re.match(r'"(.*)" (\d+)$', body); reach[m.group(1)] = reach.get(m.group(1), 0) + int(m.group(2))
                elif tag == 'U': incomplete.append(f"{e['name']}: {body}")
                elif tag == 'S':
                    s = json.loads(body)
                    for k in tot:
                        tot[k] += s[k]; esum[k] = esum.get(k, 0) + s[k]
                    smax = max(smax, s['solver_max_s'])
                    if s['timeout'] or s['left']: timed = True
        if timed and not recs: incomplete.append(f"{e['name']}: exploration stopped at its time limit")
        if esum.get('unknown_branches'): incomplete.append(f"{e['name']}: {esum['unknown_branches']} branches left undecided by the solver")
        # ---- candidates: replay against the compiled code
        seen = {}
        for r in recs:
            if r['kind'] == 'unsupported':
                incomplete.append(f"{e['name']}: outside the executor: {r['msg'][:160]} at {r.get('where','')[:200]}")
        cand = [r for r in recs if r['kind'] in ('error', 'limit')]
        # what happens natively on inputs of paths the executor could not finish
        cand += [dict(r, kind='unfinished') for r in recs if r['kind'] == 'unsupported']
        for r in cand:
            key = (r['kind'], r['msg'])
            if seen.get(key) == 'done': continue
            k = hashlib.md5(json.dumps([e['name'], r['msg'], r['inputs']]).encode()).hexdigest()[:10]
            rp = f'{rdir}/{prop}-{e["name"]}-{k}.txt'
            write_replay(rp, prop, e['name'], r, dict(bounds), preempt)
            res = None
            for fill in (190, 0, 255):
                res = native(nat, e['name'], rp, wd, fill=fill, timeout=cfg.get('hang_s', 20))
                if res[0] in ('fail', 'crash', 'hang'): break
            if verbose: print('candidate', r['kind'], r['msg'], '->', res[0], res[1], '\n   inputs', r['inputs'], '\n   where', r.get('where'), '\n  ', rp)
            if r['kind'] == 'limit' and res[0] != 'hang' and res[0] not in ('fail', 'crash'):
                seen[key] = seen.get(key, 'unconfirmed-limit'); continue
            if res[0] in ('fail', 'crash', 'hang'):
                seen[key] = 'done'
                kf = [q for q in known if q['entry'] == e['name'] and q['match'] in r['msg']]
                if kf:
                    known_hit.append(kf[0]['text']); continue
                violations.append(dict(entry=e['name'], msg=r['msg'], native=f'{res[0]}: {res[1]}', replay=rp, inputs=r['inputs'][:40], where=r.get('where', '')))
            elif r['kind'] == 'error':
                seen[key] = seen.get(key, 'unconfirmed') + ' ' + res[0] + ' ' + res[1]
            if time.time() > deadline + 60: break
        for key, v in seen.items():
            if v.startswith('unconfirmed-limit'): incomplete.append(f"{e['name']}: path longer than {maxins} instructions: {key[1]}")
            elif v != 'done' and key[0] == 'error': problems.append(f"{e['name']}: counterexample did not reproduce natively: {key[1]} ({v})")
        # ---- validation of the encoding: replay completed paths natively and compare what they observe
        lim = 40 if tier == 'quick' else 240
        oks = oks[:lim]
        def val(i_r):
            i, r = i_r
            rp = f"{out}/ok{i}.txt"; write_replay(rp, prop, e['name'], r, dict(bounds), preempt)
            return r, rp, native(nat, e['name'], rp, wd)
        if not violations:
            with ThreadPoolExecutor(NCPU) as ex:
                for r, rp, res in ex.map(val, list(enumerate(oks))):
                    if res[0] in ('crash', 'hang'): # once more, to rule out an overloaded machine
                        res = native(nat, e['name'], rp, wd, timeout=60)
                    if res[0] != 'ok':
                        k = f'{rdir}/{prop}-{e["name"]}-ok{validated}.txt'; shutil.copy(rp, k)
                        if res[0] in ('crash', 'hang'):
                            violations.append(dict(entry=e['name'], msg='compiled code ' + res[0], native=res[1], replay=k, inputs=r['inputs'][:40], where=''))
                        else: problems.append(f"{e['name']}: a completed path behaves differently natively: {res[0]} {res[1]} ({k})")
                    elif [x for x in res[2]] != r['obs']:
                        k = f'{rdir}/{prop}-{e["name"]}-diff{validated}.txt'; shutil.copy(rp, k)
                        problems.append(f"{e['name']}: observations differ between executor and compiled code ({k}): {r['obs'][:8]} vs {res[2][:8]}")
                    else: validated += 1
        for lab in e.get('reach', ['done']):
            if not reach.get(lab) and not violations: problems.append(f"{e['name']}: nothing reached '{lab}' (vacuous)")
        if oks: samples.append(dict(entry=e['name'], inputs=oks[0]['inputs'][:12], observed=oks[0]['obs'][:6]))
        ent_ev.append(dict(entry=e['name'], bounds=dict(bounds, **({'preemptions': preempt} if cfg.get('threads') else {})), paths_completed=esum.get('ok', 0), paths_infeasible=esum.get('infeasible', 0), assertions_evaluated=esum.get('asserts', 0), decided_by_solver=esum.get('decided', 0), reached=reach, wall_s=round(time.time() - te, 2)))
        if verbose: print(json.dumps(ent_ev[-1]))
        if violations and tier == 'quick': break
    repof = sorted(f for f in fns if re.search(r'pwned::|markov|Markov|URI|uri::|std::__detail::', f) or True)
    mine = sorted(f[:160] for f in fns if re.search(r'pwned|be2le|markov|URI|_main\(|TermIO|TestSet', f) and not f.startswith('std::') and not f.startswith('sxh_'))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=tot['ok'] + tot['infeasible'] + tot['error'] + tot['limit'] + tot['unsup'], transitions=tot['ins'], traces_validated_against_impl=validated,
                            samples=samples[:6], exhaustive=not incomplete and not problems and not violations,
                            explanation='states: symbolic paths explored, each standing for every input value satisfying its path condition; transitions: instructions of the real code executed symbolically',
                            queries=tot['queries'], queries_sat=tot['sat'], queries_unsat=tot['unsat'], queries_unknown=tot['unknown'], queries_answered_from_cache=tot['cached'], solver_seconds=round(tot['solver_s'], 2), longest_query_seconds=round(smax, 3),
                            assertions_evaluated=tot['asserts'], assertions_decided_by_solver=tot['decided'], forks=tot['forks'], merged_branches=tot['merges'], functions_encoded=mine, functions_executed_total=len(fns), sources=[os.path.relpath(s, REPO) for s in srcs],
                            bounds=cfg.get('bounds', ''), outside=cfg.get('outside', ''), entries=ent_ev, incomplete=incomplete[:20], build_s=round(tb, 1)),
              assumptions=cfg.get('assumptions', []) + props.COMMON, wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(f'{HERE}/evidence/{prop}.json', 'w'), indent=1)
    for k in sorted(set(known_hit)): print(f'KNOWN-FINDING: property={prop} {k}')
    for s in sorted(set(incomplete))[:12]: print('INCOMPLETE:', s[:400])
    for s in sorted(set(problems))[:12]: print('CHECK-PROBLEM:', s[:600])
    for v in violations[:6]:
        print(f"violation in {v['entry']}: {v['msg']} | compiled code: {v['native']}\n   inputs {v['inputs']}\n   at {v['where'][:400]}")
        print(f"VIOLATION property={prop} replay={v['replay']}")
    print(f"{prop} {tier}: {tot['ok']} paths completed, {tot['asserts']} assertions, {tot['queries']} queries ({tot['solver_s']:.1f} s), {validated} paths validated natively, {time.time() - t0:.1f} s")
    if not os.environ.get('SX_KEEP'): shutil.rmtree(wd, ignore_errors=True)
    if violations: return 1
    if problems: return 2
    return 0

if __name__ == '__main__':
    sys.exit(main())
