#!/usr/bin/env python3
"""Solver-based checks of night-shift/Srl.   run.py <PROPERTY> [--tier quick|thorough]

Every run compiles /repo's current sources to LLVM bitcode, links them with a harness and the guest
runtime, and lets the symbolic executor (engine/) explore ALL paths of the harness within the bounds of
each job; assertions, memory safety and termination are decided by the solver.  Counterexamples are
replayed natively (same sources, compiled with AddressSanitizer) and only reported when they reproduce."""
import sys, os, subprocess, json, time, tempfile, shutil, glob, hashlib, threading, re, random
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VF_REPO', '/repo')
LL = '/usr/lib/llvm-18/bin/'
NCPU = min(8, os.cpu_count() or 1)
BC = ['-std=c++17', '-DNDEBUG', '-DVF_GUEST', '-w', '-O1', '-fno-pic', '-fno-vectorize', '-fno-slp-vectorize', '-emit-llvm', '-c']
NAT = ['-std=c++17', '-DNDEBUG', '-DVF_NATIVE', '-w', '-O1', '-gline-tables-only', '-fsanitize=address', '-fno-omit-frame-pointer', '-c']
INC = ['-I' + REPO, '-I' + REPO + '/include', '-I' + V + '/rt', '-I' + V + '/harness']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:max_allocation_size_mb=64:abort_on_error=0:allocator_may_return_null=1:exitcode=99:max_malloc_fill_size=1000000:malloc_fill_byte=190', LC_ALL='C')

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

class BuildError(Exception): pass

def compile_all(work, harnesses, native=True):
    """compile /repo's library and the harnesses to bitcode and natively"""
    libs = sorted(glob.glob(REPO + '/src/lib/*.cpp')) + sorted(glob.glob(REPO + '/src/lib/*/*.cpp'))
    cs = sorted(glob.glob(REPO + '/src/lib/*.c')) + sorted(glob.glob(REPO + '/src/lib/*/*.c'))
    jobs = []
    objs = {'bc': [], 'o': []}
    def add(src, cc, flags, ext, tag):
        out = os.path.join(work, re.sub(r'[^A-Za-z0-9]', '_', src) + '.' + ext)
        jobs.append([LL + cc] + [f for f in flags if cc == 'clang++' or not f.startswith('-std=')] + INC + [src, '-o', out])
        if tag: objs[tag].append(out)
        return out
    hb = {}; hn = {}
    for h in harnesses:
        src = V + '/harness/' + h
        hb[h] = add(src, 'clang++', BC, 'bc', None)
        if native: hn[h] = add(src, 'clang++', NAT, 'o', None)
    for s in libs: add(s, 'clang++', BC, 'bc', 'bc'); native and add(s, 'clang++', NAT, 'o', 'o')
    for s in cs: add(s, 'clang', BC, 'bc', 'bc'); native and add(s, 'clang', NAT, 'o', 'o')
    def go(c):
        r = sh(c)
        if r.returncode: raise BuildError(' '.join(c[-3:]) + '\n' + r.stdout[:3000])
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(go, jobs))
    res = {}
    def link(h):
        b = os.path.join(work, h + '.all.bc'); n = os.path.join(work, h + '.native')
        go([LL + 'llvm-link'] + objs['bc'] + [V + '/build/rt.bc', hb[h], '-o', b])
        if native: go([LL + 'clang++', '-fsanitize=address'] + objs['o'] + [V + '/build/native.o', hn[h], '-o', n])
        res[h] = (b, n)
    with ThreadPoolExecutor(NCPU) as ex: list(ex.map(link, harnesses))
    return res

def run_native(exe, hexin, params, work, timeout=25):
    fn = tempfile.mktemp(dir=work, suffix='.in')
    with open(fn, 'w') as f: f.write(hexin + '\n' + ' '.join('%s=%d' % kv for kv in params.items()) + '\n')
    try:
        r = subprocess.run([exe, fn], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=timeout, text=True, errors='replace')
        return r.returncode, r.stdout[-4000:]
    except subprocess.TimeoutExpired:
        return -999, 'TIMEOUT after %d s' % timeout

def known_findings():
    out = []
    p = V + '/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'): out.append(json.loads(l))
    return out

def match_known(k, prop, job, v, rout):
    if k.get('property') != prop: return False
    m = k['match']
    if 'harness' in m and m['harness'] != job['h']: return False
    if any(job['p'].get(a) != b for a, b in m.get('params', {}).items()): return False
    if 'msg' in m and not re.search(m['msg'], v['msg']): return False
    if 'where' in m and not re.search(m['where'], v['where']): return False
    if 'input' in m and not re.search(m['input'], v['input']): return False
    if 'replay' in m and not re.search(m['replay'], rout): return False
    return True

def main():
    prop = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    verbose = '-v' in sys.argv
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.path.insert(0, V + '/checks')
    import defs
    C = defs.CHECKS[prop]
    jobs = [dict(j) for j in (C['quick'] if tier == 'quick' else C.get('thorough') or C['quick'])]
    if only: jobs = [j for i, j in enumerate(jobs) if re.search(only, '%d %s %s' % (i, j['h'], j['p']))]
    budget = C.get('budget', {}).get(tier, 240 if tier == 'quick' else 780)
    notes = []
    r = sh(['bash', V + '/setup.sh'])
    if r.returncode: print('engine build failed\n' + r.stdout); return finish_error(prop, tier, seed, t0, C, 'engine build failed')
    work = tempfile.mkdtemp(prefix='vf_' + prop + '_')
    try:
        return go(prop, tier, seed, t0, C, jobs, budget, notes, work, verbose)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def finish_error(prop, tier, seed, t0, C, why):
    ev = dict(property=prop, tier=tier, seed=seed, level=C['level'], wall_s=round(time.time() - t0, 2), violations=0,
              coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], explanation='no verdict: ' + why))
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    print('NOTE: no verdict: ' + why)
    return 2   # neither held nor violated: nothing was decided

def go(prop, tier, seed, t0, C, jobs, budget, notes, work, verbose):
    hs = sorted(set(j['h'] for j in jobs))
    try: built = compile_all(work, hs)
    except BuildError as e:
        print(str(e)[:3000]); return finish_error(prop, tier, seed, t0, C, 'the current tree does not compile with the harness')
    tb = time.time() - t0
    tokens = os.path.join(work, 'tokens'); open(tokens, 'w').write('\0' * 4096)
    deadline = t0 + budget
    results = []
    def run_job(ix):
        j = jobs[ix]
        od = os.path.join(work, 'out%d' % ix); os.makedirs(od)
        left = max(5, min(j.get('time', 10**6), deadline - time.time()))
        cmd = [V + '/build/vse', built[j['h']][0], '--out', od, '--tokens', tokens, '--workers', str(NCPU), '--time', '%.1f' % left,
               '--wit', str(j.get('wit', 25)), '--steps', str(j.get('steps', 3000000)), '--max-viol', '6', '--mem', '5000', '--z3-timeout', str(j.get('zt', 60000))]
        for k, v in j['p'].items(): cmd += ['-p', '%s=%d' % (k, v)]
        s = time.time()
        r = sh(cmd, env=dict(ENV, VF_SEED=str(seed)))
        agg = dict(job=j, rc=r.returncode, wall=time.time() - s, paths=0, assumed=0, inconclusive=0, insts=0, forks=0, concretized=0, queries=0, sat=0, unsat=0, unknown=0, cacheHits=0, domainDecisions=0, audits=0, solverTime=0.0, timedOut=False, leftover=0,
                   incReasons={}, checksConst={}, checksSolver={}, reached=set(), functions={}, viol=[], wit=[], err=r.stdout[-500:])
        for f in glob.glob(od + '/r.*.json'):
            try: d = json.load(open(f))
            except Exception as e: agg['err'] += ' bad result file'; agg['inconclusive'] += 1; continue
            for k in ('paths', 'assumed', 'inconclusive', 'insts', 'forks', 'concretized', 'queries', 'sat', 'unsat', 'unknown', 'cacheHits', 'domainDecisions', 'audits', 'solverTime', 'leftover'): agg[k] += d[k]
            agg['timedOut'] |= d['timedOut']
            for k in ('incReasons', 'checksConst', 'checksSolver'):
                for a, b in d[k].items(): agg[k][a] = agg[k].get(a, 0) + b
            agg['reached'] |= set(d['reached'])
            for n, c, calls in d['functions']:
                o = agg['functions'].get(n, (c, 0)); agg['functions'][n] = (c, o[1] + calls)
            agg['viol'] += d['viol']; agg['wit'] += d['wit']
        return agg
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i].get('w', 1))
    with ThreadPoolExecutor(NCPU) as ex: results = list(ex.map(run_job, order))
    te = time.time() - t0
    # ---- replay counterexamples against the real code
    kf = known_findings(); reported = []; knownhits = {}; unrepro = []
    tasks = []
    for a in results:
        seen = {}
        for v in a['viol']:
            k = (v['kind'], v['msg']); seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 4: tasks.append((a, v))
    def replay(t):
        a, v = t; j = a['job']
        rc, out = run_native(built[j['h']][1], v['input'], j['p'], work)
        return (a, v, rc, out)
    with ThreadPoolExecutor(NCPU) as ex: rep = list(ex.map(replay, tasks[:400]))
    os.makedirs(V + '/replays', exist_ok=True)
    done = set()
    for a, v, rc, out in rep:
        j = a['job']
        if rc in (0, 77): unrepro.append(dict(job=j['p'], h=j['h'], kind=v['kind'], msg=v['msg'], where=v['where'], input=v['input'])); continue
        hit = [k for k in kf if match_known(k, prop, j, v, out)]
        if hit:
            knownhits[hit[0]['id']] = hit[0]; continue
        key = (v['kind'], v['msg'], v['where'].split(' <- ')[0])
        if key in done: continue
        done.add(key)
        hsh = hashlib.sha1((v['input'] + v['msg'] + str(j['p'])).encode()).hexdigest()[:10]
        fn = V + '/replays/%s-%s.json' % (prop, hsh)
        json.dump(dict(property=prop, harness=j['h'], params=j['p'], kind=v['kind'], msg=v['msg'], where=v['where'], input=v['input'], inputs=v['names'], native_exit=rc, native_output=out[:2500]), open(fn, 'w'), indent=1)
        reported.append((fn, v, rc, out))
    # ---- validate sampled symbolic paths against the real code
    nval = 0; nmis = 0; missamples = []
    rnd = random.Random(seed)
    byh = {}
    for a in results:
        w = a['wit'][:]; rnd.shuffle(w)
        for x in w[:a['job'].get('wit', 25)]: byh.setdefault(a['job']['h'], []).append((a['job'], x))
    def batch(item):
        h, lst = item
        txt = ''.join('%s|%s\n' % (x['input'], ' '.join('%s=%d' % kv for kv in j['p'].items())) for j, x in lst)
        try: r = subprocess.run([built[h][1], '--batch'], input=txt, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', env=ENV, timeout=max(60, deadline - time.time() + 60))
        except subprocess.TimeoutExpired: return [], lst
        return [l for l in r.stdout.splitlines() if re.match(r'(OK|CHECK-FAILED|ASSUME-FAILED|UNCAUGHT|SIGNAL|EXIT)', l)], lst
    chunks = []
    for h, lst in byh.items():
        n = max(1, (len(lst) + NCPU - 1) // NCPU)
        for i in range(0, len(lst), n): chunks.append((h, lst[i:i + n]))
    with ThreadPoolExecutor(NCPU) as ex:
        for out, lst in ex.map(batch, chunks):
            for l, (j, x) in zip(out, lst):
                exp = ' '.join(['OK'] + x['obs'])
                if l.strip() == exp: nval += 1
                else:
                    nmis += 1
                    if len(missamples) < 5: missamples.append(dict(h=j['h'], p=j['p'], input=x['input'], engine=exp[:200], native=l[:200]))
    # ---- vacuity
    vac = []
    for a in results:
        miss = [l for l in a['job'].get('reach', []) if l not in a['reached']]
        if miss and not a['viol']: vac.append(dict(h=a['job']['h'], p=a['job']['p'], missing=miss, timedOut=a['timedOut']))
    # ---- evidence
    tot = {k: sum(a[k] for a in results) for k in ('paths', 'assumed', 'inconclusive', 'insts', 'forks', 'concretized', 'queries', 'sat', 'unsat', 'unknown', 'cacheHits', 'domainDecisions', 'audits', 'solverTime', 'leftover')}
    funcs = {}
    for a in results:
        for n, (c, calls) in a['functions'].items():
            funcs[n] = c
    srl = demangle([n for n in funcs if '3Srl' in n or n.startswith('fpconv')])
    merged = lambda k: {x: sum(a[k].get(x, 0) for a in results) for x in sorted(set(y for a in results for y in a[k]))}
    jl = [dict(harness=a['job']['h'], bounds=a['job']['p'], note=a['job'].get('note', ''), paths=a['paths'], assume_pruned=a['assumed'], queries=a['queries'], complete=not a['timedOut'] and a['leftover'] == 0 and a['inconclusive'] == 0 and a['rc'] == 0, wall_s=round(a['wall'], 2)) for a in results]
    samples = []
    for a in results:
        for x in a['wit'][:1]: samples.append(dict(harness=a['job']['h'], bounds=a['job']['p'], input_hex=x['input'][:400], observed=x['obs'][:12]))
    exhaustive = all(x['complete'] for x in jl)
    ev = dict(property=prop, tier=tier, seed=seed, level=C['level'], wall_s=round(time.time() - t0, 2), violations=len(reported),
        coverage=dict(states=tot['paths'], transitions=tot['insts'], traces_validated_against_impl=nval, samples=samples[:12] or ['none'],
            exhaustive=exhaustive, explanation='states = completed symbolic paths, each standing for every input that satisfies its path condition; transitions = IR instructions executed symbolically; exhaustive = every path within the stated bounds was finished',
            bounds=C['bounds'], jobs=jl, solver=dict(backend='z3 (QF_BV/QF_FPBV) + exact per-byte domains and path-sensitive intervals for range constraints', queries=tot['queries'], sat=tot['sat'], unsat=tot['unsat'], unknown=tot['unknown'], cache_hits=tot['cacheHits'], domain_decisions=tot['domainDecisions'], layer_verdicts_confirmed_by_z3=tot['audits'], solver_time_s=round(tot['solverTime'], 2)),
            forks=tot['forks'], assume_pruned=tot['assumed'], inconclusive_paths=tot['inconclusive'], unexplored_frontier=tot['leftover'], inconclusive_reasons=merged('incReasons'),
            assertions_by_solver=merged('checksSolver'), assertions_concrete=merged('checksConst'),
            functions_encoded=len(funcs), functions_encoded_srl=srl[:400], reached=sorted(set(l for a in results for l in a['reached'])),
            vacuity_failures=vac, engine_native_mismatches=nmis, mismatch_samples=missamples, unreproduced_counterexamples=unrepro[:10], known_findings=sorted(knownhits), build_s=round(tb, 2), engine_s=round(te - tb, 2)),
        assumptions=C.get('assumptions', []) + ['the engine, its models of libc/libstdc++ internals (rt/rt.cpp: allocation, exceptions, iconv, strtod) and z3 are trusted; sampled paths are cross-checked against the native build'])
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    print('%s %s: %d jobs, %d paths, %d insts, %d queries (%d unsat) %.1fs solver, %d native-validated, %d mismatches, inconclusive %d, unexplored %d, exhaustive=%s, wall %.1fs (build %.1f, engine %.1f)' % (
        prop, tier, len(jobs), tot['paths'], tot['insts'], tot['queries'], tot['unsat'], tot['solverTime'], nval, nmis, tot['inconclusive'], tot['leftover'], exhaustive, time.time() - t0, tb, te - tb))
    if verbose:
        for x in sorted(jl, key=lambda x: -x['wall_s']): print('   ', x)
    for x in merged('incReasons').items(): print('  inconclusive: %s x%d' % x)
    for x in vac: print('  NOTE vacuous: %s' % x)
    for x in missamples: print('  NOTE mismatch engine/native: %s' % x)
    for x in unrepro[:4]: print('  NOTE counterexample not reproduced natively: %s' % str({k: x[k] if k != 'where' else x[k][:200] for k in x})[:700])
    for a in results:
        if a['rc']: print('  NOTE engine rc %d: %s %s' % (a['rc'], a['job']['p'], a['err'][-300:]))
    for k in sorted(knownhits): print('KNOWN-FINDING: property=%s %s' % (prop, knownhits[k]['what']))
    for fn, v, rc, out in reported[:8]:
        print('  [%s] %s @ %s\n  input %s -> native exit %d: %s' % (v['kind'], v['msg'], v['where'][:300], v['input'][:200], rc, ' '.join(out.split())[:300]))
        print('VIOLATION property=%s replay=%s' % (prop, fn))
    sys.stdout.flush()
    return 1 if reported else 0

def demangle(names):
    if not names: return []
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return sorted(set(re.sub(r'\(.*', '', x)[:120] for x in r.stdout.splitlines()))

if __name__ == '__main__':
    sys.exit(main())
