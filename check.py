#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only job] : decide one property.
Exit 0: held on everything explored.  Exit 1: VIOLATION (replayed against the real code)."""
import os, sys, json, time, re, shutil
from concurrent.futures import ThreadPoolExecutor, as_completed
import vlib
from vlib import V, BUILD
import specs

def sanitize(s): return re.sub(r'[^A-Za-z0-9_.-]+', '_', s)[:60]

def confirmed(kind, rc, err):
    if rc == 'hang': return kind in ('nontermination', 'recursion', 'memory')
    if rc in (42, 43): return True
    if isinstance(rc, int) and rc < 0: return True
    if rc in (134, 136, 139): return True
    return False

def load_known():
    p = V + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else []

def known_match(prop, v, known):
    for k in known:
        if k.get('status') != 'open' or k['property'] != prop: continue
        m = k['match']
        if all(re.search(pat, v.get(f, '')) for f, pat in m.items()): return k
    return None

def main():
    t0 = time.time()
    a = sys.argv[1:]; prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    only = a[a.index('--only') + 1] if '--only' in a else None
    verbose = '-v' in a
    spec = specs.SPECS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    vlib.build_engine()
    lib = vlib.Lib()
    jobs = [j for j in spec['jobs'] if tier == 'thorough' or not j.get('thorough_only')]
    if only: jobs = [j for j in jobs if only in j['name']]
    hs = {h: specs.HARNESS[h] for h in {j['h'] for j in jobs}}
    bcs = {h: lib.link(h, vlib.harness_sources(hs[h], False)) for h in hs}
    exes = {}
    wd = os.path.join(BUILD, 'run', prop); shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    total = spec.get('budget', {}).get(tier, 240 if tier == 'quick' else 1500)
    def run(j):
        tm = j.get('time', 60) if tier == 'quick' else j.get('ttime', j.get('time', 60) * 6)
        left = total - (time.time() - t0)
        tm = max(5, min(tm, left))
        d = os.path.join(wd, sanitize(j['name'])); os.makedirs(d, exist_ok=True)
        params = dict(j.get('params', {}))
        if tier == 'thorough': params.update(j.get('tparams', {}))
        opts = ['--samples', str(j.get('samples', 3)), '--mem', str(j.get('mem', 3400))] + list(j.get('opts', []))
        r, txt = vlib.run_psym(bcs[j['h']], j.get('case', 0), params, tm, d + '/out.json', d, opts)
        return j, r, txt, params
    order = sorted(jobs, key=lambda j: -j.get('time', 60))
    results = []
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        for f in as_completed([ex.submit(run, j) for j in order]):
            j, r, txt, params = f.result(); results.append((j, r, txt, params))
            if verbose or only:
                s = 'FAILED ' + str(txt)[-500:] if r is None else 'paths=%d killed=%d err=%d forks=%d steps=%d asserts=%d q=%d z3=%d solver=%.1fs wall=%.1fs stop=%s exh=%s unsup=%s inc=%s reached=%s viol=%s' % (r['paths'], r['killed'], r['errors'], r['forks'], r['steps'], r['asserts'], r['queries'], r['z3calls'], r['solver_s'], r['wall_s'], r['stop'], r['exhausted'], r['unsup'], r['inconclusive'], r['reached'], [(v['kind'], v['msg'], v['func']) for v in r['violations']])
                print('  job %s: %s' % (j['name'], s)); sys.stdout.flush()
    results.sort(key=lambda x: x[0]['name'])
    known = load_known()
    viols = []; unconf = []; knownhits = {}; traces = 0; mism = []; samples = []
    def exe(h):
        if h not in exes: exes[h] = lib.link(h, vlib.harness_sources(hs[h], True), native=True)
        return exes[h]
    failed = [j['name'] for j, r, t, p in results if r is None]
    seenall = set()
    for j, r, txt, params in results:
        if r is None: continue
        seen = seenall
        for v in r['violations']:
            key = (v['kind'], v['msg'], v['func'])
            if key in seenall: continue
            rp = v['file']
            rc, out, err = vlib.run_native(exe(j['h']), rp, 20)
            if not confirmed(v['kind'], rc, err):
                unconf.append({'job': j['name'], 'kind': v['kind'], 'msg': v['msg'], 'func': v['func'], 'stack': v['stack'], 'native_rc': str(rc), 'native_err': err[-300:], 'replay': rp}); continue
            v = dict(v, job=j['name'], native=(err or '')[-1500:])
            k = known_match(prop, v, known)
            if k: knownhits[k['id']] = k; continue
            if key in seen: continue
            seen.add(key); viols.append(v)
        for s in r['samples'][:j.get('samples', 3)]:
            if not os.path.exists(s): continue
            rc, out, err = vlib.run_native(exe(j['h']), s, 60)
            want = vlib.read_logs(s); got = [l for l in out.split('\n') if l.startswith('log ')]
            if rc == 0 and want == got: traces += 1
            elif j.get('nativeok', True): mism.append({'job': j['name'], 'replay': s, 'rc': str(rc), 'err': err[-300:], 'want': want[:5], 'got': got[:5]})
            if len(samples) < 12:
                ls = open(s).read().split('\n')
                samples.append({'job': j['name'], 'bound': j.get('bound', ''), 'model': [l for l in ls if not l.startswith('log ')][:14], 'logged': want[:10]})
    # evidence
    ok = [(j, r) for j, r, t, p in results if r is not None]
    fn = {}
    for j, r in ok:
        for n, (c, cov, tot) in r['functions'].items():
            o = fn.get(n, [0, 0, 0]); fn[n] = [o[0] + c, max(o[1], cov), max(o[2], tot)]
    S = lambda k: sum(r[k] for j, r in ok)
    cov = {'states': S('paths') + S('killed') + S('errors'), 'transitions': S('steps'), 'traces_validated_against_impl': traces, 'samples': samples or [{'note': 'no sample'}],
           'paths_completed': S('paths'), 'assertions_checked': S('asserts'), 'memory_checks': S('memchecks'), 'queries_discharged': S('queries'), 'z3_calls': S('z3calls'), 'sat': S('sat'), 'unsat': S('unsat'), 'unknown': S('unknown'), 'solver_s': round(S('solver_s'), 2),
           'functions_encoded': {n: {'calls': c[0], 'blocks_covered': c[1], 'blocks': c[2]} for n, c in sorted(fn.items())},
           'bounds': spec.get('bounds', ''), 'exhaustive': all(r['exhausted'] for j, r in ok) and not failed,
           'jobs': [{'name': j['name'], 'bound': j.get('bound', ''), 'params': p, 'stop': r['stop'], 'exhausted': r['exhausted'], 'paths': r['paths'], 'infeasible_or_assumed_away': r['killed'], 'steps': r['steps'], 'queries': r['queries'], 'solver_s': r['solver_s'], 'wall_s': r['wall_s'], 'pending': r['pending'], 'unsupported': r['unsup'], 'inconclusive': r['inconclusive'], 'reached': r['reached']} for j, r, t, p in results if r is not None],
           'failed_jobs': failed, 'unconfirmed_counterexamples': unconf, 'trace_mismatches': mism}
    reached = {}
    for j, r in ok:
        for l, c in r['reached'].items(): reached[l] = reached.get(l, 0) + c
    miss = [l for l in spec.get('must_reach', []) if l not in reached]
    cov['vacuity_witnesses'] = {'required': spec.get('must_reach', []), 'missing': miss}
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'model_checking'), 'coverage': cov, 'assumptions': spec.get('assumptions', []) + specs.COMMON_ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    os.makedirs(V + '/evidence', exist_ok=True)
    if not only: json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    print('%s %s: %d jobs (%d exhausted), %d paths, %d instructions, %d assertions, %d queries (%d to z3), solver %.1fs, %d traces replayed natively, wall %.1fs' % (prop, tier, len(ok), sum(r['exhausted'] for j, r in ok), S('paths'), S('steps'), S('asserts'), S('queries'), S('z3calls'), S('solver_s'), traces, time.time() - t0))
    for n in failed: print('NOTE: job %s gave no result' % n)
    for u in unconf: print('NOTE: unconfirmed counterexample (not reported): %s' % json.dumps(u)[:600])
    for m in mism: print('NOTE: native replay of a passing path differs: %s' % json.dumps(m)[:600])
    if miss: print('NOTE: witnesses not reached: %s' % miss)
    for k in knownhits.values(): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    rd = BUILD + '/replays/' + prop
    if viols:
        os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(viols):
            dst = '%s/%s-%d.replay' % (rd, sanitize(v['job']), i); shutil.copy(v['file'], dst)
            open(dst + '.txt', 'w').write(json.dumps(v, indent=1))
            print('  violated: [%s] %s in %s (job %s)\n    stack: %s\n    native: %s' % (v['kind'], v['msg'], v['func'], v['job'], v['stack'], v['native'].strip().split('\n')[-1][:300] if v['native'] else ''))
        print('VIOLATION property=%s replay=%s' % (prop, rd + '/%s-0.replay' % sanitize(viols[0]['job'])))
        sys.stdout.flush(); os._exit(1)
    sys.stdout.flush(); os._exit(0)
try: main()
except vlib.BuildError as e:
    print('BUILD ERROR: %s' % e); sys.exit(2)
