#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] | --replay FILE | --native-only ...

Decides one property by symbolic execution of the real code:
 1. compiles harness/<PROPERTY>*.cpp (which include /repo's headers as they are now) to LLVM bitcode, and to a native
    AddressSanitizer program;
 2. runs every harness in the symbolic engine (build/symex; SMT solver decides every check on every path);
 3. replays every counterexample on the native program - only a confirmed one is reported as a VIOLATION - and replays
    the recorded model of explored paths to validate the encoding against the real code;
 4. writes evidence/<PROPERTY>.json.
"""
import sys, os, re, json, glob, time, subprocess, tempfile, shutil, threading, itertools
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
INC = ['-I' + REPO + '/src', '-I' + REPO + '/src/ml', '-I' + REPO + '/src/lang/statements', '-I/opt/vp/compat', '-include', '/opt/vp/compat/msvc_compat.hpp']
BC = ['clang++', '-O1', '-emit-llvm', '-c', '-std=c++17', '-w', '-fno-builtin-printf','-fno-vectorize', '-fno-slp-vectorize', '-ffp-contract=off', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DSX_ENGINE', '-I' + V + '/engine/stubs', '-I' + V + '/harness'] + INC
NAT = ['clang++', '-O0', '-fsanitize=address', '-std=c++17', '-w', '-ffp-contract=off', '-I' + V + '/harness'] + INC
MAXTIME = {'quick': 780, 'thorough': 3 * 3600}

def log(*a): print(*a, flush=True)

def build_engine():
    t = time.time()
    p = subprocess.run(['make', '-s', '-C', V + '/engine', '-j8'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or not os.path.exists(V + '/build/symex'):
        log(p.stdout); raise SystemExit('engine build failed')
    return time.time() - t

def harnesses(src, tier):
    r = []
    for m in re.finditer(r'^SX_HARNESS\((\w+)\)[^\n]*?(?://\s*opts:(.*))?$', open(src).read(), re.M):
        o = dict(x.split('=', 1) for x in (m.group(2) or '').split() if '=' in x)
        if o.get('tier') == 'thorough' and tier != 'thorough': continue
        if o.get('tier') == 'quick' and tier != 'quick': continue
        r.append((m.group(1), o))
    return r

def known_findings(prop):
    r = {}
    p = V + '/known_findings.json'
    if os.path.exists(p):
        for k in json.load(open(p)).get('findings', []):
            if k['property'] == prop: r[k['id']] = k
    return r

class Native:
    """Runs records on the native program."""
    def __init__(self, exe, work, tier): self.exe, self.work, self.tier, self.n = exe, work, tier, itertools.count()
    def _batch(self, recs, tag, secs):
        fi, fo = f'{self.work}/in{tag}', f'{self.work}/out{tag}'
        with open(fi, 'w') as f:
            for i, r in recs:
                f.write(f'R {i} {r["h"]} {len(r["in"])}\n')
                for n, v in r['in']: f.write(f'{v} {n}\n')
        subprocess.run([self.exe, fi, fo, '1' if self.tier == 'thorough' else '0'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, ASAN_OPTIONS='hard_rss_limit_mb=4000', SX_ALARM=str(secs)))
        res, cur = {}, None
        if os.path.exists(fo):
            for l in open(fo, errors='replace').read().split('\n'):
                if l.startswith('R '): cur = {'status': 'lost', 'fails': [], 'known': [], 'obs': [], 'active': []}; res[int(l[2:])] = cur
                elif cur is None: continue
                elif l.startswith('E '): cur['status'] = l[2:]
                elif l.startswith('K '): a = l[2:].split(' ', 1); cur['active'].append((a[0], a[1] if len(a) > 1 else ''))
                elif l == 'N':
                    if cur['active']: cur['active'].pop()
                elif l.startswith('F '):
                    k = [i for i, p in cur['active'] if l[2:].startswith(p)]
                    (cur['known'] if k else cur['fails']).append((k[-1], l[2:]) if k else l[2:])
                elif l.startswith('O '):
                    _, kind, val, name = l.split(' ', 3); cur['obs'].append((name, kind, val))
        return res
    def run(self, recs, secs=60):
        if not recs: return []
        n = next(self.n)
        idx = list(enumerate(recs)); k = min(8, max(1, len(idx) // 4))
        out = {}
        with ThreadPoolExecutor(8) as ex:
            for r in ex.map(lambda j: self._batch(idx[j::k], f'{n}_{j}', secs), range(k)): out.update(r)
        return [out.get(i, {'status': 'lost', 'fails': [], 'known': [], 'obs': [], 'active': []}) for i in range(len(recs))]

def crashed(nr): return nr['status'].startswith(('crash', 'throw'))
def crash_known(nr):
    for i, p in nr['active']:
        if 'crash:'.startswith(p[:6]): return i
    return None

def confirm(rec, nr):
    """does the native run show the violation the engine found?"""
    if rec['label'].startswith('crash:'):
        return (crashed(nr) and not nr['status'].startswith('crash signal 9')) or bool(nr['fails'] and rec['t'] == 'viol')
    if rec['t'] == 'viol': return rec['label'] in nr['fails'] or bool(nr['fails']) or crashed(nr)
    return any(l == rec['label'] for _, l in nr['known']) or crashed(nr)

def obs_norm(o):
    name, kind, val = o
    if kind == 's': return (name, 's', 'x' + ''.join('%02x' % ord(c) for c in val))
    return (name, kind, str(val))
def obs_same(a, b):
    if len(a) != len(b): return False
    for x, y in zip(a, b):
        if x == y: continue
        if x[:2] != y[:2]: return False
        if x[1] == 'f': # NaN payloads
            u, v = int(x[2]), int(y[2])
            if (u & 0x7fffffff) > 0x7f800000 and (v & 0x7fffffff) > 0x7f800000: continue
        return False
    return True

def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay': return replay(a[1])
    prop = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); verbose = '-v' in a
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    only = a[a.index('--only') + 1].split(',') if '--only' in a else None
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = tempfile.mkdtemp(prefix='sxcheck')
    try: return check(prop, tier, only, verbose, t0, seed, work)
    finally: shutil.rmtree(work, ignore_errors=True)

def compile_all(srcs, work):
    logs = []
    def run(cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: logs.append(' '.join(cmd) + '\n' + p.stdout[-4000:])
        return p.returncode
    jobs = []
    for s in srcs:
        b = work + '/' + os.path.basename(s)[:-4]
        jobs.append(BC + [s, '-o', b + '.bc']); jobs.append(NAT + [s, '-o', b + '.nat', '-ltbb'])
    with ThreadPoolExecutor(8) as ex:
        eng = ex.submit(build_engine); rs = list(ex.map(run, jobs)); et = eng.result()
    if any(rs):
        for l in logs: log(l)
        raise SystemExit('compilation of the harness against the working tree failed')
    return et

def check(prop, tier, only, verbose, t0, seed, work):
    srcs = sorted(glob.glob(f'{V}/harness/{prop}*.cpp'))
    if not srcs: raise SystemExit('no harness for ' + prop)
    if only: srcs = [s for s in srcs if any(h in only for h, _ in harnesses(s, tier))]
    et = compile_all(srcs, work); tc = time.time() - t0
    if verbose: log(f'compiled in {tc:.1f}s (engine {et:.1f}s)')
    jobs = []
    for s in srcs:
        for h, o in harnesses(s, tier):
            if only and h not in only: continue
            jobs.append((s, h, o))
    jobs.sort(key=lambda j: -float(j[2].get('w', 1)))
    total = MAXTIME[tier] - tc - 60
    def symex(j):
        s, h, o = j; b = work + '/' + os.path.basename(s)[:-4]
        tl = float(o.get('time', 120)) * (1 if tier == 'quick' else 10); tl = min(tl, max(20, total - (time.time() - t0 - tc)))
        cmd = [V + '/build/symex', '--out', f'{b}.{h}.out', '--summary', f'{b}.{h}.sum', '--time', str(tl), '--jobs', o.get('jobs', '3'), '--tier', '1' if tier == 'thorough' else '0', '--records', '60' if tier == 'quick' else '200']
        for k in ('steps', 'rlimit', 'check-rlimit'):
            if k in o: cmd += ['--' + k, o[k]]
        env = dict(os.environ)
        if verbose: env['SX_VERBOSE'] = '1'
        p = subprocess.run(cmd + [b + '.bc', h], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, errors='replace')
        recs = []
        if os.path.exists(f'{b}.{h}.out'):
            for l in open(f'{b}.{h}.out'):
                try: recs.append(json.loads(l))
                except ValueError: pass
        summ = json.load(open(f'{b}.{h}.sum'))[0] if os.path.exists(f'{b}.{h}.sum') else None
        return (s, h, o, summ, recs, p.stdout)
    with ThreadPoolExecutor(5) as ex: results = list(ex.map(symex, jobs))
    ts = time.time() - t0 - tc
    if verbose: log(f'symbolic execution {ts:.1f}s')
    kf = known_findings(prop)
    violations, inconclusive, knownhit, validated, mismatches, samples = [], [], {}, 0, [], []
    nats = {s: Native(work + '/' + os.path.basename(s)[:-4] + '.nat', work, tier) for s in srcs}
    sums = []
    def endless(x):
        s, h, o, summ, recs, outp = x
        rs = [r for r in recs if r['t'] == 'path' and r['status'] == 'bound' and r['detail'] == 'step limit' and r['modelOk']]
        return h, list(zip(rs[:2], nats[s].run(rs[:2], 40)))
    with ThreadPoolExecutor(4) as ex: hung = dict(ex.map(endless, results))
    for s, h, o, summ, recs, outp in results:
        if verbose and outp.strip(): log(outp.strip())
        if summ is None: inconclusive.append({'harness': h, 'why': 'engine failed: ' + outp[-300:]}); continue
        sums.append(summ)
        # 1. counterexamples: up to 6 per label
        per = {}
        for r in recs:
            if r['t'] in ('viol', 'known'): per.setdefault((r['t'], r['label'], r.get('known', '')), []).append(r)
        for (t, label, kid), rs in sorted(per.items()):
            rs = sorted(rs, key=lambda r: not r.get('modelOk'))[:6]
            ns = nats[s].run(rs); ok = False
            for r, n in zip(rs, ns):
                if confirm(r, n):
                    ok = True
                    if t == 'viol' or kid not in kf: violations.append((r, n))
                    else: knownhit.setdefault(kid, (r, n))
                    break
            if not ok: inconclusive.append({'harness': h, 'why': 'counterexample not reproduced natively', 'label': label, 'in': rs[0]['in'], 'native': ns[0]['status'], 'stack': rs[0].get('stack', '')})
        # 2. path models: the native run has to agree with the engine
        ps = [r for r in recs if r['t'] == 'path' and r['status'] == 'ok' and r['modelOk']]
        lim = 40 if tier == 'quick' else 200
        ps = ps[:lim]
        ns = nats[s].run(ps)
        for r, n in zip(ps, ns):
            if n['status'] == 'ok' and not n['fails'] and obs_same([obs_norm(x) for x in r['obs']], n['obs']): validated += 1
            elif n['fails'] or (crashed(n) and not crash_known(n)):
                violations.append(({'t': 'viol', 'h': h, 'label': n['fails'][0] if n['fails'] else 'native:' + n['status'], 'in': r['in'], 'detail': 'the recorded model of an explored path fails on the real code', 'stack': ''}, n))
            elif n['status'] == 'ok' and n['known'] and obs_same([obs_norm(x) for x in r['obs']], n['obs']): validated += 1
            else:
                mismatches.append({'harness': h, 'in': r['in'], 'native': n['status'], 'engine_obs': [obs_norm(x) for x in r['obs']][:10], 'native_obs': n['obs'][:10]})
        if ps: samples.append({'harness': h, 'inputs': ps[-1]['in'][:30], 'observed': ps[-1]['obs'][:12]})
        # 3. paths that did not end within the step limit: a native run of the same inputs that does not end either is a violation
        for r, n in hung.get(h, []):
            if n['status'] == 'timeout' or crashed(n): violations.append((dict(r, t='viol', label='does not end', detail='more than 40 s or 4 GB natively'), n))
        seen = set()
        for r in recs:
            if r['t'] == 'path' and r['status'] != 'ok' and r['detail'] not in seen: seen.add(r['detail']); inconclusive.append({'harness': h, 'why': r['status'] + ': ' + r['detail'], 'stack': r.get('stack', '')[:300]})
            if r['t'] == 'unknown' and r['label'] not in seen: seen.add(r['label']); inconclusive.append({'harness': h, 'why': 'solver gave no answer', 'label': r['label']})
        if summ['truncated']: inconclusive.append({'harness': h, 'why': f'time budget: {summ["truncated"]} path prefixes not explored'})
        if summ['engineErrors'] or summ['lost']: inconclusive.append({'harness': h, 'why': f'engine errors {summ["engineErrors"]}, lost {summ["lost"]}'})
        if summ['ok'] == 0 and not per: inconclusive.append({'harness': h, 'why': 'no path completed'})
    S = lambda k: sum(x[k] for x in sums)
    funcs = sorted(set(f for x in sums for f in x['functions']))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
          'coverage': {'states': S('paths'), 'transitions': S('steps'), 'traces_validated_against_impl': validated, 'samples': samples[:8],
                       'paths_completed': S('ok'), 'paths_excluded_by_assumption': S('killed'), 'paths_beyond_bound': S('bound'), 'paths_not_encodable': S('unsupported'), 'path_prefixes_cut_by_time': S('truncated'),
                       'assertions_reached': S('checks'), 'assertion_queries': S('checkQueries'), 'assertions_undecided': S('checksUnknown'), 'solver_queries': S('queries'), 'sat': S('sat'), 'unsat': S('unsat'), 'unknown': S('unknown'), 'solver_seconds': round(S('solverSeconds'), 2),
                       'harnesses': {x['h']: {'paths': x['paths'], 'ok': x['ok'], 'checks': x['checks'], 'queries': x['queries'], 'solver_s': x['solverSeconds'], 'wall_s': x['wall'], 'reached': x['reach']} for x in sums},
                       'functions_encoded': funcs, 'compile_s': round(tc, 1), 'engine_build_s': round(et, 1), 'inconclusive': inconclusive[:60], 'encoding_mismatches': mismatches[:20],
                       'known_findings_seen': sorted(knownhit)},
          'assumptions': ['bounds: see the harness sources named in DESIGN.md; sx_int(name, lo, hi) gives each symbolic input its range', 'the C++ stream, file-system, locale, async and container-balancing library code is replaced by the models in engine/stubs (validated by native replay of path models)',
                          'single-threaded schedules: std::execution policies and async tasks run in order', 'exp, tanh, log, sin, cos are uninterpreted functions with range and monotonicity axioms', 'random_device is fixed: shuffles and random initial weights take one concrete seed in the engine']}
    os.makedirs(V + '/evidence/replay', exist_ok=True)
    json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    for k, (r, n) in sorted(knownhit.items()): log(f'KNOWN-FINDING: property={prop} {k}: {kf[k]["what"]}')
    for k in sorted(set(kf) - set(knownhit)):
        if not only and verbose: log(f'note: known finding {k} not observed in this run')
    if verbose:
        for x in inconclusive: log('inconclusive:', json.dumps(x)[:900])
        for x in mismatches[:10]: log('mismatch:', json.dumps(x)[:1200])
    log(f'{prop} {tier}: {len(sums)} harnesses, {S("paths")} paths, {S("checks")} assertions ({S("checkQueries")} by solver), {S("queries")} queries, {S("solverSeconds"):.1f}s solver, {validated} traces validated, {len(mismatches)} mismatches, {len(inconclusive)} inconclusive, {len(violations)} violations, {time.time() - t0:.1f}s')
    seen = {}
    for r, n in violations:
        key = (r['h'], r['label'])
        if key in seen: continue
        seen[key] = 1
        p = f'{V}/evidence/replay/{prop}-{len(seen)}.json'
        json.dump({'property': prop, 'source': [s for s, h, *_ in results if h == r['h']][0], 'harness': r['h'], 'h': r['h'], 'label': r['label'], 'in': r['in'], 'detail': r.get('detail', ''), 'stack': r.get('stack', ''), 'native': n, 'tier': tier}, open(p, 'w'), indent=1)
        log(f'  {r["h"]}: {r["label"]} {r.get("detail", "")} inputs {json.dumps(r["in"])[:600]} native: {n["status"]} fails {n["fails"][:6]} {r.get("stack", "")[:300] if verbose else ""}')
        log(f'VIOLATION property={prop} replay={p}')
    return 1 if violations else 0

def replay(path):
    r = json.load(open(path)); work = tempfile.mkdtemp(prefix='sxcheck')
    try:
        exe = work + '/nat'
        subprocess.run(NAT + [r['source'], '-o', exe, '-ltbb'], check=True)
        n = Native(exe, work, r['tier']).run([r])[0]
        log(json.dumps(n, indent=1)); return 1 if n['fails'] or crashed(n) or n['status'] == 'timeout' else 0
    finally: shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__': sys.exit(main())
