#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only ENTRY]

Builds everything from /repo's current tree, runs the symbolic engine on every harness entry of the
property, replays each counterexample against the native build, compares the engine with the native
build on random concrete inputs, writes evidence/<PROPERTY>.json.
exit 0: held on everything explored; exit 1: VIOLATION line(s); other: the check itself failed.
"""
import json, os, subprocess, sys, time, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import build
from specs import PROPS, ASSUME, BOUNDS

V = build.V
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)

def merge(rs):
    """one result from the shards of an entry"""
    r = dict(rs[0])
    for x in rs[1:]:
        for k, v in x.items():
            if k in ('max_query_seconds', 'seconds'):
                r[k] = max(r.get(k, 0), v)
            elif k == 'functions':
                r[k] = sorted(set(r.get(k, [])) | set(v))
            elif isinstance(v, (int, float)):
                r[k] = r.get(k, 0) + v
            elif isinstance(v, list):
                r[k] = r.get(k, []) + v
            elif isinstance(v, dict):
                d = dict(r.get(k, {}))
                for a, n in v.items():
                    d[a] = d.get(a, 0) + n
                r[k] = d
            elif k == 'error':
                r[k] = v
    sts = [x['status'] for x in rs]
    r['status'] = 'violated' if 'violated' in sts else 'error' if 'error' in sts else 'held'
    r['functions_executed'] = len(r.get('functions', []))
    return r

def run_engine(eng, ll, entry, out, time_s, cross, shard=None):
    log = out + '.log'
    cmd = [eng, ll, entry, '--out', out, '--time', str(time_s), '--seed', str(SEED)] + (['--cross'] if cross else [])
    if shard:
        cmd += ['--shard', shard]
    with open(log, 'w') as f:
        try:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=time_s + 60)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 99
    try:
        r = json.load(open(out))
    except Exception:
        r = {'entry': entry, 'status': 'error', 'error': 'engine ended with %s: %s' % (rc, open(log).read()[-1500:]),
             'violations': []}
    return r

def replay(binary, entry, inputs, tmp, trials):
    p = tempfile.mktemp(dir=tmp)
    open(p, 'w').write('\n'.join(inputs) + '\n')
    try:
        r = subprocess.run([binary, entry, 'replay', p, str(trials), str(SEED)], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return None, 'native replay timed out', []
    ls = r.stdout.splitlines()
    if ls and ls[0].startswith('REPRODUCED'):
        return True, ls[0], [l[6:] for l in ls[1:] if l.startswith('INPUT ')]
    if r.returncode < 0 or not ls:
        # the real code killed the process (abort, stack overflow)
        return True, 'REPRODUCED process ended with %d' % r.returncode, inputs
    return False, ls[0], []

def validate(eng, ll, binary, entry, n, tmp):
    """engine vs native on n random concrete inputs: same traces, covers and outcome"""
    d = tempfile.mkdtemp(dir=tmp)
    r = subprocess.run([binary, entry, 'random', str(n), str(SEED), d], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, timeout=300)
    bad, ok, distinct = [], 0, set()
    def one(i):
        a = os.path.join(d, 'in%d' % i)
        want = open(os.path.join(d, 'out%d' % i)).read().splitlines()
        if want[-1] == 'END assume':
            return None
        e = subprocess.run([eng, ll, entry, '--concrete', a, '--time', '200'], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, timeout=300)
        got = e.stdout.splitlines()
        key = lambda ls: (sorted(l for l in ls if l.startswith('COVER')), [l for l in ls if l.startswith('TRACE')])
        end = {0: 'END pass'}.get(e.returncode, 'END fail')
        wend = 'END pass' if want[-1] == 'END pass' else 'END fail'
        if key(got) != key(want) and end == 'END pass' or end != wend:
            return 'input %s: engine %s %s native %s\n%s' % (a, end, got[-3:], want[-3:], e.stderr[-800:])
        return ('ok', hashlib.sha256('\n'.join(want).encode()).hexdigest())
    idx = [i for i in range(n) if os.path.exists(os.path.join(d, 'out%d' % i))]
    for x in map(one, idx):
        if x is None:
            continue
        if isinstance(x, tuple):
            ok += 1
            distinct.add(x[1])
        else:
            bad.append(x)
    return ok, len(distinct), bad

def known_findings(prop):
    p = os.path.join(V, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'known']

def matches(k, entry, v, inputs):
    if k['entry'] != entry or k['kind'] != v['kind'] or int(k['id']) != int(v['id']):
        return False
    if k.get('msg') and k['msg'] not in v['msg']:
        return False
    ch = [l.split()[1] for l in inputs if l.startswith('choice ')]
    return all(i < len(ch) and ch[i] in vals for i, vals in ((int(a), b) for a, b in k.get('choices', {}).items()))

def main():
    t0 = time.time()
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if '--only' in a:
        only = a[a.index('--only') + 1]
    spec = PROPS[prop]
    entries = [e for e in spec['entries'] if tier == 'thorough' or not e.get('thorough_only')]
    if only:
        entries = [e for e in entries if e['name'] == only]
    crates = sorted({e['crate'] for e in entries})
    evp = os.path.join(V, 'evidence', prop + '.json')
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    if os.path.exists(evp) and not only:
        os.remove(evp)
    try:
        b = build.build(crates)
    except build.BuildError as e:
        print('ERROR build failed:', str(e)[-5000:])
        return 3
    t_build = time.time() - t0
    tmp = os.path.join(build.T, 'run_%s_%d' % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    eng = b['engine']
    limit = 420 if tier == 'quick' else 3000
    nval = 4 if tier == 'quick' else 20
    errors, viol, knowns = [], [], []
    try:
        with ThreadPoolExecutor(8) as ex:
            fe = {}
            for e in sorted(entries, key=lambda e: -e.get('shards', 1)):
                n = e.get('shards', 1)
                fe[e['name']] = [ex.submit(run_engine, eng, b[e['crate']][0], e['name'],
                                           os.path.join(tmp, '%s.%d.json' % (e['name'], i)), limit, tier == 'thorough',
                                           '%d/%d' % (i, n)) for i in range(n)]
            fv = [ex.submit(validate, eng, b[e['crate']][0], b[e['crate']][1], e['name'], e.get('validate', nval), tmp)
                  for e in entries]
            res = [merge([f.result() for f in fe[e['name']]]) for e in entries]
            val = []
            for e, f in zip(entries, fv):
                try:
                    val.append(f.result())
                except Exception as x:
                    val.append((0, 0, ['validation run failed: %r' % x]))
        for e, r in zip(entries, res):
            if r['status'] == 'error':
                errors.append('%s: %s' % (e['name'], r.get('error')))
            seen = set()
            unrep = []
            for v in r['violations']:
                ok, what, conc = replay(b[e['crate']][1], e['name'], v['inputs'], tmp, 64)
                if not ok:
                    unrep.append((v, what))
                    continue
                kind = 'assert' if ' assert ' in what else 'panic'
                k = next((k for k in known_findings(prop) if matches(k, e['name'], v, conc)), None)
                if k:
                    if k['what'] not in knowns:
                        knowns.append(k['what'])
                    continue
                key = (v['kind'], v['id'], v['msg'])
                if key in seen:
                    continue
                seen.add(key)
                rp = os.path.join(V, 'replays', '%s_%s_%d.txt' % (prop, e['name'], len(viol)))
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                with open(rp, 'w') as f:
                    f.write('# property %s, harness %s::%s\n# %s (engine: %s %s %s)\n' % (
                        prop, e['crate'], e['name'], what, v['kind'], v['id'], v['msg']))
                    f.write('# re-run: %s %s replay THIS_FILE 1 1\n' % (b[e['crate']][1], e['name']))
                    f.write('\n'.join(conc) + '\n')
                viol.append((rp, e['name'], what))
            if unrep and not seen and not knowns:
                v, what = unrep[0]
                errors.append('%s: counterexample does not reproduce natively (%s): %s %s %s %s' % (
                    e['name'], what, v['kind'], v['id'], v['msg'], v['inputs'][:6]))
            miss = [c for c in e.get('covers', []) if str(c) not in r.get('covers', {})]
            if miss and r['status'] == 'held':
                errors.append('%s: vacuous, never reached cover points %s' % (e['name'], miss))
            if r['status'] == 'held' and not r.get('asserts') and not e.get('no_asserts'):
                errors.append('%s: no assertion reached' % e['name'])
        for e, (ok, dist, bad) in zip(entries, val):
            if bad and not viol:
                errors.append('%s: engine and native build disagree on a concrete input: %s' % (e['name'], bad[0]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    g = lambda k: sum(r.get(k, 0) for r in res)
    fns = sorted({f for r in res for f in r.get('functions', []) if any(x in f for x in spec.get('crates', ['bdk_sp', 'dleq', 'indexer']))})
    samples = []
    for r in res:
        for s in r.get('samples', [])[:2]:
            samples.append({'entry': r['entry'], 'inputs': [x[:200] for x in s['inputs']], 'covers': s['covers']})
    ev = {
        'property': prop, 'tier': tier, 'seed': SEED, 'level': 'model_checking',
        'coverage': {
            'states': g('paths'), 'transitions': g('steps'),
            'traces_validated_against_impl': sum(v[0] for v in val),
            'distinct_validated_traces': sum(v[1] for v in val),
            'samples': samples[:12],
            'what_states_are': 'path end states of the symbolic execution (each stands for every input satisfying its path condition)',
            'what_transitions_are': 'LLVM-IR instructions executed symbolically',
            'exhaustive_within_bounds': not errors and all(r['status'] != 'error' for r in res),
            'smt_queries': g('queries'), 'smt_sat': g('sat'), 'smt_unsat': g('unsat'), 'smt_unknown': g('unknown'),
            'solver_seconds': round(g('solver_seconds'), 2), 'cross_checked_queries': g('cross_checked'),
            'branch_forks': g('forks'), 'infeasible_branches': g('infeasible_branches'),
            'assertion_checks': sum(sum(r.get('asserts', {}).values()) for r in res),
            'assertion_queries_to_solver': g('assert_queries'),
            'hash_compressions': g('hash_calls'), 'group_operations': g('group_ops'),
            'entries': [{'name': r['entry'], 'status': r['status'], 'paths': r.get('paths'), 'steps': r.get('steps'),
                         'queries': r.get('queries'), 'asserts': r.get('asserts'), 'covers': r.get('covers'),
                         'seconds': r.get('seconds'), 'bounds': e.get('bounds', '')} for e, r in zip(entries, res)],
            'functions_encoded': fns,
            'functions_encoded_total': g('functions_executed'),
            'bounds': BOUNDS.get(prop, ('', ''))[0],
            'outside': BOUNDS.get(prop, ('', ''))[1],
            'build_seconds': round(t_build, 1),
            'errors': errors,
        },
        'assumptions': ASSUME + spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    if not only:
        json.dump(ev, open(evp, 'w'), indent=1)
    for r, v in zip(res, val):
        print('%-28s %-8s paths %-6s steps %-9s queries %-6s asserts %-6s validated %-3s %ss' % (
            r['entry'], r['status'], r.get('paths'), r.get('steps'), r.get('queries'),
            sum(r.get('asserts', {}).values()), v[0], r.get('seconds')))
    for k in knowns:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    for rp, n, what in viol:
        print('%s: %s' % (n, what))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    for e in errors:
        print('ERROR', e)
    print('build %.0fs total %.0fs' % (t_build, time.time() - t0))
    if viol:
        return 1
    return 3 if errors else 0

if __name__ == '__main__':
    sys.exit(main())
