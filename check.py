#!/usr/bin/env python3-vt
"""Decide one property: generate every proof obligation of its contracts from /repo's current source and discharge them.

  check.py PROPERTY [--tier quick|thorough]

exit 0: every obligation discharged; exit 1 and a VIOLATION line: some obligation is not (with a failing input when one was found)."""
import argparse
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(VERIF, 'irver'))
sys.setrecursionlimit(20000)
import verify
import props

REPO = verify.REPO
LIMIT = 560.0         # seconds for the proofs; the rest of the 900 s is for the search for a failing input
T0 = time.time()


def compile_group(job):
    key, src, cfg, defs, out = job
    ll, err = verify.compile_ir(os.path.join(VERIF, 'harness', src), out, cfg, defs)
    return key, ll, err


def run_proof(job):
    ll, name, opts, meta = job
    r = verify.run_one((ll, name, opts))
    r['meta'] = meta
    return r


def compile_trouble(names, err):
    return [dict(harness='H_' + n, status='undecided', failures=[], error='the contract file does not compile against the current source:\n' + err[:3000]) for n in names]


def native_search(job):
    """Search for a failing input of one harness against the real code."""
    meta, name, hints, seconds, seed, tmp, replay = job
    exe = os.path.join(tmp, 'native_%s_%s_%s' % (meta['src'].replace('.', '_'), meta['cfg'], abs(hash(tuple(meta['defs']))) % 100000))
    if not os.path.exists(exe):
        return None
    hf = os.path.join(tmp, 'hints_' + name)
    with open(hf, 'w') as f:
        for n, v in hints:
            f.write('%s %s\n' % (n.replace(' ', '_') or 'x', v))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:malloc_context_size=4', UBSAN_OPTIONS='print_stacktrace=0')
    cmd = [exe, '--search', name, '--seconds', str(seconds), '--seed', str(seed), '--hints', hf, '--out', replay]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=seconds + 90, env=env)
    except subprocess.TimeoutExpired:
        return None
    if r.returncode == 1 and 'FAILS' in r.stdout:
        # it has to fail again from the recorded choices
        r2 = subprocess.run([exe, '--replay', replay], capture_output=True, text=True, timeout=120, env=env)
        if r2.returncode == 1:
            return r.stdout.strip()
    return None


def build_native(job):
    meta, exe = job
    r = subprocess.run([os.path.join(VERIF, 'native', 'build.sh'), os.path.join(VERIF, 'harness', meta['src']), meta['cfg'], exe] + ['-D' + d for d in meta['defs']],
                       capture_output=True, text=True)
    return r.returncode == 0, r.stderr[-2000:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    pid = a.property
    P = props.PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tmp = tempfile.mkdtemp(prefix='lvcheck_')
    try:
        return decide(pid, P, a, seed, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(pid, P, a, seed, tmp):
    # 1. obligations from the current source
    groups, jobs, results = {}, [], []
    for h in P['harnesses']:
        if h.get('thorough') and a.tier != 'thorough':
            continue
        key = (h['src'], h.get('cfg', 'nocheck'), tuple(h.get('defs', ())))
        groups.setdefault(key, []).append(h)
    pool = mp.Pool(a.j, maxtasksperchild=1)
    comp = [(key, key[0], key[1], list(key[2]), os.path.join(tmp, 'm%d.ll' % k)) for k, key in enumerate(groups)]
    for key, ll, err in pool.imap_unordered(compile_group, comp):
        for h in groups[key]:
            meta = dict(src=key[0], cfg=key[1], defs=list(key[2]), bounded=h.get('bounded'), name=h['name'])
            if ll is None:
                for r in compile_trouble([h['name']], err):
                    r['meta'] = meta
                    results.append(r)
                continue
            opts = dict(budget=h.get('budget', LIMIT - 40), overflow=h.get('overflow', 'check'))
            opts.update(h.get('opts', {}))
            jobs.append((ll, 'H_' + h['name'], opts, meta, h.get('weight', 1)))
    jobs.sort(key=lambda j: -j[4])
    jobs = [j[:4] for j in jobs]
    pend = [(j, pool.apply_async(run_proof, (j,))) for j in jobs]
    for j, p in pend:
        left = max(1.0, LIMIT - (time.time() - T0))
        try:
            r = p.get(left)
        except mp.TimeoutError:
            r = dict(harness=j[1], status='undecided', failures=[], error='time limit', meta=j[3])
        except Exception as x:
            r = dict(harness=j[1], status='undecided', failures=[], error='verifier died: %s' % x, meta=j[3])
        results.append(r)
        if a.v:
            print('  %-34s %-9s obl %s/%s loops %s %.1fs %s' % (r['harness'], r['status'], r.get('proved'), r.get('obligations'), len(r.get('loops', [])), r.get('seconds', 0), (r['error'] or '')[:200]))
            sys.stdout.flush()
    pool.terminate()

    bad = [r for r in results if r['status'] != 'proved']
    violations, known = [], []
    kf = load_known(pid)
    if bad or a.tier == 'thorough':
        violations, known = explain(pid, bad, results if a.tier == 'thorough' else bad, seed, tmp, kf, a)
    write_evidence(pid, P, results, a, seed, len(violations), known)
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    for line in violations:
        print(line)
    tot = sum(r.get('obligations', 0) for r in results)
    dis = sum(r.get('proved', 0) for r in results)
    print('property %s: %d contracts, %d of %d obligations discharged, %d not proved, %.1f s' % (pid, len(results), dis, tot, len(bad), time.time() - T0))
    return 1 if violations else 0


def load_known(pid):
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    return [k for k in json.load(open(fn)).get('open', []) if k['property'] == pid]


def explain(pid, bad, searched, seed, tmp, kf, a):
    """For every contract that was not proved: look for a failing input, report."""
    exes = {}
    for r in searched:
        m = r['meta']
        exe = os.path.join(tmp, 'native_%s_%s_%s' % (m['src'].replace('.', '_'), m['cfg'], abs(hash(tuple(m['defs']))) % 100000))
        exes[exe] = m
    pool = mp.Pool(a.j)
    errs = dict(zip(exes, pool.map(build_native, [(m, e) for e, m in exes.items()])))
    left = max(30.0, 850 - (time.time() - T0) - 60)
    rounds = max(1, -(-len(searched) // a.j))
    per = min(60.0 if a.tier == 'quick' else 90.0, max(5.0, left / rounds - 5))
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    jobs = []
    for r in searched:
        hints = []
        for f in r['failures']:
            mo = f.get('model') or {}
            for n, z in f.get('names', []):
                if z in mo:
                    try:
                        hints.append((n, int(mo[z])))
                    except ValueError:
                        pass
        replay = os.path.join(VERIF, 'replays', '%s-%s.txt' % (pid, r['harness']))
        if os.path.exists(replay):
            os.unlink(replay)
        jobs.append((r['meta'], r['harness'], hints, per, seed, tmp, replay))
    found = pool.map(native_search, jobs, 1)
    pool.terminate()
    violations, known = [], []
    for r, job, hit in zip(searched, jobs, found):
        if r['status'] == 'proved' and not hit:
            continue
        replay = job[6]
        names = sorted({(f['obligation'], f['where']) for f in r['failures']})
        hitk = None
        for k in kf:
            if k['harness'] == r['harness'] and names and all(any(re.search(p, '%s @ %s' % n) for p in k['obligations']) for n in names) \
                    and (not hit or re.search(k.get('fails', '.*'), hit)):
                hitk = k
        if hitk:
            if hitk['what'] not in known:
                known.append(hitk['what'])
            continue
        head = ['# property %s, contract %s (harness/%s, configuration %s)' % (pid, r['harness'], r['meta']['src'], r['meta']['cfg']),
                '# verifier verdict: %s %s' % (r['status'], (r['error'] or ''))]
        for f in r['failures'][:10]:
            head.append('# obligation not discharged: %s   at %s' % (f['obligation'], f['where']))
            head.append('#    goal: %s' % f['goal'].replace('\n', ' ')[:600])
            head.append('#    path: %s' % ' ; '.join(f['path'][-15:]))
            head.append('#    candidate model: %s' % json.dumps(f.get('model'))[:800])
        if hit:
            body = open(replay).read()
            head.append('# replay: native/build.sh harness/%s %s /tmp/prog %s && ASAN_OPTIONS=detect_leaks=0 /tmp/prog --replay %s' %
                        (r['meta']['src'], r['meta']['cfg'], ' '.join('-D' + d for d in r['meta']['defs']), replay))
            head.append('# ' + hit)
            open(replay, 'w').write('\n'.join(head) + '\n' + body)
            print('  %s: failing input found: %s' % (r['harness'], hit))
            violations.append('VIOLATION property=%s replay=%s' % (pid, replay))
        else:
            head.append('# no failing input was found by the native search (%.0f s)' % job[3])
            open(replay, 'w').write('\n'.join(head) + '\n')
            what = '; '.join('%s @ %s' % n for n in names[:4]) or (r['error'] or r['status'])
            print('  %s: not proved: %s' % (r['harness'], what[:400]))
            violations.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, replay))
    # concrete violations first
    violations.sort(key=lambda v: v.endswith('found'))
    if any(not v.endswith('no-failing-input-found') for v in violations):
        violations = [v for v in violations if not v.endswith('no-failing-input-found')]
    return violations, known


def write_evidence(pid, P, results, a, seed, nviol, known):
    proof = [r for r in results if not r['meta'].get('bounded')]
    bnd = [r for r in results if r['meta'].get('bounded')]
    bk, assum, fns = {}, set(P.get('assumptions', [])), set()
    for r in results:
        for k, v in (r.get('backends') or {}).items():
            bk[k] = bk.get(k, 0) + v
        assum.update(r.get('assumptions') or [])
        fns.update(r.get('functions') or [])
    fns = sorted(fns)
    try:
        d = subprocess.run(['c++filt'], input='\n'.join(fns), capture_output=True, text=True).stdout.split('\n')
        fns = sorted({re.sub(r'<.*', '', x.split('(')[0]).split(' ')[-1] if False else x[:160] for x in d if x})
    except FileNotFoundError:
        pass
    ev = dict(
        property=pid, tier=a.tier if a.tier in ('quick', 'thorough') else 'quick', seed=seed, level='proof',
        coverage=dict(
            obligations=sum(r.get('obligations', 0) for r in proof),
            discharged=sum(r.get('proved', 0) for r in proof),
            checker_cmd='python3-vt check.py %s' % pid,
            trusted_base=['irver (VC generator over LLVM IR of the real headers)', 'clang++-18 -O1 front end and the opt-18 passes ' + verify.PASSES, 'z3 (python), z3 4.8.12, cvc5 1.1.2',
                          'stand-ins for camp / RAJA / LvArrayConfig in /verif/stubs'],
            contracts=[dict(contract=r['harness'], file='harness/' + r['meta']['src'], configuration=r['meta']['cfg'], verdict=r['status'], obligations=r.get('obligations', 0), discharged=r.get('proved', 0),
                            loops=[dict(where=l['where'], invariants=l['kept'], candidates=l['candidates']) for l in r.get('loops', [])],
                            completed_paths=r.get('completed_paths', 0), solver_seconds=r.get('solver_seconds', 0), queries=r.get('queries', 0),
                            **({'bounded': r['meta']['bounded']} if r['meta'].get('bounded') else {}),
                            **({'error': r['error'][:500]} if r['error'] else {})) for r in results],
            back_ends=bk,
            solver_seconds=round(sum(r.get('solver_seconds', 0) for r in results), 1),
            bounded_contracts=len(bnd), bounded_obligations=sum(r.get('obligations', 0) for r in bnd), bounded_discharged=sum(r.get('proved', 0) for r in bnd),
            functions_under_contract=len(fns), functions=fns[:400],
            known_findings=known),
        assumptions=sorted(assum), wall_s=round(time.time() - T0, 1), violations=nviol)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
