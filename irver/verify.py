"""Compile a harness file to LLVM IR from /repo's current headers and verify its harness functions."""
import json
import os
import re
import subprocess
import sys
import time
import multiprocessing as mp
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LV_REPO', '/repo')

CLANG = 'clang++-18'
PASSES = 'function(sroa,early-cse),always-inline,cgscc(inline),function(sroa,early-cse,instsimplify,simplifycfg)'


def compile_ir(src, out, cfg='nocheck', defs=(), extra=()):
    raw = out + '.raw.ll'
    cmd = [CLANG, '-std=c++14', '-DLV_VERIFY', '-I%s/stubs/cfg_%s' % (VERIF, cfg), '-I%s/harness' % VERIF, '-I%s/stubs' % VERIF,
           '-I%s/src' % REPO, '-O1', '-ffp-contract=off', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-gline-tables-only',
           '-fno-vectorize', '-fno-slp-vectorize', '-w', '-S', '-emit-llvm'] + ['-D' + d for d in defs] + list(extra) + [src, '-o', raw]
    if not any(d.startswith('ASSERTS') for d in defs):
        cmd.insert(2, '-DNDEBUG')
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    r = subprocess.run(['opt-18', '-S', '-inline-threshold=1000000', '-inlinecold-threshold=1000000', '-passes=' + PASSES, raw, '-o', out], capture_output=True, text=True)
    os.unlink(raw)
    if r.returncode:
        return None, r.stderr
    return out, ''


def run_one(args):
    ll, name, opts = args
    import engine
    import ir
    t0 = time.time()
    res = dict(harness=name, status='proved', failures=[], error=None)
    eng = None
    try:
        m = ir.parse_module(ll)
        o = dict(opts)
        if o.get('budget'):
            o['deadline'] = time.time() + o['budget']
        nounroll = set()
        while True:
            eng = engine.Engine(m, o)
            eng.nounroll = nounroll
            try:
                eng.verify(name)
                break
            except engine.NoUnroll as x:
                nounroll.add(x.args)
        if eng.failures:
            res['status'] = 'failed'
        elif not any(x.status == 'proved' for x in eng.obls) or eng.completed == 0:
            res['status'] = 'vacuous'
    except engine.Unsupported as x:
        res['status'] = 'undecided'
        res['error'] = 'outside the verifier: %s (at %s)' % (x, eng.cur_where if eng else '?')
        if eng and eng.failures:
            res['status'] = 'failed'
    except Exception as x:      # a defect of the verifier itself
        import traceback
        res['status'] = 'undecided'
        res['error'] = 'verifier error: ' + ''.join(traceback.format_exception(x))[-500:]
    if eng:
        res['failures'] = eng.failures
        res['obligations'] = len(eng.obls)
        res['proved'] = sum(1 for o in eng.obls if o.status == 'proved')
        res['assert_obligations'] = [(o.name, o.where, o.status, o.backend, round(o.secs, 3)) for o in eng.obls]
        res['loops'] = eng.loops_done
        res['assumptions'] = sorted(eng.assumptions)
        res['queries'] = eng.solver.n
        res['solver_seconds'] = round(eng.solver.time, 2)
        res['completed_paths'] = eng.completed
        res['functions'] = sorted(functions_of(eng.m, name))
        bk = {}
        for ob in eng.obls:
            bk[ob.backend] = bk.get(ob.backend, 0) + 1
        res['backends'] = bk
    res['seconds'] = round(time.time() - t0, 2)
    return res


def functions_of(m, name):
    """LvArray functions whose code is part of the verified text of this harness (from debug locations)."""
    out = set()
    todo = [name]
    seen = set()
    while todo:
        n = todo.pop()
        if n in seen or n not in m.funcs:
            continue
        seen.add(n)
        for b in m.funcs[n].blocks.values():
            for i in b.ins:
                if i.dbg:
                    d = m.meta.get(i.dbg, '')
                    hops = 0
                    while d and hops < 40:
                        sc = re.search(r'scope: (!\d+)', d)
                        cur = m.meta.get(sc.group(1), '') if sc else ''
                        h2 = 0
                        while cur and 'DISubprogram' not in cur and h2 < 20:
                            s2 = re.search(r'scope: (!\d+)', cur)
                            cur = m.meta.get(s2.group(1), '') if s2 else ''
                            h2 += 1
                        ln = re.search(r'(?:linkageName|name): "([^"]*)"', cur)
                        ln2 = re.search(r'linkageName: "([^"]*)"', cur)
                        nm = (ln2 or ln).group(1) if (ln2 or ln) else None
                        if nm and 'LvArray' in nm:
                            out.add(nm)
                        ia = re.search(r'inlinedAt: (!\d+)', d)
                        d = m.meta.get(ia.group(1), '') if ia else ''
                        hops += 1
                if i.op in ('call', 'invoke') and i.a[0][0] == 'glob':
                    todo.append(i.a[0][1][1:].strip('"'))
    return out


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') is None:
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('src')
    ap.add_argument('names', nargs='*')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--cfg', default='nocheck')
    ap.add_argument('-D', action='append', default=[])
    ap.add_argument('--budget', type=float, default=600)
    ap.add_argument('--overflow', default='check')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    out = '/tmp/irver_%d.ll' % os.getpid()
    ll, err = compile_ir(a.src, out, a.cfg, a.D)
    if not ll:
        print(err[:6000])
        sys.exit(2)
    names = a.names
    if not names:
        names = re.findall(r'^define[^@]*@(H_\w+)\(', open(ll).read(), re.M)
    names = [n if n.startswith('H_') else 'H_' + n for n in names]
    opts = dict(verbose=a.v, budget=a.budget, overflow=a.overflow)
    jobs = [(ll, n, opts) for n in names]
    if len(jobs) == 1 or a.j == 1:
        it = map(run_one, jobs)
    else:
        pool = mp.Pool(min(a.j, len(jobs)), maxtasksperchild=1)
        it = pool.imap_unordered(run_one, jobs)
    for r in it:
        print('%-28s %-9s obl %s/%s paths %s loops %s queries %s solver %.1fs total %.1fs %s' % (
            r['harness'], r['status'], r.get('proved'), r.get('obligations'), r.get('completed_paths'), len(r.get('loops', [])),
            r.get('queries'), r.get('solver_seconds', 0), r['seconds'], r['error'] or ''))
        if os.environ.get('SLOW'):
            for o in sorted(r.get('assert_obligations', []), key=lambda o: -o[4])[:6]:
                print('   slow', o)
        for f in r['failures'][:6]:
            print('    FAILED', f['obligation'], '@', f['where'], '|', f['goal'][:300].replace('\n', ' '))
            if a.v:
                print('      model', f['model'])
                print('      path', f['path'][-12:])
        sys.stdout.flush()
    os.unlink(out)
