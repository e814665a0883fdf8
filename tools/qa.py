#!/usr/bin/env python3-vt
"""Development aid: native search over every registered contract on the current tree (none may fail)."""
import os, sys, subprocess, multiprocessing as mp, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1')
def build(k):
    out = '/tmp/qa_%s_%s_%s' % (k[0].replace('/', '_'), k[1], abs(hash(k[2])) % 9999)
    r = subprocess.run([V + '/native/build.sh', V + '/harness/' + k[0], k[1], out] + ['-D' + d for d in k[2]], capture_output=True, text=True)
    return k, out if r.returncode == 0 else None, r.stderr[-1500:]
def run(j):
    exe, n, s = j
    r = subprocess.run([exe, '--search', 'H_' + n, '--seconds', str(s), '--seed', '7', '--out', '/tmp/qa_%s.txt' % n], capture_output=True, text=True, env=ENV)
    return n, r.stdout.strip() + r.stderr.strip()
if __name__ == '__main__':
    secs = float(sys.argv[1]); want = sys.argv[2:]
    hs = {}
    for p, d in props.PROPS.items():
        for h in d['harnesses']:
            if not want or p in want or h['src'] in want or h['name'] in want:
                hs.setdefault((h['src'], h.get('cfg', 'nocheck'), tuple(h.get('defs', ()))), {})[h['name']] = h
    pool = mp.Pool(8)
    jobs = []
    for k, exe, err in pool.map(build, list(hs)):
        if not exe:
            print('BUILD', k, err); continue
        jobs += [(exe, n, secs) for n in hs[k]]
    for n, o in pool.imap_unordered(run, jobs):
        f = dict(x.split('=') for x in o.split() if x.startswith(('iterations=', 'rejected=')))
        bad = not o.startswith('ok') or int(f.get('iterations', 0)) < 50 or int(f.get('rejected', 0)) > 0.97 * int(f.get('iterations', 1))
        if bad or '-v' in sys.argv: print('%-30s %s' % (n, o[:300]))
    print(len(jobs), 'contracts searched')
