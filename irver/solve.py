"""Solver front end: z3 in process (e-matching only for quantifiers), cvc5 as a second opinion for hard obligations."""
import itertools
import os
import subprocess
import tempfile
import time
import z3

Z3OLD = '/usr/bin/z3' if os.path.exists('/usr/bin/z3') else 'z3'
LOG = os.environ.get('QLOG')
z3.set_param('smt.random_seed', 1)


def expand(e, memo=None):
    return e


class Solver:
    def __init__(s, eng):
        s.e = eng
        s.n = 0
        s.time = 0.0
        s.cache = {}
        s.backends = {}
        s.last_model = None

    def mk(s, timeout, rl=None):
        sv = z3.SimpleSolver()
        sv.set('timeout', timeout)
        sv.set('mbqi', False)
        sv.set('auto_config', False)
        sv.set('random_seed', 1)
        sv.set('array.extensional', False)       # no array equalities are used; the witnesses it makes up only feed instantiation
        if rl:
            sv.set('rlimit', rl)
        return sv

    def check(s, facts, extra, timeout, rl=None):
        s.n += 1
        t0 = time.time()
        sv = s.mk(timeout, rl)
        for f in facts:
            sv.add(f)
        for f in extra:
            sv.add(f)
        for g in s.ground(facts, extra):
            sv.add(g)
        try:
            r = sv.check()
        except z3.Z3Exception:
            r = z3.unknown
        s.time += time.time() - t0
        s.sv = sv
        if LOG:
            st = sv.statistics()
            rl = next((st.get_key_value(k) for k in st.keys() if k == 'rlimit count'), 0)
            print('Q %s %.3f %s %s' % (r, time.time() - t0, rl, timeout))
        return r

    def ground(s, facts, extra):
        """Closed array reads that occur only below quantifiers, made visible to instantiation."""
        out = {}
        for f in itertools.chain(facts, extra):
            if not s.hasq(f):
                continue
            k = ('gr', f.get_id())
            r = s.cache.get(k)
            if r is None:
                r = (closed_reads(f), f)
                s.cache[k] = r
            for c in r[0]:
                out[c.get_id()] = c
        return [z3.Const('gr!%d' % i, c.sort()) == c for i, c in out.items()]

    def key(s, facts, goal):
        return (tuple(f.get_id() for f in facts), goal.get_id())

    def quick(s, facts, goal):
        """Quantifier-free facts only, short limit."""
        if z3.is_true(goal):
            return True
        qf = [f for f in facts if not s.hasq(f)]
        k = ('q', tuple(f.get_id() for f in qf), goal.get_id())
        if k in s.cache:
            return s.cache[k][0]
        r = s.check(qf, [z3.Not(goal)], 30000, 1000000) == z3.unsat
        s.cache[k] = (r, qf, goal)
        return r

    def hasq(s, f):
        k = ('hq', f.get_id())
        r = s.cache.get(k)
        if r is not None:
            return r[0]
        r = _hasq(f, set())
        s.cache[k] = (r, f)
        return r

    def feasible(s, facts, extra):
        """False only when facts (and extra) are definitely inconsistent."""
        ex = [] if extra is None else [extra]
        if any(z3.is_false(x) for x in ex):
            return False
        qf = [f for f in facts if not s.hasq(f)]
        k = ('f', tuple(f.get_id() for f in facts), ex[0].get_id() if ex else 0)
        if k in s.cache:
            return s.cache[k][0]
        r = s.check(qf, ex, 10000, 1200000)
        if r != z3.unsat and len(qf) != len(facts):
            r = s.check(facts, ex, 10000, 100000 if getattr(s.e, 'explicit', False) else 600000)
        ok = r != z3.unsat
        s.cache[k] = (ok, list(facts), ex)
        return ok

    def prove(s, facts, goal, hard=False, timeout=None, iters=8, seeds=None):
        """Returns (bool, backend)."""
        if z3.is_true(goal):
            return True, 'syntactic'
        k = ('p', tuple(f.get_id() for f in facts), goal.get_id())
        if k in s.cache and s.cache[k][0]:
            return True, s.cache[k][3]
        to = timeout or s.e.opts['qtimeout']
        r = s.check(facts, [z3.Not(goal)], 60000, int(to * 3000))     # the resource limit decides (deterministic); wall time is a backstop
        be = 'z3'
        s.last_model = None
        if r == z3.sat:
            s.last_model = s.model_text()
        if r != z3.unsat and not (r == z3.sat and not any(s.hasq(f) for f in facts)):
            if s.last_model is None:
                try:
                    s.last_model = s.model_text()
                except z3.Z3Exception:
                    pass
            if seeds is None:
                seeds = (1, 2, 3) if iters >= 20 or not timeout else (1,)
            r2 = z3.unknown
            for seed in seeds:
                r2 = s.mbqi(facts, goal, timeout, iters, seed)
                if r2 != z3.unknown:
                    break
            if r2 == z3.unsat:
                r = r2
            elif r2 == z3.sat:
                s.sv = s.mv
                s.last_model = s.model_text()
            elif not s.e.dry and not timeout:
                txt = s.smt2(facts, goal)
                if s.cli(['cvc5', '--tlimit=%d' % to, '--lang=smt2'], '(set-logic ALL)\n' + txt):
                    r, be = z3.unsat, 'cvc5'
                elif s.cli([Z3OLD, '-in', 'smt.mbqi=false', 'smt.auto_config=false', '-T:8'], txt):
                    r, be = z3.unsat, 'z3-4.8'
        ok = r == z3.unsat
        if not ok and not timeout and not s.e.dry and os.environ.get('DUMPF'):
            open(os.environ['DUMPF'] + '_%d.smt2' % s.n, 'w').write(s.smt2(facts, goal))
        s.cache[k] = (ok, list(facts), goal, be)
        if ok:
            s.backends[be] = s.backends.get(be, 0) + 1
        return ok, be

    def mbqi(s, facts, goal, timeout, iters, seed):
        """Model-based instantiation; whether it succeeds depends on the models met, so several seeds are tried."""
        sv = s.mk(60000, (400000 if iters < 20 else 900000) if timeout else 10000000)
        sv.set('mbqi', True)
        sv.set('mbqi.max_iterations', iters if timeout else 100)
        sv.set('auto_config', True)
        sv.set('random_seed', seed)
        t0 = time.time()
        for f in itertools.chain(facts, s.ground(facts, [goal])):
            sv.add(f)
        sv.add(z3.Not(goal))
        try:
            r2 = sv.check()
        except z3.Z3Exception:
            r2 = z3.unknown
        s.time += time.time() - t0
        s.n += 1
        s.mv = sv
        if LOG:
            st = sv.statistics()
            rl = next((st.get_key_value(k) for k in st.keys() if k == 'rlimit count'), 0)
            print('M %s %.3f %s iters %s seed %s' % (r2, time.time() - t0, rl, iters, seed))
        return r2

    def model_text(s):
        try:
            m = s.sv.model()
        except z3.Z3Exception:
            return None
        out = {}
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                if z3.is_int_value(v) or z3.is_rational_value(v):
                    out[d.name()] = str(v)
        return out

    def smt2(s, facts, goal):
        sv = z3.Solver()
        for f in facts:
            sv.add(f)
        sv.add(z3.Not(goal))
        for g in s.ground(facts, [goal]):
            sv.add(g)
        return sv.to_smt2()

    def cli(s, cmd, txt):
        t0 = time.time()
        try:
            r = subprocess.run(cmd, input=txt, capture_output=True, text=True, timeout=30)
            out = r.stdout.strip().split('\n')[0]
        except (subprocess.TimeoutExpired, FileNotFoundError):
            out = 'unknown'
        s.time += time.time() - t0
        s.n += 1
        return out == 'unsat'


def closed_reads(f):
    out = {}
    free = {}

    def closed(t):
        r = free.get(t.get_id())
        if r is None:
            r = not z3.is_var(t) and all(closed(c) for c in t.children())
            free[t.get_id()] = r
        return r

    seen = set()

    def walk(t, inq):
        k = (t.get_id(), inq)
        if k in seen:
            return
        seen.add(k)
        if z3.is_quantifier(t):
            walk(t.body(), True)
            return
        if inq and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and closed(t):
            out[t.get_id()] = t
        for c in t.children():
            walk(c, inq)
    walk(f, False)
    return list(out.values())


def _hasq(e, seen):
    if e.get_id() in seen:
        return False
    seen.add(e.get_id())
    if z3.is_quantifier(e):
        return True
    return any(_hasq(c, seen) for c in e.children())
