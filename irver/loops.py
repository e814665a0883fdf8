"""Loop cut: infer candidate invariants from templates, keep the inductive ones (Houdini), continue from the exits."""
import itertools
import time
import z3
import ir
from ir import IntT, FloatT, PtrT
from fractions import Fraction
from poly import Poly, cmp, Not, And, Or, Implies, ite, zb, atom_expr, atom_id
from engine import Ptr, Unsupported, LoopCtx, Obligation, Undef, Obj
import intrinsics


import os
DBG = os.environ.get('LDBG')


class Var:
    """A loop-carried scalar: phi, constant-offset cell or ghost.  Value at entry / header / back edge as Poly or z3 Bool."""
    def __init__(s, kind, key, entry, name):
        s.kind = kind; s.key = key; s.entry = entry; s.name = name
        s.sym = None          # header value
        s.step = None
        s.ptr = None          # (obj, unit) for pointers: value = Ptr(obj, base + unit * poly)
        s.sort = None
        s.w = 64


class LoopProver:
    def __init__(s, eng, st):
        s.e = eng
        s.st = st
        fr = st.fr
        s.f = fr.f
        s.h = fr.block
        s.prev = fr.prev
        s.body = s.f.loops[s.h]
        s.depth = len(st.frames)
        s.counter0 = eng.counter
        s.modarr = {}        # objid -> header array symbol
        s.vars = []
        s.steps = {}
        s.mates = []         # (y, x): y moves together with x
        s.t = None
        s.cands = []
        s.has_inner = any(h != s.h and h in s.body for h in s.f.loops)
        s.where = '?'
        s.peeled = False
        for ins in s.f.blocks[s.h].ins:
            if ins.dbg:
                s.where = eng.m.where(ins.dbg)
                break

    # -------------------------------------------------------------- set-up of loop variables
    def phi_vars(s):
        for ins in s.f.blocks[s.h].ins:
            if ins.op != 'phi':
                break
            for v, b in ins.a:
                if b == s.prev:
                    val = s.e.val(s.st, v, ins.ty)
                    break
            else:
                raise Unsupported('phi without entry value')
            x = Var('phi', ins.res, val, ins.res[1:])
            x.ty = ins.ty
            s.add_var(x)

    def add_var(s, x):
        e = s.e
        nm = x.name.replace('.', '_')
        if isinstance(x.entry, Ptr):
            x.sort = 'ptr'
            x.unit = 8
            x.base = x.entry.off
            x.obj = x.entry.o
            x.psym = e.fresh(nm)
        elif isinstance(x.entry, Poly):
            x.sort = 'real' if x.entry.real else 'int'
            x.psym = e.fresh(nm, x.sort)
            if x.kind == 'phi' and isinstance(x.ty, IntT):
                x.w = x.ty.w
        elif isinstance(x.entry, bool) or z3.is_bool(x.entry):
            x.sort = 'bool'
            x.psym = e.fresh(nm, 'bool')
        elif isinstance(x.entry, Undef):
            ty = e.m.resolve(x.ty) if x.kind == 'phi' else None
            if ty is not None and isinstance(ty, IntT) and ty.w > 1:
                x.sort = 'int'
                x.entry = Poly.atom(e.fresh('undef'))
                x.psym = e.fresh(nm)
            elif ty is not None and isinstance(ty, IntT):
                x.sort = 'bool'
                x.entry = e.fresh('undef', 'bool')
                x.psym = e.fresh(nm, 'bool')
            else:
                raise Unsupported('undefined loop-carried value')
        else:
            raise Unsupported('loop-carried value %r' % (x.entry,))
        s.vars.append(x)

    def set_symbols(s):
        """(Re)compute header values from steps."""
        for x in s.vars:
            st = s.steps.get(id(x))
            if x.sort == 'ptr':
                if st is not None:
                    x.sym = Ptr(x.obj, x.base + st * s.t * x.unit)
                    x.sc = st * s.t
                else:
                    x.sc = Poly.atom(x.psym)
                    x.sym = Ptr(x.obj, x.base + x.sc * x.unit)
            elif x.sort == 'bool':
                x.sym = x.psym
            else:
                if st is not None:
                    x.sym = x.entry + st * s.t
                else:
                    x.sym = Poly.atom(x.psym)
        for y, x in s.mates:
            y.sym = s.mate_sym(y, x)

    def get(s, x, t):
        """Value of x in state t arriving at the header from the back edge."""
        if x.kind == 'phi':
            for ins in s.f.blocks[s.h].ins:
                if ins.res == x.key:
                    for v, b in ins.a:
                        if b == t.fr.prev:
                            r = s.e.val(t, v, ins.ty)
                            break
        elif x.kind == 'cell':
            oid, off = x.key
            c = t.mem[oid].cells.get(off)
            if c is None:
                raise Unsupported('cell lost in loop')
            r = c[1]
        else:
            r = t.ghost[x.key]
        if x.sort in ('int',):
            r = s.e.as_int(t, r)
        if x.sort == 'bool':
            r = s.e.as_bool(t, r)
        return r

    def scalar(s, x, val):
        """The integer that stands for the variable (pointer: units from its entry base)."""
        if x.sort == 'ptr':
            if not isinstance(val, Ptr) or val.o != x.obj:
                raise Unsupported('loop-carried pointer changes object')
            d = (val.off - x.base).divexact(x.unit)
            if d is None:
                raise BadUnit(x)
            return d
        return val

    def header_state(s):
        hs = s.st.fork()
        s.e.flush(hs)
        fr = hs.fr
        for oid, sym in s.modarr.items():
            o = hs.mem[oid].clone()
            if o.kind != 'arr':
                raise Unsupported('array state lost at loop head')
            o.arr = sym
            hs.mem[oid] = o
        for x in s.vars:
            if x.kind == 'cell':
                oid, off = x.key
                o = hs.mem[oid].clone()
                o.cells[off] = (o.cells[off][0] if off in o.cells else 8, x.sym)
                hs.mem[oid] = o
            elif x.kind == 'ghost':
                hs.ghost[x.key] = x.sym
        # facts that hold by typing / by construction
        if s.t is not None:
            hs.facts.append((s.t >= 0) if not isinstance(s.t, Poly) else (s.t.z() >= 0))
        for x in s.vars:
            if x.sort == 'int' and s.steps.get(id(x)) is None and x.kind != 'ghost' and not s.peeled:
                lo, hi = s.e.rng(x.w)
                hs.facts.append(z3.And(x.psym >= lo, x.psym <= hi))
        # start position: phis pre-assigned, execution begins after them
        k = 0
        for ins in s.f.blocks[s.h].ins:
            if ins.op != 'phi':
                break
            k += 1
        for x in s.vars + [y for y, _ in s.mates]:
            if x.kind == 'phi':
                fr.env[x.key] = x.sym
        fr.idx = k
        if k == 0:
            fr.idx = 0
        for b in list(fr.unroll):
            if (b[0] if type(b) is tuple else b) in s.body:
                del fr.unroll[b]
        return hs

    def explore(s, facts, dry):
        e = s.e
        hs = s.header_state()
        hs.facts.extend(facts)
        s.hs = hs.fork()      # exploration mutates the state itself
        ctx = LoopCtx(s.depth, s.h, s.body)
        s.ctx = ctx
        s.hmem = dict(hs.mem)
        s.hghost = dict(hs.ghost)
        if dry:
            e.dry += 1
        e.ctxs.append(ctx)
        # inner loops record into all contexts
        try:
            backs, exits = e.explore([hs], ctx)
        finally:
            e.ctxs.pop()
            if dry:
                e.dry -= 1
        return backs, exits

    def modified(s, backs):
        """New modified memory discovered on the back edges; returns True when something was added."""
        e = s.e
        new = False
        for b in backs:
            for oid, o in s.hmem.items():
                o2 = b.mem.get(oid)
                if o2 is o or o2 is None:
                    continue
                if o2.alive != o.alive:
                    if o.isstack:
                        continue
                    raise Unsupported('object %s freed inside a loop' % o.name)
                if o2.kind == 'arr':
                    if o.kind == 'raw' and s.st.mem[oid].kind == 'raw':
                        e.settle(s.st, oid, o2.w, o2.real, o2.tr)
                        new = True
                        continue
                    if s.st.mem[oid].kind == 'arr' and o.kind != 'arr':
                        continue         # converted for another back edge
                    if o.kind == 'cells':
                        e.to_arr(s.st, oid, o2.w, o2.real)
                        s.vars = [x for x in s.vars if not (x.kind == 'cell' and x.key[0] == oid)]
                        new = True
                        continue
                    if oid not in s.modarr:
                        if not o2.arr.eq(o.arr):
                            s.modarr[oid] = e.fresh(o.name.replace('%', '') + '_L', 'rarr' if o.real else 'arr')
                            new = True
                    continue
                if o2.kind == 'cells':
                    if s.st.mem[oid].kind == 'arr':
                        continue
                    if o.kind == 'raw':
                        if s.local(oid):
                            continue
                        oo = s.st.mem[oid].clone()
                        oo.kind = 'cells'
                        oo.tr = o2.tr
                        if o2.tr:
                            for off, (w, v) in o2.cells.items():
                                oo.cells = dict(oo.cells)
                                oo.cells[off] = (w, Poly.const(0))
                        s.st.mem[oid] = oo
                        new = True
                        continue
                    have = {x.key for x in s.vars if x.kind == 'cell'}
                    for off, (w, v) in o2.cells.items():
                        if off in o.cells:
                            ov = o.cells[off][1]
                            same = ov is v or (isinstance(ov, Poly) and isinstance(v, Poly) and ov == v) or \
                                (isinstance(ov, Ptr) and isinstance(v, Ptr) and ov.o == v.o and ov.off == v.off)
                            if same or (oid, off) in have:
                                continue
                            x = Var('cell', (oid, off), s.st.mem[oid].cells[off][1], '%s_%d' % (o.name.replace('%', ''), off))
                            x.w = 8 * w
                            x.ty = None
                            s.add_var(x)
                            new = True
                        else:
                            # written in the loop, not initialised before: dead at the head unless read; give it a fresh value
                            oo = s.st.mem[oid].clone()
                            if o2.tr:
                                oo.tr = True
                                oo.cells[off] = (w, Poly.const(0))
                            elif isinstance(v, Poly):
                                oo.cells[off] = (w, Poly.atom(e.fresh('uninit', 'real' if v.real else 'int')))
                            elif isinstance(v, Ptr):
                                continue    # a pointer only assigned inside the loop: left uninitialised at the head
                            else:
                                oo.cells[off] = (w, Poly.atom(e.fresh('uninit')))
                            s.st.mem[oid] = oo
                            new = True
                    for off in o.cells:
                        if off not in o2.cells:
                            raise Unsupported('cell %d of %s overwritten with a different layout in a loop' % (off, o.name))
            for k, v in b.ghost.items():
                if k in ('specret', 'hints', 'invs') or (isinstance(k, tuple) and k[0] == 'inv'):
                    continue
                ov = s.hghost.get(k)
                if ov is None:
                    if isinstance(v, Poly):
                        s.st.ghost[k] = Poly.const(0)
                        new = True
                    continue
                if isinstance(v, Poly) and isinstance(ov, Poly) and not (v == ov):
                    if not any(x.kind == 'ghost' and x.key == k for x in s.vars):
                        x = Var('ghost', k, s.st.ghost[k], 'ghost')
                        x.ty = None
                        s.add_var(x)
                        new = True
        return new

    def local(s, oid):
        return False

    # -------------------------------------------------------------- main
    def go(s):
        e = s.e
        t_start = time.time()
        s.phi_vars()
        e.flush(s.st)
        for x in list(s.vars):
            pass
        s.set_symbols()
        # Phase 0: discover modified state
        for rnd in range(30):
            s.set_symbols()
            try:
                backs, exits = s.explore([], True)
                if s.modified(backs):
                    continue
                s.deltas(backs)
                break
            except BadUnit as b:
                b.x.unit //= 2
                if b.x.unit == 0:
                    raise Unsupported('pointer step not a whole number of elements')
        else:
            raise Unsupported('loop state does not stabilise')
        if not backs:
            # the loop body never returns to the head: peel once
            return s.peel()
        # Phase 1: constant-step variables become entry + step * t
        if s.find_steps(backs):
            for rnd in range(10):
                s.set_symbols()
                backs, exits = s.explore([], True)
                if s.modified(backs):
                    continue
                break
            if not backs:
                return s.peel()
            # the parametrisation must be preserved
            s.check_steps(backs)
            # variables that trail the parametrised ones by one iteration
            while s.find_lag(backs):
                s.set_symbols()
                backs, exits = s.explore([], True)
                if s.modified(backs):
                    raise Unsupported('loop state unstable')
                if not backs:
                    return s.peel()
                s.check_steps(backs)
        # Phase 1b: variables that move together with another one
        if s.find_mates(backs):
            s.set_symbols()
            backs, exits = s.explore([], True)
            if s.modified(backs):
                raise Unsupported('loop state unstable')
            if not backs:
                return s.peel()
            s.check_steps(backs)
        # Phase 2: scalar candidates
        cands = s.scalar_cands(backs)
        cands = s.entry_filter(cands)
        cands = s.houdini(cands, backs)
        facts = [c.header for c in cands]
        backs, exits = s.explore(facts, True)
        if s.modified(backs):
            raise Unsupported('loop state unstable')
        if not backs:
            return s.peel()
        s.check_steps(backs)
        # Phase 3: all candidates
        more = s.entry_filter(s.scalar_cands(backs, extra=True) + s.memory_cands(backs) + s.hint_cands())
        seen = {c.header.get_id() for c in cands}
        more = [c for c in more if c.header.get_id() not in seen and not seen.add(c.header.get_id())]
        base = cands
        if DBG:
            for c in more:
                if c.hint: print('HINT', c.name, c.header.get_id(), id(c))
        cands = cands + more
        if s.has_inner and any(c.hint for c in more):
            # what the inner loops keep may rest on the templates of this one: start from all of them
            s.last_facts = [c.header.get_id() for c in cands]
            backs, exits = s.explore([c.header for c in cands], True)
            s.check_steps(backs)
            if s.modified(backs):
                raise Unsupported('loop state unstable')
        while True:
            n = len(cands)
            cands = s.houdini(cands, backs)
            if not s.has_inner:
                break
            if len(cands) == n and getattr(s, 'last_facts', None) == [c.header.get_id() for c in cands]:
                break
            s.last_facts = [c.header.get_id() for c in cands]
            backs, exits = s.explore([c.header for c in cands], True)
            s.check_steps(backs)
            if s.modified(backs):
                raise Unsupported('loop state unstable')
        s.terminates(cands, backs)
        e.loops_done.append(dict(function=s.f.name, header=s.h, where=s.where, candidates=len(base) + len(more), kept=len(cands),
                                 seconds=round(time.time() - t_start, 2)))
        if e.opts.get('verbose') and not e.dry:
            print('  loop %s %s  t=%s  kept %d/%d' % (s.where, s.h, s.t, len(cands), len(base) + len(more)))
            for c in cands:
                print('     ', c.name, ':', str(c.header).replace('\n', ' ')[:300])
        if not e.dry:
            for c in cands:
                e.obls.append(Obligation('loop invariant established and preserved: ' + c.name, s.where, 'proved', 0.0, 'z3'))
        return s.real_run([c.header for c in cands])

    def real_run(s, facts):
        backs, exits = s.explore(facts, False)
        for b in backs:
            s.e.flush(b)
        if s.modified(backs):
            raise Unsupported('loop state unstable (final run)')
        if backs:
            s.check_steps(backs)
        return exits

    # -------------------------------------------------------------- steps
    def deltas(s, backs):
        s.dl = []
        for b in backs:
            row = {}
            for x in s.vars:
                if x.sort in ('int', 'ptr', 'real'):
                    v = s.scalar(x, s.get(x, b))
                    hv = x.sc if x.sort == 'ptr' else x.sym
                    row[id(x)] = v - hv
            s.dl.append(row)
        return s.dl

    def invariant_poly(s, p):
        """Uses only atoms that exist before the loop and do not change in it."""
        return all(s.outer_expr(atom_expr(a)) for a in p.atoms())

    def outer_expr(s, ex, allow=()):
        """All free constants of ex predate the loop (or are in allow)."""
        seen = set()
        st = [ex]
        hs = {x.psym.get_id() for x in s.vars} | {a.get_id() for a in s.modarr.values()}
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                st.append(x.body())
                continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.get_id() in allow:
                    continue
                n = x.decl().name()
                if '!' in n:
                    try:
                        k = int(n.rsplit('!', 1)[1])
                        if k > s.counter0 and not n.startswith('addr!'):
                            return False
                    except ValueError:
                        pass
                if x.get_id() in hs:
                    return False
            st.extend(x.children())
        return True

    def find_steps(s, backs):
        steps = {}
        for x in s.vars:
            if x.sort not in ('int', 'ptr'):
                continue
            ds = [r[id(x)] for r in s.dl]
            d = ds[0]
            if all(q == d for q in ds) and s.invariant_poly(d) and d.t:
                steps[id(x)] = d
        # unchanged variables
        for x in s.vars:
            if x.sort in ('int', 'ptr') and all(not r[id(x)].t for r in s.dl):
                steps[id(x)] = Poly.const(0)
        if not steps:
            return False
        s.t = Poly.atom(s.e.fresh('t'))
        s.steps = steps
        return True

    def find_mates(s, backs):
        """y - x keeps its entry value on every back edge: y is replaced by x + (y0 - x0)."""
        s.deltas(backs)
        free = [x for x in s.vars if x.sort in ('int', 'ptr') and x.kind == 'phi' and id(x) not in s.steps]
        for k, x in enumerate(free):
            if x not in s.vars:
                continue
            for y in free[k + 1:]:
                if y in s.vars and y.sort == x.sort and y.w == x.w and all(r[id(x)] == r[id(y)] for r in s.dl):
                    s.vars.remove(y)
                    s.mates.append((y, x))
        return bool(s.mates)

    def mate_sym(s, y, x):
        if y.sort == 'ptr':
            return Ptr(y.obj, y.base + x.sc * y.unit)
        return x.sym + (y.entry - x.entry)

    def find_lag(s, backs):
        """x' = f(t) with f(-1) equal to the entry value and f linear in t:  x = f(t - 1) throughout."""
        tid = atom_id(s.t.single_atom())
        new = False
        for x in s.vars:
            if x.sort not in ('int', 'ptr') or id(x) in s.steps:
                continue
            vs = [s.scalar(x, s.get(x, b)) for b in backs]
            v = vs[0]
            if not all(q == v for q in vs):
                continue
            cc = v.coef(tid)
            if cc is None:
                continue
            c, rest = cc
            e0 = Poly.const(0) if x.sort == 'ptr' else x.entry
            if not s.invariant_poly(c) or not s.invariant_poly(rest):
                continue
            if rest - c == e0:
                s.steps[id(x)] = c
                new = True
        return new

    def peel(s):
        """The back edge turned out to be unreachable: run the single pass from the entry state itself."""
        s.modarr = {}
        s.t = None
        s.steps = {}
        for x in s.vars:
            x.sym = x.entry
            if x.sort == 'ptr':
                x.sc = Poly.const(0)
        s.peeled = True
        backs, exits = s.explore([], False)
        if backs:
            raise Unsupported('loop with an unexpected back edge')
        return exits

    def check_steps(s, backs):
        s.deltas(backs)
        bad = False
        for x in s.vars:
            if id(x) in s.steps:
                for r in s.dl:
                    if not (r[id(x)] == s.steps[id(x)]):
                        bad = True
        for y, x in s.mates:
            for b, r in zip(backs, s.dl):
                v = s.scalar(y, s.get(y, b))
                if not (v - (x.sc if y.sort == 'ptr' else y.sym) == r[id(x)]):
                    bad = True
        if bad:
            raise Unsupported('loop step not stable')

    # -------------------------------------------------------------- candidates
    def subst_back(s, b):
        """Substitution header symbols -> values at the back edge b."""
        sub = []
        if s.t is not None:
            sub.append((s.t.single_atom(), (s.t + 1).z()))
        for x in s.vars:
            if id(x) in s.steps:
                continue
            v = s.get(x, b)
            if x.sort == 'bool':
                sub.append((x.psym, zb(v)))
            else:
                sub.append((x.psym, s.scalar(x, v).z()))
        for oid, sym in s.modarr.items():
            sub.append((sym, b.mem[oid].arr))
        return sub

    def subst_entry(s):
        sub = []
        if s.t is not None:
            sub.append((s.t.single_atom(), z3.IntVal(0)))
        for x in s.vars:
            if id(x) in s.steps:
                continue
            if x.sort == 'bool':
                sub.append((x.psym, zb(x.entry)))
            elif x.sort == 'ptr':
                sub.append((x.psym, z3.IntVal(0)))
            else:
                sub.append((x.psym, x.entry.z()))
        for oid, sym in s.modarr.items():
            sub.append((sym, s.st.mem[oid].arr))
        return sub

    def cand(s, name, f, kind='s'):
        if f is True or f is False:
            return None
        return Cand(name, f, kind)

    def entry_filter(s, cands):
        sub = s.subst_entry()
        out = []
        for c in cands:
            if c is None:
                continue
            if c.hint:
                g = c.hint_eval(s, s.st, 'entry')
                flat = [q for q in conjuncts(zb(g)) if not s.e.solver.hasq(q) and not has_select(q)]
                if flat and not s.e.solver.prove(s.qf_facts(), z3.And(flat), timeout=500)[0]:
                    if DBG: print('ENTRYQ', c.name, str(flat).replace('\n', ' '))
                    continue
            else:
                g = z3.substitute(c.header, *sub)
            if s.e.solver.prove(s.st.facts, zb(g), timeout=s.gtime(c), iters=40 if c.hint else 8, seeds=s.gseeds(c))[0]:
                out.append(c)
            elif c.name == 'guard' and s.t is not None:
                # not established when the loop starts past its bound: then no iteration has run
                c2 = s.cand('guard-or-not-run', z3.Or(s.t.z() == 0, zb(c.header)))
                if c2 is not None:
                    out.append(c2)
            elif DBG and c.hint:
                print('ENTRY', c.name, str(zb(g)).replace('\n', ' '))
        return out

    def gseeds(s, c):
        """No model-based instantiation for generic candidates where explicit templates carry the proof."""
        return () if s.st.ghost.get('notemplates') and not c.hint else None

    def gtime(s, c):
        return 250 if s.st.ghost.get('notemplates') and not c.hint else s.e.opts.get('ctimeout', 1500)

    def qf_facts(s):
        if not hasattr(s, '_qf') or s._qf[0] != len(s.st.facts):
            s._qf = (len(s.st.facts), [f for f in s.st.facts if not s.e.solver.hasq(f)])
        return s._qf[1]

    def houdini(s, cands, backs):
        subs = [s.subst_back(b) for b in backs]
        cands = list(cands)
        good = {}
        while True:
            removed = False
            hyp = [c.header for c in cands]
            # scalar candidates only need scalar hypotheses most of the time: try cheap first
            for c in list(cands):
                ok = True
                for k, b in enumerate(backs):
                    g = c.hint_eval(s, b, 'back') if c.hint else z3.substitute(c.header, *subs[k])
                    facts = b.facts + [g2 for g2, _, _ in b.pend]
                    key = (id(c), k)
                    pr = good.get(key)
                    if pr is not None and all(h in hypset(hyp) for h in pr):
                        continue
                    if c.kind == 's':
                        hs = [h for h in hyp if not s.e.solver.hasq(h)]
                        fs = [f for f in facts if not s.e.solver.hasq(f)]
                        if s.e.solver.prove(fs + hs, zb(g), timeout=600)[0]:
                            good[key] = frozenset(h.get_id() for h in hs)
                            continue
                        if not any(s.e.solver.hasq(f) for f in facts + hyp):
                            ok = False
                            break
                    if c.hint:
                        # fewer hypotheses make instantiation more predictable
                        sel = [h for c3, h in zip(cands, hyp) if c3 is c or c3.kind == 's' or c3.name.startswith('frame')]
                        sel2 = [h for c3, h in zip(cands, hyp) if c3.hint or c3.kind == 's']
                        used = s.prove_hint(facts, hyp, sel, sel2, zb(g))
                        if used is not None:
                            good[key] = used
                            continue
                    elif s.e.solver.prove(facts + hyp, zb(g), timeout=s.gtime(c), seeds=s.gseeds(c))[0]:
                        good[key] = frozenset(h.get_id() for h in hyp)
                        continue
                    ok = False
                    if DBG and c.hint:
                        print('DROP', c.name, k, str(c.header).replace('\n', ' '))
                        if DBG != '1':
                            break
                        sv = z3.Solver()
                        for h in facts + hyp:
                            sv.add(h)
                        sv.add(z3.Not(zb(g)))
                        open('/tmp/drop_%d.smt2' % id(c), 'w').write(sv.to_smt2())
                        print('   /tmp/drop_%d.smt2' % id(c))
                    break
                if not ok:
                    cands.remove(c)
                    removed = True
                    hyp = [c2.header for c2 in cands]
            if not removed:
                return cands

    def prove_hint(s, facts, hyp, sel, sel2, g):
        """Every conjunct of an invariant template; the ids of the hypotheses used, or None."""
        to = s.e.opts.get('ctimeout', 1500)
        used = set()
        todo = []
        sets = [hyp] + [hs for hs in (sel, sel2) if len(hs) < len(hyp)]
        for q in conjuncts(g):
            for hs in sets:
                if s.e.solver.prove(facts + hs, q, timeout=to, iters=40, seeds=())[0]:
                    used.update(h.get_id() for h in hs)
                    break
            else:
                if not s.e.solver.hasq(q) and not any(s.e.solver.hasq(h) for h in facts + hyp):
                    return None
                todo.append(q)
        for q in todo:
            for hs, seeds in ((sel2, (1, 2)), (hyp, (1,)), (sel, (3,))):
                if s.e.solver.prove(facts + hs, q, timeout=to, iters=40, seeds=seeds)[0]:
                    used.update(h.get_id() for h in hs)
                    break
            else:
                return None
        return frozenset(used)

    def scalar_cands(s, backs, extra=False):
        out = []
        names = []
        Z = Poly.const(0)
        allow = {x.psym.get_id() for x in s.vars}
        if s.t is not None:
            allow.add(s.t.single_atom().get_id())

        def ok(p):
            return all(s.outer_expr(atom_expr(a), allow) for a in p.atoms())

        def add(nm, f):
            c = s.cand(nm, f)
            if c is not None and not any(c.header.eq(o.header) for o in out):
                out.append(c)

        # 1. guards: differences compared in the loop
        ds = []
        for d in s.ctx.cmps:
            if d.is_const() or d.real or not ok(d):
                continue
            has = any(a in allow_ids(allow) for a in d.atoms())
            if not has:
                continue
            for q in (d,):
                if not any(q == o or q == -o for o in ds):
                    ds.append(q)
        for d in ds[:12]:
            for c in (0, -1, 1):
                add('guard', cmp('ge', d, Poly.const(c)))
                add('guard', cmp('le', d, Poly.const(c)))
        # 2. opaque variables against bounds
        opaque = [x for x in s.vars if x.sort in ('int', 'ptr') and id(x) not in s.steps]
        bounds = [Z]
        for n, p in s.st.names:
            if not p.real and not any(p == b for b in bounds):
                bounds.append(p)
        for x in s.vars:
            if x.sort == 'int' and isinstance(x.entry, Poly) and not x.entry.real and not any(x.entry == b for b in bounds):
                bounds.append(x.entry)
        for d in ds[:8]:
            pass
        bounds = bounds[:14]
        for x in opaque:
            v = x.sc if x.sort == 'ptr' else x.sym
            if x.sort == 'ptr':
                add('opaque', cmp('ge', v, Z))
                add('opaque', cmp('le', v, Z))
                lim = []
                # against other pointers of the same object and the object end
                o = s.st.mem.get(x.obj)
                if o is not None and o.w == x.unit:
                    lim.append(o.n() - (x.base.divexact(o.w) or Z))
                for y in s.vars:
                    if y.sort == 'ptr' and y is not x and y.obj == x.obj and y.unit == x.unit:
                        db = (y.base - x.base).divexact(x.unit)
                        if db is not None:
                            lim.append(db + y.sc)
                            lim.append(db)
                for b in lim:
                    add('opaque', cmp('le', v, b))
                    add('opaque', cmp('ge', v, b))
            else:
                for b in bounds:
                    if x.entry.is_const() and b.is_const() and not (b == x.entry) and b.t:
                        continue
                    add('opaque', cmp('le', v, b))
                    add('opaque', cmp('ge', v, b))
                for y in s.vars:
                    if y.sort == 'int' and y is not x:
                        add('pair', cmp('le', v, y.sym))
                        add('pair', cmp('ge', v, y.sym))
            if s.t is not None:
                v0 = Z if x.sort == 'ptr' else x.entry
                add('rate', cmp('le', v - v0, s.t))
                add('rate', cmp('ge', v - v0, -s.t))
        # 3. linear equalities between variables with per-path constant deltas
        lin = [x for x in s.vars if x.sort in ('int', 'ptr', 'real') and all(r[id(x)].is_const() for r in s.dl)]
        dyn = [x for x in lin if id(x) not in s.steps]
        if dyn:
            cols = list(dyn)
            rows = [[r[id(x)].cval() for x in cols] + ([1] if s.t is not None else []) for r in s.dl]
            for vec in nullspace(rows, len(cols) + (1 if s.t is not None else 0)):
                expr = Poly.const(0)
                for x, c in zip(cols, vec):
                    if c:
                        v = x.sc if x.sort == 'ptr' else x.sym - x.entry
                        expr = expr + v * c
                if s.t is not None and vec[-1]:
                    expr = expr + s.t * vec[-1]
                add('linear', cmp('eq', expr, Poly.const(0)))
        # 4. parity / divisibility of opaque things is not needed so far
        # booleans: unchanged
        for x in s.vars:
            if x.sort == 'bool':
                add('bool', x.psym == zb(x.entry))
        # ghosts and other ints unchanged
        for x in s.vars:
            if x.kind in ('ghost', 'cell') and x.sort in ('int', 'real') and id(x) not in s.steps:
                add('unchanged', cmp('eq', x.sym, x.entry))
        return out

    # ---- memory
    def memory_cands(s, backs):
        out = []
        e = s.e
        seen = set()
        groups = {}
        # stores on the back-edge paths (inner loops and exit paths included: harmless superset)
        for oid, idx, v, facts in s.ctx.stores:
            if oid not in s.modarr:
                continue
            groups.setdefault(oid, [])
            if idx is None:
                groups[oid].append(None)
                continue
            if any(g is not None and g[0] == idx and g[1] == v for g in groups[oid]):
                continue
            groups[oid].append((idx, v))
        tid = atom_id(s.t.single_atom()) if s.t is not None else None
        allow = {x.psym.get_id() for x in s.vars} | ({s.t.single_atom().get_id()} if s.t is not None else set())

        def search(name, f):
            if f is not None:
                out.append(Cand(name, f, 'm'))

        for oid, sym in s.modarr.items():
            o = s.st.mem[oid]
            entry = o.arr
            st = groups.get(oid, [])
            ranges = []
            for g in st:
                if g is None:
                    ranges.append(None)
                    continue
                idx, v = g
                r = None
                if tid is not None:
                    cc = idx.coef(tid)
                    if cc is not None:
                        c, rest = cc
                        if c.is_const() and c.cval() in (1, -1) and s.invariant_poly(rest):
                            r = (c.cval(), rest, v)
                ranges.append(r)
            k = z3.Int('k!m%d' % oid)
            # affine ranges touched so far
            aff = [r for r in ranges if r]
            uniq = []
            for r in aff:
                if not any(r[0] == u[0] and r[1] == u[1] for u in uniq):
                    uniq.append(r)
            t = s.t

            def inr(r):
                c, e0 = r[0], r[1]
                if c == 1:
                    return z3.And(e0.z() <= k, k < (e0 + t).z())
                return z3.And((e0 - t).z() < k, k <= e0.z())
            if uniq:
                body = z3.Select(sym, k) == z3.Select(entry, k)
                search('frame', qall(k, z3.Implies(z3.Not(z3.Or([inr(r) for r in uniq])), body), sym))
            explicit = s.st.ghost.get('notemplates')             # explicit templates describe the memory
            # opaque index variables as frame limits
            ops = [x for x in s.vars if x.sort in ('int', 'ptr') and id(x) not in s.steps and not explicit]
            lims = []
            for g in st:
                if g is None:
                    continue
                idx = g[0]
                for x in ops:
                    a = atom_id(x.psym)
                    cc = idx.coef(a)
                    if cc is None or not cc[0].is_const() or cc[0].cval() not in (1, -1):
                        continue
                    rest = cc[1]
                    if not s.invariant_poly(rest):
                        continue
                    c = cc[0].cval()
                    e0 = idx_at(idx, a, (Poly.const(0) if x.sort == 'ptr' else x.entry))
                    cur = idx
                    if not any(l[0] == e0 and l[1] == cur for l in lims):
                        lims.append((e0, cur))
            for e0, cur in lims:
                for lo, hi in ((e0, cur), (cur, e0)):
                    for dl, dh in ((0, 0), (0, 1), (1, 0), (1, 1)):
                        search('frame-opaque', qall(k, z3.Implies(z3.Not(z3.And((lo + dl).z() <= k, k < (hi + dh).z())), z3.Select(sym, k) == z3.Select(entry, k)), sym))
            if o.tr and not explicit:
                for c1, c2 in ((lambda z: z >= 1,) * 2, (lambda z: z >= 2,) * 2, (lambda z: z == 0,) * 2):
                    search('liveness', qall(k, z3.Implies(c1(z3.Select(entry, k)), c2(z3.Select(sym, k))), sym))
            # generic frames by program integers
            if st and not explicit and (not uniq or len(uniq) != len([g for g in st if g is not None]) or None in st):
                bs = [Poly.const(0)] + [p for _, p in s.st.names if not p.real] + [o.n()]
                bs += [x.sym for x in s.vars if x.sort == 'int']
                for x in s.vars:
                    if x.sort == 'ptr' and x.obj == oid and o.w == x.unit:
                        d = x.sym.off.divexact(o.w)
                        if d is not None:
                            bs.append(d)
                            bs.append(x.base.divexact(o.w))
                u = []
                for b in bs:
                    if b is not None and not any(b == q for q in u):
                        u.append(b)
                for b in u[:10]:
                    search('frame-lo', qall(k, z3.Implies(k < b.z(), z3.Select(sym, k) == z3.Select(entry, k)), sym))
                    search('frame-hi', qall(k, z3.Implies(k >= b.z(), z3.Select(sym, k) == z3.Select(entry, k)), sym))
            # contents
            for gi, g in enumerate(st):
                r = ranges[gi] if g is not None else None
                if r is None:
                    continue
                c, e0, v = r
                vz = z3.simplify(s.e.unname(v.z()))
                # value as function of position k:  t -> (k - e0) * c
                pos = (k - e0.z()) if c == 1 else (e0.z() - k)
                if not s.outer_expr(vz, allow | {a.get_id() for a in s.modarr.values()}):
                    continue
                if any(s.occurs(vz, x.psym) for x in s.vars if id(x) not in s.steps):
                    cacc = s.accum(v, r, sym, k, backs)
                    for f in cacc:
                        search('recurrence', qall(k, f, sym) if not isinstance(f, Plain) else f.f)
                    continue
                sub = [(t.single_atom(), pos)]
                variants = []
                v1 = z3.substitute(vz, *([(a, s.st.mem[q].arr) for q, a in s.modarr.items()]))
                variants.append(z3.substitute(v1, *sub))
                if not v1.eq(vz):
                    variants.append(z3.substitute(vz, *sub))
                others = [u for u in uniq if not (u[0] == r[0] and u[1] == r[1])]
                for val in variants:
                    eqn = z3.Select(sym, k) == z3.simplify(val)
                    search('content', qall(k, z3.Implies(inr(r), eqn), sym))
                    for m in range(1, len(others) + 1):
                        for sel in itertools.combinations(others, m):
                            search('content-minus', qall(k, z3.Implies(z3.And(inr(r), z3.Not(z3.Or([inr(u) for u in sel]))), eqn), sym))
        # searches: conditions that held on every completed iteration
        if s.t is not None and not s.st.ghost.get('notemplates'):
            k = z3.Int('k!s')
            t = s.t
            done = set()
            for b in backs:
                for fct in b.facts[len(s.hs.facts):]:
                    if DBG == '1': print('FCT', fct, has_select(fct), s.occurs(fct, s.t.single_atom()), s.outer_expr(fct, allow | {a.get_id() for a in s.modarr.values()}), len(b.facts), len(s.hs.facts))
                    if s.e.solver.hasq(fct) or fct.get_id() in done:
                        continue
                    done.add(fct.get_id())
                    orig = fct
                    fct = s.e.unname(fct)
                    if not fct.eq(orig):
                        fct = z3.simplify(fct)
                    if not has_select(fct) or not s.occurs(fct, s.t.single_atom()):
                        continue
                    if not s.outer_expr(fct, allow | {a.get_id() for a in s.modarr.values()}):
                        continue
                    if any(s.occurs(fct, x.psym) for x in s.vars if id(x) not in s.steps):
                        continue
                    f1 = z3.substitute(fct, *[(a, s.st.mem[q].arr) for q, a in s.modarr.items()])
                    # reposition on the array index when it is  e0 + t
                    sel = find_selects(f1)
                    forms = []
                    for q in sel:
                        ip = Poly.of(q.arg(1)).coef(tid)
                        if ip and ip[0].is_const() and ip[0].cval() in (1, -1) and s.invariant_poly(ip[1]):
                            c, e0 = ip[0].cval(), ip[1]
                            pos = (k - e0.z()) if c == 1 else (e0.z() - k)
                            rg = z3.And(e0.z() <= k, k < (e0 + t).z()) if c == 1 else z3.And((e0 - t).z() < k, k <= e0.z())
                            body = norm_idx(z3.substitute(f1, (t.single_atom(), pos)))
                            forms.append(intrinsics.forall([k], z3.Implies(rg, body)))
                    if len(backs) == 1 or all(any(orig.eq(g) for g in bb.facts) for bb in backs):
                        for f in forms:
                            search('search', f)
        # searches driven by opaque bounds (bisection): predicates over one array read
        for x in s.vars:
            if x.sort != 'int' or id(x) in s.steps:
                continue
            k = z3.Int('k!b')
            preds = []
            for c in s.ctx.conds:
                c = s.e.unname(c)
                for q in find_selects(c):
                    if not s.outer_expr(q.arg(0)):
                        continue
                    p = z3.substitute(c, (q, z3.Select(q.arg(0), k)))
                    if not s.outer_expr(p, {k.get_id()}):
                        continue
                    if not any(p.eq(z) for z in preds):
                        preds.append(p)
            for p in preds[:6]:
                for pr in (p, z3.Not(p)):
                    for lo, hi in ((x.entry.z(), x.psym), (x.psym, x.entry.z())):
                        for dl in (0, 1):
                            search('bisect', intrinsics.forall([k], z3.Implies(z3.And(lo + dl <= k, k < hi + dl) if dl else z3.And(lo <= k, k < hi), pr)))
        # same with pointers
        u = []
        for c in out:
            if not any(c.header.eq(o.header) for o in u):
                u.append(c)
        return u

    def accum(s, v, r, sym, k, backs):
        """store of a running total:  cell[k] = cell[k-1] + d(k)"""
        out = []
        c, e0, _ = r
        if c != 1:
            return out
        for x in s.vars:
            if x.sort not in ('int', 'real') or id(x) in s.steps:
                continue
            ds = [rr[id(x)] for rr in s.dl]
            d = ds[0]
            if not all(q == d for q in ds):
                continue
            dz = z3.substitute(d.z(), *[(a, s.st.mem[q].arr) for q, a in s.modarr.items()])
            diff = v - x.sym
            # stored value is acc (before) or acc + d (after)
            for shift, val in ((0, Poly.const(0)), (1, d)):
                if diff == val:
                    if shift == 1:
                        # M[e0] = x0 + d(0); M[k] = M[k-1] + d(k-e0); x = M[e0+t-1] (t>0)
                        dk = z3.substitute(dz, (s.t.single_atom(), k - e0.z()))
                        out.append(z3.Implies(z3.And(e0.z() < k, k < (e0 + s.t).z()), z3.Select(sym, k) == z3.Select(sym, k - 1) + dk))
                        d0 = z3.substitute(dz, (s.t.single_atom(), z3.IntVal(0)))
                        out.append(Plain(z3.Implies((s.t > 0) if not isinstance(s.t, Poly) else s.t.z() > 0, z3.Select(sym, e0.z()) == x.entry.z() + d0)))
                        out.append(Plain(z3.If(s.t.z() > 0, x.psym == z3.Select(sym, (e0 + s.t - 1).z()), x.psym == x.entry.z())))
                    else:
                        dk = z3.substitute(dz, (s.t.single_atom(), k - 1 - e0.z()))
                        out.append(z3.Implies(z3.And(e0.z() < k, k < (e0 + s.t).z()), z3.Select(sym, k) == z3.Select(sym, k - 1) + dk))
                        dl = z3.substitute(dz, (s.t.single_atom(), (s.t - 1).z()))
                        out.append(Plain(z3.Implies(s.t.z() > 0, z3.Select(sym, e0.z()) == x.entry.z())))
                        out.append(Plain(z3.If(s.t.z() > 0, x.psym == z3.Select(sym, (e0 + s.t - 1).z()) + dl, x.psym == x.entry.z())))
        return out

    def occurs(s, ex, c):
        st = [ex]
        seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.get_id() == c.get_id():
                return True
            if z3.is_quantifier(x):
                st.append(x.body())
            st.extend(x.children())
        return False

    def hint_cands(s, measure=False):
        out = []
        for fn, ctx, nargs in s.st.ghost.get('hints', ()):
            if (nargs[4] & 1 != 0) != measure:
                continue
            # terms the template ranges over
            terms = []
            for x in s.vars:
                if x.kind == 'ghost':
                    continue
                if x.sort == 'int':
                    terms.append(('v', x))
                elif x.sort == 'ptr':
                    terms.append(('v', x))
            nv, no, nc, na, fl = nargs
            kinds = [(fl >> (1 + 2 * i)) & 3 for i in range(nv)]         # 0 any, 1 pointer, 2 integer variable, 3 integer (memory included)
            tuples = (q for q in itertools.permutations(terms, nv) if all(w == 0 or (x.sort == 'ptr' if w == 1 else x.sort == 'int' and (w == 3 or x.kind != 'cell')) for w, (_, x) in zip(kinds, q)))
            combos = itertools.product(tuples, itertools.permutations([x for x in s.outer_terms() if not x[1].cell], no) if no else [()],
                                       itertools.permutations([x for x in s.outer_terms() if x[1].cell], nc) if nc else [()],
                                       itertools.permutations(s.local_arrays(), na) if na else [()])
            seen = []
            for cb in itertools.islice(combos, 240):
                cb = cb[0] + cb[1] + cb[2] + cb[3]
                c = HintCand(s, fn, ctx, cb)
                try:
                    vals = [c.argval(s, x, s.hs, 'header') for _, x in cb]
                except Unsupported:
                    continue
                if any(all(isinstance(u, Poly) and isinstance(v, Poly) and u == v or isinstance(u, Ptr) and isinstance(v, Ptr) and u.o == v.o and u.off == v.off
                           for u, v in zip(vals, w)) for w in seen):
                    continue             # variables in lock step
                seen.append(vals)
                try:
                    c.header = c.eval(s, s.hs, 'header', measure)
                except Unsupported:
                    continue
                if measure:
                    out.append(c)
                    continue
                c.header = zb(c.header)
                if z3.is_true(c.header) or z3.is_false(c.header):
                    continue
                out.append(c)
        return out

    def local_arrays(s):
        return [('a', OuterVal(Ptr(oid, Poly.const(0)), o.name)) for oid, o in s.hs.mem.items() if o.isstack and o.alive and o.kind == 'arr']

    def outer_terms(s):
        """Values fixed during the loop: outer SSA values the body uses, and single-cell local objects it does not change."""
        if hasattr(s, '_outer'):
            return s._outer
        names = []

        def walk(x):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == 'loc' and isinstance(x[1], str):
                if x[1] not in names:
                    names.append(x[1])
            elif isinstance(x, (tuple, list)):
                for y in x:
                    walk(y)
        defs = set()
        for b in s.f.blocks:
            if b in s.body:
                for ins in s.f.blocks[b].ins:
                    defs.add(ins.res)
                    if ins.op == 'phi':
                        continue
                    walk(ins.a)
        for h in s.f.loops:
            if h != s.h and s.h in s.f.loops[h]:
                for ins in s.f.blocks[h].ins:
                    if ins.op == 'phi' and ins.res not in names:
                        names.append(ins.res)
        out = []
        seen = []
        env = s.st.fr.env
        for n in names:
            v = env.get(n)
            if n in defs or v is None:
                continue
            if isinstance(v, Ptr) and v.o is not None:
                v = v.off.divexact(8)
            if isinstance(v, Poly) and not v.real and not v.is_const() and v not in seen:
                seen.append(v)
                out.append(('o', OuterVal(v, n)))
        cells = {x.key[0] for x in s.vars if x.kind == 'cell'}
        for oid, o in s.hs.mem.items():
            if o.isstack and o.alive and o.kind == 'cells' and o.nbytes.is_const() and o.nbytes.cval() <= 16 and oid not in cells:
                for off, (w, v) in o.cells.items():
                    if w == 8 and isinstance(v, Poly) and not v.real and not v.is_const() and v not in seen:
                        seen.append(v)
                        out.append(('o', OuterVal(v, o.name, True)))
        s._outer = out
        return out

    # -------------------------------------------------------------- termination
    def terminates(s, cands, backs):
        e = s.e
        if e.dry or e.opts.get('noterm'):
            return
        facts0 = []
        for c in cands:
            todo = [c.header]
            while todo:
                f = todo.pop()
                if z3.is_and(f):
                    todo.extend(f.children())
                else:
                    facts0.append(f)
        measures = []
        if s.t is not None:
            tid = atom_id(s.t.single_atom())
        for d in s.ctx.cmps:
            if not d.real and not d.is_const():
                measures += [d, -d]
        for x in s.vars:
            if x.sort == 'int':
                measures += [x.sym, -x.sym]
            if x.sort == 'ptr' and x.obj is not None:
                dd = x.sym.off.divexact(x.unit)
                o = s.hs.mem.get(x.obj)
                if dd is not None:
                    measures.append(dd)
                    if o is not None and o.kind == 'arr' and o.w == x.unit:
                        measures.append(o.n() - dd)
            for y in s.vars:
                if x.sort == 'int' and y.sort == 'int' and x is not y:
                    measures.append(x.sym - y.sym)
                if x.sort == 'ptr' and y.sort == 'ptr' and x is not y and x.obj == y.obj:
                    dd = (x.sym.off - y.sym.off).divexact(x.unit)
                    if dd is not None:
                        measures.append(dd)
        for n, p in s.st.names:
            if p.real:
                continue
            for x in s.vars:
                if x.sort == 'int':
                    measures += [p - x.sym]
        allow = {x.psym.get_id() for x in s.vars}
        if s.t is not None:
            allow.add(s.t.single_atom().get_id())
        t0 = time.time()
        subs = [s.subst_back(b) for b in backs]
        tried = []
        for m in measures:
            if any(m == q for q in tried):
                continue
            tried.append(m)
            if not all(s.outer_expr(atom_expr(a), allow) for a in m.atoms()):
                continue
            if not any(a in allow_ids(allow) for a in m.atoms()):
                continue
            ok = True
            for b, sub in zip(backs, subs):
                m2 = z3.substitute(m.z(), *sub)
                goal = z3.And(m.z() >= -1, m2 < m.z())
                fs = [f for f in b.facts + facts0 if not e.solver.hasq(f)]
                if not e.solver.prove(fs, goal, timeout=800)[0]:
                    ok = False
                    break
            if ok:
                e.obls.append(Obligation('loop terminates (measure %s)' % str(m)[:60], s.where, 'proved', time.time() - t0, 'z3'))
                return
        for c in s.hint_cands(True):
            m = c.header
            ok = True
            for b in backs:
                try:
                    m2 = c.eval(s, b, 'back', True)
                except Unsupported:
                    ok = False
                    break
                goal = z3.And(m.z() >= 0, m2.z() < m.z())
                goals = (m.z() >= 0, m2.z() < m.z())
                if DBG:
                    for q in goals:
                        if not e.solver.prove(b.facts + facts0, q)[0]: print('MEASURE', str(q)[:400], e.solver.last_model)
                if not all(e.solver.prove(b.facts + facts0, q)[0] for q in goals):
                    ok = False
                    break
            if ok:
                e.obls.append(Obligation('loop terminates (measure %s)' % c.name, s.where, 'proved', time.time() - t0, 'z3'))
                return
        e.noterm = getattr(e, 'noterm', [])
        e.noterm.append(s.where)
        if not e.opts.get('allow_noterm'):
            e.obls.append(Obligation('loop terminates', s.where, 'failed', time.time() - t0, 'z3'))
            e.fail(s.st, 'loop terminates', s.where, 'no decreasing measure found (loop %s)' % s.h)


class Plain:
    def __init__(s, f): s.f = f


class Cand:
    hint = False

    def __init__(s, name, header, kind):
        s.name = name; s.header = header; s.kind = kind


def conjuncts(f):
    out, todo = [], [f]
    while todo:
        g = todo.pop()
        if z3.is_and(g):
            todo.extend(g.children())
        else:
            out.append(g)
    return out


class OuterVal:
    def __init__(s, v, name, cell=False):
        s.v = v; s.name = name; s.cell = cell


class HintCand:
    hint = True
    kind = 'm'

    def __init__(s, lp, fn, ctx, cb):
        s.fn = fn; s.ctx = ctx; s.cb = cb
        s.name = 'template %s(%s)' % (fn[-30:], ','.join(x.name for _, x in cb))

    def argval(s, lp, x, st, which):
        if isinstance(x, OuterVal):
            return x.v
        if which == 'header':
            v = x.sym
        elif which == 'entry':
            v = x.entry
        else:
            v = lp.get(x, st)
        if isinstance(v, Ptr):
            d = v.off.divexact(x.unit)
            if d is None:
                raise Unsupported('pointer argument of a template')
            return d
        return v

    def eval(s, lp, st, which, num=False):
        args = [s.ctx] + [s.argval(lp, x, st, which) for _, x in s.cb]
        return lp.e.eval_spec(st, s.fn, args, num)

    def hint_eval(s, lp, st, which):
        return zb(s.eval(lp, st, which))


class BadUnit(Exception):
    def __init__(s, x): s.x = x


def hypset(hyp):
    return {h.get_id() for h in hyp}


def allow_ids(allow):
    import poly
    return {poly._index[i] for i in allow if i in poly._index}


def idx_at(idx, a, val):
    c, r = idx.coef(a)
    return c * val + r


def qall(k, body, sym):
    return z3.ForAll([k], body, patterns=[z3.Select(sym, k)])


def has_select(f):
    return bool(find_selects(f))


def find_selects(f):
    out = []
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT:
            out.append(x)
        st.extend(x.children())
    return out


def norm_idx(f):
    """Simplify array indices inside f so that read patterns are syntactically plain."""
    sub = []
    for q in find_selects(f):
        i = Poly.of(z3.simplify(q.arg(1)))
        n = z3.Select(q.arg(0), i.z())
        if not n.eq(q):
            sub.append((q, n))
    return z3.substitute(f, *sub) if sub else f


def nullspace(rows, n):
    """Basis of integer vectors v with rows . v = 0 (n columns)."""
    m = [[Fraction(x) for x in r] for r in rows]
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(m)) if m[i][c] != 0), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        d = m[r][c]
        m[r] = [x / d for x in m[r]]
        for i in range(len(m)):
            if i != r and m[i][c] != 0:
                k = m[i][c]
                m[i] = [x - k * y for x, y in zip(m[i], m[r])]
        piv.append(c)
        r += 1
    out = []
    for f in range(n):
        if f in piv:
            continue
        v = [Fraction(0)] * n
        v[f] = Fraction(1)
        for i, c in enumerate(piv):
            v[c] = -m[i][f]
        L = 1
        for x in v:
            L = L * x.denominator // __import__('math').gcd(L, x.denominator)
        out.append([int(x * L) for x in v])
    return out
