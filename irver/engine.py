"""Verification-condition generator: symbolic execution of LLVM IR with loop cuts, inferred-and-checked inductive
invariants (template candidates filtered by Houdini), and discharge of every obligation with z3 (cvc5 as second solver)."""
import os
import re
import sys
import time
import itertools
from fractions import Fraction
import z3
import ir
from ir import IntT, FloatT, PtrT, StructT, ArrT, NamedT, VoidT
from poly import Poly, cmp, Not, And, Or, Implies, ite, zb, atom_expr
import solve

FATAL = ('callErrorHandler', '_ZSt9terminatev', 'abort', '__cxa_throw', '__cxa_rethrow', '__clang_call_terminate',
         '__assert_fail', '_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv',
         '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc', '_ZSt16__throw_bad_castv',
         '_ZSt25__throw_bad_function_callv', '_Unwind_Resume', 'exit', '_exit')


def is_fatal(n):
    n = n.lstrip('@').strip('"')
    return n in FATAL or 'callErrorHandler' in n


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(s, o, off):
        s.o = o
        s.off = off

    def __repr__(s):
        return 'Ptr(%s,%s)' % (s.o, s.off)


NULL = Ptr(None, Poly.const(0))


class Fn:
    __slots__ = ('n',)

    def __init__(s, n): s.n = n
    def __repr__(s): return 'Fn(%s)' % s.n


class Undef:
    def __repr__(s): return 'undef'


UNDEF = Undef()


class Obj:
    """Memory object.  kind: 'raw' (type not yet known), 'cells' (constant offsets), 'arr' (uniform elements)."""
    __slots__ = ('name', 'kind', 'w', 'arr', 'nbytes', 'cells', 'alive', 'heap', 'ro', 'real', 'tr', 'zero', 'isstack', 'stride', 'lanes')

    def __init__(s, name, nbytes, kind='raw', w=0, arr=None, heap=False, ro=False, real=False, tr=False, zero=False, isstack=False):
        s.name = name; s.kind = kind; s.w = w; s.arr = arr; s.nbytes = nbytes; s.cells = {}
        s.alive = True; s.heap = heap; s.ro = ro; s.real = real; s.tr = tr; s.zero = zero; s.isstack = isstack
        s.stride = 0         # size of the array elements the object was declared with
        s.lanes = {}         # array of pointers: position within an element -> (object pointed into, unit of the stored offset)

    def lane(s, idx):
        k = max(1, s.stride // s.w)
        c = 0
        for m, x in idx.t.items():
            if m == ():
                c = x
            elif x % k:
                raise Unsupported('unclear position in an array of pointers')
        return c % k

    def clone(s):
        o = Obj.__new__(Obj)
        for k in Obj.__slots__:
            setattr(o, k, getattr(s, k))
        o.cells = dict(s.cells)
        o.lanes = dict(s.lanes)
        return o

    def n(s):
        return s.nbytes.divexact(s.w)


class Frame:
    __slots__ = ('f', 'env', 'block', 'prev', 'idx', 'ret', 'allocas', 'unroll')

    def __init__(s, f):
        s.f = f; s.env = {}; s.block = f.entry; s.prev = None; s.idx = 0; s.ret = None; s.allocas = []; s.unroll = {}

    def copy(s):
        g = Frame.__new__(Frame)
        g.f = s.f; g.env = dict(s.env); g.block = s.block; g.prev = s.prev; g.idx = s.idx; g.ret = s.ret
        g.allocas = list(s.allocas); g.unroll = dict(s.unroll)
        return g


class State:
    __slots__ = ('frames', 'mem', 'facts', 'ghost', 'abort_ok', 'spec', 'pend', 'notes', 'names')

    def __init__(s):
        s.frames = []; s.mem = {}; s.facts = []; s.ghost = {}; s.abort_ok = False; s.spec = 0; s.pend = []; s.notes = []
        s.names = []

    def fork(s):
        t = State.__new__(State)
        t.frames = [f.copy() for f in s.frames]
        t.mem = dict(s.mem)
        t.facts = list(s.facts)
        t.ghost = dict(s.ghost)
        t.abort_ok = s.abort_ok
        t.spec = s.spec
        t.pend = list(s.pend)
        t.notes = list(s.notes)
        t.names = list(s.names)
        return t

    @property
    def fr(s):
        return s.frames[-1]


class LoopCtx:
    def __init__(s, depth, header, body):
        s.depth = depth; s.header = header; s.body = body
        s.stores = []
        s.cmps = []
        s.conds = []


class Obligation:
    def __init__(s, name, where, status, secs, backend, note=''):
        s.name = name; s.where = where; s.status = status; s.secs = secs; s.backend = backend; s.note = note


class NoUnroll(Exception):
    pass


class VerifyFail(Exception):
    pass


class Engine:
    MAXUNROLL = 80
    MAXFORKS = 8

    def __init__(s, mod, opts=None):
        s.m = mod
        s.opts = dict(overflow='check', fast=False, deadline=None, qtimeout=6000, maxpaths=4000)
        if opts:
            s.opts.update(opts)
        s.counter = 0
        s.objc = 0
        s.obls = []
        s.failures = []
        s.dry = 0
        s.ctxs = []
        s.completed = 0
        s.loops_done = []
        s.inv_log = []
        s.assumptions = set()
        s.contracted = set()
        s.solver = solve.Solver(s)
        s.stores = {}
        s.globals = {}
        s.paths = 0
        s.cur_where = '?'
        for f in mod.funcs.values():
            f.irreducible = False
        s.analysed = set()
        s.instr_funcs = set()
        s.aborts_seen = 0

    # ------------------------------------------------------------------ utilities
    def fresh(s, base, sort='int'):
        s.counter += 1
        n = '%s!%d' % (base, s.counter)
        if sort == 'int':
            return z3.Int(n)
        if sort == 'real':
            return z3.Real(n)
        if sort == 'bool':
            return z3.Bool(n)
        if sort == 'arr':
            return z3.Array(n, z3.IntSort(), z3.IntSort())
        if sort == 'rarr':
            return z3.Array(n, z3.IntSort(), z3.RealSort())
        raise ValueError(sort)

    def newobj(s, st, obj):
        s.objc += 1
        st.mem[s.objc] = obj
        return s.objc

    def func(s, name):
        f = s.m.funcs[name]
        if name not in s.analysed:
            ir.analyse(f, is_fatal)
            s.analysed.add(name)
            if f.irreducible:
                raise Unsupported('irreducible control flow in ' + name)
        return f

    def where(s, ins):
        return s.m.where(ins.dbg)

    # ------------------------------------------------------------------ facts / obligations
    def add_fact(s, st, b):
        if b is True:
            return
        s.flush(st)
        st.facts.append(zb(b))

    def oblige(s, st, goal, name, where=None):
        """Implicit obligation: batched until the next fact."""
        if s.dry or st.spec:
            return
        if goal is True:
            s.obls.append(Obligation(name, where or s.cur_where, 'proved', 0.0, 'syntactic'))
            return
        st.pend.append((zb(goal), name, where or s.cur_where))

    def flush(s, st):
        if not st.pend:
            return
        pend, st.pend = st.pend, []
        if s.dry:
            return
        goals = z3.And([g for g, _, _ in pend]) if len(pend) > 1 else pend[0][0]
        t0 = time.time()
        ok, be = s.solver.prove(st.facts, goals)
        dt = time.time() - t0
        if ok:
            for g, n, w in pend:
                s.obls.append(Obligation(n, w, 'proved', dt / len(pend), be))
        else:
            for g, n, w in pend:
                if len(pend) > 1:
                    t0 = time.time()
                    ok, be = s.solver.prove(st.facts, g)
                    dt = time.time() - t0
                s.obls.append(Obligation(n, w, 'proved' if ok else 'failed', dt, be))
                if not ok:
                    s.fail(st, n, w, g)
        for g, n, w in pend:
            st.facts.append(g)

    def fail(s, st, name, where, goal):
        model = s.solver.last_model
        s.failures.append(dict(obligation=name, where=where, goal=str(goal)[:1500], model=model, path=list(st.notes[-40:]),
                               names=[(n, str(p.z())) for n, p in st.names]))
        if s.opts.get('failfast') and len(s.failures) >= s.opts['failfast']:
            raise VerifyFail()

    def check_assert(s, st, goal, name, where=None):
        if s.dry:
            if not st.spec:
                st.facts.append(zb(goal))
            return
        s.flush(st)
        where = where or s.cur_where
        if goal is True:
            s.obls.append(Obligation(name, where, 'proved', 0.0, 'syntactic'))
            return
        t0 = time.time()
        ok, be = s.solver.prove(st.facts, zb(goal), hard=True)
        s.obls.append(Obligation(name, where, 'proved' if ok else 'failed', time.time() - t0, be))
        if not ok:
            s.fail(st, name, where, goal)
        st.facts.append(zb(goal))

    def known(s, st, b):
        """Is b implied by the path so far?  (quick, incomplete)"""
        if b is True or b is False:
            return b
        return s.solver.quick(st.facts + [g for g, _, _ in st.pend], zb(b))

    def feasible(s, st, extra=None):
        return s.solver.feasible(st.facts, extra)

    # ------------------------------------------------------------------ values
    def ty_default(s, ty, base='u'):
        ty = s.m.resolve(ty)
        if isinstance(ty, IntT):
            if ty.w == 1:
                return s.fresh(base, 'bool')
            return Poly.atom(s.fresh(base))
        if isinstance(ty, FloatT):
            return Poly.atom(s.fresh(base, 'real'))
        if isinstance(ty, StructT):
            return [s.ty_default(f, base) for f in ty.fs]
        if isinstance(ty, ArrT):
            return [s.ty_default(ty.e, base) for _ in range(ty.n)]
        return UNDEF

    def val(s, st, v, ty):
        k = v[0]
        if k == 'loc':
            x = st.fr.env.get(v[1])
            if x is None:
                raise Unsupported('undefined %s in %s' % (v[1], st.fr.f.name))
            return x
        if k == 'int':
            if isinstance(ty, IntT) and ty.w == 1:
                return v[1] != 0
            x = v[1]
            return Poly.const(x)
        if k == 'fp':
            return Poly.const(s.fpconst(v[1]), True)
        if k == 'null':
            return NULL
        if k == 'undef':
            ty = s.m.resolve(ty)
            if isinstance(ty, StructT):
                return [UNDEF] * len(ty.fs)
            return UNDEF
        if k == 'glob':
            return s.globptr(st, v[1])
        if k == 'cgep':
            t, ops = v[1], v[2]
            base = s.val(st, ops[0][1], ops[0][0])
            return s.gep(st, t, base, [(tt, s.val(st, vv, tt)) for tt, vv in ops[1:]])
        if k == 'zero':
            return s.zero(ty)
        if k == 'agg':
            return [s.val(st, vv, tt) for tt, vv in v[1]]
        if k == 'ccast':
            if v[1] in ('bitcast', 'addrspacecast'):
                return s.val(st, v[3], v[2])
            if v[1] == 'ptrtoint':
                p = s.val(st, v[3], v[2])
                if isinstance(p, Ptr):
                    return p.off if p.o is None else s.base_addr(st, p.o) + p.off
            if v[1] == 'inttoptr' and v[3][0] == 'int':
                return Ptr(None, Poly.const(v[3][1]))
        raise Unsupported('operand %r' % (v,))

    def fpconst(s, t):
        if t.startswith('0x'):
            import struct
            h = t[2:]
            if h[0] in 'KMLHR':
                raise Unsupported('fp const')
            f = struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
            if f != f or f in (float('inf'), float('-inf')):
                raise Unsupported('nan/inf constant')
            return Fraction(f)
        return Fraction(float(t))

    def zero(s, ty):
        ty = s.m.resolve(ty)
        if isinstance(ty, IntT):
            return False if ty.w == 1 else Poly.const(0)
        if isinstance(ty, FloatT):
            return Poly.const(0, True)
        if isinstance(ty, PtrT):
            return NULL
        if isinstance(ty, StructT):
            return [s.zero(f) for f in ty.fs]
        if isinstance(ty, ArrT):
            return [s.zero(ty.e) for _ in range(ty.n)]
        raise Unsupported('zero of %r' % ty)

    def globptr(s, st, name):
        nm = name[1:].strip('"')
        if nm in s.m.funcs or nm in s.m.decls:
            return Fn(nm)
        g = s.m.globals.get(name)
        oid = s.globals.get(name)
        if oid is None:
            s.objc += 1
            oid = s.globals[name] = s.objc
        if oid not in st.mem:
            try:
                size = s.m.size(g.ty) if g and g.ty else 0
            except Exception:
                size = 0
            o = Obj(name, Poly.const(size), kind='cells')
            o.ro = bool(g and g.const)
            st.mem[oid] = o
            if g and g.init is not None and size <= 4096:
                try:
                    s.init_cells(st, o, 0, g.ty, g.init)
                except (Unsupported, ValueError):
                    pass
        return Ptr(oid, Poly.const(0))

    def init_cells(s, st, o, off, ty, v):
        ty = s.m.resolve(ty)
        if v[0] == 'zero' and isinstance(ty, (StructT, ArrT)):
            s.put_value(o, off, ty, s.zero(ty))
            return
        if isinstance(ty, StructT) and v[0] == 'agg':
            offs, _ = s.m.offsets(ty)
            for (tt, vv), fo in zip(v[1], offs):
                s.init_cells(st, o, off + fo, tt, vv)
            return
        if isinstance(ty, ArrT):
            es = s.m.size(ty.e)
            if v[0] == 'str':
                raw = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), v[1][2:-1])
                for i, c in enumerate(raw):
                    o.cells[off + i] = (1, Poly.const(ord(c)))
                return
            for i, (tt, vv) in enumerate(v[1]):
                s.init_cells(st, o, off + i * es, tt, vv)
            return
        o.cells[off] = (s.m.size(ty), s.val(st, v, ty))

    def put_value(s, o, off, ty, val):
        ty = s.m.resolve(ty)
        if isinstance(ty, StructT):
            offs, _ = s.m.offsets(ty)
            for f, fo, x in zip(ty.fs, offs, val):
                s.put_value(o, off + fo, f, x)
        elif isinstance(ty, ArrT):
            es = s.m.size(ty.e)
            for i, x in enumerate(val):
                s.put_value(o, off + i * es, ty.e, x)
        else:
            o.cells[off] = (s.m.size(ty), val)

    def as_int(s, st, x, w=64):
        """Poly for an integer value (bools become 0/1)."""
        if isinstance(x, Poly):
            return x
        if x is True:
            return Poly.const(1)
        if x is False:
            return Poly.const(0)
        if isinstance(x, Undef):
            return Poly.atom(s.fresh('undef'))
        if z3.is_bool(x):
            return Poly.atom(z3.If(x, z3.IntVal(1), z3.IntVal(0)))
        raise Unsupported('integer use of %r' % (x,))

    def as_bool(s, st, x):
        if x is True or x is False:
            return x
        if isinstance(x, Undef):
            return s.fresh('undef', 'bool')
        if isinstance(x, Poly):
            a = x.single_atom()
            if x.is_const():
                return x.cval() % 2 == 1
            if a is not None and z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() == 1:
                return a.arg(0)
            return cmp('ne', s.divmod_const(st, x, 2)[1], Poly.const(0))
        return x

    def divmod_const(s, st, x, c):
        """floor quotient and remainder by a positive constant."""
        q = x.divexact(c)
        if q is not None:
            return q, Poly.const(0)
        if x.is_const():
            return Poly.const(x.cval() // c), Poly.const(x.cval() % c)
        qz = x.z() / z3.IntVal(c)
        q = Poly.atom(qz)
        return q, x - q * c

    def rng(s, w):
        return -(1 << (w - 1)), (1 << (w - 1)) - 1

    def wrap(s, st, x, w, nsw=False, nuw=False, what='add'):
        """Reduce the exact result x to w bits (signed representation)."""
        lo, hi = s.rng(w)
        if x.is_const():
            c = x.cval()
            c &= (1 << w) - 1
            if c > hi:
                c -= 1 << w
            if nsw and c != x.cval():
                s.oblige(st, False, 'no signed overflow in %s' % what)
            return Poly.const(c)
        if st.spec:
            return x
        inr = And(cmp('ge', x, Poly.const(lo)), cmp('le', x, Poly.const(hi)))
        if nsw:
            if s.opts['overflow'] == 'check':
                s.oblige(st, inr, 'no signed overflow in %s' % what)
            else:
                s.assumptions.add('signed arithmetic does not overflow (treated as mathematical)')
            return x
        if s.opts['overflow'] != 'check':
            s.assumptions.add('unsigned arithmetic does not wrap (treated as mathematical)')
            return x
        if s.known(st, inr):
            return x
        if what in ('add', 'sub'):
            m = 1 << w
            return ite(cmp('gt', x, Poly.const(hi)), x - m, ite(cmp('lt', x, Poly.const(lo)), x + m, x))
        # general modular reduction
        y = x + (1 << (w - 1))
        q, r = s.divmod_const(st, y, 1 << w)
        return r - (1 << (w - 1))

    def unsigned(s, st, x, w):
        if x.is_const():
            c = x.cval()
            return Poly.const(c if c >= 0 else c + (1 << w))
        if st.spec:
            return x
        c = cmp('ge', x, Poly.const(0))
        if c is True or s.known(st, c):
            return x
        return ite(c, x, x + (1 << w))

    # ------------------------------------------------------------------ memory
    def gep(s, st, ty, base, idx):
        if isinstance(base, Undef):
            return UNDEF
        if not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        off = base.off
        first = True
        for tt, v in idx:
            if first:
                x = s.as_int(st, v)
                sz = s.m.size(ty)
                off = off + x * sz
                first = False
                cur = ty
                continue
            c = s.m.resolve(cur)
            if isinstance(c, StructT):
                k = v.cval()
                off = off + s.m.offsets(c)[0][k]
                cur = c.fs[k]
            else:
                off = off + s.as_int(st, v) * s.m.size(c.e)
                cur = c.e
        return Ptr(base.o, off)

    def settle(s, st, oid, w, real, tr):
        """Decide the element representation of a raw object at its first access."""
        o = st.mem[oid]
        if o.kind == 'raw':
            o = o.clone()
            if tr:
                o.tr = True
            if o.isstack and not tr:
                o.kind = 'cells'
            elif o.isstack and o.nbytes.is_const():
                o.kind = 'cells'
            elif o.heap and not tr and not o.zero and o.nbytes.is_const() and 0 < o.nbytes.cval() <= 128:
                o.kind = 'cells'      # a node or control block
            else:
                o.kind = 'arr'
                o.w = w
                o.real = real
                o.tr = tr
                if o.nbytes.divexact(w) is None:
                    # length not an exact multiple syntactically: number of whole elements
                    q, r = s.divmod_const(st, o.nbytes, w)
                    o.nbytes = q * w
                if tr or o.zero:
                    o.arr = z3.K(z3.IntSort(), z3.RealVal(0) if real else z3.IntVal(0))
                else:
                    o.arr = s.fresh(o.name + '_m', 'rarr' if real else 'arr')
            st.mem[oid] = o
        return st.mem[oid]

    def lane_put(s, st, o, idx, p):
        """The integer stored for pointer p at position idx of o (an offset into the one object this position points into)."""
        l = o.lane(idx)
        if p.o is None:
            if l in o.lanes:
                raise Unsupported('null pointer in an array of pointers')
            return p.off
        if l not in o.lanes:
            t = st.mem[p.o]
            u = t.w if t.kind == 'arr' and t.w and p.off.divexact(t.w) is not None else 8 if p.off.divexact(8) is not None else 1
            o.lanes[l] = (p.o, u)
        b, u = o.lanes[l]
        d = p.off.divexact(u)
        if b != p.o or d is None:
            raise Unsupported('array of pointers into different objects')
        return d

    def to_arr(s, st, oid, w, real):
        """cells -> arr (needed for a variable index)"""
        o = st.mem[oid].clone()
        o.kind = 'arr'
        o.w = w
        o.real = real
        a = s.fresh(o.name.replace('%', '') + '_m', 'rarr' if real else 'arr')
        for off, (cw, v) in sorted(o.cells.items()):
            if isinstance(v, Ptr):
                v = s.lane_put(st, o, Poly.const(off // w), v)
            if cw != w or off % w or not isinstance(v, Poly):
                raise Unsupported('variable index into mixed object ' + o.name)
            a = z3.Store(a, z3.IntVal(off // w), v.z())
        o.arr = a
        o.cells = {}
        o.nbytes = Poly.const(o.nbytes.cval() // w * w) if o.nbytes.is_const() else o.nbytes
        st.mem[oid] = o
        return o

    def locate(s, st, p, w, real=False, tr=False, write=False, what='access'):
        """Returns (oid, obj, index) : index is an int offset for cells objects, Poly element index for arr."""
        if isinstance(p, Undef):
            raise Unsupported('access through undefined pointer')
        if not isinstance(p, Ptr):
            raise Unsupported('%s through %r' % (what, p))
        if p.o is None:
            s.oblige(st, False, 'no null dereference (%s)' % what)
            raise PathEnd()
        if p.o not in st.mem:
            raise Unsupported('access to unknown object')
        o = s.settle(st, p.o, w, real, tr)
        if not st.spec:
            if not o.alive:
                s.oblige(st, False, 'no use after free (%s of %s)' % (what, o.name))
            if write and o.ro:
                s.oblige(st, False, 'no write to read-only / snapshot memory %s' % o.name)
        if o.kind == 'cells':
            if not p.off.is_const():
                o = s.to_arr(st, p.o, w, real)
            else:
                off = p.off.cval()
                if not st.spec:
                    s.oblige(st, And(off >= 0, cmp('le', Poly.const(off + w), o.nbytes)), 'in-bounds %s of %s' % (what, o.name))
                return p.o, o, off
        idx = p.off.divexact(o.w)
        if idx is None:
            raise Unsupported('offset %s not a multiple of the element width %d of %s' % (p.off, o.w, o.name))
        if w != o.w:
            raise Unsupported('access of width %d to object %s of width %d' % (w, o.name, o.w))
        if not st.spec:
            n = o.n()
            s.oblige(st, And(cmp('ge', idx, Poly.const(0)), cmp('lt', idx, n)), 'in-bounds %s of %s' % (what, o.name))
        return p.o, o, idx

    def load(s, st, p, ty):
        ty = s.m.resolve(ty)
        if isinstance(ty, StructT):
            offs, _ = s.m.offsets(ty)
            return [s.load(st, Ptr(p.o, p.off + fo), f) for f, fo in zip(ty.fs, offs)]
        w = s.m.size(ty)
        real = isinstance(ty, FloatT)
        oid, o, idx = s.locate(st, p, w, real, what='read')
        if o.kind == 'cells':
            c = o.cells.get(idx)
            if c is None:
                # uninitialised (or partially overlapping) memory
                for off, (cw, v) in o.cells.items():
                    if off < idx + w and idx < off + cw:
                        if off <= idx and off + cw >= idx + w and isinstance(v, Poly) and v.is_const():
                            b = (v.cval() >> (8 * (idx - off))) & ((1 << (8 * w)) - 1)
                            lo, hi = s.rng(8 * w)
                            return Poly.const(b if b <= hi else b - (1 << (8 * w)))
                        return s.havoc_val(st, ty, o.name)
                v = Ptr(None, Poly.const(0)) if o.zero and isinstance(ty, PtrT) else Poly.const(0, real) if o.zero else s.havoc_val(st, ty, 'uninit_' + o.name)
                o = o.clone()
                o.cells[idx] = (w, v)
                st.mem[oid] = o
                return v
            cw, v = c
            if cw != w:
                if cw > w and isinstance(v, Poly) and v.is_const():
                    b = v.cval() & ((1 << (8 * w)) - 1)
                    lo, hi = s.rng(8 * w)
                    return Poly.const(b if b <= hi else b - (1 << (8 * w)))
                return s.havoc_val(st, ty, o.name)
            if isinstance(ty, IntT) and ty.w == 1:
                return s.as_bool(st, v)
            if isinstance(ty, PtrT) and isinstance(v, Poly) and v.is_const() and v.cval() == 0:
                return Ptr(None, Poly.const(0))
            if real and isinstance(v, Poly) and not v.real:
                if v.is_const():
                    return Poly.const(v.cval(), True)
                raise Unsupported('int/float type punning')
            return v
        if o.real != real:
            raise Unsupported('int/float type punning in ' + o.name)
        v = Poly.of(s.select(o.arr, idx))
        if o.lanes and not isinstance(ty, PtrT) and not st.spec:
            raise Unsupported('integer read from an array of pointers')
        if isinstance(ty, PtrT):
            l = o.lanes.get(o.lane(idx))
            if l and not st.spec and not v.is_const():
                g = z3.And(v.z() >= -(1 << 48), v.z() <= 1 << 48)     # makes the range known to the cheap checks
                if s.solver.prove(st.facts, g, timeout=800)[0]:
                    s.add_fact(st, g)
            return Ptr(l[0], v * l[1]) if l else Ptr(None, v)      # other array objects hold only integers (raw_store)
        if isinstance(ty, IntT) and ty.w == 1:
            return s.as_bool(st, v)
        if isinstance(ty, IntT) and ty.w < 64 and not st.spec:
            lo, hi = s.rng(ty.w)
            if not v.is_const():
                st.facts.append(z3.And(v.z() >= lo, v.z() <= hi))
        return v

    def select(s, arr, idx):
        """Read-over-write simplification where indices are syntactically comparable."""
        a = arr
        while a.get_id() in s.stores:
            _, base, i, v, _ = s.stores[a.get_id()]
            d = i - idx
            if d.is_const():
                if d.cval() == 0:
                    return v.z()
                a = base
            else:
                break
        if z3.is_app_of(a, z3.Z3_OP_CONST_ARRAY):
            return a.arg(0)
        return z3.Select(a, idx.z())

    def unname(s, ex):
        """Replace the names of intermediate array states by store terms."""
        for _ in range(200):
            sub = []
            seen = set()
            todo = [ex]
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if x.get_id() in s.stores:
                    d = s.stores[x.get_id()]
                    sub.append((d[0], d[4]))
                elif z3.is_quantifier(x):
                    todo.append(x.body())
                else:
                    todo.extend(x.children())
            if not sub:
                return ex
            ex = z3.substitute(ex, *sub)
        return ex

    def havoc_val(s, st, ty, base='h'):
        v = s.ty_default(ty, base.replace('%', '').replace('!', '_'))
        if isinstance(ty, IntT) and ty.w > 1:
            lo, hi = s.rng(ty.w)
            st.facts.append(z3.And(v.z() >= lo, v.z() <= hi))
        return v

    def store(s, st, p, ty, v, rec=True):
        ty = s.m.resolve(ty)
        if isinstance(ty, StructT):
            offs, _ = s.m.offsets(ty)
            for f, fo, x in zip(ty.fs, offs, v):
                s.store(st, Ptr(p.o, p.off + fo), f, x)
            return
        w = s.m.size(ty)
        real = isinstance(ty, FloatT)
        if isinstance(v, Undef):
            v = s.havoc_val(st, ty, 'undef')
        if isinstance(ty, IntT) and ty.w == 1:
            v = s.as_int(st, v)
        oid, o, idx = s.locate(st, p, w, real, write=True, what='write')
        s.raw_store(st, oid, o, idx, w, v)

    def raw_store(s, st, oid, o, idx, w, v):
        o = o.clone()
        if o.kind == 'cells':
            for off in list(o.cells):
                cw = o.cells[off][0]
                if off < idx + w and idx < off + cw:
                    del o.cells[off]
            o.cells[idx] = (w, v)
        else:
            if isinstance(v, Ptr):
                v = s.lane_put(st, o, idx, v)
            elif o.lanes:
                raise Unsupported('integer stored in an array of pointers')
            if not isinstance(v, Poly):
                raise Unsupported('non-integer store (%r) to array object %s' % (v, o.name))
            if o.real != v.real and not v.is_const():
                raise Unsupported('int/float type punning in ' + o.name)
            if o.real and not v.real:
                v = Poly.const(v.cval(), True)
            nm = s.fresh(o.name.replace('%', '').split('_S')[0] + '_S', 'rarr' if o.real else 'arr')
            sto = z3.Store(o.arr, idx.z(), v.z())
            s.stores[nm.get_id()] = (nm, o.arr, idx, v, sto)
            st.facts.append(nm == sto)
            o.arr = nm
            for c in s.ctxs:
                c.stores.append((oid, idx, v, list(st.facts)))
        st.mem[oid] = o

    # bulk operations on arrays ----------------------------------------------------
    def bulk(s, st, oid, lo, n, src, what):
        """arr[lo,lo+n) := src ; src = ('const', Poly) or ('copy', arr, srcidx)"""
        o = st.mem[oid].clone()
        new = s.fresh(o.name.replace('%', '') + '_b', 'rarr' if o.real else 'arr')
        k = z3.Int('k!%d' % s.counter)
        inr = z3.And(lo.z() <= k, k < (lo + n).z())
        if src[0] == 'const':
            val = src[1].z()
        else:
            val = z3.Select(src[1], k + (src[2] - lo).z())
        st.facts.append(z3.ForAll([k], z3.Select(new, k) == z3.If(inr, val, z3.Select(o.arr, k)), patterns=[z3.Select(new, k)]))
        o.arr = new
        st.mem[oid] = o

    def memset(s, st, p, byte, n):
        if n.is_const() and n.cval() == 0:
            return
        if p.o is None:
            s.oblige(st, cmp('eq', n, Poly.const(0)), 'no null memset')
            return
        o = st.mem[p.o]
        if not byte.is_const():
            raise Unsupported('memset with variable byte')
        b = byte.cval() & 255
        if o.kind in ('cells', 'raw') and n.is_const() and p.off.is_const() and (
                o.isstack or o.kind == 'cells' or (o.nbytes.is_const() and o.nbytes.cval() <= 128)):
            if not o.alive:
                s.oblige(st, False, 'no use after free (memset)')
            o = o.clone()
            o.kind = 'cells'
            st.mem[p.o] = o
            lo, cnt = p.off.cval(), n.cval()
            s.oblige(st, And(lo >= 0, cmp('le', Poly.const(lo + cnt), o.nbytes)), 'in-bounds memset of ' + o.name)
            for off in list(o.cells):
                if off < lo + cnt and lo < off + o.cells[off][0]:
                    del o.cells[off]
            step = 8 if (cnt % 8 == 0 and lo % 8 == 0) else 4 if (cnt % 4 == 0 and lo % 4 == 0) else 1
            v = int.from_bytes(bytes([b] * step), 'little', signed=True)
            for off in range(lo, lo + cnt, step):
                o.cells[off] = (step, Poly.const(v))
            return
        w = o.w or 8
        if o.kind == 'raw':
            for c in (8, 4, 2, 1):
                if n.divexact(c) is not None and o.nbytes.divexact(c) is not None:
                    w = c
                    break
            o = s.settle(st, p.o, w, False, False)
        w = o.w
        idx = p.off.divexact(w)
        cnt = n.divexact(w)
        if idx is None or cnt is None:
            raise Unsupported('memset of partial elements of ' + o.name)
        if not o.alive:
            s.oblige(st, False, 'no use after free (memset)')
        s.oblige(st, And(cmp('ge', idx, Poly.const(0)), cmp('ge', cnt, Poly.const(0)), cmp('le', idx + cnt, o.n())), 'in-bounds memset of ' + o.name)
        v = int.from_bytes(bytes([b] * w), 'little', signed=True)
        if o.real and b:
            raise Unsupported('memset of floats')
        s.bulk(st, p.o, idx, cnt, ('const', Poly.const(v, o.real)), 'memset')
        for c in s.ctxs:
            c.stores.append((p.o, None, None, None))

    def memcpy(s, st, d, src, n, move):
        if n.is_const() and n.cval() == 0:
            return
        if d.o is None or src.o is None:
            s.oblige(st, cmp('eq', n, Poly.const(0)), 'no null memcpy')
            if not s.known(st, cmp('eq', n, Poly.const(0))):
                raise PathEnd()
            return
        so, do = st.mem[src.o], st.mem[d.o]
        if (so.lanes or do.lanes) and n.is_const() and n.cval() <= 64 and n.cval() % 8 == 0:
            vs = [s.load(st, Ptr(src.o, src.off + k), PtrT()) for k in range(0, n.cval(), 8)]
            for k, v in enumerate(vs):
                s.store(st, Ptr(d.o, d.off + 8 * k), PtrT(), v)
            return
        if so.lanes or do.lanes:
            raise Unsupported('bulk copy of an array of pointers')
        if (n.is_const() and d.off.is_const() and src.off.is_const() and do.kind in ('cells', 'raw') and so.kind in ('cells', 'raw')
                and (do.isstack or do.kind == 'cells' or so.kind == 'cells' or so.isstack)):
            a, b, c = src.off.cval(), d.off.cval(), n.cval()
            for o, l, nm in ((so, a, 'read'), (do, b, 'write')):
                if not o.alive:
                    s.oblige(st, False, 'no use after free (memcpy %s)' % nm)
                s.oblige(st, And(l >= 0, cmp('le', Poly.const(l + c), o.nbytes)), 'in-bounds memcpy (%s) of %s' % (nm, o.name))
            got = {off: x for off, x in so.cells.items() if off >= a and off + x[0] <= a + c}
            do = do.clone()
            do.kind = 'cells'
            for off in list(do.cells):
                if off < b + c and b < off + do.cells[off][0]:
                    del do.cells[off]
            for off, x in got.items():
                do.cells[off - a + b] = x
            st.mem[d.o] = do
            return
        if so.kind == 'raw' and do.kind == 'raw':
            raise Unsupported('memcpy between untyped objects')
        if so.kind == 'cells' or do.kind == 'cells':
            # element-wise through cells of constant extent
            if not n.is_const():
                raise Unsupported('variable memcpy with a structured object')
            w = so.w if so.kind == 'arr' else do.w if do.kind == 'arr' else 8
            ty = FloatT('double') if (so.real or do.real) and w == 8 else FloatT('float') if (so.real or do.real) else ir.intT(8 * w)
            vals = [s.load(st, Ptr(src.o, src.off + k * w), ty) for k in range(n.cval() // w)]
            for k, v in enumerate(vals):
                s.store(st, Ptr(d.o, d.off + k * w), ty, v)
            return
        w = so.w if so.kind == 'arr' else do.w
        so = s.settle(st, src.o, w, do.real, False)
        do = s.settle(st, d.o, w, so.real, False)
        si, di, c = src.off.divexact(w), d.off.divexact(w), n.divexact(w)
        if si is None or di is None or c is None or so.w != do.w:
            raise Unsupported('memcpy of partial elements')
        for o, l, nm in ((so, si, 'read'), (do, di, 'write')):
            if not o.alive:
                s.oblige(st, cmp('eq', c, Poly.const(0)), 'no use after free (memcpy %s)' % nm)
            s.oblige(st, Or(cmp('eq', c, Poly.const(0)), And(cmp('ge', l, Poly.const(0)), cmp('ge', c, Poly.const(0)), cmp('le', l + c, o.n()))),
                     'in-bounds memcpy (%s) of %s' % (nm, o.name))
        if not move and src.o == d.o:
            s.oblige(st, Or(cmp('le', si + c, di), cmp('le', di + c, si)), 'memcpy ranges do not overlap')
        s.bulk(st, d.o, di, c, ('copy', so.arr, si), 'memcpy')
        for cx in s.ctxs:
            cx.stores.append((d.o, None, None, None))

    # tracked elements --------------------------------------------------------------
    def tr_get(s, st, p, what, rawok=False):
        oid, o, idx = s.locate(st, p, 8, False, tr=True, what=what)
        if o.kind == 'cells':
            c = o.cells.get(idx)
            return oid, o, idx, (c[1] if c else Poly.const(0))
        return oid, o, idx, Poly.of(s.select(o.arr, idx))

    def tr_put(s, st, oid, idx, v):
        o = st.mem[oid]
        if o.ro:
            s.oblige(st, False, 'no write to read-only memory %s' % o.name)
        s.raw_store(st, oid, o, idx, 8, v)

    def cnt(s, st, plus=None, minus=None):
        V = st.ghost.get('trackV')
        if V is None:
            return
        c = st.ghost['cnt']
        if plus is not None:
            c = c + ite(cmp('eq', plus, V), Poly.const(1), Poly.const(0))
        if minus is not None:
            c = c - ite(cmp('eq', minus, V), Poly.const(1), Poly.const(0))
        st.ghost['cnt'] = c

    def tr_op(s, st, op, a, ins):
        one, two = Poly.const(1), Poly.const(2)
        s.cur_where = s.where(ins)
        if op == 'ctor':
            oid, o, idx, v = s.tr_get(st, a[0], 'construction')
            s.oblige(st, cmp('le', v, one), 'no construction over a live element')
            s.oblige(st, cmp('ge', a[1], two), 'spec: constructed value is an ordinary value')
            s.tr_put(st, oid, idx, a[1])
            s.cnt(st, plus=a[1])
        elif op in ('copy', 'move'):
            so_, o, sidx, sv = s.tr_get(st, a[1], 'read')
            s.oblige(st, cmp('ge', sv, two if op == 'copy' else one), 'source of a %s construction is a live element' % op)
            oid, o, idx, v = s.tr_get(st, a[0], 'construction')
            s.oblige(st, cmp('le', v, one), 'no construction over a live element')
            s.tr_put(st, oid, idx, sv)
            if op == 'move':
                s.tr_put(st, so_, sidx, one)
            else:
                s.cnt(st, plus=sv)
        elif op in ('acopy', 'amove'):
            so_, o, sidx, sv = s.tr_get(st, a[1], 'read')
            s.oblige(st, cmp('ge', sv, two if op == 'acopy' else one), 'source of a %s assignment is a live element' % op[1:])
            oid, o, idx, v = s.tr_get(st, a[0], 'assignment')
            s.oblige(st, cmp('ge', v, one), 'assignment target is a live element')
            s.cnt(st, minus=v, plus=sv if op == 'acopy' else None)
            if op == 'amove':
                s.cnt(st, plus=None)
                s.tr_put(st, oid, idx, sv)
                s.tr_put(st, so_, sidx, one)
            else:
                s.tr_put(st, oid, idx, sv)
        elif op == 'dtor':
            oid, o, idx, v = s.tr_get(st, a[0], 'destruction')
            s.oblige(st, cmp('ge', v, one), 'destroyed element is live (no double destruction)')
            s.tr_put(st, oid, idx, Poly.const(0))
            s.cnt(st, minus=v)
        elif op == 'get':
            oid, o, idx, v = s.tr_get(st, a[0], 'read')
            s.oblige(st, cmp('ge', v, two), 'element read is live')
            return v
        return None

    # ------------------------------------------------------------------ driver
    def verify(s, name):
        f = s.func(name)
        st = State()
        st.frames = [Frame(f)]
        for nm, ty in f.args:
            raise Unsupported('harness takes no arguments')
        st.fr.allocas = []
        try:
            s.explore([st], None)
        except VerifyFail:
            pass

    def path_done(s, st):
        s.flush(st)
        if s.dry:
            return
        if s.solver.feasible(st.facts, None):
            s.completed += 1

    def abort(s, st):
        s.flush(st)
        if s.dry:
            return
        s.aborts_seen += 1
        want = st.ghost.get('abort_kind')
        when = st.ghost.get('abort_if')
        if st.abort_ok and when is not None and when is not True:
            s.oblige(st, when, 'an error is reported only when its condition holds')
            s.flush(st)
        if st.abort_ok and want:
            kinds = s.abort_kinds(st)
            ok = bool(kinds) and all(want in k for k in kinds)
            s.obls.append(Obligation('error is reported as %s' % want, s.cur_where, 'proved' if ok else 'failed', 0, 'syntactic'))
            if not ok:
                s.fail(st, 'error is reported as %s' % want, s.cur_where, 'reported as %s' % sorted(kinds))
        if st.abort_ok:
            s.completed += 1
            return
        fr = st.fr
        w = s.cur_where
        for ins in fr.f.blocks[fr.block].ins:
            if ins.dbg:
                w = s.where(ins)
                break
        t0 = time.time()
        ok, be = s.solver.prove(st.facts, z3.BoolVal(False), hard=True)
        s.obls.append(Obligation('error path unreachable', w, 'proved' if ok else 'failed', time.time() - t0, be))
        if not ok:
            s.fail(st, 'no error is raised / reported', w, 'unreachable error path')

    def in_doomed(s, st):
        return any(fr.block in fr.f.doomed for fr in st.frames)

    def abort_kinds(s, st):
        """How the error path that starts at the current block ends (along normal control flow)."""
        fr = next((f for f in reversed(st.frames) if f.block in f.f.doomed), st.fr)
        out, seen, todo = set(), set(), [fr.block]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            seen.add(b)
            blk = fr.f.blocks[b]
            stop = False
            for i in blk.ins:
                if i.op in ('call', 'invoke') and i.a[0][0] == 'glob' and is_fatal(i.a[0][1]):
                    n = i.a[0][1].lstrip('@').strip('"')
                    if 'callErrorHandler' in n:
                        out.add('handler')
                    elif n == '__cxa_throw':
                        out.add('exception ' + str(i.a[1:]))
                    elif not n.startswith('_ZSt') and n != '_Unwind_Resume':
                        out.add(n)
                    stop = True
                    break
            if stop:
                continue
            x = blk.ins[-1]
            if x.op == 'invoke':
                todo.append(blk.succ[0])
            else:
                todo.extend(blk.succ)
        return out

    def explore(s, states, ctx):
        work = []
        backs, exits = [], []
        pending = list(states)

        def dispatch(t):
            fr = t.fr
            if ctx and len(t.frames) == ctx.depth:
                if fr.block == ctx.header:
                    backs.append(t)
                    return
                if fr.block not in ctx.body:
                    exits.append(t)
                    return
            if fr.block in fr.f.loops:
                if s.in_doomed(t):
                    s.abort(t)       # a loop that only builds the error message
                    return
                if s.should_unroll(t):
                    work.append(t)
                else:
                    fr.unroll.pop(fr.block, None)
                    fr.unroll.pop((fr.block,), None)
                    if os.environ.get('LOOPDBG'): print('LOOP', fr.f.name[:80], fr.block, s.where(fr.f.blocks[fr.block].ins[-1]))
                    for e in s.do_loop(t):
                        dispatch(e)
                return
            work.append(t)

        for t in pending:
            if ctx:
                work.append(t)    # the header state itself: already at its loop head
            else:
                dispatch(t)
        while work:
            t = work.pop()
            if s.opts['deadline'] and time.time() > s.opts['deadline']:
                raise Unsupported('time limit for this harness reached')
            try:
                outs = s.run(t)
            except PathEnd:
                s.flush(t)
                continue
            except Unsupported:
                if not s.in_doomed(t):
                    raise
                s.abort(t)           # the error report itself
                continue
            for kind, u in outs:
                if kind == 'cont':
                    work.append(u)
                elif kind == 'edge':
                    dispatch(u)
                elif kind == 'end':
                    s.path_done(u)
            s.paths += len(outs) - 1 if len(outs) > 1 else 0
            if s.paths > s.opts['maxpaths']:
                raise Unsupported('too many paths')
        return backs, exits

    # ---- unrolling decision
    def should_unroll(s, st):
        fr = st.fr
        f, h = fr.f, fr.block
        body = f.loops[h]
        n = fr.unroll.get(h, 0) if fr.prev in body else 0
        if n >= s.MAXUNROLL or (f.name, h) in s.nounroll:
            return False
        if n == 0:
            fr.unroll[(h,)] = 0
        elif fr.unroll.get((h,), 0) >= s.MAXFORKS:
            raise NoUnroll(f.name, h)       # too many paths: start again with an invariant for this loop
        # tentatively evaluate the exit conditions with the incoming phi values
        env = {}
        for ins in f.blocks[h].ins:
            if ins.op != 'phi':
                break
            for v, b in ins.a:
                if b == fr.prev:
                    try:
                        env[ins.res] = s.val(st, v, ins.ty)
                    except Unsupported:
                        env[ins.res] = None
        for b in f.blocks:
            if b not in body:
                continue
            t = f.blocks[b].ins[-1]
            if t.op in ('condbr', 'switch') and any(x not in body for x in f.blocks[b].succ if x not in f.doomed):
                c = s.pure(st, t.a[0], ir.intT(1) if t.op == 'condbr' else t.ty, env, body, h, 0)
                if c is True or c is False or (isinstance(c, Poly) and c.is_const()):
                    fr.unroll[h] = n + 1
                    return True
        return False

    def pure(s, st, v, ty, env, body, h, depth):
        """Evaluate an operand inside a loop from header phi values, without loads or calls; None if not possible."""
        if v[0] != 'loc':
            try:
                return s.val(st, v, ty)
            except Unsupported:
                return None
        nm = v[1]
        if nm in env:
            return env[nm]
        d = st.fr.f.defs.get(nm)
        if d is None or d[0] not in body:
            return st.fr.env.get(nm)
        if depth > 30:
            return None
        ins = d[1]
        r = None
        rec = lambda x, t: s.pure(st, x, t, env, body, h, depth + 1)
        if ins.op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            a, b = rec(ins.a[0], ins.ty), rec(ins.a[1], ins.ty)
            if isinstance(a, Poly) and isinstance(b, Poly) and ins.op in ('add', 'sub', 'mul'):
                r = a + b if ins.op == 'add' else a - b if ins.op == 'sub' else a * b
            elif ins.op in ('and', 'or') and ins.ty.w == 1:
                dom = ins.op == 'or'
                if a is dom or b is dom:
                    r = dom
                elif a is (not dom) and b is (not dom):
                    r = not dom
        elif ins.op == 'icmp':
            a, b = rec(ins.a[1], ins.ty), rec(ins.a[2], ins.ty)
            if a is not None and b is not None and not isinstance(a, (Undef, Fn)) and not isinstance(b, (Undef, Fn)):
                if isinstance(a, Poly) and isinstance(b, Poly):
                    d = a - b
                    if d.is_const():
                        p = ins.a[0]
                        if p in ('eq', 'ne'):
                            r = (d.cval() == 0) == (p == 'eq')
                        elif p[0] == 's':
                            r = cmp(p[1:], a, b)
                        elif a.is_const() and b.is_const():
                            w = getattr(ins.ty, 'w', 64)
                            r = cmp(p[1:], s.unsigned(st, a, w), s.unsigned(st, b, w))
                        else:
                            r = cmp(p[1:], a, b)
                elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                    d = a.off - b.off
                    if d.is_const():
                        r = cmp(ins.a[0] if ins.a[0] in ('eq', 'ne') else ins.a[0][1:], a.off, b.off)
                elif isinstance(a, Ptr) and isinstance(b, Ptr) and ins.a[0] in ('eq', 'ne') and a.o != b.o:
                    r = ins.a[0] == 'ne'      # hint only, as for loads
        elif ins.op in ('zext', 'sext', 'trunc'):
            a = rec(ins.a[1], ins.a[0])
            if isinstance(a, Poly) and a.is_const() and abs(a.cval()) < 128 and a.cval() >= 0:
                r = a
        elif ins.op == 'gep':
            base = rec(ins.a[0][1], ins.a[0][0])
            if isinstance(base, Ptr):
                idx = [(tt, rec(vv, tt)) for tt, vv in ins.a[1:]]
                if all(isinstance(x, Poly) for _, x in idx):
                    r = s.gep(st, ins.ty, base, idx)
        elif ins.op == 'load':
            a = rec(ins.a[0], ir.PTR)
            if isinstance(a, Ptr) and a.o in st.mem and a.off.is_const():
                o = st.mem[a.o]
                c = o.cells.get(a.off.cval()) if o.kind == 'cells' else None
                if c and (isinstance(c[1], Ptr) or isinstance(c[1], Poly) and c[1].is_const()):
                    r = c[1]    # hint only; the real execution re-evaluates
        env[nm] = r
        return r

    # ------------------------------------------------------------------ instruction execution
    def run(s, st):
        """Execute from the current position to the end of the block (or a fork)."""
        fr = st.fr
        f = fr.f
        blk = f.blocks[fr.block]
        if fr.idx == 0:
            # phis
            news = []
            k = 0
            for ins in blk.ins:
                if ins.op != 'phi':
                    break
                k += 1
                for v, b in ins.a:
                    if b == fr.prev:
                        news.append((ins.res, s.val(st, v, ins.ty)))
                        break
                else:
                    raise Unsupported('phi without incoming edge')
            for r, v in news:
                fr.env[r] = v
            fr.idx = k
        while True:
            ins = blk.ins[fr.idx]
            s.cur_where = s.where(ins) if not s.dry else '?'
            op = ins.op
            h = getattr(s, 'i_' + op, None)
            if h is None:
                raise Unsupported('instruction ' + (ins.text or op))
            r = h(st, ins)
            if r is not None:
                return r
            fr.idx += 1

    def edge(s, st, target):
        fr = st.fr
        fr.prev = fr.block
        fr.block = target
        fr.idx = 0
        return ('edge', st)

    def i_br(s, st, ins):
        return [s.edge(st, ins.a[0])]

    def fork_on(s, st, c):
        """Returns [(state, taken)] for feasible outcomes of boolean c."""
        if c is True or c is False:
            return [(st, c)]
        if st.spec:
            raise Unsupported('branch inside a specification expression (use & and | instead of && and ||)')
        s.flush(st)
        nt = Not(c)
        ft = s.solver.feasible(st.facts, c)
        ff = s.solver.feasible(st.facts, nt)
        out = []
        if ft and ff:
            o = st.fork()
            st.facts.append(c)
            o.facts.append(nt)
            for t in (st, o):
                for fr in t.frames:
                    for k in fr.unroll:
                        if type(k) is tuple:
                            fr.unroll[k] += 1
            out = [(st, True), (o, False)]
        elif ft:
            st.facts.append(c)
            out = [(st, True)]
        elif ff:
            st.facts.append(nt)
            out = [(st, False)]
        return out

    def i_condbr(s, st, ins):
        c = s.as_bool(st, s.val(st, ins.a[0], ir.intT(1)))
        for cx in s.ctxs:
            if not (c is True or c is False):
                cx.conds.append(c)
        out = []
        w = s.cur_where
        for t, taken in s.fork_on(st, c):
            if not (c is True or c is False):
                t.notes.append('%s: %s' % (w, 'taken' if taken else 'not taken'))
            out.append(s.edge(t, ins.a[1] if taken else ins.a[2]))
        return out

    def i_switch(s, st, ins):
        x = s.as_int(st, s.val(st, ins.a[0], ins.ty))
        out = []
        rest = st
        for v, lab in ins.a[2]:
            c = cmp('eq', x, Poly.const(v[1]))
            nxt = None
            for t, taken in s.fork_on(rest, c):
                if taken:
                    out.append(s.edge(t, lab))
                else:
                    nxt = t
            if nxt is None:
                return out
            rest = nxt
        out.append(s.edge(rest, ins.a[1]))
        return out

    def i_select(s, st, ins):
        c = s.as_bool(st, s.val(st, ins.a[0], ir.intT(1)))
        a = s.val(st, ins.a[1], ins.ty)
        b = s.val(st, ins.a[2], ins.ty)
        if isinstance(ins.ty, IntT) and ins.ty.w == 1:
            a, b = s.as_bool(st, a), s.as_bool(st, b)
            if c is True or c is False:
                st.fr.env[ins.res] = a if c else b
            else:
                st.fr.env[ins.res] = Or(And(c, a), And(Not(c), b))
            return None
        if st.spec:
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                st.fr.env[ins.res] = Ptr(a.o, ite(c, a.off, b.off))
            elif isinstance(a, Poly) and isinstance(b, Poly):
                st.fr.env[ins.res] = ite(c, a, b)
            elif c is True or c is False:
                st.fr.env[ins.res] = a if c else b
            else:
                raise Unsupported('select of pointers in specification')
            return None
        if isinstance(a, Poly) and isinstance(b, Poly) and a == b:
            st.fr.env[ins.res] = a
            return None
        for cx in s.ctxs:
            if not (c is True or c is False):
                cx.conds.append(c)
        outs = s.fork_on(st, c)
        res = []
        w = s.cur_where
        for t, taken in outs:
            t.fr.env[ins.res] = a if taken else b
            t.fr.idx += 1
            if not (c is True or c is False):
                t.notes.append('%s: select %s' % (w, taken))
            res.append(('cont', t))
        return res

    def i_ret(s, st, ins):
        v = None
        if ins.a[0] is not None:
            v = s.val(st, ins.a[0], ins.ty)
        fr = st.frames[-1]
        for oid in fr.allocas:
            if oid in st.mem:
                if len(st.frames) > 1:
                    o = st.mem[oid].clone()
                    o.alive = False
                    st.mem[oid] = o
        if len(st.frames) == 1:
            return [('end', st)]
        if isinstance(fr.ret, tuple) and fr.ret[0] == 'spec':
            st.ghost['specret'] = v
            st.frames.pop()
            return [('end', st)]
        st.frames.pop()
        up = st.fr
        call = up.f.blocks[up.block].ins[up.idx]
        if call.res:
            up.env[call.res] = v
        if call.op == 'invoke':
            return [s.edge(st, call.a[2][0])]
        up.idx += 1
        return [('cont', st)]

    def i_unreachable(s, st, ins):
        st.abort_ok = False          # undefined behaviour, not an error report
        st.ghost.pop('abort_kind', None)
        s.abort(st)
        return []

    def i_alloca(s, st, ins):
        sz = s.m.size(ins.ty)
        n = Poly.const(sz)
        if ins.a[0] is not None:
            n = s.as_int(st, s.val(st, ins.a[0][1], ins.a[0][0])) * sz
        o = Obj(ins.res, n, kind='raw', isstack=True)
        ty = s.m.resolve(ins.ty)
        if isinstance(ty, ArrT):
            o.stride = s.m.size(ty.e)
        oid = s.newobj(st, o)
        st.fr.allocas.append(oid)
        st.fr.env[ins.res] = Ptr(oid, Poly.const(0))

    def i_load(s, st, ins):
        p = s.val(st, ins.a[0], ir.PTR)
        st.fr.env[ins.res] = s.load(st, p, ins.ty)

    def i_store(s, st, ins):
        s.store(st, s.val(st, ins.a[1], ir.PTR), ins.ty, s.val(st, ins.a[0], ins.ty))

    def i_gep(s, st, ins):
        base = s.val(st, ins.a[0][1], ins.a[0][0])
        st.fr.env[ins.res] = s.gep(st, ins.ty, base, [(tt, s.val(st, vv, tt)) for tt, vv in ins.a[1:]])

    def i_fence(s, st, ins):
        pass

    def i_landingpad(s, st, ins):
        raise Unsupported('exception landing')

    def i_freeze(s, st, ins):
        v = s.val(st, ins.a[0], ins.ty)
        if isinstance(v, Undef):
            v = s.havoc_val(st, ins.ty, 'frz')
        st.fr.env[ins.res] = v

    def i_extractvalue(s, st, ins):
        v = s.val(st, ins.a[0], ins.ty)
        for k in ins.a[1]:
            v = v[k]
        st.fr.env[ins.res] = v

    def i_insertvalue(s, st, ins):
        def put(agg, idx, w):
            a = list(agg)
            a[idx[0]] = w if len(idx) == 1 else put(a[idx[0]], idx[1:], w)
            return a
        v = s.val(st, ins.a[0], ins.ty)
        if isinstance(v, Undef):
            v = s.ty_default(ins.ty)
        st.fr.env[ins.res] = put(v, ins.a[2], s.val(st, ins.a[1], ins.a[3]))

    # casts
    def i_trunc(s, st, ins):
        x = s.val(st, ins.a[1], ins.a[0])
        if ins.ty.w == 1:
            st.fr.env[ins.res] = s.as_bool(st, x)
            return
        x = s.as_int(st, x)
        st.fr.env[ins.res] = s.wrap(st, x, ins.ty.w, what='trunc')

    def i_zext(s, st, ins):
        x = s.val(st, ins.a[1], ins.a[0])
        x = s.as_int(st, x)
        if ins.a[0].w > 1:
            x = s.unsigned(st, x, ins.a[0].w)
        st.fr.env[ins.res] = x

    def i_sext(s, st, ins):
        x = s.val(st, ins.a[1], ins.a[0])
        if ins.a[0].w == 1:
            x = -s.as_int(st, x)
        st.fr.env[ins.res] = s.as_int(st, x)

    def i_bitcast(s, st, ins):
        v = s.val(st, ins.a[1], ins.a[0])
        if isinstance(ins.ty, FloatT) != isinstance(s.m.resolve(ins.a[0]), FloatT):
            v = s.havoc_val(st, ins.ty, 'bitcast')
        st.fr.env[ins.res] = v

    i_addrspacecast = i_bitcast

    def base_addr(s, st, oid):
        if oid is None:
            return Poly.const(0)
        e = z3.Int('addr!%d' % oid)
        return Poly.atom(e)

    def i_ptrtoint(s, st, ins):
        p = s.val(st, ins.a[1], ins.a[0])
        if not isinstance(p, Ptr):
            raise Unsupported('ptrtoint of %r' % (p,))
        st.fr.env[ins.res] = p.off if p.o is None else s.base_addr(st, p.o) + p.off

    def i_inttoptr(s, st, ins):
        st.fr.env[ins.res] = Ptr(None, s.as_int(st, s.val(st, ins.a[1], ins.a[0])))

    def i_sitofp(s, st, ins):
        x = s.as_int(st, s.val(st, ins.a[1], ins.a[0]))
        st.fr.env[ins.res] = Poly(dict(x.t), True)
        s.assumptions.add('floating point treated as exact real arithmetic')

    def i_uitofp(s, st, ins):
        x = s.as_int(st, s.val(st, ins.a[1], ins.a[0]))
        if ins.a[0].w > 1:
            x = s.unsigned(st, x, ins.a[0].w)
        st.fr.env[ins.res] = Poly(dict(x.t), True)
        s.assumptions.add('floating point treated as exact real arithmetic')

    def i_fpext(s, st, ins):
        s.assumptions.add('floating point treated as exact real arithmetic')
        st.fr.env[ins.res] = s.val(st, ins.a[1], ins.a[0])

    def i_fptrunc(s, st, ins):
        if not s.opts.get('narrowing'):
            return s.i_fpext(st, ins)
        # a value squeezed into single precision is some function of it
        x = s.as_real(s.val(st, ins.a[1], ins.a[0]))
        if x.is_const() and Fraction(x.cval()).denominator.bit_length() < 24 and abs(Fraction(x.cval()).numerator) < 1 << 24:
            st.fr.env[ins.res] = x
            return
        st.fr.env[ins.res] = Poly.atom(s.narrow(x.z()))

    narrow = z3.Function('to_single', z3.RealSort(), z3.RealSort())

    def i_fptosi(s, st, ins):
        x = s.val(st, ins.a[1], ins.a[0])
        if x.is_const():
            v = Fraction(x.cval())
            q = abs(v.numerator) // v.denominator
            st.fr.env[ins.res] = Poly.const(q if v >= 0 else -q)
            return
        z = x.z()
        st.fr.env[ins.res] = Poly.atom(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z)))

    i_fptoui = i_fptosi

    # arithmetic
    def two(s, st, ins):
        return s.val(st, ins.a[0], ins.ty), s.val(st, ins.a[1], ins.ty)

    def arith(s, st, ins, fn, what):
        a, b = s.two(st, ins)
        if ins.ty.w == 1:
            a, b = s.as_bool(st, a), s.as_bool(st, b)
            r = Or(And(a, Not(b)), And(Not(a), b))
            st.fr.env[ins.res] = r if what != 'mul' else And(a, b)
            return
        a, b = s.as_int(st, a), s.as_int(st, b)
        st.fr.env[ins.res] = s.wrap(st, fn(a, b), ins.ty.w, nsw='nsw' in ins.flags, nuw='nuw' in ins.flags, what=what)

    def i_add(s, st, ins): s.arith(st, ins, lambda a, b: a + b, 'add')
    def i_sub(s, st, ins): s.arith(st, ins, lambda a, b: a - b, 'sub')
    def i_mul(s, st, ins): s.arith(st, ins, lambda a, b: a * b, 'mul')

    def i_shl(s, st, ins):
        a, b = s.two(st, ins)
        a, b = s.as_int(st, a), s.as_int(st, b)
        if not b.is_const():
            if a.is_const() and a.cval() == 1:
                # 1 << b
                t = z3.IntVal(0)
                w = ins.ty.w
                lo, hi = s.rng(w)
                for k in range(w):
                    v = 1 << k
                    if v > hi:
                        v -= 1 << w
                    t = z3.If(b.z() == k, z3.IntVal(v), t)
                s.oblige(st, And(cmp('ge', b, Poly.const(0)), cmp('lt', b, Poly.const(w))), 'shift amount in range')
                st.fr.env[ins.res] = Poly.atom(t)
                return
            st.fr.env[ins.res] = s.havoc_val(st, ins.ty, 'shl')
            return
        st.fr.env[ins.res] = s.wrap(st, a * (1 << b.cval()), ins.ty.w, nsw='nsw' in ins.flags, nuw='nuw' in ins.flags, what='shl')

    def i_lshr(s, st, ins):
        a, b = s.two(st, ins)
        a, b = s.as_int(st, a), s.as_int(st, b)
        if not b.is_const():
            st.fr.env[ins.res] = s.havoc_val(st, ins.ty, 'lshr')
            return
        a = s.unsigned(st, a, ins.ty.w)
        st.fr.env[ins.res] = s.divmod_const(st, a, 1 << b.cval())[0]

    def i_ashr(s, st, ins):
        a, b = s.two(st, ins)
        a, b = s.as_int(st, a), s.as_int(st, b)
        if not b.is_const():
            st.fr.env[ins.res] = s.havoc_val(st, ins.ty, 'ashr')
            return
        st.fr.env[ins.res] = s.divmod_const(st, a, 1 << b.cval())[0]

    def tdiv(s, st, a, b):
        """C truncating division, b a non-zero Poly; returns quotient."""
        if b.is_const():
            c = b.cval()
            if c < 0:
                return -s.tdiv(st, a, Poly.const(-c))
            q = a.divexact(c)
            if q is not None:
                return q
            nn = cmp('ge', a, Poly.const(0))
            if nn is True or st.spec or s.known(st, nn):
                return s.divmod_const(st, a, c)[0]
            p = s.divmod_const(st, a, c)[0]
            m = -s.divmod_const(st, -a, c)[0]
            return ite(nn, p, m)
        # symbolic divisor: exact syntactic quotient, else fresh quotient with its defining property
        q = polydiv(a, b)
        if q is not None:
            return q
        if a.is_const() and a.cval() == 0:
            return a
        q = Poly.atom(s.fresh('quot'))
        r = a - q * b
        az, bz, rz = a.z(), b.z(), r.z()
        s_pos = And(s.known(st, cmp('ge', a, Poly.const(0))), s.known(st, cmp('gt', b, Poly.const(0))))
        if s_pos is True:
            st.facts.append(z3.And(rz >= 0, rz < bz, q.z() >= 0, q.z() <= az))
        else:
            st.facts.append(z3.Implies(bz != 0, z3.And(z3.If(az >= 0, z3.And(rz >= 0, rz < z3.If(bz > 0, bz, -bz)),
                                                            z3.And(rz <= 0, -rz < z3.If(bz > 0, bz, -bz))))))
        return q

    def i_sdiv(s, st, ins):
        a, b = s.two(st, ins)
        a, b = s.as_int(st, a), s.as_int(st, b)
        if not b.is_const() or b.cval() == 0:
            s.oblige(st, cmp('ne', b, Poly.const(0)), 'no division by zero')
        st.fr.env[ins.res] = s.tdiv(st, a, b)

    def i_srem(s, st, ins):
        a, b = s.two(st, ins)
        a, b = s.as_int(st, a), s.as_int(st, b)
        if not b.is_const() or b.cval() == 0:
            s.oblige(st, cmp('ne', b, Poly.const(0)), 'no division by zero')
        st.fr.env[ins.res] = a - s.tdiv(st, a, b) * b

    def i_udiv(s, st, ins):
        a, b = s.two(st, ins)
        a, b = s.unsigned(st, s.as_int(st, a), ins.ty.w), s.unsigned(st, s.as_int(st, b), ins.ty.w)
        if not b.is_const() or b.cval() == 0:
            s.oblige(st, cmp('ne', b, Poly.const(0)), 'no division by zero')
        st.fr.env[ins.res] = s.wrap(st, s.tdiv(st, a, b), ins.ty.w, what='udiv')

    def i_urem(s, st, ins):
        a, b = s.two(st, ins)
        a, b = s.unsigned(st, s.as_int(st, a), ins.ty.w), s.unsigned(st, s.as_int(st, b), ins.ty.w)
        if not b.is_const() or b.cval() == 0:
            s.oblige(st, cmp('ne', b, Poly.const(0)), 'no division by zero')
        st.fr.env[ins.res] = a - s.tdiv(st, a, b) * b

    def bitop(s, st, ins, op):
        a, b = s.two(st, ins)
        w = ins.ty.w
        if w == 1 or ((z3.is_bool(a) if isinstance(a, z3.ExprRef) else isinstance(a, bool))):
            a, b = s.as_bool(st, a), s.as_bool(st, b)
            st.fr.env[ins.res] = And(a, b) if op == 'and' else Or(a, b) if op == 'or' else Or(And(a, Not(b)), And(Not(a), b))
            return
        a, b = s.as_int(st, a), s.as_int(st, b)
        if a.is_const() and b.is_const():
            x = {'and': lambda p, q: p & q, 'or': lambda p, q: p | q, 'xor': lambda p, q: p ^ q}[op](a.cval(), b.cval())
            st.fr.env[ins.res] = Poly.const(x)
            return
        # bools widened to integers
        x, y = boolish(a), boolish(b)
        if x is not None and y is not None:
            r = And(x, y) if op == 'and' else Or(x, y) if op == 'or' else Or(And(x, Not(y)), And(Not(x), y))
            st.fr.env[ins.res] = s.as_int(st, r)
            return
        if a.is_const():
            a, b = b, a
        if b.is_const():
            c = b.cval()
            if op == 'and':
                if c == 0:
                    st.fr.env[ins.res] = Poly.const(0)
                    return
                if c > 0 and (c & (c + 1)) == 0:
                    st.fr.env[ins.res] = s.divmod_const(st, a, c + 1)[1]
                    return
                if c < 0 and ((-c) & (-c - 1)) == 0:
                    st.fr.env[ins.res] = a - s.divmod_const(st, a, -c)[1]
                    return
                if c > 0 and (c & (c - 1)) == 0:
                    q = s.divmod_const(st, a, c)[0]
                    st.fr.env[ins.res] = s.divmod_const(st, q, 2)[1] * c
                    return
            if op == 'xor' and c == -1:
                st.fr.env[ins.res] = -a - 1
                return
            if op == 'or' and ('disjoint' in ins.flags or c == 0):
                st.fr.env[ins.res] = a + c
                return
            if c == 0:
                st.fr.env[ins.res] = a
                return
        # bit by bit where both operands are sums of distinct powers of two times truth values
        x, y = bitsof(a, w), bitsof(b, w)
        if x is not None and y is not None:
            r = []
            for k in range(w):
                p_, q_ = x[k], y[k]
                r.append(And(p_, q_) if op == 'and' else Or(p_, q_) if op == 'or' else Or(And(p_, Not(q_)), And(Not(p_), q_)))
            v = Poly.const(0)
            for k in range(w):
                if r[k] is not False:
                    c = 1 << k
                    if k == w - 1:
                        c = -c
                    v = v + s.as_int(st, r[k]) * c
            st.fr.env[ins.res] = v
            return
        # exact via bit-vectors for small widths / masks
        if w <= 64 and s.opts.get('bv', True):
            za, zb_ = z3.Int2BV(a.z(), w), z3.Int2BV(b.z(), w)
            r = za & zb_ if op == 'and' else za | zb_ if op == 'or' else za ^ zb_
            st.fr.env[ins.res] = Poly.atom(z3.BV2Int(r, True))
            return
        st.fr.env[ins.res] = s.havoc_val(st, ins.ty, op)

    def i_and(s, st, ins): s.bitop(st, ins, 'and')
    def i_or(s, st, ins): s.bitop(st, ins, 'or')
    def i_xor(s, st, ins): s.bitop(st, ins, 'xor')

    def fbin(s, st, ins, fn):
        a, b = s.two(st, ins)
        s.assumptions.add('floating point treated as exact real arithmetic')
        st.fr.env[ins.res] = fn(s.as_real(a), s.as_real(b))

    def as_real(s, a):
        if isinstance(a, Undef):
            return Poly.atom(s.fresh('undef', 'real'))
        if not a.real:
            return Poly(dict(a.t), True)
        return a

    def i_fadd(s, st, ins): s.fbin(st, ins, lambda a, b: a + b)
    def i_fsub(s, st, ins): s.fbin(st, ins, lambda a, b: a - b)
    def i_fmul(s, st, ins): s.fbin(st, ins, lambda a, b: a * b)

    def fdiv(s, st, a, b):
        if b.is_const() and b.cval() != 0:
            return a * Poly.const(Fraction(1) / Fraction(b.cval()), True)
        key = ('inv', frozenset(b.t.items()))
        inv = st.ghost.get(key)
        if inv is None:
            inv = Poly.atom(s.fresh('inv', 'real'))
            st.ghost[key] = inv
            st.ghost.setdefault('invs', [])
            st.ghost['invs'] = st.ghost['invs'] + [(inv, b)]
            st.facts.append(z3.Implies(b.z() != 0, b.z() * inv.z() == 1))
        return a * inv

    def i_fdiv(s, st, ins): s.fbin(st, ins, lambda a, b: s.fdiv(st, a, b))

    def i_fneg(s, st, ins):
        st.fr.env[ins.res] = -s.as_real(s.val(st, ins.a[0], ins.ty))

    def i_fcmp(s, st, ins):
        p, a, b = ins.a
        a, b = s.as_real(s.val(st, a, ins.ty)), s.as_real(s.val(st, b, ins.ty))
        if p in ('ord', 'true'):
            r = True
        elif p in ('uno', 'false'):
            r = False
        else:
            r = cmp(p[1:], a, b)
        st.fr.env[ins.res] = r
        for c in s.ctxs:
            c.cmps.append(a - b)

    def i_icmp(s, st, ins):
        p = ins.a[0]
        a, b = s.val(st, ins.a[1], ins.ty), s.val(st, ins.a[2], ins.ty)
        st.fr.env[ins.res] = s.icmp(st, p, a, b, ins.ty)

    def icmp(s, st, p, a, b, ty):
        if isinstance(a, Fn) or isinstance(b, Fn):
            eq = isinstance(a, Fn) and isinstance(b, Fn) and a.n == b.n
            return eq == (p == 'eq')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Undef) or isinstance(b, Undef):
                return s.fresh('undef', 'bool')
            if a.o == b.o:
                q = p if p in ('eq', 'ne') else p[1:]
                for c in s.ctxs:
                    if a.o is not None:
                        w = st.mem[a.o].w or 8
                        d = (a.off - b.off)
                        c.cmps.append(d.divexact(w) or d)
                return cmp(q, a.off, b.off)
            if p in ('eq', 'ne'):
                return p == 'ne'
            return s.fresh('ptrord', 'bool')
        if isinstance(ty, IntT) and ty.w == 1:
            a, b = s.as_bool(st, a), s.as_bool(st, b)
            if p in ('eq', 'ne'):
                if a is True or a is False:
                    a, b = b, a
                if b is True:
                    r = a
                elif b is False:
                    r = Not(a)
                else:
                    r = a == b
                return r if p == 'eq' else Not(r)
            a, b = s.as_int(st, a), s.as_int(st, b)
            if p[0] == 's':
                a, b = -a, -b
            return cmp(p[1:], a, b)
        a, b = s.as_int(st, a), s.as_int(st, b)
        w = ty.w
        if p in ('eq', 'ne'):
            # zext'd bool compared with a constant
            x = boolish(a)
            if x is not None and b.is_const() and b.cval() in (0, 1):
                r = x if b.cval() == 1 else Not(x)
                return r if p == 'eq' else Not(r)
            for c in s.ctxs:
                c.cmps.append(a - b)
            return cmp(p, a, b)
        if p[0] == 'u':
            a, b = s.unsigned(st, a, w), s.unsigned(st, b, w)
        for c in s.ctxs:
            c.cmps.append(a - b)
        return cmp(p[1:], a, b)

    def i_atomicrmw(s, st, ins):
        op, a, v = ins.a
        p = s.val(st, a, ir.PTR)
        x = s.val(st, v, ins.ty)
        old = s.load(st, p, ins.ty)
        if op == 'add':
            new = s.wrap(st, old + x, ins.ty.w, what='add')
        elif op == 'sub':
            new = s.wrap(st, old - x, ins.ty.w, what='sub')
        elif op == 'xchg':
            new = x
        else:
            raise Unsupported('atomicrmw ' + op)
        s.store(st, p, ins.ty, new)
        st.fr.env[ins.res] = old

    # ------------------------------------------------------------------ calls
    def i_call(s, st, ins):
        return s.call(st, ins)

    def i_invoke(s, st, ins):
        r = s.call(st, ins)
        if r is not None:
            return r
        return [s.edge(st, ins.a[2][0])]

    def call(s, st, ins):
        import intrinsics
        callee, args, dest = ins.a
        if callee[0] == 'asm':
            if ins.res:
                st.fr.env[ins.res] = s.havoc_val(st, ins.ty, 'asm')
            return None
        if callee[0] == 'glob':
            nm = callee[1][1:].strip('"')
        else:
            fn = s.val(st, callee, ir.PTR)
            if not isinstance(fn, Fn):
                raise Unsupported('indirect call')
            nm = fn.n
        if nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime') or nm.startswith('llvm.experimental') or nm.startswith('llvm.assume'):
            return None
        h = intrinsics.find(nm)
        if h is not None:
            av = [s.val(st, v, t) if not (isinstance(t, ir.OtherT)) else None for t, v in args]
            r = h(s, st, ins, av)
            if isinstance(r, intrinsics.Fork):
                return r.outs
            if ins.res:
                st.fr.env[ins.res] = r
            return None
        if is_fatal(nm):
            s.abort(st)
            return []
        if nm in s.m.funcs:
            f = s.func(nm)
            av = [s.val(st, v, t) for t, v in args]
            if len(st.frames) > 24:
                raise Unsupported('call depth / recursion at ' + nm)
            g = Frame(f)
            for (pn, pt), x in zip(f.args, av):
                g.env[pn] = x
            st.frames.append(g)
            return [('edge', st)]
        if s.in_doomed(st):
            s.abort(st)
            return []
        raise Unsupported('call to external function ' + nm)

    # evaluate a pure spec function (bool f(closure*, i64...)) in a state, without touching it
    def eval_spec(s, st, fname, args, num=False):
        t = st.fork()
        t.pend = []
        t.spec += 1
        f = s.func(fname)
        g = Frame(f)
        for (pn, pt), x in zip(f.args, args):
            g.env[pn] = x
        g.ret = ('spec',)
        t.frames.append(g)
        s.dry += 1
        saved, s.ctxs = s.ctxs, []
        n0 = len(t.facts)
        try:
            for _ in range(10000):
                outs = s.run(t)
                if len(outs) != 1:
                    raise Unsupported('specification function forks')
                kind, t = outs[0]
                if kind == 'end':
                    break
        finally:
            s.dry -= 1
            s.ctxs = saved
        r = s.as_int(st, t.ghost['specret']) if num else s.as_bool(st, t.ghost['specret'])
        return r

    # ------------------------------------------------------------------ loops
    def do_loop(s, st):
        import loops
        return loops.LoopProver(s, st).go()


class PathEnd(Exception):
    pass


def boolish(p):
    """z3 Bool (or Python bool) behind a 0/1 integer polynomial."""
    if p.is_const() and p.cval() in (0, 1):
        return bool(p.cval())
    a = p.single_atom()
    if a is not None and z3.is_app_of(a, z3.Z3_OP_ITE):
        x, y = a.arg(1), a.arg(2)
        if z3.is_int_value(x) and z3.is_int_value(y):
            if x.as_long() == 1 and y.as_long() == 0:
                return a.arg(0)
    return None


def bitsof(p, w):
    """The two's complement bits of p as Booleans, or None."""
    r = bitsof1(p, w)
    if r is None:
        r = bitsof1(-p - 1, w)
        if r is not None:
            r = [Not(b) for b in r]
    return r


def bitsof1(p, w):
    if p.is_const():
        c = p.cval()
        return [bool((c >> k) & 1) for k in range(w)]
    out = [False] * w
    c0 = 0
    rest = []
    for m, c in p.t.items():
        if m == ():
            c0 = c
        else:
            rest.append((m, c))
    for m, c in rest:
        q = Poly({m: 1})
        b = boolish(q)
        if b is None or c == 0:
            return None
        k = abs(c).bit_length() - 1
        if abs(c) != 1 << k or k >= w or (c < 0 and k != w - 1) or (c > 0 and k == w - 1) or out[k] is not False:
            return None
        out[k] = b
    for k in range(w):
        if (c0 >> k) & 1:
            if out[k] is not False:
                return None
            out[k] = True
    return out


def polydiv(a, b):
    """Exact polynomial quotient a / b for a single-monomial b (or equal polys); None if not exact."""
    if a == b:
        return Poly.const(1, a.real)
    if len(b.t) == 1:
        (m, c), = b.t.items()
        r = {}
        for n, d in a.t.items():
            l = list(n)
            for x in m:
                if x in l:
                    l.remove(x)
                else:
                    return None
            if d % c:
                return None
            r[tuple(l)] = d // c
        return Poly(r, a.real)
    return None
