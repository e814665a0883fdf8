"""Meaning of the specification intrinsics used by the harnesses and of the external functions under assumed contracts."""
import z3
import ir
from poly import Poly, atom_id, cmp, Not, And, Or, Implies, ite, zb

TABLE = {}
PATTERNS = []


class Fork:
    def __init__(s, outs): s.outs = outs


def find(n):
    h = TABLE.get(n)
    if h:
        return h
    for p, h in PATTERNS:
        if n.startswith(p):
            return h
    return None


def reg(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def cstr(e, st, p):
    """C string constant behind a pointer."""
    from engine import Ptr
    if not isinstance(p, Ptr) or p.o is None or p.o not in st.mem:
        return '?'
    o = st.mem[p.o]
    k = p.off.cval()
    out = ''
    while k in o.cells:
        c = o.cells[k][1].cval()
        if c == 0:
            break
        out += chr(c & 255)
        k += 1
    return out


# ---- specification intrinsics ------------------------------------------------------------------
@reg('v_nd')
def v_nd(e, st, ins, a):
    nm = cstr(e, st, a[0])
    x = Poly.atom(e.fresh(nm))
    lo, hi = -(1 << 63), (1 << 63) - 1
    st.facts.append(z3.And(x.z() >= lo, x.z() <= hi))
    st.names.append((nm, x))
    return x


@reg('v_nd_in')
def v_nd_in(e, st, ins, a):
    nm = cstr(e, st, a[0])
    x = Poly.atom(e.fresh(nm))
    e.add_fact(st, And(cmp('ge', x, e.as_int(st, a[1])), cmp('le', x, e.as_int(st, a[2]))))
    st.names.append((nm, x))
    return x


@reg('v_nd_bool')
def v_nd_bool(e, st, ins, a):
    b = e.fresh(cstr(e, st, a[0]), 'bool')
    st.names.append((cstr(e, st, a[0]), e.as_int(st, b)))
    return b


@reg('v_nd_real')
def v_nd_real(e, st, ins, a):
    nm = cstr(e, st, a[0])
    x = Poly.atom(e.fresh(nm, 'real'))
    st.names.append((nm, x))
    return x


@reg('v_assume')
def v_assume(e, st, ins, a):
    from engine import PathEnd
    b = e.as_bool(st, a[0])
    if b is False:
        raise PathEnd()
    e.add_fact(st, b)


@reg('v_assert')
def v_assert(e, st, ins, a):
    b = e.as_bool(st, a[0])
    e.check_assert(st, b, cstr(e, st, a[1]))


@reg('v_unreachable')
def v_unreachable(e, st, ins, a):
    from engine import PathEnd
    e.check_assert(st, False, cstr(e, st, a[0]))
    raise PathEnd()


@reg('v_abort_ok')
def v_abort_ok(e, st, ins, a):
    c = e.as_bool(st, a[0])
    st.abort_ok = c is not False
    st.ghost['abort_if'] = c


@reg('v_abort_kind')
def v_abort_kind(e, st, ins, a):
    """the error has to be reported this way: 'handler', or an exception whose type name contains the text"""
    st.abort_ok = True
    st.ghost['abort_kind'] = cstr(e, st, a[0])


@reg('v_note')
def v_note(e, st, ins, a):
    st.notes.append(cstr(e, st, a[0]))


@reg('v_obj')
def v_obj(e, st, ins, a):
    """v_obj(name, count, width, kind): kind 0 = initialised plain elements, 1 = live tracked elements,
    2 = tracked storage without live elements, 3 = reals, 4 = uninitialised heap-like plain storage"""
    from engine import Obj, Ptr
    nm = cstr(e, st, a[0])
    n, w, kind = e.as_int(st, a[1]), a[2].cval(), a[3].cval()
    real = kind == 3
    o = Obj(nm, n * w, kind='arr', w=w, real=real, tr=kind in (1, 2))
    e.add_fact(st, cmp('ge', n, Poly.const(0)))
    if kind == 2:
        o.arr = z3.K(z3.IntSort(), z3.IntVal(0))
    else:
        o.arr = e.fresh(nm, 'rarr' if real else 'arr')
    if kind == 1:
        k = z3.Int('k_' + nm)
        st.facts.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n.z()), z3.Select(o.arr, k) >= 2), patterns=[z3.Select(o.arr, k)]))
        st.facts.append(z3.ForAll([k], z3.Implies(z3.Not(z3.And(0 <= k, k < n.z())), z3.Select(o.arr, k) == 0), patterns=[z3.Select(o.arr, k)]))
    if kind == 0 and w < 8:
        k = z3.Int('k_' + nm)
        lo, hi = e.rng(8 * w)
        st.facts.append(z3.ForAll([k], z3.And(z3.Select(o.arr, k) >= lo, z3.Select(o.arr, k) <= hi), patterns=[z3.Select(o.arr, k)]))
    oid = e.newobj(st, o)
    return Ptr(oid, Poly.const(0))


@reg('v_obj_live')
def v_obj_live(e, st, ins, a):
    """v_obj_live(name, cap, n): tracked storage of cap elements whose first n are live"""
    from engine import Obj, Ptr
    nm = cstr(e, st, a[0])
    cap, n = e.as_int(st, a[1]), e.as_int(st, a[2])
    e.add_fact(st, And(cmp('ge', n, Poly.const(0)), cmp('le', n, cap)))
    o = Obj(nm, cap * 8, kind='arr', w=8, tr=True)
    o.arr = e.fresh(nm, 'arr')
    k = z3.Int('k_' + nm)
    inr = z3.And(0 <= k, k < n.z())
    st.facts.append(z3.ForAll([k], z3.And(z3.Implies(inr, z3.Select(o.arr, k) >= 2), z3.Implies(z3.Not(inr), z3.Select(o.arr, k) == 0)),
                              patterns=[z3.Select(o.arr, k)]))
    return Ptr(e.newobj(st, o), Poly.const(0))


@reg('v_own')
def v_own(e, st, ins, a):
    """v_own(p): the object came from malloc (the code under proof may free it)"""
    o = st.mem[a[0].o].clone()
    o.heap = True
    st.mem[a[0].o] = o


@reg('v_pairing')
def v_pairing(e, st, ins, a):
    """v_pairing(p, b, n): precondition p[j] == g[b[j]] for some array g (returned), values of p and b from disjoint ranges"""
    from engine import Obj, Ptr
    K = 1 << 40
    n = e.as_int(st, a[2]).z()
    g = Obj('g', Poly.const(1 << 50), kind='arr', w=8, tr=True)
    g.arr = e.fresh('g', 'arr')
    g.ro = True
    k = z3.Int('k_pairing')
    A, B = st.mem[a[0].o].arr, st.mem[a[1].o].arr
    st.facts.append(z3.ForAll([k], z3.Select(g.arr, k) >= K, patterns=[z3.Select(g.arr, k)]))
    for pat in (A, B):
        st.facts.append(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(z3.Select(A, k) == z3.Select(g.arr, z3.Select(B, k)), z3.Select(B, k) < K)),
                                  patterns=[z3.Select(pat, k)]))
    return Ptr(e.newobj(st, g), Poly.const(0))


@reg('v_permute')
def v_permute(e, st, ins, a):
    """v_permute(base, lo, hi): the live elements [lo, hi) are rearranged in some way"""
    lo, hi = e.as_int(st, a[1]), e.as_int(st, a[2])
    oid = a[0].o
    o = e.settle(st, oid, 8, False, True)
    base = a[0].off.divexact(o.w)
    k = z3.Int('k!perm%d' % e.counter)
    e.flush(st)
    j = e.fresh('j')
    e.oblige(st, z3.Implies(z3.And(lo.z() <= j, j < hi.z()), z3.And((base + Poly.atom(j)).z() >= 0, (base + Poly.atom(j)).z() < o.n().z(), z3.Select(o.arr, (base + Poly.atom(j)).z()) >= 2)),
             'the permuted elements are live')
    new = e.fresh(o.name.replace('%', '') + '_p', 'arr')
    inr = z3.And((base + lo).z() <= k, k < (base + hi).z())
    st.facts.append(z3.ForAll([k], z3.And(z3.Implies(inr, z3.Select(new, k) >= 2), z3.Implies(z3.Not(inr), z3.Select(new, k) == z3.Select(o.arr, k))), patterns=[z3.Select(new, k)]))
    o = o.clone()
    o.arr = new
    st.mem[oid] = o
    for c in e.ctxs:
        c.stores.append((oid, None, None, None))


@reg('v_havoc')
def v_havoc(e, st, ins, a):
    """v_havoc(base, lo, hi): the cells [lo, hi) of tracked storage are left in some state"""
    lo, hi = e.as_int(st, a[1]), e.as_int(st, a[2])
    oid = a[0].o
    if oid is None:
        e.oblige(st, cmp('le', hi, lo), 'no null dereference (callee writes)')
        return
    o = e.settle(st, oid, 8, False, True)
    base = a[0].off.divexact(o.w)
    e.flush(st)
    e.oblige(st, Or(cmp('le', hi, lo), And(cmp('ge', base + lo, Poly.const(0)), cmp('le', base + hi, o.n()), o.alive)), 'what the callee writes is inside the object')
    new = e.fresh(o.name.replace('%', '') + '_v', 'arr')
    k = z3.Int('k!havoc%d' % e.counter)
    inr = z3.And((base + lo).z() <= k, k < (base + hi).z())
    st.facts.append(z3.ForAll([k], z3.And(z3.Implies(inr, z3.Select(new, k) >= 0), z3.Implies(z3.Not(inr), z3.Select(new, k) == z3.Select(o.arr, k))), patterns=[z3.Select(new, k)]))
    o = o.clone()
    o.arr = new
    st.mem[oid] = o
    for c in e.ctxs:
        c.stores.append((oid, None, None, None))


@reg('v_sorted')
def v_sorted(e, st, ins, a):
    """v_sorted(p, n, strict): assume the n elements at p are sorted (strictly if strict)"""
    w = a[3].cval() if len(a) > 3 else 8
    if isinstance(a[1], Poly) and a[1].is_const() and a[1].cval() <= 1:
        return
    o = e.settle(st, a[0].o, w, False, False)
    base = a[0].off.divexact(o.w)
    i, j = z3.Int('si!q'), z3.Int('sj!q')
    n = e.as_int(st, a[1])
    lt = z3.Select(o.arr, i) < z3.Select(o.arr, j) if e.as_bool(st, a[2]) is True else z3.Select(o.arr, i) <= z3.Select(o.arr, j)
    e.flush(st)
    st.facts.append(z3.ForAll([i, j], z3.Implies(z3.And(base.z() <= i, i < j, j < (base + n).z()), lt),
                              patterns=[z3.MultiPattern(z3.Select(o.arr, i), z3.Select(o.arr, j))]))


@reg('v_snap')
def v_snap(e, st, ins, a):
    from engine import Ptr
    p = a[0]
    if p.o is None:
        return p
    o = st.mem[p.o].clone()
    o.ro = True
    o.alive = True
    o.heap = False
    o.name = 'old_' + o.name
    return Ptr(e.newobj(st, o), p.off)


@reg('v_cell')
def v_cell(e, st, ins, a):
    """v_cell(p, i): raw contents of the i-th 8-byte cell (tracked state or value) - specification only"""
    from engine import Ptr
    from poly import Poly as P
    p = a[0]
    oid = p.o
    o = st.mem[oid]
    idx = e.as_int(st, a[1])
    if o.kind == 'raw':
        o = e.settle(st, oid, 8, False, o.tr or True)
    if o.kind == 'cells':
        c = o.cells.get((p.off + idx * 8).cval())
        return c[1] if c else Poly.const(0)
    return Poly.of(e.select(o.arr, p.off.divexact(o.w) + idx))


@reg('v_q_begin')
def v_q_begin(e, st, ins, a):
    e.flush(st)
    st.spec += 1
    return Poly.atom(e.fresh('q'))


@reg('v_q_end')
def v_q_end(e, st, ins, a):
    """v_q_end(j, body): assume forall j. body"""
    st.spec -= 1
    j = a[0].z()
    b = zb(e.as_bool(st, a[1]))
    st.facts.append(forall([j], b))


@reg('v_q_end2')
def v_q_end2(e, st, ins, a):
    """v_q_end2(i, j, body): assume forall i, j. body"""
    st.spec -= 2
    b = zb(e.as_bool(st, a[2]))
    st.facts.append(forall([a[0].z(), a[1].z()], b))


@reg('v_forall')
def v_forall(e, st, ins, a):
    """v_forall(j, body): the formula forall j. body"""
    st.spec -= 1
    return forall([a[0].z()], zb(e.as_bool(st, a[1])))


@reg('v_forall2')
def v_forall2(e, st, ins, a):
    """v_forall2(i, j, body): the formula forall i, j. body"""
    st.spec -= 2
    return forall([a[0].z(), a[1].z()], zb(e.as_bool(st, a[2])))


@reg('v_exists')
def v_exists(e, st, ins, a):
    st.spec -= 1
    b = z3.Not(forall([a[0].z()], z3.Not(zb(e.as_bool(st, a[1])))))
    return b


def forall(vs, body):
    pats = patterns(vs, body)
    if pats:
        return z3.ForAll(vs, body, patterns=pats)
    return z3.ForAll(vs, body)


def has_read(t, ids):
    """Does an index contain a read that depends on the bound variables?"""
    st = [t]
    inside = []
    while st:
        x = st.pop()
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT:
            inside.append(x.arg(1))
        st.extend(x.children())
    while inside:
        x = inside.pop()
        if x.get_id() in ids:
            return True
        inside.extend(x.children())
    return False


def patterns(vs, body):
    """Single-term patterns (array reads) covering all the variables; else a multi-pattern."""
    ids = {v.get_id() for v in vs}
    reads = {}

    def fv(t, memo={}):
        r = set()
        st = [t]
        seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.get_id() in ids:
                r.add(x.get_id())
            st.extend(x.children())
        return r

    def walk(t, seen):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT or (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0):
            idx = t.arg(1) if t.decl().kind() == z3.Z3_OP_SELECT else t.arg(0)
            f = fv(t)
            if f and not (z3.is_app(idx) and idx.decl().kind() in (z3.Z3_OP_MUL,)):
                # avoid arithmetic on the bound variable where a plain read exists
                plain = idx.get_id() in ids
                reads.setdefault((frozenset(f)), []).append((0 if plain else 1, t))
        for c in t.children():
            walk(c, seen)
    walk(body, set())
    allv = frozenset(ids)
    if allv in reads:
        byarr = {}
        for p, t in reads[allv]:
            if t.decl().kind() == z3.Z3_OP_SELECT:
                byarr.setdefault(t.arg(0).get_id(), {})[t.get_id()] = t
        for g in byarr.values():
            # an array read at another array's contents: the inner read is the trigger
            if len(g) == 2 and not any(has_read(t.arg(1), ids) for t in g.values()):     # a[k] and a[k + c]: a single trigger would produce new instances for ever
                return [z3.MultiPattern(*g.values())]
        l = sorted(reads[allv], key=lambda x: x[0])
        best = [t for p, t in l if p == l[0][0]]
        return best[:4]
    if len(vs) == 2:
        a, b = frozenset([vs[0].get_id()]), frozenset([vs[1].get_id()])
        if a in reads and b in reads:
            ra = sorted(reads[a], key=lambda x: x[0])[0][1]
            rb = sorted(reads[b], key=lambda x: x[0])[0][1]
            return [z3.MultiPattern(ra, rb)]
    return []


@reg('v_implies_lemma')
def v_implies_lemma(e, st, ins, a):
    """assert then keep (same as v_assert)"""
    v_assert(e, st, ins, a)


@reg('v_hint')
def v_hint(e, st, ins, a):
    """v_hint(fn, ctx, nv, no, nc, na): invariant template bool fn(void* ctx, i64 x...) over nv loop-carried values, no other
    values fixed outside the loop, the contents of nc local objects the loop does not change, and na local arrays"""
    st.ghost['hints'] = st.ghost.get('hints', ()) + ((a[0].n, a[1], tuple(x.cval() for x in a[2:7])),)


@reg('v_templates')
def v_templates(e, st, ins, a):
    """v_templates(0): only frames and explicit templates for the memory in the loops that follow (the generic ones cost time)"""
    st.ghost['notemplates'] = e.explicit = a[0].cval() == 0


@reg('v_hint_clear')
def v_hint_clear(e, st, ins, a):
    st.ghost['hints'] = ()


@reg('v_track')
def v_track(e, st, ins, a):
    """Start counting live tracked elements equal to an arbitrary value."""
    e.flush(st)
    V = Poly.atom(e.fresh('trackV'))
    st.facts.append(V.z() >= 2)
    st.ghost['trackV'] = V
    st.ghost['cnt'] = Poly.const(0)
    return V


@reg('v_track_count')
def v_track_count(e, st, ins, a):
    return st.ghost['cnt']


@reg('v_heap_live')
def v_heap_live(e, st, ins, a):
    """number of heap blocks not freed"""
    return Poly.const(sum(1 for o in st.mem.values() if o.heap and o.alive))


@reg('v_ghost_get')
def v_ghost_get(e, st, ins, a):
    return st.ghost.get(('g', cstr(e, st, a[0])), Poly.const(0))


@reg('v_ghost_set')
def v_ghost_set(e, st, ins, a):
    st.ghost[('g', cstr(e, st, a[0]))] = e.as_int(st, a[1])


for _op in ('ctor', 'copy', 'move', 'acopy', 'amove', 'dtor', 'get'):
    def _mk(op):
        def h(e, st, ins, a):
            return e.tr_op(st, op, a, ins)
        return h
    TABLE['tr_' + _op] = _mk(_op)


# ---- assumed contracts on the C / C++ run time ----------------------------------------------------
def _malloc(e, st, ins, n, zero=False, nm='heap'):
    from engine import Obj, Ptr
    e.assumptions.add('malloc / operator new never fail and return fresh storage')
    n = e.unsigned(st, n, 64)
    o = Obj('%s%d' % (nm, e.objc + 1), n, kind='raw', heap=True, zero=zero)
    e.oblige(st, cmp('ge', n, Poly.const(0)), 'allocation size is not negative')
    return Ptr(e.newobj(st, o), Poly.const(0))


@reg('malloc', '_Znwm', '_Znam')
def malloc(e, st, ins, a):
    return _malloc(e, st, ins, e.as_int(st, a[0]))


@reg('free', '_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm')
def free(e, st, ins, a):
    p = a[0]
    if p.o is None:
        return
    o = st.mem[p.o]
    e.oblige(st, And(cmp('eq', p.off, Poly.const(0)), o.alive and o.heap), 'free of a live heap block (%s)' % o.name)
    if o.tr and o.kind == 'arr':
        # every element must have been destroyed (moved-from elements too)
        k = e.fresh('leak')
        n = o.n()
        e.oblige(st, z3.Implies(z3.And(0 <= k, k < n.z()), z3.Select(o.arr, k) == 0), 'no live element in freed storage (no leak)')
    o = o.clone()
    o.alive = False
    st.mem[p.o] = o


def _memset(e, st, ins, a):
    e.memset(st, a[0], e.as_int(st, a[1]), e.unsigned(st, e.as_int(st, a[2]), 64))
    return a[0]


def _memcpy(e, st, ins, a):
    e.memcpy(st, a[0], a[1], e.unsigned(st, e.as_int(st, a[2]), 64), False)
    return a[0]


def _memmove(e, st, ins, a):
    e.memcpy(st, a[0], a[1], e.unsigned(st, e.as_int(st, a[2]), 64), True)
    return a[0]


def _strlen(e, st, ins, a):
    from engine import Ptr
    p = a[0]
    for k in range(4096):
        c = e.load(st, Ptr(p.o, p.off + k), ir.intT(8))
        if not (isinstance(c, Poly) and c.is_const()):
            raise Unsupported('strlen of unknown text')
        if c.cval() == 0:
            return Poly.const(k)
    raise Unsupported('strlen of a long text')


TABLE['strlen'] = _strlen
TABLE['memset'] = _memset
TABLE['memcpy'] = _memcpy
TABLE['memmove'] = _memmove
PATTERNS.append(('llvm.memset.', _memset))
PATTERNS.append(('llvm.memcpy.', _memcpy))
PATTERNS.append(('llvm.memmove.', _memmove))


def _minmax(op):
    def h(e, st, ins, a):
        x, y = e.as_int(st, a[0]), e.as_int(st, a[1])
        w = ins.ty.w
        if op[0] == 'u':
            ux, uy = e.unsigned(st, x, w), e.unsigned(st, y, w)
        else:
            ux, uy = x, y
        c = cmp('lt', ux, uy)
        return ite(c, x, y) if op.endswith('min') else ite(c, y, x)
    return h


for _n in ('smin', 'smax', 'umin', 'umax'):
    PATTERNS.append(('llvm.%s.' % _n, _minmax(_n)))


def _abs(e, st, ins, a):
    x = e.as_int(st, a[0])
    return ite(cmp('ge', x, Poly.const(0)), x, -x)


PATTERNS.append(('llvm.abs.', _abs))


def _expect(e, st, ins, a):
    return a[0]


PATTERNS.append(('llvm.expect.', _expect))


def _fabs(e, st, ins, a):
    x = e.as_real(a[0])
    return ite(cmp('ge', x, Poly.const(0, True)), x, -x)


for _n in ('fabs', 'fabsf', 'fabsl'):
    TABLE[_n] = _fabs
PATTERNS.append(('llvm.fabs.', _fabs))


def _fmuladd(e, st, ins, a):
    e.assumptions.add('floating point treated as exact real arithmetic')
    return e.as_real(a[0]) * e.as_real(a[1]) + e.as_real(a[2])


PATTERNS.append(('llvm.fmuladd.', _fmuladd))
PATTERNS.append(('llvm.fma.', _fmuladd))

def _sqrt(name):
    SQRT = z3.Function(name, z3.RealSort(), z3.RealSort())

    def h(e, st, ins, a):
        e.assumptions.add('sqrt returns the exact non-negative real root')
        x = e.as_real(a[0])
        if x.is_const() and x.cval() in (0, 1):
            return x
        r = Poly.atom(SQRT(x.z()))
        st.facts.append(z3.Implies(x.z() >= 0, z3.And(r.z() >= 0, r.z() * r.z() == x.z())))
        if not any(r == q for q, _ in st.ghost.get('roots', [])):
            st.ghost['roots'] = st.ghost.get('roots', []) + [(r, x)]
        return r
    return h


for _n in ('sqrt', 'sqrtf', 'sqrtl'):
    TABLE[_n] = _sqrt(_n)
PATTERNS.append(('llvm.sqrt.f64', TABLE['sqrt']))
PATTERNS.append(('llvm.sqrt.f32', TABLE['sqrtf']))


def _fminmax(op):
    def h(e, st, ins, a):
        x, y = e.as_real(a[0]), e.as_real(a[1])
        c = cmp('lt', x, y)
        return ite(c, x, y) if op == 'min' else ite(c, y, x)
    return h


for _n, _o in (('fmin', 'min'), ('fminf', 'min'), ('fmax', 'max'), ('fmaxf', 'max')):
    TABLE[_n] = _fminmax(_o)
PATTERNS.append(('llvm.minnum.', _fminmax('min')))
PATTERNS.append(('llvm.maxnum.', _fminmax('max')))


@reg('__cxa_guard_acquire')
def guard_acquire(e, st, ins, a):
    return Poly.const(0)


@reg('__cxa_guard_release', '__cxa_atexit', '__cxa_begin_catch', '__cxa_end_catch', 'llvm.stacksave.p0', 'llvm.stackrestore.p0',
     'llvm.va_start', 'llvm.donothing')
def nothing(e, st, ins, a):
    return Poly.const(0)


def uninterpreted(name, nargs, real=True):
    f = z3.Function(name, *([z3.RealSort()] * (nargs + 1)))

    def h(e, st, ins, a):
        e.assumptions.add('libm functions are deterministic functions of their arguments; nothing else is assumed of them')
        return Poly.atom(f(*[e.as_real(x).z() for x in a]))
    return h


LIB1 = ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'sinh', 'cosh', 'tanh', 'cbrt', 'exp2', 'log2', 'log10')
LIB2 = ('atan2', 'pow', 'fmod', 'hypot')
for _n in LIB1:
    TABLE[_n] = uninterpreted(_n, 1)
    TABLE[_n + 'f'] = uninterpreted(_n + 'f', 1)
for _n in LIB2:
    TABLE[_n] = uninterpreted(_n, 2)
    TABLE[_n + 'f'] = uninterpreted(_n + 'f', 2)


def trig(name):
    """sin, cos and acos with the facts about them the eigenvalue contracts need"""
    f = {n: z3.Function(n, z3.RealSort(), z3.RealSort()) for n in ('sin', 'cos', 'acos')}
    PI = z3.Real('pi')

    def h(e, st, ins, a):
        e.assumptions.add('sin, cos and acos: sin^2 + cos^2 = 1; 0 <= acos <= pi; cos >= 1/2 and sin >= 0 on [0, pi/3]; nothing else is assumed of them')
        x = e.as_real(a[0]).z()
        if name == 'acos':
            st.facts.append(z3.Implies(z3.And(x >= -1, x <= 1), z3.And(f['acos'](x) >= 0, f['acos'](x) <= PI)))
        else:
            s_, c_ = f['sin'](x), f['cos'](x)
            st.facts.append(s_ * s_ + c_ * c_ == 1)
            st.facts.append(z3.Implies(z3.And(x >= 0, 3 * x <= PI), z3.And(2 * c_ >= 1, s_ >= 0)))
        return Poly.atom(f[name](x))
    return h


for _n in ('sin', 'cos', 'acos'):
    TABLE[_n] = trig(_n)
for _n in LIB1 + LIB2:
    PATTERNS.append(('llvm.%s.f64' % _n, TABLE[_n]))
    PATTERNS.append(('llvm.%s.f32' % _n, TABLE[_n + 'f']))


@reg('v_lib', 'v_lib2')
def v_lib(e, st, ins, a):
    """v_lib(name, x): the value of the library function of that name"""
    return TABLE[cstr(e, st, a[0])](e, st, ins, a[1:])


@reg('v_eqr')
def v_eqr(e, st, ins, a):
    """equality of reals (natively: up to rounding)"""
    d = e.as_real(a[0]) - e.as_real(a[1])
    if not d.t:
        return True
    d = normal(e, st, d)
    return cmp('eq', d, Poly.const(0, True))


def powers(d, aid):
    """d as a polynomial in the atom: degree -> coefficient"""
    r = {}
    for m, c in d.t.items():
        k = m.count(aid)
        r.setdefault(k, {})[tuple(x for x in m if x != aid)] = c
    return {k: Poly(t, True) for k, t in r.items()}


def normal(e, st, d):
    """A multiple (by factors known not to be zero) of d in which no reciprocal of a value known not to be zero occurs,
    and no square of the root of a value known not to be negative."""
    for _ in range(12):
        before = d
        for inv, b in reversed(st.ghost.get('invs', [])):
            aid = atom_id(inv.single_atom())
            ps = powers(d, aid)
            n = max(ps, default=0)
            if n and e.known(st, cmp('ne', b, Poly.const(0, True))) is True:
                r = Poly.const(0, True)
                pb = [Poly.const(1, True)]
                for _i in range(n):
                    pb.append(pb[-1] * b)
                for k, q in ps.items():
                    r = r + q * pb[n - k]
                d = r
        for r_, x in reversed(st.ghost.get('roots', [])):
            aid = atom_id(r_.single_atom())
            ps = powers(d, aid)
            if max(ps, default=0) > 1 and e.known(st, cmp('ge', x, Poly.const(0, True))) is True:
                r = Poly.const(0, True)
                for k, q in ps.items():
                    for _i in range(k // 2):
                        q = q * x
                    r = r + (q * r_ if k % 2 else q)
                d = r
        if d == before or not d.t:
            return d
    return d

