"""Polynomials over z3 atoms: exact (mathematical) integer / real arithmetic with a normal form."""
import z3
from fractions import Fraction

_atoms = []          # id -> z3 expr
_index = {}          # z3 ast id -> atom id


def atom_id(e):
    k = e.get_id()
    i = _index.get(k)
    if i is None:
        i = len(_atoms)
        _atoms.append(e)
        _index[k] = i
    return i


def atom_expr(i):
    return _atoms[i]


class Poly:
    __slots__ = ('t', 'real', '_z')

    def __init__(s, t, real=False):
        s.t = t
        s.real = real
        s._z = None

    # construction
    @staticmethod
    def const(c, real=False):
        if real and not isinstance(c, (int, Fraction)):
            c = Fraction(c)
        return Poly({(): c} if c else {}, real)

    @staticmethod
    def atom(e):
        return Poly({(atom_id(e),): 1}, z3.is_real(e))

    @staticmethod
    def of(e):
        """From a z3 arithmetic expression (decomposes + - * and numerals)."""
        if z3.is_int_value(e):
            return Poly.const(e.as_long())
        if z3.is_rational_value(e):
            f = e.as_fraction()
            return Poly.const(f, True)
        if z3.is_app(e):
            k = e.decl().kind()
            if k == z3.Z3_OP_ADD:
                r = Poly.of(e.arg(0))
                for c in e.children()[1:]:
                    r = r + Poly.of(c)
                return r
            if k == z3.Z3_OP_SUB:
                r = Poly.of(e.arg(0))
                for c in e.children()[1:]:
                    r = r - Poly.of(c)
                return r
            if k == z3.Z3_OP_UMINUS:
                return -Poly.of(e.arg(0))
            if k == z3.Z3_OP_MUL:
                r = Poly.of(e.arg(0))
                for c in e.children()[1:]:
                    r = r * Poly.of(c)
                return r
        return Poly.atom(e)

    # queries
    def is_const(s):
        return not s.t or (len(s.t) == 1 and () in s.t)

    def cval(s):
        return s.t.get((), 0)

    def single_atom(s):
        """z3 expr if this poly is exactly one atom with coefficient one."""
        if len(s.t) == 1:
            (m, c), = s.t.items()
            if c == 1 and len(m) == 1:
                return _atoms[m[0]]
        return None

    def atoms(s):
        return {a for m in s.t for a in m}

    def coef(s, aid):
        """(coefficient poly of atom linear part, remainder) - linear occurrences only; None if nonlinear in it."""
        c, r = {}, {}
        for m, k in s.t.items():
            n = m.count(aid)
            if n == 0:
                r[m] = k
            elif n == 1:
                mm = list(m)
                mm.remove(aid)
                c[tuple(mm)] = k
            else:
                return None
        return Poly(c, s.real), Poly(r, s.real)

    def divexact(s, n):
        if n == 1:
            return s
        r = {}
        for m, c in s.t.items():
            if isinstance(c, Fraction) or s.real:
                r[m] = Fraction(c) / n
            else:
                if c % n:
                    return None
                r[m] = c // n
        return Poly(r, s.real)

    # arithmetic
    def __add__(a, b):
        if not isinstance(b, Poly):
            b = Poly.const(b, a.real)
        r = dict(a.t)
        for m, c in b.t.items():
            v = r.get(m, 0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r, a.real or b.real)

    __radd__ = __add__

    def __neg__(a):
        return Poly({m: -c for m, c in a.t.items()}, a.real)

    def __sub__(a, b):
        if not isinstance(b, Poly):
            b = Poly.const(b, a.real)
        r = dict(a.t)
        for m, c in b.t.items():
            v = r.get(m, 0) - c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r, a.real or b.real)

    def __rsub__(a, b):
        return (-a) + b

    def __mul__(a, b):
        if not isinstance(b, Poly):
            b = Poly.const(b, a.real)
        r = {}
        for m, c in a.t.items():
            for n, d in b.t.items():
                k = tuple(sorted(m + n)) if m and n else (m or n)
                v = r.get(k, 0) + c * d
                if v:
                    r[k] = v
                else:
                    r.pop(k, None)
        return Poly(r, a.real or b.real)

    __rmul__ = __mul__

    def __eq__(a, b):
        return isinstance(b, Poly) and a.t == b.t

    def __hash__(a):
        return hash(frozenset(a.t.items()))

    def z(s):
        if s._z is None:
            s._z = _to_z3(s.t, s.real)
        return s._z

    def __repr__(s):
        return str(s.z())


def _num(c, real):
    if real:
        f = Fraction(c)
        return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
    return z3.IntVal(c)


def _mono(m, c, real):
    fs = [_atoms[i] for i in m]
    if real:
        fs = [z3.ToReal(f) if z3.is_int(f) else f for f in fs]
    if c != 1 or not fs:
        fs = [_num(c, real)] + fs
    if len(fs) == 1:
        return fs[0]
    r = fs[0]
    for f in fs[1:]:
        r = r * f
    return r


def _to_z3(t, real):
    if not t:
        return _num(0, real)
    ms = [_mono(m, c, real) for m, c in sorted(t.items())]
    return ms[0] if len(ms) == 1 else z3.Sum(ms)


def _split(d, real):
    pos = {m: c for m, c in d.t.items() if c > 0}
    neg = {m: -c for m, c in d.t.items() if c < 0}
    return _to_z3(pos, real), _to_z3(neg, real)


def cmp(op, a, b):
    """Python bool when decided syntactically, z3 Bool otherwise.  op in lt le gt ge eq ne"""
    d = a - b
    if d.is_const():
        c = d.cval()
        return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[op]
    l, r = _split(d, d.real)
    if op == 'lt':
        return l < r
    if op == 'le':
        return l <= r
    if op == 'gt':
        return l > r
    if op == 'ge':
        return l >= r
    if op == 'eq':
        return l == r
    return l != r


def Not(b):
    if b is True:
        return False
    if b is False:
        return True
    if z3.is_not(b):
        return b.arg(0)
    return z3.Not(b)


def And(*bs):
    o = []
    for b in bs:
        if b is False:
            return False
        if b is not True:
            o.append(b)
    if not o:
        return True
    return o[0] if len(o) == 1 else z3.And(o)


def Or(*bs):
    o = []
    for b in bs:
        if b is True:
            return True
        if b is not False:
            o.append(b)
    if not o:
        return False
    return o[0] if len(o) == 1 else z3.Or(o)


def Implies(a, b):
    return Or(Not(a), b)


def zb(b):
    if b is True:
        return z3.BoolVal(True)
    if b is False:
        return z3.BoolVal(False)
    return b


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if a == b:
        return a
    return Poly.atom(z3.If(c, a.z(), b.z()))
