"""Parser for the subset of textual LLVM-18 IR that the harnesses produce."""
import re

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[(){}\[\]<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in ' \t\n\r':
            i += 1
            continue
        if c == ';':
            j = s.find('\n', i)
            i = n if j < 0 else j
            continue
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('tokenize: %r' % s[i:i + 60])
        out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


# ---- types ---------------------------------------------------------------
class T:
    pass


class IntT(T):
    def __init__(s, w): s.w = w
    def __repr__(s): return 'i%d' % s.w


class FloatT(T):
    def __init__(s, n): s.n = n
    def __repr__(s): return s.n


class PtrT(T):
    def __repr__(s): return 'ptr'


class VoidT(T):
    def __repr__(s): return 'void'


class OtherT(T):
    def __init__(s, n): s.n = n
    def __repr__(s): return s.n


class StructT(T):
    def __init__(s, fs, packed=False): s.fs = fs; s.packed = packed
    def __repr__(s): return '{%s}' % ', '.join(map(repr, s.fs))


class NamedT(T):
    def __init__(s, n): s.n = n
    def __repr__(s): return s.n


class ArrT(T):
    def __init__(s, n, e): s.n = n; s.e = e
    def __repr__(s): return '[%d x %r]' % (s.n, s.e)


class VecT(T):
    def __init__(s, n, e): s.n = n; s.e = e
    def __repr__(s): return '<%d x %r>' % (s.n, s.e)


class FnT(T):
    def __init__(s, r, a): s.r = r; s.a = a


PTR = PtrT()
VOID = VoidT()
_ints = {}


def intT(w):
    if w not in _ints:
        _ints[w] = IntT(w)
    return _ints[w]


FLOATS = {'float': 4, 'double': 8, 'half': 2, 'x86_fp80': 16, 'fp128': 16, 'bfloat': 2}
PATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext', 'zeroext',
          'returned', 'nofree', 'immarg', 'inreg', 'nest', 'swiftself', 'dead_on_unwind', 'writable', 'noreturn',
          'nounwind', 'allocptr', 'allocalign'}


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'flags', 'dbg', 'text')

    def __init__(s, op, res, ty, a, flags=()):
        s.op = op; s.res = res; s.ty = ty; s.a = a; s.flags = flags; s.dbg = None; s.text = ''

    def __repr__(s):
        return '%s = %s %s %s' % (s.res, s.op, s.ty, s.a)


class Block:
    def __init__(s, name): s.name = name; s.ins = []; s.succ = []


class Func:
    def __init__(s, name): s.name = name; s.args = []; s.blocks = {}; s.entry = None; s.ret = None; s.attrs = ''


class Global:
    def __init__(s, name): s.name = name; s.ty = None; s.init = None; s.const = False


class P:
    """Token cursor."""
    def __init__(s, toks): s.t = toks; s.i = 0
    def peek(s, k=0): return s.t[s.i + k][1] if s.i + k < len(s.t) else None
    def kind(s, k=0): return s.t[s.i + k][0] if s.i + k < len(s.t) else None
    def next(s): v = s.t[s.i][1]; s.i += 1; return v
    def acc(s, v):
        if s.peek() == v:
            s.i += 1
            return True
        return False
    def exp(s, v):
        if not s.acc(v):
            raise SyntaxError('expected %r got %r near %r' % (v, s.peek(), s.t[max(0, s.i - 6):s.i + 6]))
    def done(s): return s.i >= len(s.t)

    # types
    def type(s):
        t = s.type0()
        while True:
            if s.peek() == '(' and not isinstance(t, PtrT):
                # function type
                s.exp('(')
                a = []
                while not s.acc(')'):
                    if s.peek() == '...':
                        s.next()
                        a.append('...')
                    else:
                        a.append(s.type())
                    s.acc(',')
                t = FnT(t, a)
            elif s.peek() == '*':
                s.next()
                t = PTR
            else:
                return t

    def type0(s):
        k, v = s.t[s.i]
        if v == 'ptr':
            s.i += 1
            if s.peek() == 'addrspace':
                s.skip_paren()
            return PTR
        if v == 'void':
            s.i += 1
            return VOID
        if k == 'word' and re.fullmatch(r'i\d+', v):
            s.i += 1
            return intT(int(v[1:]))
        if v in FLOATS:
            s.i += 1
            return FloatT(v)
        if k == 'loc':
            s.i += 1
            return NamedT(v)
        if v in ('label', 'token', 'metadata', 'opaque'):
            s.i += 1
            return OtherT(v)
        if v == '{':
            s.i += 1
            fs = []
            while not s.acc('}'):
                fs.append(s.type())
                s.acc(',')
            return StructT(fs)
        if v == '<':
            s.i += 1
            if s.peek() == '{':
                s.i += 1
                fs = []
                while not s.acc('}'):
                    fs.append(s.type())
                    s.acc(',')
                s.exp('>')
                return StructT(fs, True)
            n = int(s.next())
            s.exp('x')
            e = s.type()
            s.exp('>')
            return VecT(n, e)
        if v == '[':
            s.i += 1
            n = int(s.next())
            s.exp('x')
            e = s.type()
            s.exp(']')
            return ArrT(n, e)
        raise SyntaxError('type? %r' % (s.t[s.i:s.i + 8],))

    def skip_paren(s):
        while s.peek() != '(':
            s.next()
        d = 0
        while True:
            v = s.next()
            if v == '(':
                d += 1
            elif v == ')':
                d -= 1
                if d == 0:
                    return

    def pattrs(s):
        while True:
            v = s.peek()
            if v in PATTRS:
                s.next()
            elif v in ('align',):
                s.next()
                if s.peek() == '(':
                    s.skip_paren()
                else:
                    s.next()
            elif v in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'nofpclass',
                       'range', 'memory', 'allocsize', 'vscale_range', 'captures', 'initializes', 'inalloca', 'byref'):
                s.next()
                s.skip_paren()
            elif s.kind() == 'str':
                s.next()
                if s.acc('='):
                    s.next()
            else:
                return

    # operands: ('loc',name) ('glob',name) ('int',v) ('fp',v) 'null' 'undef' ...
    def value(s, ty):
        k, v = s.t[s.i]
        if k == 'loc':
            s.i += 1
            return ('loc', v)
        if k == 'glob':
            s.i += 1
            return ('glob', v)
        if k == 'num':
            s.i += 1
            if isinstance(ty, FloatT):
                return ('fp', v)
            return ('int', int(v))
        if v in ('true', 'false'):
            s.i += 1
            return ('int', 1 if v == 'true' else 0)
        if v == 'null':
            s.i += 1
            return ('null',)
        if v in ('undef', 'poison'):
            s.i += 1
            return ('undef',)
        if v == 'zeroinitializer':
            s.i += 1
            return ('zero',)
        if v == 'none':
            s.i += 1
            return ('undef',)
        if k == 'str':
            s.i += 1
            return ('str', v)
        if v == 'getelementptr':
            s.i += 1
            while s.peek() in ('inbounds', 'nuw', 'nusw'):
                s.next()
            if s.peek() == 'inrange':
                s.skip_paren()
            s.exp('(')
            t = s.type()
            s.exp(',')
            ops = []
            while True:
                if s.peek() == 'inrange':
                    s.next()
                    if s.peek() == '(':
                        s.i -= 1
                        s.skip_paren()
                tt = s.type()
                ops.append((tt, s.value(tt)))
                if s.acc(')'):
                    break
                s.exp(',')
            return ('cgep', t, ops)
        if v in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'addrspacecast'):
            s.i += 1
            s.exp('(')
            t = s.type()
            x = s.value(t)
            s.exp('to')
            t2 = s.type()
            s.exp(')')
            return ('ccast', v, t, x, t2)
        if v in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[v]
            s.i += 1
            packed = False
            if v == '<' and s.peek() == '{':
                s.i += 1
                packed = True
                close = '}'
            out = []
            while not s.acc(close):
                t = s.type()
                out.append((t, s.value(t)))
                s.acc(',')
            if packed:
                s.exp('>')
            return ('agg', out)
        if v in ('blockaddress', 'dso_local_equivalent', 'no_cfi', 'asm', 'add', 'sub', 'icmp', 'select', 'mul', 'xor'):
            s.i += 1
            if v == 'asm':
                while s.kind() != 'str':
                    s.next()
                a = s.next()
                s.exp(',')
                s.next()
                return ('asm', a)
            s.skip_paren()
            return ('opaque', v)
        raise SyntaxError('value? %r' % (s.t[s.i:s.i + 8],))

    def tval(s):
        t = s.type()
        s.pattrs()
        if isinstance(t, OtherT) and t.n == 'metadata':
            # metadata operand: skip
            d = 0
            while True:
                v = s.peek()
                if v in (',', ')') and d == 0:
                    break
                if v in ('(', '{'):
                    d += 1
                if v in (')', '}'):
                    d -= 1
                s.next()
            return (t, ('undef',))
        return (t, s.value(t))


FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'disjoint', 'nneg', 'volatile', 'atomic', 'nusw', 'samesign'}
BIN = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr',
        'bitcast', 'addrspacecast'}


def cut_meta(p):
    """Strip trailing ', !dbg !12' metadata attachments; returns dbg id."""
    dbg = None
    t = p.t
    j = len(t)
    while j >= 3 and t[j - 1][0] == 'meta' and t[j - 2][0] == 'meta' and t[j - 3][1] == ',':
        if t[j - 2][1] == '!dbg':
            dbg = t[j - 1][1]
        j -= 3
    # e.g.  !srcloc on inline asm is the same form
    p.t = t[:j]
    return dbg


def parse_ins(line):
    p = P(tokenize(line))
    dbg = cut_meta(p)
    res = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        res = p.next()
        p.next()
    op = p.next()
    fl = []

    def flags():
        while p.peek() in FLAGS:
            fl.append(p.next())

    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        flags()
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        i = Ins(op, res, t, [a, b], fl)
    elif op == 'fneg':
        flags()
        t = p.type()
        i = Ins(op, res, t, [p.value(t)], fl)
    elif op in ('icmp', 'fcmp'):
        flags()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        i = Ins(op, res, t, [pred, a, b], fl)
    elif op in CAST:
        flags()
        t = p.type()
        a = p.value(t)
        p.exp('to')
        t2 = p.type()
        i = Ins(op, res, t2, [t, a], fl)
    elif op == 'phi':
        flags()
        t = p.type()
        inc = []
        while True:
            p.exp('[')
            v = p.value(t)
            p.exp(',')
            b = p.next()
            p.exp(']')
            inc.append((v, b[1:].strip('"')))
            if not p.acc(','):
                break
        i = Ins('phi', res, t, inc)
    elif op == 'select':
        flags()
        ct, c = p.tval()
        p.exp(',')
        t, a = p.tval()
        p.exp(',')
        _, b = p.tval()
        i = Ins('select', res, t, [c, a, b])
    elif op == 'alloca':
        p.acc('inalloca')
        t = p.type()
        n = None
        if p.acc(','):
            if p.peek() != 'align':
                n = p.tval()
        i = Ins('alloca', res, t, [n])
    elif op == 'load':
        flags()
        t = p.type()
        p.exp(',')
        pt, a = p.tval()
        i = Ins('load', res, t, [a], fl)
    elif op == 'store':
        flags()
        t, v = p.tval()
        p.exp(',')
        pt, a = p.tval()
        i = Ins('store', None, t, [v, a], fl)
    elif op == 'getelementptr':
        flags()
        if p.peek() == 'inrange':
            p.skip_paren()
        t = p.type()
        p.exp(',')
        ops = [p.tval()]
        while p.acc(','):
            ops.append(p.tval())
        i = Ins('gep', res, t, ops, fl)
    elif op == 'br':
        if p.peek() == 'label':
            p.next()
            i = Ins('br', None, None, [p.next()[1:].strip('"')])
        else:
            t, c = p.tval()
            p.exp(',')
            p.exp('label')
            a = p.next()
            p.exp(',')
            p.exp('label')
            b = p.next()
            i = Ins('condbr', None, None, [c, a[1:].strip('"'), b[1:].strip('"')])
    elif op == 'switch':
        t, c = p.tval()
        p.exp(',')
        p.exp('label')
        d = p.next()
        p.exp('[')
        cases = []
        while not p.acc(']'):
            tt, v = p.tval()
            p.exp(',')
            p.exp('label')
            cases.append((v, p.next()[1:].strip('"')))
        i = Ins('switch', None, t, [c, d[1:].strip('"'), cases])
    elif op == 'ret':
        t = p.type()
        if isinstance(t, VoidT):
            i = Ins('ret', None, t, [None])
        else:
            p.pattrs()
            i = Ins('ret', None, t, [p.value(t)])
    elif op in ('call', 'invoke'):
        flags()
        while p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        p.pattrs()
        t = p.type()
        if isinstance(t, FnT):
            t = t.r
        callee = p.value(PTR)
        p.exp('(')
        args = []
        while not p.acc(')'):
            args.append(p.tval())
            p.acc(',')
        while p.kind() == 'attr' or p.peek() in PATTRS:
            p.next()
        if p.peek() == '[':
            while p.next() != ']':
                pass
        dest = None
        if op == 'invoke':
            p.exp('to')
            p.exp('label')
            a = p.next()
            p.exp('unwind')
            p.exp('label')
            b = p.next()
            dest = (a[1:].strip('"'), b[1:].strip('"'))
        i = Ins(op, res, t, [callee, args, dest])
    elif op == 'extractvalue':
        t, v = p.tval()
        idx = []
        while p.acc(','):
            idx.append(int(p.next()))
        i = Ins(op, res, t, [v, idx])
    elif op == 'insertvalue':
        t, v = p.tval()
        p.exp(',')
        t2, w = p.tval()
        idx = []
        while p.acc(','):
            idx.append(int(p.next()))
        i = Ins(op, res, t, [v, w, idx, t2])
    elif op == 'freeze':
        t, v = p.tval()
        i = Ins(op, res, t, [v])
    elif op == 'landingpad':
        i = Ins(op, res, None, [])
    elif op == 'resume':
        i = Ins(op, None, None, [])
    elif op == 'unreachable':
        i = Ins(op, None, None, [])
    elif op == 'fence':
        i = Ins('fence', None, None, [])
    elif op == 'atomicrmw':
        flags()
        o = p.next()
        pt, a = p.tval()
        p.exp(',')
        t, v = p.tval()
        i = Ins('atomicrmw', res, t, [o, a, v])
    else:
        i = Ins('unsupported', res, None, [op, line])
    i.dbg = dbg
    return i


class Module:
    def __init__(s):
        s.types = {}
        s.globals = {}
        s.funcs = {}
        s.decls = set()
        s.meta = {}
        s._layout = {}

    # ---- layout
    def resolve(s, t):
        while isinstance(t, NamedT):
            t = s.types[t.n]
        return t

    def align(s, t):
        t = s.resolve(t)
        if isinstance(t, IntT):
            n = (t.w + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return min(a, 16)
        if isinstance(t, FloatT):
            return FLOATS[t.n]
        if isinstance(t, PtrT):
            return 8
        if isinstance(t, ArrT):
            return s.align(t.e)
        if isinstance(t, VecT):
            return s.size(t)
        if isinstance(t, StructT):
            if t.packed or not t.fs:
                return 1
            return max(s.align(f) for f in t.fs)
        raise ValueError('align %r' % t)

    def size(s, t):
        t = s.resolve(t)
        if isinstance(t, IntT):
            n = (t.w + 7) // 8
            a = s.align(t)
            return (n + a - 1) // a * a
        if isinstance(t, FloatT):
            return FLOATS[t.n]
        if isinstance(t, PtrT):
            return 8
        if isinstance(t, (ArrT, VecT)):
            return t.n * s.size(t.e)
        if isinstance(t, StructT):
            return s.offsets(t)[1]
        raise ValueError('size %r' % t)

    def offsets(s, t):
        t = s.resolve(t)
        k = id(t)
        if k in s._layout:
            return s._layout[k]
        o = 0
        out = []
        for f in t.fs:
            if not t.packed:
                a = s.align(f)
                o = (o + a - 1) // a * a
            out.append(o)
            o += s.size(f)
        if not t.packed:
            a = s.align(t)
            o = (o + a - 1) // a * a
        s._layout[k] = (out, o)
        return s._layout[k]

    # ---- debug locations
    def where(s, dbg):
        if dbg is None or dbg not in s.meta:
            return '?'
        m = s.meta[dbg]
        ln = re.search(r'line: (\d+)', m)
        sc = re.search(r'scope: (!\d+)', m)
        f = None
        hops = 0
        while sc and hops < 20:
            mm = s.meta.get(sc.group(1), '')
            fm = re.search(r'file: (!\d+)', mm)
            if fm:
                fn = re.search(r'filename: "([^"]*)"', s.meta.get(fm.group(1), ''))
                if fn:
                    f = fn.group(1)
                    break
            sc = re.search(r'scope: (!\d+)', mm)
            hops += 1
        return '%s:%s' % ((f or '?').split('/')[-1], ln.group(1) if ln else '?')

    def funcname_at(s, dbg):
        """Name of the (possibly inlined) source function an instruction came from."""
        m = s.meta.get(dbg, '')
        sc = re.search(r'scope: (!\d+)', m)
        hops = 0
        while sc and hops < 20:
            mm = s.meta.get(sc.group(1), '')
            if 'DISubprogram' in mm:
                n = re.search(r'linkageName: "([^"]*)"', mm) or re.search(r'name: "([^"]*)"', mm)
                return n.group(1) if n else None
            sc = re.search(r'scope: (!\d+)', mm)
            hops += 1
        return None


LABEL = re.compile(r'^([-a-zA-Z$._0-9]+|"[^"]*"):')


def parse_module(path):
    m = Module()
    lines = open(path).read().split('\n')
    i = 0
    n = len(lines)
    while i < n:
        L = lines[i]
        if L.startswith('define'):
            i = parse_func(m, lines, i)
            continue
        if L.startswith('declare'):
            g = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', L)
            if g:
                m.decls.add(g.group(1))
        elif L.startswith('%') and ' = type ' in L:
            nm, body = L.split(' = type ', 1)
            p = P(tokenize(body))
            m.types[nm] = OtherT('opaque') if body.strip() == 'opaque' else p.type()
        elif L.startswith('@'):
            parse_global(m, L)
        elif L.startswith('!') and ' = ' in L:
            k, v = L.split(' = ', 1)
            m.meta[k] = v
        i += 1
    return m


def parse_global(m, L):
    nm, rest = L.split(' = ', 1)
    g = Global(nm)
    m.globals[nm] = g
    if re.search(r'\balias\b', rest):
        return
    mm = re.search(r'\b(global|constant)\b ', rest)
    if not mm:
        return
    g.const = mm.group(1) == 'constant'
    ext = re.search(r'\bexternal\b', rest[:mm.start()])
    try:
        p = P(tokenize(rest[mm.end():]))
        g.ty = p.type()
        if not ext and not p.done() and p.peek() != ',':
            g.init = p.value(g.ty)
    except SyntaxError:
        pass


def parse_func(m, lines, i):
    L = lines[i]
    g = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', L)
    f = Func(g.group(1).strip('"'))
    # arguments
    p = P(tokenize(L[g.start():]))
    p.next()
    p.exp('(')
    k = 0
    while not p.acc(')'):
        if p.kind() == 'dots':
            p.next()
            p.acc(',')
            continue
        t = p.type()
        p.pattrs()
        if p.kind() == 'loc':
            nm = p.next()
        else:
            nm = '%%%d' % k
        k += 1
        f.args.append((nm, t))
        p.acc(',')
    f.sig = L
    i += 1
    cur = None
    while True:
        L = lines[i]
        if L.startswith('}'):
            break
        st = L.strip()
        if not st or st.startswith(';'):
            i += 1
            continue
        lm = LABEL.match(L)
        if lm:
            cur = Block(lm.group(1).strip('"'))
            f.blocks[cur.name] = cur
            if f.entry is None:
                f.entry = cur.name
            i += 1
            continue
        if cur is None:
            cur = Block('%d' % len(f.args) if not f.blocks else '?')
            f.blocks[cur.name] = cur
            f.entry = cur.name
        # join multi-line constructs
        if st.startswith('switch') and not re.search(r'\]\s*(,|$)', st) or (st.startswith('switch') and '[' in st and ']' not in st):
            while ']' not in lines[i]:
                i += 1
                st += ' ' + lines[i].strip()
        if ' invoke ' in (' ' + st) or st.startswith('invoke'):
            if ' unwind label ' not in st:
                i += 1
                st += ' ' + lines[i].strip()
        if 'landingpad' in st:
            while i + 1 < n_(lines) and re.match(r'\s+(catch|cleanup|filter)\b', lines[i + 1]):
                i += 1
        ins = parse_ins(st)
        ins.text = st
        cur.ins.append(ins)
        i += 1
    for b in f.blocks.values():
        t = b.ins[-1]
        if t.op == 'br':
            b.succ = [t.a[0]]
        elif t.op == 'condbr':
            b.succ = [t.a[1], t.a[2]]
        elif t.op == 'switch':
            b.succ = [t.a[1]] + [c[1] for c in t.a[2]]
        elif t.op == 'invoke':
            b.succ = list(t.a[2])
    m.funcs[f.name] = f
    return i + 1


def n_(x):
    return len(x)


# ---- CFG analyses -----------------------------------------------------------
def analyse(f, is_fatal):
    """Adds f.loops: header -> set(body blocks); f.doomed: set of block names; f.preds."""
    preds = {b: [] for b in f.blocks}
    for b in f.blocks.values():
        for s in b.succ:
            preds[s].append(b.name)
    f.preds = preds
    # RPO and dominators
    order = []
    seen = set()
    stack = [(f.entry, iter(f.blocks[f.entry].succ))]
    seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(f.blocks[s].succ)))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    num = {b: k for k, b in enumerate(rpo)}
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for q in preds[b]:
                if q in idom:
                    if new is None:
                        new = q
                    else:
                        a, c = q, new
                        while a != c:
                            while num[a] > num[c]:
                                a = idom[a]
                            while num[c] > num[a]:
                                c = idom[c]
                        new = a
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    f.dom = dom
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succ:
            if dom(s, b):
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(q for q in preds[x] if q in num)
            elif num[s] <= num[b]:
                f.irreducible = True
    f.loops = loops
    # doomed blocks: every path ends in an error report / unreachable / exception propagation
    doomed = set()
    for b in f.blocks.values():
        if b.ins[-1].op in ('unreachable', 'resume'):
            doomed.add(b.name)
        for x in b.ins:
            if x.op in ('call', 'invoke') and x.a[0][0] == 'glob' and is_fatal(x.a[0][1]):
                doomed.add(b.name)
    ch = True
    while ch:
        ch = False
        for b in f.blocks.values():
            if b.name in doomed or not b.succ:
                continue
            if all(s in doomed for s in b.succ):
                doomed.add(b.name)
                ch = True
    f.doomed = doomed
    f.defs = {x.res: (b.name, x) for b in f.blocks.values() for x in b.ins if x.res}
