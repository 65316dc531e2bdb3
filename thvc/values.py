"""Values of the symbolic interpreter: matrices of any symbolic size, vectors, strings, maps, objects.  All immutable."""
import re
from .terms import *
R0 = ivar('R0', fresh=False); C0 = ivar('C0', fresh=False); K0 = ivar('K0', fresh=False)
SMALL = 12

class Mat:
    """rows x cols; rows (cols) are enumerated when their number is a constant <= SMALL, otherwise generic in R0 (C0)"""
    __slots__ = ('r', 'c', 'd')
    def __init__(s, r, c, d): s.r = toI(r); s.c = toI(c); s.d = d
    def __repr__(s): return 'Mat(%rx%r)' % (s.r, s.c)
    @staticmethod
    def gen(r, c, f):
        r = toI(r); c = toI(c); d = {}
        for i in _range(r):
            for j in _range(c):
                with assume(*_facts(r, c, i, j)): d[i, j] = toP(f(R0 if i is None else toI(i), C0 if j is None else toI(j)))
        return Mat(r, c, d)
    def get(s, i, j):
        i = toI(i); j = toI(j); ks = list(s.d)
        if not ks: raise Unsupported('element (%r,%r) of an empty matrix %r' % (i, j, s))
        if ks[0][0] is None:
            if ks[0][1] is None: return psubst(s.d[None, None], _m(i, j))
            return _pick(j, s.c, lambda jj: psubst(s.d[None, jj], _m(i, None)))
        if ks[0][1] is None: return _pick(i, s.r, lambda ii: psubst(s.d[ii, None], _m(None, j)))
        return _pick(i, s.r, lambda ii: _pick(j, s.c, lambda jj: s.d[ii, jj]))
    def map(s, f):
        d = {}
        for k, v in s.d.items():
            with assume(*_facts(s.r, s.c, *k)): d[k] = toP(f(v))
        return Mat(s.r, s.c, d)
    def numel(s): return s.r * s.c
    def lin(s, k):
        """column-major element"""
        k = toI(k)
        if s.c.const() == 1: return s.get(k, 0)
        if s.r.const() == 1: return s.get(0, k)
        return s.get(imod(k, s.r), idiv(k, s.r))
    def T(s): return Mat(s.c, s.r, {(j, i): _swap(v) if (i is None or j is None) else v for (i, j), v in s.d.items()})
    def scalar(s):
        if s.r.const() == 1 and s.c.const() == 1: return s.d[0, 0]
        raise Unsupported('matrix used as a scalar: %r' % s)
    def setblock(s, i0, ni, j0, nj, f):
        """entries (i0+a, j0+b), a<ni, b<nj, become f(a,b)"""
        i0, ni, j0, nj = map(toI, (i0, ni, j0, nj))
        def g(i, j):
            old = s.get(i, j)
            c = And(ge(i, i0), lt(i, i0 + ni), ge(j, j0), lt(j, j0 + nj))
            if decide(c): return f(i - i0, j - j0)
            if decide(Not(c)): return old
            with assume(c): new = f(i - i0, j - j0)
            # single rows and columns read better as equations
            cs = []
            if not decide(And(ge(i, i0), lt(i, i0 + ni))): cs += [eq(i, i0)] if ni.const() == 1 else [ge(i, i0), lt(i, i0 + ni)]
            if not decide(And(ge(j, j0), lt(j, j0 + nj))): cs += [eq(j, j0)] if nj.const() == 1 else [ge(j, j0), lt(j, j0 + nj)]
            return ite(And(*cs), new, old)
        return Mat.gen(s.r, s.c, g)
    def block(s, i0, ni, j0, nj): return Mat.gen(ni, nj, lambda i, j: s.get(toI(i0) + i, toI(j0) + j))
class PreEmpty(Mat):
    """an empty matrix whose origin is tracked (loops.py)"""
    __slots__ = ('nm', 'ix')
    def __init__(s, r, c, nm, ix): Mat.__init__(s, r, c, {}); s.nm = nm; s.ix = tuple(ix)
def _range(n):
    k = n.const()
    if k is not None and k <= SMALL: return range(max(k, 0))
    return [None]
def _facts(r, c, i, j):
    o = []
    if i is None: o += [ge(R0, 0), lt(R0, r)]
    if j is None: o += [ge(C0, 0), lt(C0, c)]
    return o
def _m(i, j):
    m = {}
    if i is not None and i != R0: m[R0] = i
    if j is not None and j != C0: m[C0] = j
    return m
def _swap(v):
    a = ivar('sw'); return psubst(psubst(psubst(v, {R0: a}), {C0: R0}), {a: C0})
def _pick(i, n, f):
    k = i.const()
    if k is not None:
        if k < 0 or k >= n.const(): raise Unsupported('index %d out of %r' % (k, n))
        return f(k)
    r = None
    for k in reversed(range(n.const())):
        if decide(Not(eq(i, k))): continue
        r = f(k) if r is None else ite(eq(i, k), f(k), r)
    if r is None: raise Unsupported('index %r out of %r' % (i, n))
    return r
def zeros(r, c): return Mat.gen(r, c, lambda i, j: ZERO)
def eye(n): return Mat.gen(n, n, lambda i, j: ite_d(eq(i, j), ONE, ZERO))
def col(xs): return Mat(len(xs), 1, {(k, 0): toP(x) for k, x in enumerate(xs)})
def mat(rows): return Mat(len(rows), len(rows[0]), {(i, j): toP(x) for i, r in enumerate(rows) for j, x in enumerate(r)})
def toM(x):
    if isinstance(x, Mat): return x
    return Mat(1, 1, {(0, 0): toP(x)})
def same(a, b): return a == b or decide(eq(a, b))
def scalarish(x): return isinstance(x, (Poly, I, int, Q, float)) or (isinstance(x, Mat) and x.r.const() == 1 and x.c.const() == 1)
def ew(op, a, b):
    """elementwise, scalars broadcast"""
    if scalarish(a) and scalarish(b): return op(toP(a), toP(b))
    if scalarish(a): p = toP(a); return b.map(lambda y: op(p, y))
    if scalarish(b): p = toP(b); return a.map(lambda x: op(x, p))
    if not (same(a.r, b.r) and same(a.c, b.c)): raise Unsupported('shapes %r %r' % (a, b))
    if a.d.keys() == b.d.keys():
        d = {}
        for k, v in a.d.items():
            with assume(*_facts(a.r, a.c, *k)): d[k] = op(v, b.d[k])
        return Mat(a.r, a.c, d)
    return Mat.gen(a.r, a.c, lambda i, j: op(a.get(i, j), b.get(i, j)))
def mul(a, b):
    """matrix product; a scalar scales"""
    if scalarish(a) or scalarish(b): return ew(lambda x, y: x * y, a, b)
    if not same(a.c, b.r): raise Unsupported('product of %r and %r' % (a, b))
    k = a.c.const()
    def f(i, j):
        if k is not None and k <= SMALL:
            r = ZERO
            for x in range(k):
                p = a.get(i, x)
                if p.d: r = r + p * b.get(x, j)
            return r
        return sumn(a.c, lambda v: a.get(i, v) * b.get(v, j))
    m = Mat.gen(a.r, b.c, f)
    return m
def sumn(n, f):
    """sum over v in [0,n); a range that is a product of two symbolic sizes becomes a double sum"""
    n = toI(n)
    if n.const() is None and len(n.t) == 1 and n.t[0][1] == 1 and len(n.t[0][0]) == 2:
        p, q = (toI(x) for x in n.t[0][0])
        a = ivar('sa', 0, p); b = ivar('sb', 0, q)
        return psum(a, 0, p, psum(b, 0, q, f(a * q + b)))
    v = ivar('k', 0, n)
    return psum(v, 0, n, f(v))
def neg(a): return a.map(lambda x: -x) if isinstance(a, Mat) else -toP(a)
def vcat(ms):
    ms = [toM(m) for m in ms]; ms = [m for m in ms if m.r.const() != 0 or m.c.const() not in (0, None)]
    if not ms: return Mat(0, 1, {})
    r = ms[0].r
    for m in ms[1:]: r = r + m.r
    def f(i, j):
        off = toI(0); out = None; parts = []
        for m in ms: parts.append((off, m)); off = off + m.r
        def go(k):
            o, m = parts[k]
            if k == len(parts) - 1: return m.get(i - o, j)
            return ite_d(lt(i, o + m.r), lambda: m.get(i - o, j), lambda: go(k + 1))
        return go(0)
    return Mat.gen(r, ms[0].c, f)
def hcat(ms): return vcat([toM(m).T() for m in ms]).T()
def reshape(a, r, c):
    a = toM(a); r = toI(r); c = toI(c)
    return Mat.gen(r, c, lambda i, j: a.lin(i + j * r))

# ---------------------------------------------------------------- strings
class Str:
    """pieces: text, ('int', I), ('sym', name, args): unknown text, ('app', name, values...): unknown text that depends on values,
    ('fam', v, lo, hi, Str): the texts of v = lo..hi-1 one after the other, ('alt', C, Str, Str): one of two"""
    __slots__ = ('p',)
    def __init__(s, p):
        o = []
        for x in p:
            if not isinstance(x, str) and x[0] == 'int' and x[1].const() is not None: x = str(x[1].const())
            if x == '': continue
            if o and isinstance(x, str) and isinstance(o[-1], str): o[-1] += x
            else: o.append(x)
        s.p = tuple(o)
    def __repr__(s): return 'Str%r' % (s.p,)
    def __add__(s, o): return Str(s.p + (char(o) if isI(o) else o).p)
    def __eq__(s, o): return isinstance(o, Str) and s.p == o.p
    def __hash__(s): return hash(s.p)
    def lit(s):
        if not s.p: return ''
        return s.p[0] if len(s.p) == 1 and isinstance(s.p[0], str) else None
def char(k):
    k = toI(k); c = k.const()
    if c is not None: return Str((chr(c % 256),))
    return Str((('int', k - 48),)) if decide(And(ge(k, 48), le(k, 57))) else Str((('sym', 'chr', (k,)),))
def code(t):
    """the code of a text of one character"""
    if len(t.p) == 1:
        x = t.p[0]
        if isinstance(x, str) and len(x) == 1: return toI(ord(x))
        if not isinstance(x, str) and x[0] == 'sym' and x[1] == 'chr': return x[2][0]
        if not isinstance(x, str) and x[0] == 'int' and decide(And(ge(x[1], 0), le(x[1], 9))): return x[1] + 48
    raise Unsupported('the code of the character %r' % (t,))
def S(*p): return Str(tuple(x if not isI(x) else ('int', toI(x)) for x in p))
JT = {'P': 0, 'P_SEA': 1, 'R': 2, 'R_SEA': 3}
def str_eq(a, b):
    for x in (a, b):
        if not isinstance(x, Str): raise Unsupported('comparing a text that depends on a case')
    return _seq(list(a.p), list(b.p))
def streq(a, b):
    """unknown texts are equal: an atom over how both are written, with holes for the numbers in them"""
    def key(p):
        t, h = '', []
        for x in p:
            if isinstance(x, str): t += x
            elif x[0] == 'int': t += HOLE; h.append(x[1])
            elif x[0] == 'sym':
                o = []
                for y in x[2]:
                    if isI(y): o.append(HOLE); h.append(toI(y))
                    else: o.append(repr(y))
                t += SYM + x[1] + ARG + ', '.join(o) + END
            else: return None
        return t, h
    x, y = key(a), key(b)
    if x is None or y is None: return patom('streq', 'raw', *sorted((repr(a), repr(b))))
    if (x[0], repr(x[1])) > (y[0], repr(y[1])): x, y = y, x
    return patom('streq', x[0] + BAR + y[0], *x[1], *y[1])
HOLE, BAR, SYM, ARG, END = '\x01', '\x02', '\x03', '\x04', '\x05'
def rendered(args, word, lits):
    """truth of a text equality when each unknown text is the word chosen for it; None where that is not known"""
    if args[0] == 'raw': return None
    t = args[0].split(HOLE); o = t[0]
    for v, z in zip(args[1:], t[1:]): o += str(v) + z
    for x, y in (o.split(BAR), o.split(BAR)[::-1]):
        if SYM not in x and y[:1] == SYM and y.index(END) == len(y) - 1: lits.add(x)
    a, b = re.sub('%s(.*?)%s(.*?)%s' % (SYM, ARG, END), lambda m: word(m.group(1), m.group(2)), o).split(BAR); return a == b
def emptiness(p):
    """the text of these pieces is empty"""
    cs = []
    for x in p:
        if isinstance(x, str): cs.append(TRUE if not x else FALSE)
        elif x[0] == 'int': cs.append(FALSE)
        elif x[0] == 'fam':
            lo, hi = x[2], x[3]
            with assume(ge(x[1], lo), lt(x[1], hi)): e = emptiness(x[4].p)
            cs.append(TRUE if e is TRUE else ge(lo, hi) if e is FALSE else Not(exists(x[1], lo, hi, Not(e))))
        elif x[0] == 'alt':
            y, z = emptiness(x[2].p), emptiness(x[3].p)
            cs.append(y if y is z else And(Or(Not(x[1]), y), Or(x[1], z)))
        else: cs.append(streq([x], []))
    return And(*cs)
def _seq(a, b):
    if a == b: return TRUE
    if not a or not b: return emptiness(a or b)
    for x in a + b:
        if not isinstance(x, str) and x[0] == 'sym' and x[1] == 'chr':      # one character by its code: a digit, or not
            k = x[2][0]; c = And(ge(k, 48), le(k, 57));
            r = lambda y: ([y if q == x else q for q in a], [y if q == x else q for q in b])
            if decide(Not(c)): return _seq(*r(('sym', 'chx', (k,))))
            with assume(c): d = _seq(*[list(Str(q).p) for q in r(('int', k - 48))])
            if decide(c): return d
            with assume(Not(c)): e = _seq(*r(('sym', 'chx', (k,))))
            return Or(And(c, d), And(Not(c), e))
    if any(not isinstance(x, str) and x[0] in ('fam', 'alt') for x in a + b): return streq(a, b)
    cs = []
    while a or b:
        if not a or not b:
            return And(*cs, emptiness(a or b))
        x, y = a[0], b[0]
        if isinstance(x, str) and isinstance(y, str):
            k = 0
            while k < len(x) and k < len(y) and x[k] == y[k]: k += 1
            if k < len(x) and k < len(y): return FALSE
            a = ([x[k:]] if x[k:] else []) + a[1:]; b = ([y[k:]] if y[k:] else []) + b[1:]
            continue
        if isinstance(x, str): a, b, x, y = b, a, y, x       # x is a piece now
        if x[0] == 'int':
            if isinstance(y, str):
                k = 0
                while k < len(y) and (y[k].isdigit() or (k == 0 and y[0] == '-')): k += 1
                if k == 0 or y[:k] == '-': return FALSE
                if len(a) > 1 and isinstance(a[1], str) and a[1][0].isdigit(): raise Unsupported('ambiguous text %r' % (a,))
                cs.append(eq(x[1], int(y[:k]))); a = a[1:]; b = ([y[k:]] if y[k:] else []) + b[1:]
                continue
            if y[0] == 'int':
                for z in (a, b):
                    if len(z) > 1 and isinstance(z[1], str) and z[1][0].isdigit(): raise Unsupported('ambiguous text %r' % (z,))
                cs.append(eq(x[1], y[1])); a = a[1:]; b = b[1:]
                continue
        if x[0] == 'sym' and len(a) == 1:
            if x[1] == 'jt':
                if len(b) == 1 and isinstance(y, str):
                    return And(*cs, eq(ifun('jt', *x[2]), JT[y]) if y in JT else FALSE)
                if len(b) == 1 and y[0] == 'sym' and y[1] == 'jt': return And(*cs, eq(ifun('jt', *x[2]), ifun('jt', *y[2])))
            if len(b) == 1 and not isinstance(y, str) and y[1] == x[1] and len(y[2]) == len(x[2]) and all(isI(q) for q in y[2]):
                return And(*cs, *[eq(u, v) for u, v in zip(x[2], y[2])])       # distinct names of one injective family
            return And(*cs, streq(a, b))
        return And(*cs, streq(a, b))
    return And(*cs)

# ---------------------------------------------------------------- containers
class Vec:
    """segments: ('i', value), ('c', cond, value), ('d', n, body over K0), ('f', v, lo, hi, ((cond, value),...))"""
    __slots__ = ('s',)
    def __init__(s, segs): s.s = tuple(x for x in segs if not (x[0] == 'd' and x[1].const() == 0 or x[0] == 'c' and x[1] is FALSE))
    def __repr__(s): return 'Vec%r' % (s.s,)
    def size(s):
        n = toI(0)
        for x in s.s:
            if x[0] == 'i': n = n + 1
            elif x[0] == 'c': n = n + ind(x[1])
            elif x[0] == 'd': n = n + x[1]
            elif x[0] == 'p': n = n + ifun(x[1] + '#size')
            else:
                for c, _ in x[4]: n = n + count(x[1], x[2], x[3], c)
        return n
    def get(s, k):
        k = toI(k); off = toI(0)
        if len(s.s) == 1 and s.s[0][0] == 'd': return vsubst(s.s[0][2], {K0: k})
        if k.const() is not None and all(x[0] == 'i' for x in s.s[:k.const() + 1]) and 0 <= k.const() < len(s.s): return s.s[k.const()][1]
        if all(x[0] == 'i' for x in s.s) and s.s:
            r = None
            for n in reversed(range(len(s.s))):
                if decide(Not(eq(k, n))): continue
                r = s.s[n][1] if r is None else vite(eq(k, n), s.s[n][1], r)
            if r is None: raise Unsupported('index %r' % k)
            return r
        def go(i, off):
            if i == len(s.s): raise Unsupported('vector index %r of %r' % (k, s))
            x = s.s[i]
            if x[0] == 'p': raise Unsupported('element of a vector under construction')
            n = toI(1) if x[0] == 'i' else ind(x[1]) if x[0] == 'c' else x[1] if x[0] == 'd' else None
            if n is None:
                if len(x[4]) == 1:
                    c, v = x[4][0]; n = count(x[1], x[2], x[3], c)
                    if decide(And(ge(k, off), lt(k, off + n))): return vsubst(v, {x[1]: sel(x[1], x[2], x[3], c, k - off)})
                    if decide(ge(k, off + n)): return go(i + 1, off + n)
                raise Unsupported('vector index %r' % k)
            here = And(ge(k, off), lt(k, off + n))
            val = lambda: x[1] if x[0] == 'i' else x[2] if x[0] == 'c' else vsubst(x[2], {K0: k - off})
            if decide(here): return val()
            if decide(ge(k, off + n)): return go(i + 1, off + n)
            return vite(lt(k, off + n), val(), go(i + 1, off + n))
        return go(0, off)
    def set(s, k, v):
        k = toI(k)
        if s.s and all(x[0] == 'i' for x in s.s):
            c = k.const()
            if c is not None:
                if not 0 <= c < len(s.s): raise Unsupported('index %d of a vector of %d' % (c, len(s.s)))
                return Vec(s.s[:c] + (('i', v),) + s.s[c + 1:])
            return Vec([('i', vite(eq(k, n), v, x[1])) for n, x in enumerate(s.s)])
        if len(s.s) == 1 and s.s[0][0] == 'd':
            n, b = s.s[0][1:]
            with assume(ge(K0, 0), lt(K0, n)):
                c = eq(K0, k)
                nb = v if decide(c) else b if decide(Not(c)) else vite(c, v, b)
            return Vec([('d', n, nb)])
        raise Unsupported('write to element %r of %r' % (k, s))
    def push(s, v): return Vec(s.s + (('i', v),))
    def items(s):
        if all(x[0] == 'i' for x in s.s): return [x[1] for x in s.s]
        raise Unsupported('items of %r' % s)
def dense(n, f):
    n = toI(n)
    if n.const() is not None and n.const() <= SMALL: return Vec([('i', f(toI(k))) for k in range(n.const())])
    w = None
    for k in range(2):
        x = K0 if k == 0 else ivar('w')
        _nest.append(0)
        try:
            with assume(ge(x, 0), lt(x, n)): b = f(x)
        finally: inner = _nest.pop()
        if not inner: break
        w = x             # an inner vector binds K0 too: once more, with a name of its own
    if _nest: _nest[-1] = 1
    if inner:
        with assume(ge(K0, 0), lt(K0, n)): b = vsubst(b, {w: K0})
    return Vec([('d', n, b)])
_nest = []
def items(xs): return Vec([('i', x) for x in xs])

class VIte:
    """a value that depends on a condition and whose alternatives do not merge"""
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
    def __repr__(s): return 'VIte(%r,%r,%r)' % (s.c, s.a, s.b)
def force(v):
    while isinstance(v, VIte):
        if decide(v.c): v = v.a
        elif decide(Not(v.c)): v = v.b
        else: raise Unsupported('value depends on %r: %r' % (v.c, v))
    return v
class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()
class Map:
    """base: literal -> value; log: entries ('w', cond, key, val), ('f', v, lo, hi, cond, key, val); later entries win"""
    __slots__ = ('base', 'log', 'dflt', 'frozen', 'enum')
    def __init__(s, base, log=(), dflt=None): s.base = base; s.log = tuple(log); s.dflt = dflt; s.frozen = s.enum = False
    def __repr__(s): return 'Map(%s;%d entries)' % (','.join(s.base), len(s.log))
    def put(s, key, val, cond=TRUE):
        l = key.lit()
        if s.frozen: raise Unsupported('node changed after it was inserted elsewhere')
        if l is not None and l in s.base and all(e[0] == 'p' or str_eq(e[2] if e[0] == 'w' else e[5], key) is FALSE for e in s.log):
            b = dict(s.base); b[l] = val if cond is TRUE else vite(cond, val, b[l]); return Map(b, s.log, s.dflt)
        return Map(s.base, s.log + (('w', cond, key, val),), s.dflt)
    def find(s, key):
        """list of (cond, value), the first that holds wins; the last may be unconditional"""
        out = []
        for e in reversed(s.log):
            if e[0] == 'p': continue
            if e[0] == 'w':
                c = And(e[1], str_eq(e[2], key))
                if c is FALSE or decide(Not(c)): continue
                if c is TRUE or decide(c): return out + [(TRUE, e[3])]
                out.append((c, e[3]))
            else:
                _, v, lo, hi, cond, k, val = e
                w = ivar('m', lo, hi)
                m = str_eq(Str(_psub_str(k.p, {v: w})), key)
                if m is FALSE: continue
                va = list(w.atoms())[0]; sol = None; rest = []
                if va not in iatoms_of(m):
                    if decide(Not(m)): continue
                    if decide(lt(lo, hi)) : c = And(csubst(cond, {v: toI(hi) - 1}), m); sol = toI(hi) - 1
                    else: raise Unsupported('family with a constant key %r' % (e,))
                else:
                    for x in (m.a if m.op == 'and' else (m,)):
                        z = solve(x, w) if sol is None else None
                        if z is not None: sol, extra = z; rest += extra
                        else: rest.append(x)
                    if sol is None: raise Unsupported('match of %r with %r' % (k, key))
                    c = And(ge(sol, lo), lt(sol, hi), csubst(cond, {v: sol}), *[csubst(x, {w: sol}) for x in rest])
                if decide(Not(c)): continue
                vv = vsubst(val, {v: sol})
                if decide(c): return out + [(TRUE, vv)]
                out.append((c, vv))
        l = key.lit()
        if l is not None:
            if l in s.base: return out + [(TRUE, s.base[l])]
            return out
        for b, v in s.base.items():
            c = str_eq(Str((b,)), key)
            if c is FALSE or decide(Not(c)): continue
            if decide(c): return out + [(TRUE, v)]
            out.append((c, v))
        return out
    def has(s, key):
        return Or(*[c for c, _ in s.find(key)])
    def get(s, key):
        al = s.find(key)
        if not al or al[-1][0] is not TRUE:
            if decide(Or(*[c for c, _ in al])) and al: al[-1] = (TRUE, al[-1][1])
            else: al = al + [(TRUE, s.dflt() if s.dflt else UNDEF)]
        r = al[-1][1]
        for c, v in reversed(al[:-1]): r = vite(c, v, r)
        return r
def solve(c, w):
    """c is an equation that fixes w -> (value, side conditions)"""
    if c.op != 'eq0': return None
    e = c.a[0]; va = list(w.atoms())[0]
    co = [k for m, k in e.t if m == (va,)]
    if len(co) != 1 or sum(va in m for m, _ in e.t) != 1 or va in _deep_(e - co[0] * w): return None
    rest = e - co[0] * w; k = co[0]
    if abs(k) == 1: return rest * (-k), []
    q = {}; ok = True
    for m, x in rest.t:
        if x % k: ok = False; break
        q[m] = -(x // k)
    if ok: return I(_ti_(q)), []
    d = divmod_known(-rest * (1 if k > 0 else -1), toI(abs(k)))
    if d: return d[0], [eq(d[1], 0)]
    r = -rest * (1 if k > 0 else -1); return idiv(r, abs(k)), [eq(imod(r, abs(k)), 0)]
from .terms import _deep as _deep_, _ti as _ti_
class Obj:
    __slots__ = ('cls', 'f')
    def __init__(s, cls, f): s.cls = cls; s.f = f
    def __repr__(s): return 'Obj(%s)' % s.cls
    def put(s, k, v): d = dict(s.f); d[k] = v; return Obj(s.cls, d)
class Tup:
    __slots__ = ('x',)
    def __init__(s, x): s.x = tuple(x)
class Slice:
    """[lo,hi), all of the dimension when lo is None"""
    __slots__ = ('lo', 'hi')
    def __init__(s, lo=None, hi=None): s.lo = lo; s.hi = hi
class YNode:
    """a place in a YAML document: path of keys (Str) and positions ('it', I)"""
    __slots__ = ('p',)
    def __init__(s, p): s.p = tuple(p)
    def __repr__(s): return 'Y:' + '/'.join(map(repr, s.p))
class Fun:
    __slots__ = ('name', 'ins', 'out')
    def __init__(s, name, ins, out): s.name = name; s.ins = ins; s.out = out
class SegMat:
    """a column of unknown length: the entries of a Vec of scalars; or a matrix with one column per such entry"""
    __slots__ = ('v', 'rows')
    def __init__(s, v, rows=None): s.v = v; s.rows = rows

def seg_col(v, filt=True):
    """the vector of one family of scalars as a column, or None"""
    if len(v.s) > 1 and filt and all(x[0] in 'ic' and isinstance(x[-1], (Poly, I)) for x in v.s):
        cs = [x[1] if x[0] == 'c' else TRUE for x in v.s]; ps = [toI(0)]
        for c in cs: ps.append(ps[-1] + ind(c))
        def at(i, j):
            r = toP(v.s[0][-1])
            for k in range(1, len(cs)): r = ite(And(cs[k], eq(ps[k], i)), toP(v.s[k][-1]), r)
            return r
        return Mat.gen(ps[-1], toI(1), at)
    if len(v.s) != 1: return None
    x = v.s[0]; ok = lambda e: isinstance(e, (Poly, I)) or isinstance(e, Mat) and e.r.const() == 1 and e.c.const() == 1
    sc = lambda e: e.get(0, 0) if isinstance(e, Mat) else toP(e)
    if x[0] == 'd' and ok(x[2]): return Mat.gen(x[1], toI(1), lambda i, j: sc(vsubst(x[2], {K0: i})))
    if x[0] == 'f' and len(x[4]) == 1 and ok(x[4][0][1]):
        c, e = x[4][0]
        if c is TRUE and decide(le(x[2], x[3])): return Mat.gen(x[3] - x[2], toI(1), lambda i, j: sc(vsubst(e, {x[1]: x[2] + i})))
        if filt: return Mat.gen(count(x[1], x[2], x[3], c), toI(1), lambda i, j: sc(vsubst(e, {x[1]: sel(x[1], x[2], x[3], c, i)})))
    return None
# ---------------------------------------------------------------- substitution, merge, equality
def _psub_str(p, m):
    o = []
    for x in p:
        if isinstance(x, str): o.append(x)
        elif x[0] == 'int': o.append(('int', isubst(x[1], m)))
        elif x[0] == 'fam':
            lo, hi = isubst(x[2], m), isubst(x[3], m)
            with assume(ge(x[1], lo), lt(x[1], hi)): o.append(('fam', x[1], lo, hi, vsubst(x[4], m)))
        elif x[0] == 'alt':
            c = csubst(x[1], m)
            if c is TRUE: o += list(vsubst(x[2], m).p)
            elif c is FALSE: o += list(vsubst(x[3], m).p)
            else: o.append(('alt', c, vsubst(x[2], m), vsubst(x[3], m)))
        elif x[0] in ('sub', 'subst', 'app'): o.append((x[0],) + tuple(vsubst(y, m) for y in x[1:]))
        else: o.append((x[0], x[1], tuple(isubst(y, m) if isinstance(y, I) else y for y in x[2])))
    return tuple(o)
def vsubst(v, m):
    if isinstance(v, I): return isubst(v, m)
    if isinstance(v, C): return csubst(v, m)
    if isinstance(v, Poly): return psubst(v, m)
    if isinstance(v, PreEmpty): return PreEmpty(v.r, v.c, v.nm, [isubst(x, m) for x in v.ix])
    if isinstance(v, Mat):
        if any(any(k in (R0, C0) for k in _aset(x)) for x in m.values() if isinstance(x, I)): return _matsub(v, m)
        r, c = isubst(v.r, m), isubst(v.c, m)
        if (r.const() is None) == (v.r.const() is None) and (c.const() is None) == (v.c.const() is None):
            d = {}
            for k, x in v.d.items():
                with assume(*_facts(r, c, *k)): d[k] = psubst(x, m)
            return Mat(r, c, d)
        return Mat.gen(r, c, lambda i, j: psubst(v.get(i, j), m))
    if isinstance(v, Str): return Str(_psub_str(v.p, m))
    if isinstance(v, Vec): return Vec([_segsub(x, m) for x in v.s])
    if isinstance(v, VIte):
        c = csubst(v.c, m)
        if decide(c): return vsubst(v.a, m)
        if decide(Not(c)): return vsubst(v.b, m)
        with assume(c): a = vsubst(v.a, m)
        with assume(Not(c)): b = vsubst(v.b, m)
        return vite(c, a, b)
    if isinstance(v, Obj): return Obj(v.cls, {k: vsubst(x, m) for k, x in v.f.items()})
    if isinstance(v, Tup): return Tup([vsubst(x, m) for x in v.x])
    if isinstance(v, YNode): return YNode([Str(_psub_str(x.p, m)) if isinstance(x, Str) else (x[0], isubst(x[1], m)) for x in v.p])
    if isinstance(v, Slice): return v if v.lo is None else Slice(isubst(v.lo, m), isubst(v.hi, m))
    if isinstance(v, Map): return Map({k: vsubst(x, m) for k, x in v.base.items()}, [_logsub(e, m) for e in v.log], v.dflt)
    if isinstance(v, Fun): return Fun(vsubst(v.name, m), vsubst(v.ins, m), vsubst(v.out, m))
    if isinstance(v, SegMat): return SegMat(vsubst(v.v, m), v.rows if v.rows is None else isubst(v.rows, m))
    return v
def _aset(e): return {toI(a) for a in e.atoms()}
def _matsub(v, m):
    # the replacement mentions R0/C0 of an outer matrix: rename them first
    a = ivar('or'); b = ivar('oc')
    m1 = {k: isubst(x, {R0: a, C0: b}) for k, x in m.items()}
    raise Unsupported('nested generic index')
def _segsub(x, m):
    if x[0] == 'p': return x
    if x[0] == 'i': return ('i', vsubst(x[1], m))
    if x[0] == 'c':
        c = csubst(x[1], m); return ('i', vsubst(x[2], m)) if c is TRUE else ('c', c, vsubst(x[2], m))
    if x[0] == 'd':
        n = isubst(x[1], m)
        if K0 in m: m = {k: v for k, v in m.items() if k != K0}
        if any(isinstance(y, I) and K0 in _aset(y) for y in m.values()):       # the index of an outer vector: the inner one gets a name of its own
            w = ivar('ok', 0, n); b = vsubst(x[2], {K0: w})
            with assume(ge(w, 0), lt(w, n)): return ('f', w, toI(0), n, ((TRUE, vsubst(b, m)),))
        with assume(ge(K0, 0), lt(K0, n)): return ('d', n, vsubst(x[2], m))
    return ('f', x[1], isubst(x[2], m), isubst(x[3], m), tuple((csubst(c, m), vsubst(v, m)) for c, v in x[4]))
def _logsub(e, m):
    if e[0] == 'p': return e
    if e[0] == 'w': return ('w', csubst(e[1], m), vsubst(e[2], m), vsubst(e[3], m))
    return ('f', e[1], isubst(e[2], m), isubst(e[3], m), csubst(e[4], m), vsubst(e[5], m), vsubst(e[6], m))
def vite(c, a, b):
    c = toC(c)
    if c is TRUE or a is b: return a
    if c is FALSE: return b
    if isinstance(b, VIte) and b.c == c: return vite(c, a, b.b)
    if isinstance(a, VIte) and a.c == c: return vite(c, a.a, b)
    if isinstance(a, bool): a = toC(a)
    if isinstance(b, bool): b = toC(b)
    if a is UNDEF and b is UNDEF: return a
    if isinstance(a, I) and isinstance(b, I): return iite(c, a, b)
    if isinstance(a, C) and isinstance(b, C): return Or(And(c, a), And(Not(c), b))
    if isinstance(a, (Poly, I)) and isinstance(b, (Poly, I)): return ite(c, a, b)
    if isinstance(a, (Mat, Poly)) and isinstance(b, (Mat, Poly)) and not isinstance(a, PreEmpty) and not isinstance(b, PreEmpty):
        a, b = toM(a), toM(b)
        if same(a.r, b.r) and same(a.c, b.c) and a.d.keys() == b.d.keys():
            d = {}
            for k in a.d: d[k] = ite(c, a.d[k], b.d[k])
            return Mat(a.r, a.c, d)
        if same(a.r, b.r) and same(a.c, b.c): return Mat.gen(a.r, a.c, lambda i, j: ite(c, a.get(i, j), b.get(i, j)))
    if isinstance(a, Str) and a == b: return a
    if isinstance(a, Vec) and isinstance(b, Vec):
        if len(a.s) == len(b.s) == 1 and a.s[0][0] == b.s[0][0] == 'd' and a.s[0][1] == b.s[0][1]:
            n = a.s[0][1]
            with assume(ge(K0, 0), lt(K0, n)): return Vec([('d', n, vite(c, a.s[0][2], b.s[0][2]))])
        k = 0
        while k < len(a.s) and k < len(b.s) and seg_same(a.s[k], b.s[k]): k += 1
        if len(a.s) == len(b.s) and all(x[0] == 'i' == y[0] for x, y in zip(a.s[k:], b.s[k:])):
            return Vec(a.s[:k] + tuple(('i', vite(c, x[1], y[1])) for x, y in zip(a.s[k:], b.s[k:])))
        if all(x[0] in 'ic' for x in a.s[k:] + b.s[k:]):
            return Vec(a.s[:k] + tuple(_cseg(c, x) for x in a.s[k:]) + tuple(_cseg(Not(c), x) for x in b.s[k:]))
    if isinstance(a, Map) and isinstance(b, Map) and a.base.keys() == b.base.keys():
        k = 0; base = a.base
        if a.base is not b.base:
            base = {}
            for q in a.base: base[q] = a.base[q] if a.base[q] is b.base[q] or vsame(a.base[q], b.base[q]) else vite(c, a.base[q], b.base[q])
        while k < len(a.log) and k < len(b.log) and log_same(a.log[k], b.log[k]): k += 1
        return Map(base, a.log[:k] + tuple(_clog(c, x) for x in a.log[k:]) + tuple(_clog(Not(c), x) for x in b.log[k:]), a.dflt)
    if isinstance(a, Obj) and isinstance(b, Obj) and a.cls == b.cls: return Obj(a.cls, {k: vite(c, a.f.get(k, UNDEF), b.f.get(k, UNDEF)) for k in a.f})
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.x) == len(b.x): return Tup([vite(c, x, y) for x, y in zip(a.x, b.x)])
    if isinstance(a, YNode) and isinstance(b, YNode) and a.p == b.p: return a
    return VIte(c, a, b)
def seg_same(x, y): return x is y or (len(x) == len(y) and x[0] == y[0] and all(vsame(p, q) for p, q in zip(x[1:], y[1:])))
def log_same(x, y): return x is y or (len(x) == len(y) and x[0] == y[0] and all(vsame(p, q) for p, q in zip(x[1:], y[1:])))
def _cseg(c, x): return ('c', c, x[1]) if x[0] == 'i' else ('c', And(c, x[1]), x[2])
def _clog(c, e): return ('w', And(c, e[1]), e[2], e[3]) if e[0] == 'w' else ('f', e[1], e[2], e[3], And(c, e[4]), e[5], e[6])
def vsame(a, b):
    """syntactically the same value"""
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, (str, Q, int)): return a == b
    if isinstance(a, (I, Poly, Str)): return a == b
    if isinstance(a, PreEmpty): return a.nm == b.nm and a.ix == b.ix
    if isinstance(a, Mat): return a.r == b.r and a.c == b.c and a.d == b.d
    if isinstance(a, Vec): return len(a.s) == len(b.s) and all(seg_same(x, y) for x, y in zip(a.s, b.s))
    if isinstance(a, tuple): return len(a) == len(b) and all(vsame(x, y) for x, y in zip(a, b))
    if isinstance(a, VIte): return a.c is b.c and vsame(a.a, b.a) and vsame(a.b, b.b)
    if isinstance(a, Obj): return a.cls == b.cls and a.f.keys() == b.f.keys() and all(vsame(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Tup): return vsame(a.x, b.x)
    if isinstance(a, YNode): return a.p == b.p
    if isinstance(a, Slice): return a.lo == b.lo and a.hi == b.hi
    if isinstance(a, Map): return (a.base is b.base or (a.base.keys() == b.base.keys() and all(vsame(a.base[k], b.base[k]) for k in a.base))) and len(a.log) == len(b.log) and all(log_same(x, y) for x, y in zip(a.log, b.log))
    if isinstance(a, Fun): return vsame(a.name, b.name) and vsame(a.ins, b.ins) and vsame(a.out, b.out)
    if isinstance(a, SegMat): return vsame(a.v, b.v) and a.rows == b.rows
    return False
class Neq(Exception): pass
def veq(a, b, trace=None):
    """proof that two values are equal in the current context"""
    if vsame(a, b) or infeasible(): return True
    if isinstance(a, bool): a = toC(a)
    if isinstance(b, bool): b = toC(b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, VIte):
            for lit, v in ((x.c, x.a), (Not(x.c), x.b)):
                with assume(lit):
                    if not infeasible() and not veq(v, y, trace): return False
            return True
    if isinstance(a, I) and isinstance(b, I): return decide(eq(a, b))
    if isinstance(a, C) and isinstance(b, C): return decide(Or(And(a, b), And(Not(a), Not(b))))
    if isinstance(a, (Poly, I)) and isinstance(b, (Poly, I)): return prove_zero(toP(a) - toP(b), trace=trace)
    if isinstance(a, (Mat, Poly)) and isinstance(b, (Mat, Poly)):
        a, b = toM(a), toM(b)
        if not (same(a.r, b.r) and same(a.c, b.c)):
            if trace is not None: trace.append((list(Ctx.stack), (a, b)))
            return False
        for i in _range(a.r):
            for j in _range(a.c):
                with assume(*_facts(a.r, a.c, i, j)):
                    ii = R0 if i is None else i; jj = C0 if j is None else j
                    if not infeasible() and not prove_zero(a.get(ii, jj) - b.get(ii, jj), trace=trace): return False
        return True
    if isinstance(a, Str) and isinstance(b, Str):
        from .texts import match, compound
        if compound(a) or compound(b):
            ok = match(a, b)
            if not ok and trace is not None: trace.append((list(Ctx.stack), (a, b)))
            return ok
        return decide(str_eq(a, b))
    if isinstance(a, Vec) and isinstance(b, Vec):
        if all(x[0] == 'i' for x in a.s) and all(x[0] == 'i' for x in b.s):
            return len(a.s) == len(b.s) and all(veq(x[1], y[1], trace) for x, y in zip(a.s, b.s))
        def norm(v):
            o = []
            for x in v.s:
                if x[0] == 'c':
                    if decide(x[1]): o.append(('i', x[2])); continue
                    if decide(Not(x[1])): continue
                if x[0] == 'd' and x[1].const() is not None and x[1].const() <= SMALL: o += [('i', vsubst(x[2], {K0: toI(k)})) for k in range(x[1].const())]; continue
                if x[0] == 'd':
                    w = ivar('k', 0, x[1]); x = ('f', w, toI(0), x[1], ((TRUE, vsubst(x[2], {K0: w})),))
                if x[0] == 'f' and decide(ge(x[2], x[3])): continue
                o.append(x)
            return _vabsorb(o)
        p, q = norm(a), norm(b)
        if len(p) != len(q) or any(x[0] != y[0] for x, y in zip(p, q)):
            cs = [x[1] for x in p + q if x[0] == 'c']
            if cs and len(cs) <= 8:          # entries that are there under a condition: by cases
                for lit in (cs[0], Not(cs[0])):
                    with assume(lit):
                        if not infeasible() and not veq(a, b, trace): return False
                return True
            return False
        for x, y in zip(p, q):
            if x[0] != y[0]: return False
            if x[0] == 'p':
                if x != y: return False
            elif x[0] == 'i':
                if not veq(x[1], y[1], trace): return False
            elif x[0] == 'c':
                if not decide(Or(And(x[1], y[1]), And(Not(x[1]), Not(y[1])))): return False
                with assume(x[1]):
                    if not veq(x[2], y[2], trace): return False
            else:
                if not (same(x[2], y[2]) and same(x[3], y[3]) and len(x[4]) == len(y[4])): return False
                w = ivar('w', x[2], x[3])
                for (c, v), (c2, v2) in zip(x[4], y[4]):
                    ca, cb = csubst(c, {x[1]: w}), csubst(c2, {y[1]: w})
                    if not decide(Or(And(ca, cb), And(Not(ca), Not(cb)))): return False
                    with assume(ca):
                        if not infeasible() and not veq(vsubst(v, {x[1]: w}), vsubst(v2, {y[1]: w}), trace): return False
        return True
    if isinstance(a, Obj) and isinstance(b, Obj): return a.cls == b.cls and a.f.keys() == b.f.keys() and all(veq(a.f[k], b.f[k], trace) for k in a.f)
    if isinstance(a, Tup) and isinstance(b, Tup): return len(a.x) == len(b.x) and all(veq(x, y, trace) for x, y in zip(a.x, b.x))
    if isinstance(a, YNode) and isinstance(b, YNode):
        return len(a.p) == len(b.p) and all((isinstance(x, Str) and isinstance(y, Str) and decide(str_eq(x, y))) or (isinstance(x, tuple) and isinstance(y, tuple) and decide(eq(x[1], y[1]))) for x, y in zip(a.p, b.p))
    if isinstance(a, Map) and isinstance(b, Map): return _mapeq(a, b, trace)
    for x, y, sw in ((a, b, 0), (b, a, 1)):
        if isinstance(x, SegMat) and x.rows is None and isinstance(y, (Mat, Poly)):
            m = seg_col(x.v)
            if m is not None: return veq(y, m, trace) if sw else veq(m, y, trace)
    if isinstance(a, SegMat) and isinstance(b, SegMat): return (a.rows is None) == (b.rows is None) and (a.rows is None or same(a.rows, b.rows)) and veq(a.v, b.v, trace)
    if isinstance(a, Fun) and isinstance(b, Fun): return veq(a.name, b.name, trace) and veq(a.ins, b.ins, trace) and veq(a.out, b.out, trace)
    if trace is not None: trace.append((list(Ctx.stack), (a, b)))
    return False
def _vabsorb(o):
    """elements that continue a family at either end become part of it"""
    def fits(f, at, xs):
        for (c, v), x in zip(f[4], xs):
            if x[0] not in ('i', 'c'): return False
            cx, vx = (TRUE, x[1]) if x[0] == 'i' else x[1:]
            cf = csubst(c, {f[1]: at})
            if not decide(Or(And(cf, cx), And(Not(cf), Not(cx)))): return False
            with assume(cf):
                try:
                    if not infeasible() and not veq(vsubst(v, {f[1]: at}), vx): return False
                except Unsupported: return False
        return True
    ch = True
    while ch:
        ch = False
        for k, f in enumerate(o):
            if f[0] != 'f': continue
            n = len(f[4])
            if len(o) > k + n and all(x[0] in ('i', 'c') for x in o[k + 1:k + 1 + n]) and decide(le(f[2], f[3])) and fits(f, f[3], o[k + 1:k + 1 + n]):
                o = o[:k] + [f[:3] + (f[3] + 1,) + f[4:]] + o[k + 1 + n:]; ch = True; break
            if k >= n and all(x[0] in ('i', 'c') for x in o[k - n:k]) and decide(le(f[2], f[3])) and fits(f, f[2] - 1, o[k - n:k]):
                o = o[:k - n] + [f[:2] + (f[2] - 1,) + f[3:]] + o[k + 1:]; ch = True; break
    return o
def _ekey(e, w):
    return e[2] if e[0] == 'w' else vsubst(e[5], {e[1]: w})
def _econd(e, w): return e[1] if e[0] == 'w' else And(ge(w, e[2]), lt(w, e[3]), csubst(e[4], {e[1]: w}))
def _ksim(x, y):
    """may be the same entry"""
    if x[0] == 'p' or y[0] == 'p': return x == y
    if x[0] != y[0]: return False
    w = ivar('w'); c = str_eq(_ekey(x, w), _ekey(y, w))
    with assume(_econd(x, w)): return infeasible() or decide(c)
def _disjoint(x, y):
    if x[0] == 'p' or y[0] == 'p': return False
    u, v = ivar('u'), ivar('v')
    with assume(_econd(x, u), _econd(y, v)): return decide(Not(str_eq(_ekey(x, u), _ekey(y, v))))
def _absorb(log):
    """single entries that continue a family become part of it; later entries win, so entries with other keys may be passed"""
    out = []
    for e in log:
        if e[0] == 'w' and e[1] is FALSE: continue
        done = False
        if e[0] == 'w':
            for q in range(len(out) - 1, -1, -1):
                x = out[q]
                if x[0] == 'f':
                    hi = {x[1]: x[3]}
                    if decide(csubst(x[4], hi)) and decide(e[1]) and decide(str_eq(vsubst(x[5], hi), e[2])) and decide(le(x[2], x[3])) and veq(vsubst(x[6], hi), e[3]):
                        out[q] = ('f', x[1], x[2], x[3] + 1) + x[4:]; done = True; break
                if not _disjoint(x, e): break
        if not done: out.append(e)
    return out
def _mapeq(a, b, trace):
    """same writes in the same order"""
    if not (a.base is b.base or (a.base.keys() == b.base.keys() and all(veq(a.base[k], b.base[k], trace) for k in a.base))): return False
    la, lb = a.log, b.log
    k = 0
    while k < len(la) and k < len(lb) and log_same(la[k], lb[k]): k += 1
    la, lb = _absorb(la[k:]), _absorb(lb[k:])
    if len(la) != len(lb): return False
    if not all(_ksim(x, y) for x, y in zip(la, lb)):
        # another order of entries with different keys
        o = []; rest = list(la)
        for y in lb:
            for i, x in enumerate(rest):
                if x[0] == y[0] and _ksim(x, y) and all(_disjoint(x, z) for z in rest[:i]): o.append(x); del rest[i]; break
            else: return False
        la = o
    for x, y in zip(la, lb):
        if x is y: continue
        if x[0] != y[0]: return False
        if x[0] == 'w':
            if not decide(Or(And(x[1], y[1]), And(Not(x[1]), Not(y[1])))): return False
            with assume(x[1]):
                if not (veq(x[2], y[2], trace) and veq(x[3], y[3], trace)): return False
        else:
            if not (same(x[2], y[2]) and same(x[3], y[3])): return False
            w = ivar('w', x[2], x[3])
            ca, cb = csubst(x[4], {x[1]: w}), csubst(y[4], {y[1]: w})
            if not decide(Or(And(ca, cb), And(Not(ca), Not(cb)))): return False
            with assume(ca):
                if not infeasible() and not (veq(vsubst(x[5], {x[1]: w}), vsubst(y[5], {y[1]: w}), trace) and veq(vsubst(x[6], {x[1]: w}), vsubst(y[6], {y[1]: w}), trace)): return False
    return True
