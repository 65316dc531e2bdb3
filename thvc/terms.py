"""Terms of the prover.

I    integers: polynomials with integer coefficients over integer atoms (variables, selections, counts)
C    conditions over integers
Poly reals: polynomials with rational coefficients over hash-consed atoms (inputs, sin/cos, Ite, sums, powers)

Everything is immutable.  Every bounded integer variable carries its own range as a fact.  Conditions are decided
by z3 (linear integer arithmetic with uninterpreted functions) under those facts and the current path condition."""
from fractions import Fraction as Q
import itertools, math, z3

class Unsupported(Exception): pass
_uid = itertools.count(1)

# ------------------------------------------------------------------ integer atoms
class IAtom:
    __slots__ = ('uid', 'kind', 'name', 'args', 'facts', '_z')
    tab = {}
    def __repr__(s): return s.name if not s.args else '%s(%s)' % (s.name, ','.join(map(repr, s.args)))
    def __lt__(s, o): return s.uid < o.uid
def _iatom(kind, name, args=()):
    k = (kind, name, args); a = IAtom.tab.get(k)
    if a is None:
        a = IAtom(); a.uid = next(_uid); a.kind = kind; a.name = name; a.args = args; a.facts = []; a._z = None; IAtom.tab[k] = a
    return a

class I:
    __slots__ = ('t', 'h')
    def __init__(s, t): s.t = t; s.h = hash(t)
    def __hash__(s): return s.h
    def __eq__(s, o):
        o = toI(o); return s.t == o.t
    def __add__(s, o):
        o = toI(o); d = dict(s.t)
        for m, c in o.t:
            c2 = d.get(m, 0) + c
            if c2: d[m] = c2
            else: d.pop(m, None)
        return I(_ti(d))
    __radd__ = __add__
    def __neg__(s): return I(tuple((m, -c) for m, c in s.t))
    def __sub__(s, o): return s + (-toI(o))
    def __rsub__(s, o): return toI(o) - s
    def __mul__(s, o):
        o = toI(o); d = {}
        for m, c in s.t:
            for m2, c2 in o.t:
                k = tuple(sorted(m + m2)); v = d.get(k, 0) + c * c2
                if v: d[k] = v
                else: d.pop(k, None)
        return I(_ti(d))
    __rmul__ = __mul__
    def const(s):
        if not s.t: return 0
        if len(s.t) == 1 and s.t[0][0] == (): return s.t[0][1]
        return None
    def atoms(s):
        r = set()
        for m, _ in s.t:
            for a in m:
                if a not in r: r.add(a)
        return r
    def __repr__(s):
        if not s.t: return '0'
        o = []
        for m, c in s.t:
            if m == (): o.append(str(c))
            else: o.append(('' if c == 1 else '-' if c == -1 else '%d*' % c) + '*'.join(map(repr, m)))
        return '+'.join(o).replace('+-', '-')
def _ti(d): return tuple(sorted(d.items(), key=lambda x: tuple(a.uid for a in x[0])))
def toI(x):
    if isinstance(x, I): return x
    if isinstance(x, bool): return I((((), 1),)) if x else I(())
    if isinstance(x, int): return I((((), x),)) if x else I(())
    if isinstance(x, IAtom): return I((((x,), 1),))
    if isinstance(x, Poly):
        c = x.const()
        if c is not None and c.denominator == 1: return toI(int(c))
        if all(c.denominator == 1 and all(a.kind == 'int' for a, _ in m) for m, c in x.d.items()):
            r = I(())
            for m, c in x.d.items():
                t = toI(int(c))
                for a, e in m:
                    for _ in range(e): t = t * a.args[0]
                r = r + t
            return r
    raise Unsupported('not an integer: %r' % (x,))
def isI(x): return isinstance(x, (I, int, IAtom)) and not isinstance(x, bool)
def ivar(name, lo=None, hi=None, fresh=True):
    """a new integer variable with lo <= v < hi"""
    a = _iatom('v', '%s#%d' % (name, next(_uid)) if fresh else name)
    v = toI(a)
    if lo is not None: a.facts.append(ge(v, lo))
    if hi is not None: a.facts.append(lt(v, hi))
    return v
def ifun(name, *args):
    return toI(_iatom('f', name, tuple(toI(a) for a in args)))
FUN_FACTS = {}     # name -> function(args, value) giving facts about one application

# ------------------------------------------------------------------ conditions
class C:
    __slots__ = ('uid', 'op', 'a', '_z', '_at', '_ia')
    tab = {}
    def __repr__(s):
        if s.op == 'ge0': return '(%r>=0)' % s.a[0]
        if s.op == 'eq0': return '(%r==0)' % s.a[0]
        if s.op == 'not': return '!%r' % s.a[0]
        if s.op in ('and', 'or'): return '(' + (' & ' if s.op == 'and' else ' | ').join(map(repr, s.a)) + ')'
        if s.op == 'ex': return 'ex(%r in [%r,%r): %r)' % s.a
        if s.op == 'atom': return '%s(%s)' % (s.a[0], ','.join(map(repr, s.a[1:])))
        return s.op
    def __and__(s, o): return And(s, o)
    def __or__(s, o): return Or(s, o)
    def __invert__(s): return Not(s)
    def __hash__(s): return s.uid
    def __eq__(s, o): return s is o
    def __lt__(s, o): return s.uid < o.uid
def _c(op, *a):
    k = (op,) + a; c = C.tab.get(k)
    if c is None:
        c = C(); c.uid = next(_uid); c.op = op; c.a = a; c._z = None; c._at = None; c._ia = None; C.tab[k] = c
    return c
TRUE = _c('true'); FALSE = _c('false')
def toC(x):
    if isinstance(x, C): return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if isI(x): return Not(eq(x, 0))
    if isinstance(x, Poly): return Not(eq(toI(x), 0))
    raise Unsupported('not a condition: %r' % (x,))
def ge(a, b):
    e = toI(a) - toI(b); k = e.const()
    if k is not None: return TRUE if k >= 0 else FALSE
    return _c('ge0', e)
def lt(a, b): return ge(toI(b) - 1, a)
def le(a, b): return ge(b, a)
def gt(a, b): return lt(b, a)
def eq(a, b):
    e = toI(a) - toI(b); k = e.const()
    if k is not None: return TRUE if k == 0 else FALSE
    if e.t[0][1] < 0: e = -e
    return _c('eq0', e)
def Not(c):
    c = toC(c)
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == 'not': return c.a[0]
    if c.op == 'ge0': return _c('ge0', -c.a[0] - 1)
    if c.op == 'and': return Or(*[Not(x) for x in c.a])
    if c.op == 'or': return And(*[Not(x) for x in c.a])
    return _c('not', c)
def _flat(op, cs, unit, zero):
    out = []; seen = set()
    for c in cs:
        c = toC(c)
        for x in (c.a if c.op == op else (c,)):
            if x is unit or x in seen: continue
            if x is zero: return zero
            seen.add(x); out.append(x)
    for x in out:
        if Not(x) in seen: return zero
    if not out: return unit
    if len(out) == 1: return out[0]
    return _c(op, *sorted(out, key=lambda x: x.uid))
def And(*cs): return _flat('and', cs, TRUE, FALSE)
def Or(*cs): return _flat('or', cs, FALSE, TRUE)
def patom(name, *args): return _c('atom', name, *args)
def exists(v, lo, hi, body):
    """v an ivar (I), bound"""
    if body is FALSE: return FALSE
    return ge(count(v, lo, hi, body), 1)
def bound(h): return toI(_iatom('b', 'b%d' % h))
def _ih(e): return max([0] + [_iah(a) for a in e.atoms()])
def _iah(a):
    if a.kind == 'b': return int(a.name[1:]) + 1
    return max([0] + [(_ih(x) if isinstance(x, I) else _cheight(x) if isinstance(x, C) else 0) for x in a.args])
def _cheight(c):
    m = 0
    for x in c.a:
        if isinstance(x, I): m = max(m, _ih(x))
        elif isinstance(x, C): m = max(m, _cheight(x))
        elif isinstance(x, Poly): m = max(m, pheight(x))
    if c.op == 'ex': m = max(m, int(list(c.a[0].atoms())[0].name[1:]) + 1)
    return m
def iatoms_of(c):
    """integer atoms occurring in a condition"""
    if c._at is None:
        s = set()
        for x in c.a:
            if isinstance(x, I): s |= _deep(x)
            elif isinstance(x, C): s |= iatoms_of(x)
            elif isinstance(x, Poly): s |= _pdeep(x)
        c._at = frozenset(s)
    return c._at
def _pdeep(p):
    s = set()
    for a in p.atoms():
        for x in a.args:
            if isinstance(x, I): s |= _deep(x)
            elif isinstance(x, C): s |= iatoms_of(x)
            elif isinstance(x, Poly): s |= _pdeep(x)
    return s
def skeleton(x, out):
    """the term with its integer arguments replaced by holes; the arguments go to out.  Equal skeletons and equal arguments: equal terms"""
    if isinstance(x, I): out.append(x); return '#'
    if isinstance(x, C):
        if x.op == 'atom': return 'a(%s;%s)' % (x.a[0], ';'.join([skeleton(y, out) for y in x.a[1:]]))
        return '%s(%s)' % (x.op, ';'.join([skeleton(y, out) for y in x.a]))
    if isinstance(x, Poly):
        ms = []
        for m, c in x.d.items():
            o = []; k = '%s*%s' % (c, '*'.join(['%s^%s' % (skeleton(a, o), e if not isinstance(e, I) else skeleton(e, o)) for a, e in sorted(m, key=lambda ae: (ae[0].kind, str(ae[0].name), ae[0].uid))])); ms.append((k, o))
        ms.sort(key=lambda z: (z[0], [repr(y) for y in z[1]]))
        for _, o in ms: out += o
        return '(' + '+'.join([k for k, _ in ms]) + ')'
    if isinstance(x, RAtom): return '%s.%s[%s]' % (x.kind, x.name, ';'.join([skeleton(y, out) for y in x.args]))
    return repr(x)
def _deep(e):
    s = set()
    for a in e.atoms():
        s.add(a)
        for x in a.args:
            if isinstance(x, I): s |= _deep(x)
            elif isinstance(x, C): s |= iatoms_of(x)
    return s

# ------------------------------------------------------------------ substitution of integers
def isubst(e, m):
    if not e.t: return e
    r = None; ch = False
    for mon, c in e.t:
        for a in mon:
            if _hits(a, m): ch = True; break
        if ch: break
    if not ch: return e
    r = I(())
    for mon, c in e.t:
        p = toI(c)
        for a in mon: p = p * _asubst(a, m)
        r = r + p
    return r
def _hits(a, m):
    if toI(a) in m: return True
    return any((any(_hits(y, m) for y in x.atoms()) if isinstance(x, I) else any(toI(y) in m for y in iatoms_of(x)) if isinstance(x, C) else False) for x in a.args)
def _asubst(a, m):
    v = m.get(toI(a))
    if v is not None: return toI(v)
    if not a.args: return toI(a)
    na = tuple(isubst(x, m) if isinstance(x, I) else csubst(x, m) if isinstance(x, C) else x for x in a.args)
    if na == a.args: return toI(a)
    if a.kind == 'cnt': return count(None, na[1], na[2], None, raw=(na[0], na[3]))
    if a.kind == 'div': return idiv(*na)
    if a.kind == 'mod': return imod(*na)
    if a.kind == 'ind': return ind(na[0])
    if a.kind == 'iite': return iite(*na)
    return toI(_iatom(a.kind, a.name, na))
def csubst(c, m):
    if c.op in ('true', 'false'): return c
    if not any(toI(a) in m for a in iatoms_of(c)) and c.op != 'atom': return c
    if c.op == 'ge0': return ge(isubst(c.a[0], m), 0)
    if c.op == 'eq0': return eq(isubst(c.a[0], m), 0)
    if c.op == 'not': return Not(csubst(c.a[0], m))
    if c.op == 'and': return And(*[csubst(x, m) for x in c.a])
    if c.op == 'or': return Or(*[csubst(x, m) for x in c.a])
    if c.op == 'ex': return _c('ex', c.a[0], isubst(c.a[1], m), isubst(c.a[2], m), csubst(c.a[3], m))
    return _c('atom', c.a[0], *[isubst(x, m) if isinstance(x, I) else psubst(x, m) if isinstance(x, Poly) else x for x in c.a[1:]])
def count(v, lo, hi, cond, raw=None):
    """number of v in [lo,hi) with cond"""
    if raw is None:
        if cond is TRUE and decide(le(lo, hi)): return toI(hi) - toI(lo)
        if cond is FALSE: return toI(0)
        h = _cheight(cond); b = bound(h); body = csubst(cond, {v: b})
    else: b, body = raw
    lo, hi = toI(lo), toI(hi)
    if (hi - lo).const() == 0: return toI(0)
    a = _iatom('cnt', 'cnt', (b, lo, hi, body))
    if not a.facts: a.facts.append(ge(toI(a), 0)); a.facts.append(Or(le(toI(a), hi - lo), lt(hi, lo))); a.facts.append(Or(ge(hi, lo), eq(toI(a), 0)))
    return toI(a)
def sel(v, lo, hi, cond, k):
    """the k-th v in [lo,hi) with cond"""
    if cond is TRUE: return toI(lo) + k
    h = _cheight(cond); b = bound(h); body = csubst(cond, {v: b})
    return toI(_iatom('sel', 'sel', (b, toI(lo), toI(hi), body, toI(k))))
def ind(c):
    """1 when c, else 0"""
    if c is TRUE: return toI(1)
    if c is FALSE: return toI(0)
    n = Not(c)
    if n.uid < c.uid: return 1 - ind(n)
    a = _iatom('ind', 'ind', (c,)); v = toI(a)
    if not a.facts: a.facts += [Or(And(c, eq(v, 1)), And(n, eq(v, 0)))]
    return v
def iite(c, a, b):
    c = toC(c); a = toI(a); b = toI(b)
    if c is TRUE or a == b: return a
    if c is FALSE: return b
    d = (a - b).const()
    if d is not None: return b + ind(c) * d
    if c.op == 'not': return iite(c.a[0], b, a)
    x = _iatom('iite', 'iite', (c, a, b)); v = toI(x)
    if not x.facts: x.facts += [Or(Not(c), eq(v, a)), Or(c, eq(v, b))]
    return v
def idiv(a, b):
    a, b = toI(a), toI(b); r = divmod_known(a, b)
    if r: return r[0]
    h, a = _whole(a, b); return h + toI(_iatom('div', 'div', (a, b)))
def imod(a, b):
    a, b = toI(a), toI(b); r = divmod_known(a, b)
    return r[1] if r else toI(_iatom('mod', 'mod', (_whole(a, b)[1], b)))
def _whole(a, b):
    """the multiples of a constant divisor (the quotient is the floor)"""
    k = b.const()
    if k is None or k <= 0: return toI(0), a
    hi = {}; lo = {}
    for m, c in a.t:
        q, r = divmod(c, k) if not m else (c // k, 0) if c % k == 0 else (0, c)
        if q: hi[m] = q
        if r: lo[m] = r
    return I(_ti(hi)), I(_ti(lo))
def divmod_known(a, b):
    """a = hi*b + lo with 0 <= lo < b, found by splitting off the monomials divisible by b"""
    kb = b.const()
    if kb is not None and kb > 0:
        hi = {}; lo = {}
        for m, c in a.t:
            q, r = divmod(c, kb)
            if q: hi[m] = q
            if r: lo[m] = r
        h, l = I(_ti(hi)), I(_ti(lo))
        if decide(And(ge(l, 0), lt(l, b))): return h, l
        # constants may have to move
        for d in (-1, 1):
            if decide(And(ge(l - d * kb, 0), lt(l - d * kb, b))): return h + d, l - d * kb
        return None
    if len(b.t) == 1 and b.t[0][1] == 1:
        bm = list(b.t[0][0]); hi = {}; lo = {}
        for m, c in a.t:
            mm = list(m); ok = True
            for x in bm:
                if x in mm: mm.remove(x)
                else: ok = False; break
            if ok: hi[tuple(mm)] = c
            else: lo[m] = c
        h, l = I(_ti(hi)), I(_ti(lo))
        if decide(And(ge(l, 0), lt(l, b))): return h, l
        for d in (-1, 1):
            if decide(And(ge(l - d * b, 0), lt(l - d * b, b))): return h + d, l - d * b
    return None

# ------------------------------------------------------------------ deciding conditions
class Ctx:
    stack = []            # path conditions
    version = 0
    cache = {}
    queries = 0
    time = 0.
    axioms = []           # functions(atoms) -> extra facts
class assume:
    def __init__(s, *cs): s.cs = [toC(c) for c in cs]
    def __enter__(s):
        s.n = len(Ctx.stack); Ctx.stack.extend(c for c in s.cs if c is not TRUE)
        return s
    def __exit__(s, *a): del Ctx.stack[s.n:]
def zi(e):
    r = None
    for m, c in e.t:
        t = z3.IntVal(c)
        if m:
            p = None
            for a in m:
                za = zat(a); p = za if p is None else p * za
            t = p if c == 1 else t * p
        r = t if r is None else r + t
    return r if r is not None else z3.IntVal(0)
_zf = {}
def zat(a):
    if a._z is None:
        if a.kind == 'f':
            k = (a.name, len(a.args)); f = _zf.get(k)
            if f is None: f = _zf[k] = z3.Function('f_' + a.name, *([z3.IntSort()] * (len(a.args) + 1)))
            a._z = f(*[zi(x) for x in a.args])
        else: a._z = z3.Int('%s_%d' % (a.name, a.uid))
    return a._z
def zc(c):
    if c._z is None:
        o = c.op
        if o == 'true': z = z3.BoolVal(True)
        elif o == 'false': z = z3.BoolVal(False)
        elif o == 'ge0': z = zi(c.a[0]) >= 0
        elif o == 'eq0': z = zi(c.a[0]) == 0
        elif o == 'not': z = z3.Not(zc(c.a[0]))
        elif o == 'and': z = z3.And(*[zc(x) for x in c.a])
        elif o == 'or': z = z3.Or(*[zc(x) for x in c.a])
        elif o == 'atom' and all(isinstance(x, I) for x in c.a[1:]) and len(c.a) > 1:
            k = (c.a[0], len(c.a) - 1, 'p'); f = _zf.get(k)
            if f is None: f = _zf[k] = z3.Function('p_' + c.a[0], *([z3.IntSort()] * (len(c.a) - 1)), z3.BoolSort())
            z = f(*[zi(x) for x in c.a[1:]])
        elif o == 'atom' and len(c.a) > 1:
            xs = []; k = (skeleton(c, xs), len(xs), 'p')
            if not xs: z = z3.Bool('c_%d' % c.uid)
            else:
                f = _zf.get(k)
                if f is None: f = _zf[k] = z3.Function('q_%d' % len(_zf), *([z3.IntSort()] * len(xs)), z3.BoolSort())
                z = f(*[zi(x) for x in xs])
        else: z = z3.Bool('c_%d' % c.uid)
        c._z = z
    return c._z
def nonlin(c):
    """rewrite comparisons with products of variables: sign of A*b + B with 0 <= B < b (or -b <= B < 0)"""
    if c.op in ('ge0', 'eq0') and any(len(m) > 1 for m, _ in c.a[0].t):
        e = c.a[0]; facs = []
        for m, _ in e.t:
            if len(m) > 1:
                for a in m:
                    if a not in facs: facs.append(a)
        for b in facs:
            hi = {}; lo = {}
            for m, k in e.t:
                if b in m:
                    mm = list(m); mm.remove(b); hi[tuple(mm)] = k
                else: lo[m] = k
            A, B, bb = I(_ti(hi)), I(_ti(lo)), toI(b)
            if not B.t:
                if decide(ge(bb, 1)): return nonlin(ge(A, 0)) if c.op == 'ge0' else nonlin(eq(A, 0))
                if c.op == 'eq0': return Or(nonlin(eq(A, 0)), eq(bb, 0))
                continue
            for s in (0, 1, 2, -1, -2):
                # B = s*b + B' with 0 <= B' < b
                if decide(And(ge(B - s * bb, 0), lt(B - s * bb, bb))):
                    if c.op == 'ge0': return nonlin(ge(A + s, 0))
                    return And(nonlin(eq(A + s, 0)), eq(B - s * bb, 0))
    return c
_nl_busy = set()
def prep(c):
    if c.op in ('and', 'or'): return (And if c.op == 'and' else Or)(*[prep(x) for x in c.a])
    if c.op == 'not': return Not(prep(c.a[0]))
    if c.op in ('ge0', 'eq0') and any(len(m) > 1 for m, _ in c.a[0].t) and c not in _nl_busy:
        _nl_busy.add(c)
        try: return nonlin(c)
        finally: _nl_busy.discard(c)
    return c
_selc = {}; _self = {}
def facts_for(atoms):
    out = []; seen = set(); todo = list(atoms)
    while todo:
        a = todo.pop()
        if a in seen: continue
        seen.add(a)
        fs = list(a.facts)
        if a.kind == 'f' and a.name.startswith('Ylen:'): fs.append(ge(toI(a), 0))
        if a.kind == 'f' and a.name in FUN_FACTS: fs += FUN_FACTS[a.name](a.args, toI(a))
        if a.kind == 'sel':
            b, lo, hi, body, k = a.args; v = toI(a)
            fs += [Or(Not(And(ge(k, 0), lt(k, toI(_iatom('cnt', 'cnt', (b, lo, hi, body)))))), And(ge(v, lo), lt(v, hi), csubst(body, {b: v})))]
            for y in list(seen) + todo:
                if y.kind == 'cnt' and y.args[0] == b and y.args[1] == lo and y.args[3] is body and y not in _selc.setdefault(a, set()):
                    _selc[a].add(y); x = y.args[2]; ex_ = Or(Not(csubst(body, {b: x})), ge(x, hi), lt(x, lo), Not(eq(toI(y), k)), eq(v, x)); _self.setdefault(a, []).append((y, ex_))
            fs += [e for y, e in _self.get(a, ()) if y in seen or y in todo]
            for y in list(seen):
                if y is not a and y.kind == 'sel' and y.args[0] == b and y.args[1] == lo and y.args[3] is body:
                    n1, n2 = toI(_iatom('cnt', 'cnt', (b, lo, hi, body))), toI(_iatom('cnt', 'cnt', (b, lo, y.args[2], body)))
                    fs += [Or(Not(eq(k, y.args[4])), ge(k, n1), ge(k, n2), lt(k, 0), eq(v, toI(y))), Or(Not(eq(hi, y.args[2])), Not(eq(k, y.args[4])), eq(v, toI(y)))]
        if a.kind == 'mod' : fs += [Or(le(a.args[1], 0), And(ge(toI(a), 0), lt(toI(a), a.args[1])))]
        for f in fs:
            out.append(f)
            for x in iatoms_of(f):
                if x not in seen: todo.append(x)
        for x in a.args:
            if isinstance(x, I): todo += [y for y in _deep(x) if y not in seen]
            elif isinstance(x, C) and a.kind in ('ind', 'iite'): todo += [y for y in iatoms_of(x) if y not in seen]
        if a.kind == 'cnt':
            for b in list(seen):
                if b is not a and b.kind == 'cnt' and b.args[0] == a.args[0] and b.args[1] == a.args[1] and b.args[3] is a.args[3]:
                    for x, y in ((a, b), (b, a)):
                        fs2 = [Or(lt(y.args[2], x.args[2]), le(toI(x), toI(y)))]
                        if (y.args[2] - x.args[2]).const() == 1:
                            at = csubst(a.args[3], {a.args[0]: x.args[2]})
                            fs2 += [Or(lt(x.args[2], a.args[1]), And(at, eq(toI(y), toI(x) + 1)), And(Not(at), eq(toI(y), toI(x))))]
                        elif (y.args[2] - x.args[2]).const() is None:
                            at = csubst(a.args[3], {a.args[0]: x.args[2]})
                            fs2 += [Or(ge(x.args[2], y.args[2]), lt(x.args[2], a.args[1]), Not(at), le(toI(x) + 1, toI(y)))]
                        for f in fs2:
                            out.append(f)
                            for z in iatoms_of(f):
                                if z not in seen: todo.append(z)
    return out, seen
import time as _time
def decide(c):
    """True when c follows from the facts about its variables and the path condition"""
    c = toC(c)
    if c is TRUE: return True
    if c is FALSE: return False if not Ctx.stack else infeasible()
    key = (c, tuple(sorted(x.uid for x in Ctx.stack)), Ctx.version)
    r = Ctx.cache.get(key)
    if r is not None: return r
    if c in Ctx.stack: r = True
    elif c.op == 'and': r = all(decide(x) for x in c.a)
    else: r = _z(Not(prep(c)))
    Ctx.cache[key] = r
    return r
def infeasible():
    if not Ctx.stack: return False
    key = ('inf', tuple(sorted(x.uid for x in Ctx.stack)), Ctx.version)
    r = Ctx.cache.get(key)
    if r is None: r = Ctx.cache[key] = _z(TRUE)
    return r
def _ges(c):
    if c.op in ('ge0', 'eq0'): return [c.a[0]]
    if c.op in ('and', 'or', 'not'): return [e for x in c.a for e in _ges(x)]
    return []
def _z(neg):
    """unsat( facts & path & neg )"""
    st = [prep(x) for x in Ctx.stack]
    atoms = set(iatoms_of(neg))
    for x in st: atoms |= iatoms_of(x)
    fs, atoms2 = facts_for(atoms)
    fs = [prep(f) for f in fs]
    raw = []
    dv = [a for a in atoms2 if a.kind in ('div', 'mod')]
    for a in dv:
        x, b = a.args; q = zat(_iatom('div', 'div', (x, b))) if a.kind == 'mod' else zat(a); zb = zi(b); r = zi(x) - zb * q
        raw.append(z3.Implies(zb >= 1, z3.And(r >= 0, r <= zb - 1)))
        if a.kind == 'mod': raw.append(z3.Implies(zb >= 1, zat(a) == r))
        ba = b.atoms()
        if len(b.t) == 1 and len(ba) == 1 and b.t[0][1] == 1:
            ba = list(ba)[0]; ts = set()
            for c in st + fs + [neg]:
                for e in _ges(c):
                    for m, _ in e.t:
                        if len(m) == 2 and ba in m: ts.add(m[0] if m[1] is ba else m[1])
            for t in ts:
                zt = zat(t)
                raw.append(z3.Implies(zb >= 1, z3.And(z3.Implies(q <= zt - 1, zb * q <= zb * zt - zb), z3.Implies(q >= zt + 1, zb * q >= zb * zt + zb))))
    for ax in Ctx.axioms: fs += ax(atoms2)
    s = z3.SolverFor('QF_UFLIA') if False else z3.Solver()
    s.set('timeout', 2000)
    for f in fs + st: s.add(zc(f))
    for f in raw: s.add(f)
    s.add(zc(neg))
    t = _time.time(); r = s.check(); Ctx.time += _time.time() - t; Ctx.queries += 1
    return r == z3.unsat

# ------------------------------------------------------------------ real atoms and polynomials
class RAtom:
    __slots__ = ('uid', 'kind', 'name', 'args', '_h')
    tab = {}
    def __lt__(s, o): return s.uid < o.uid
    def __repr__(s):
        if s.kind == 'ite': return 'ite(%r,%r,%r)' % s.args
        if s.kind == 'sum': return 'sum(%r in [%r,%r): %r)' % s.args
        return s.name + ('[%s]' % ','.join(map(repr, s.args)) if s.args else '')
def _ratom(kind, name, args=()):
    k = (kind, name, args); a = RAtom.tab.get(k)
    if a is None:
        a = RAtom(); a.uid = next(_uid); a.kind = kind; a.name = name; a.args = args; a._h = None; RAtom.tab[k] = a
    return a
class Poly:
    __slots__ = ('d', '_k')
    def __init__(s, d): s.d = d; s._k = None
    def key(s):
        if s._k is None: s._k = frozenset(s.d.items())
        return s._k
    def __hash__(s): return hash(s.key())
    def __eq__(s, o): return isinstance(o, Poly) and s.key() == o.key()
    def __add__(s, o):
        o = toP(o)
        if len(o.d) > len(s.d): s, o = o, s
        d = dict(s.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v: d[m] = v
            else: del d[m]
        return Poly(d)
    __radd__ = __add__
    def __neg__(s): return Poly({m: -c for m, c in s.d.items()})
    def __sub__(s, o): return s + (-toP(o))
    def __rsub__(s, o): return toP(o) - s
    def __mul__(s, o):
        o = toP(o)
        if not s.d or not o.d: return ZERO
        if len(s.d) == 1 and () in s.d:
            k = s.d[()]; return o if k == 1 else Poly({m: c * k for m, c in o.d.items()})
        if len(o.d) == 1 and () in o.d:
            k = o.d[()]; return s if k == 1 else Poly({m: c * k for m, c in s.d.items()})
        d = {}; extra = None
        for m1, c1 in s.d.items():
            for m2, c2 in o.d.items():
                m, red = _mmul(m1, m2)
                if red is None:
                    v = d.get(m, 0) + c1 * c2
                    if v: d[m] = v
                    else: del d[m]
                else:
                    extra = red * (c1 * c2) if extra is None else extra + red * (c1 * c2)
        p = Poly(d)
        return p if extra is None else p + extra
    __rmul__ = __mul__
    def const(s):
        if not s.d: return Q(0)
        if len(s.d) == 1 and () in s.d: return s.d[()]
        return None
    def __pow__(s, k):
        if k < 0: return inv(s) ** (-k)
        r = ONE
        for _ in range(k): r = r * s
        return r
    def atoms(s): return {a for m in s.d for a, _ in m}
    def __repr__(s):
        if not s.d: return '0'
        o = []
        for m, c in list(s.d.items())[:40]:
            t = '*'.join('%r' % a + ('^%d' % e if e != 1 else '') for a, e in m)
            o.append((str(c) if not t else t if c == 1 else '-' + t if c == -1 else '%s*%s' % (c, t)))
        return ' + '.join(o) + (' ...%d' % len(s.d) if len(s.d) > 40 else '')
def _mmul(m1, m2):
    """product of monomials; sin^2 -> 1-cos^2, sqrt^2 -> arg, x * inv(x) -> 1, equal Ite merged"""
    d = dict(m1)
    for a, e in m2: d[a] = d.get(a, 0) + e
    for a, e in d.items():
        if e >= 2:
            if a.kind == 'fn' and a.name == 'sin':
                rest = dict(d); rest[a] = e - 2
                return None, _mono(rest) * (ONE - fn('cos', a.args[0]) ** 2)
            if a.kind == 'fn' and a.name == 'abs':
                rest = dict(d); rest[a] = e - 2
                return None, _mono(rest) * (a.args[0] * a.args[0])
            if a.kind == 'ite':
                rest = dict(d); rest[a] = 0
                return None, _mono(rest) * ite(a.args[0], a.args[1] ** e, a.args[2] ** e)
        if a.kind == 'fn' and a.name == 'inv' and e >= 1:
            x = a.args[0]
            if len(x.d) == 1:
                (xm, xc), = x.d.items()
                if xc == 1 and len(xm) == 1 and xm[0][1] == 1 and d.get(xm[0][0], 0) >= 1:
                    rest = dict(d); k = min(e, d[xm[0][0]]); rest[a] = e - k; rest[xm[0][0]] -= k
                    return None, _mono(rest)
    return tuple(sorted(d.items(), key=lambda x: x[0].uid)), None
def _mono(d): return Poly({tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda x: x[0].uid)): Q(1)})
def pat(a): return Poly({((a, 1),): Q(1)})
ZERO = Poly({}); ONE = Poly({(): Q(1)})
def toP(x):
    if isinstance(x, Poly): return x
    if isinstance(x, bool): return ONE if x else ZERO
    if isinstance(x, (int, Q)): return Poly({(): Q(x)}) if x else ZERO
    if isinstance(x, float): return Poly({(): Q(x)}) if x else ZERO
    if isinstance(x, I):
        r = ZERO
        for m, c in x.t:
            p = Poly({(): Q(c)})
            for a in m: p = p * pat(_ratom('int', 'int', (toI(a),)))
            r = r + p
        return r
    if isinstance(x, IAtom): return toP(toI(x))
    if isinstance(x, C): return ite(x, ONE, ZERO)
    if hasattr(x, 'scalar'): return x.scalar()
    raise Unsupported('not a number: %r' % (x,))
def rvar(name, *idx): return pat(_ratom('var', name, tuple(toI(i) if isI(i) else i for i in idx)))
def fn(name, x):
    x = toP(x); k = x.const()
    if k is not None:
        if k == 0: return {'sin': ZERO, 'cos': ONE, 'sqrt': ZERO, 'abs': ZERO}.get(name) or pat(_ratom('fn', name, (x,))) if name not in ('sin', 'sqrt', 'abs') else ZERO
        if name == 'abs': return Poly({(): abs(k)})
        if name == 'inv': return Poly({(): 1 / k})
    if name in ('sin', 'cos', 'abs'):
        # odd / even: normal form of the sign
        lead = min(x.d.items(), key=lambda t: tuple((a.uid, e) for a, e in t[0]))
        if lead[1] < 0: return -fn('sin', -x) if name == 'sin' else fn(name, -x)
    if name == 'sqrt':
        if len(x.d) == 1:
            (m, c), = x.d.items()
            if c == 1 and all(e % 2 == 0 for _, e in m) and m:
                return fn('abs', Poly({tuple((a, e // 2) for a, e in m): Q(1)}))
        f = _square_root(x)
        if f is not None: return fn('abs', f)
        if len(x.d) == 1:
            (m, c), = x.d.items()
            if len(m) == 1 and m[0][0].kind == 'pow' and m[0][1] == 1 and m[0][0].args[1] == toI(2): return fn('abs', m[0][0].args[0])
    if name == 'abs' and len(x.d) == 1:
        (m, c), = x.d.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'fn' and m[0][0].name == 'abs': return x * (1 if c > 0 else -1)
    if name == 'inv' and len(x.d) == 1:
        (m, c), = x.d.items()
        if m and len(m) == 1 and m[0][0].kind == 'fn' and m[0][0].name == 'inv': return (m[0][0].args[0] ** m[0][1]) * (1 / c)
        if m and (c != 1 or len(m) > 1 or m[0][1] > 1):
            r = Poly({(): 1 / c})
            for a, e in m: r = r * fn('inv', pat(a)) ** e
            return r
    return pat(_ratom('fn', name, (x,)))
def _square_root(x):
    """x = (a-b)^2 for atoms a, b"""
    if len(x.d) == 3:
        sq = [m for m, c in x.d.items() if len(m) == 1 and m[0][1] == 2 and c == 1]
        if len(sq) == 2:
            a, b = pat(sq[0][0][0]), pat(sq[1][0][0])
            for y in (a - b, a + b):
                if y * y == x: return y
    return None
def inv(x): return fn('inv', x)
def power(x, k):
    """x^k for an integer term k"""
    x = toP(x); k = toI(k); c = k.const()
    if c is not None: return x ** c
    if x.const() == 1: return ONE
    if x == ZERO: return ZERO if decide(ge(k, 1)) else pat(_ratom('pow', 'pow', (x, k)))
    # normal form: x^(k0) * x^c with the constant part of k folded to 0
    kc = dict(k.t).get((), 0)
    b = pat(_ratom('pow', 'pow', (x, k - kc)))
    if kc >= 0: return b * x ** kc
    return b * inv(x) ** (-kc)
def ite(c, a, b):
    c = toC(c); a = toP(a); b = toP(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a == b: return a
    if c.op == 'not': return ite(c.a[0], b, a)
    return pat(_ratom('ite', 'ite', (c, a, b)))
def ite_d(c, a, b):
    """ite, deciding the condition first; a and b may be thunks"""
    c = toC(c); f = lambda x: x() if callable(x) else x
    if decide(c): return f(a)
    if decide(Not(c)): return f(b)
    with assume(c): x = f(a)
    with assume(Not(c)): y = f(b)
    return ite(c, x, y)
def pheight(p):
    return max([0] + [_rh(a) for m in p.d for a, _ in m])
def _rh(a):
    if a._h is None:
        h = 0
        for x in a.args:
            if isinstance(x, I): h = max(h, _ih(x))
            elif isinstance(x, C): h = max(h, _cheight(x))
            elif isinstance(x, Poly): h = max(h, pheight(x))
            elif isinstance(x, RAtom): h = max(h, _rh(x))
        a._h = h
    return a._h
def psum(v, lo, hi, body):
    """sum of body for v in [lo,hi); v an ivar"""
    lo, hi = toI(lo), toI(hi)
    if not body.d: return ZERO
    k = (hi - lo).const()
    if k is not None and k <= 0: return ZERO
    if k is not None and k <= 12:
        r = ZERO
        for j in range(k): r = r + psubst(body, {v: lo + j})
        return r
    b = _divisor(body, list(v.atoms())[0])
    if b is not None and not lo.t:
        a = _factor(hi, b)
        if a is not None and decide(ge(b, 1)) and decide(ge(a, 0)):
            x, y = ivar('s', 0, a), ivar('s', 0, b)
            with assume(ge(x, 0), lt(x, a), ge(y, 0), lt(y, b)): f = simp(psubst(body, {v: x * b + y}))
            return psum(x, 0, a, psum(y, 0, b, f))
    # split off what does not depend on v, eliminate kronecker deltas
    r = ZERO; rest = ZERO
    va = list(v.atoms())[0]
    for m, c in body.d.items():
        dep = [x for x in m if v_in(x[0], va)]; ind = [x for x in m if not v_in(x[0], va)]
        coef = Poly({tuple(ind): c})
        if not dep:
            if decide(le(lo, hi)): r = r + coef * toP(hi - lo)
            else: r = r + coef * _rawsum(v, lo, hi, ONE)
            continue
        d = None
        for a, e in dep:
            if a.kind == 'ite':
                d = _delta(a, v, va)
                if d is not None: break
        if d is not None:
            sol, cond, rest_val = d
            others = Poly({tuple(x for x in dep if x[0] is not a): Q(1)}) * (rest_val ** e)
            inr = And(ge(sol, lo), lt(sol, hi))
            val = psubst(others, {v: sol})
            if cond is not TRUE: val = ite(csubst(cond, {v: sol}), val, ZERO)
            r = r + coef * (val if decide(inr) else ite(inr, val, ZERO))
            continue
        o = None
        for a, e in dep:
            if a.kind == 'ite' and (not a.args[1].d or not a.args[2].d):
                c, x, y = a.args if not a.args[2].d else (Not(a.args[0]), a.args[2], a.args[1])
                ls = c.a if c.op == 'and' else (c,)
                out = [z for z in ls if va not in iatoms_of(z)]
                if out: o = And(*out), ite(And(*[z for z in ls if z not in out]), x, ZERO); break
        if o is not None:
            with assume(o[0]): val = psum(v, lo, hi, Poly({tuple(x for x in dep if x[0] is not a): Q(1)}) * o[1] ** e)
            r = r + coef * ite(o[0], val, ZERO)
            continue
        rest = rest + coef * _rawsum(v, lo, hi, Poly({tuple(dep): Q(1)}))
    return r + rest
def _factor(e, b):
    """e / b"""
    kb = b.const()
    if kb is not None:
        return I(_ti({m: c // kb for m, c in e.t})) if kb > 1 and all(c % kb == 0 for _, c in e.t) else None
    if len(b.t) != 1 or b.t[0][1] != 1: return None
    r = {}
    for m, c in e.t:
        mm = list(m)
        for x in b.t[0][0]:
            if x not in mm: return None
            mm.remove(x)
        r[tuple(mm)] = c
    return I(_ti(r))
def _divisor(p, va):
    """b when p has an index v/b or v%b"""
    for a in all_atoms(p):
        for x in a.args:
            for y in (_deep(x) if isinstance(x, I) else iatoms_of(x) if isinstance(x, C) else ()):
                if y.kind in ('div', 'mod') and y.args[0] == toI(va): return y.args[1]
    return None
def _delta(a, v, va):
    """ite(v==t & c, x, 0) -> (t, c, x)"""
    c, x, y = a.args
    if y.d: 
        if not x.d: c, x, y = Not(c), y, x
        else: return None
    if y.d: return None
    for k in (c.a if c.op == 'and' else (c,)):
        if k.op == 'eq0':
            e = k.a[0]
            co = [cc for m, cc in e.t if m == (va,)]
            if len(co) == 1 and abs(co[0]) == 1 and sum(va in m for m, _ in e.t) == 1 and va not in _deep(e - co[0] * toI(va)):
                t = (toI(va) * co[0] - e) * co[0]
                return t, And(*[z for z in (c.a if c.op == 'and' else (c,)) if z is not k]), x
    return None
def _descending(p, va):
    """every index of p falls when va grows -> the index value c such that va = c - m makes them rise with m; or None"""
    cs = []
    def go(a):
        for x in a.args:
            if isinstance(x, I):
                for m, c in x.t:
                    if m == (va,):
                        if c > 0: return False
                        r = x - toI(va) * c
                        if va in _deep(r): return False
                        if all(q % c == 0 for _, q in r.t): cs.append(I(tuple((mm, q // -c) for mm, q in r.t)))
                        else: cs.append(None)
            elif isinstance(x, C):
                if va in iatoms_of(x): return False
            elif isinstance(x, Poly):
                if not all(go(y) for y in x.atoms()): return False
            elif isinstance(x, RAtom):
                if not go(x): return False
        return True
    if not all(go(a) for a in p.atoms()): return None
    cs = [c for c in cs if c is not None]
    if not cs: return None
    r = cs[0]
    for c in cs[1:]:
        k = (c - r).const()
        if k is not None and k < 0: r = c
    return r
def _rawsum(v, lo, hi, body):
    va = list(v.atoms())[0]; c = _descending(body, va)
    if c is not None: body = psubst(body, {v: c - toI(va)}); lo, hi = c + 1 - hi, c + 1 - lo
    b = bound(max(pheight(body), 0))
    return pat(_ratom('sum', 'sum', (b, lo, hi, psubst(body, {v: b}))))
def v_in(a, va):
    for x in a.args:
        if isinstance(x, I):
            if va in _deep(x): return True
        elif isinstance(x, C):
            if va in iatoms_of(x): return True
            if any(isinstance(y, Poly) and any(v_in(z, va) for z in y.atoms()) for y in x.a): return True
        elif isinstance(x, Poly):
            if any(v_in(z, va) for z in x.atoms()): return True
        elif isinstance(x, RAtom):
            if v_in(x, va): return True
    return False
REBUILD = {}      # rebuilders of extra atom kinds
def psubst(p, m):
    if not m: return p
    keys = [list(k.atoms())[0] for k in m]
    if not any(v_in(a, k) for a in p.atoms() for k in keys): return p
    memo = {}
    return _psub(p, m, keys, memo)
def _psub(p, m, keys, memo):
    r = ZERO; same = {}
    for mon, c in p.d.items():
        t = None; keep = []
        for a, e in mon:
            v = memo.get(a)
            if v is None:
                if any(v_in(a, k) for k in keys): v = rmap(a, lambda i: isubst(i, m), lambda cc: csubst(cc, m), lambda pp: _psub(pp, m, keys, memo))
                else: v = pat(a)
                memo[a] = v
            if len(v.d) == 1:
                (vm, vc), = v.d.items()
                if vc == 1 and len(vm) == 1 and vm[0][1] == 1 and vm[0][0] is a: keep.append((a, e)); continue
            t = v ** e if t is None else t * v ** e
        k = Poly({tuple(keep): c})
        r = r + (k if t is None else k * t)
    return r
def rmap(a, fi, fc, fp):
    """rebuild an atom with mapped arguments"""
    k = a.kind
    if k == 'ite': return ite(fc(a.args[0]), fp(a.args[1]), fp(a.args[2]))
    if k == 'sum':
        lo, hi = fi(a.args[1]), fi(a.args[2]); body = fp(a.args[3])
        if not body.d: return ZERO
        kk = (hi - lo).const()
        if kk is not None:
            if kk <= 0: return ZERO
            if kk <= 12:
                r = ZERO
                for j in range(kk): r = r + psubst(body, {a.args[0]: lo + j})
                return r
        v = ivar('s', lo, hi)
        return psum(v, lo, hi, psubst(body, {a.args[0]: v}))
    if k == 'fn': return fn(a.name, fp(a.args[0]))
    if k == 'pow': return power(fp(a.args[0]), fi(a.args[1]))
    if k == 'int': return toP(fi(a.args[0]))
    if k in REBUILD: return REBUILD[k](a, fi, fc, fp)
    na = tuple(fi(x) if isinstance(x, I) else fc(x) if isinstance(x, C) else fp(x) if isinstance(x, Poly) else x for x in a.args)
    return pat(_ratom(k, a.name, na))
def pmap_atoms(p, f, memo=None):
    """replace atoms: f(atom) -> Poly or None (None: rebuild with mapped children)"""
    memo = {} if memo is None else memo
    def go(q):
        r = ZERO
        for mon, c in q.d.items():
            t = Poly({(): c})
            for a, e in mon:
                v = memo.get(a)
                if v is None:
                    v = f(a)
                    if v is None:
                        if any(isinstance(x, Poly) for x in a.args): v = rmap(a, lambda i: i, lambda cc: cc, go)
                        else: v = pat(a)
                    memo[a] = v
                t = t * (v if e == 1 else v ** e)
            r = r + t
        return r
    return go(p)
def all_atoms(p, out=None):
    out = set() if out is None else out
    for a in p.atoms():
        if a in out: continue
        out.add(a)
        for x in a.args:
            if isinstance(x, Poly): all_atoms(x, out)
    return out

# ------------------------------------------------------------------ simplification and proof of p == 0
def _inds(p, c):
    """indicators of the literals of c"""
    m = {}
    for x in (c.a if c.op == 'and' else (c,)):
        for y, k in ((x, 1), (Not(x), 0)):
            if ('ind', 'ind', (y,)) in IAtom.tab: m[toI(_iatom('ind', 'ind', (y,)))] = toI(k)
    return psubst(p, m) if m else p
def simp(p, memo=None):
    """resolve every Ite whose condition is decided in the current context; open sums with their range as a fact"""
    memo = {} if memo is None else memo
    def f(a):
        if a.kind == 'ite':
            c = a.args[0]
            if decide(c): return go(a.args[1])
            if decide(Not(c)): return go(a.args[2])
            with assume(c): x = simp(_inds(a.args[1], c))
            with assume(Not(c)): y = simp(_inds(a.args[2], Not(c)))
            return ite(c, x, y)
        if a.kind == 'sum':
            b, lo, hi, body = a.args
            v = ivar('s', lo, hi)
            return psum(v, lo, hi, simp(psubst(body, {b: v})))
        return None
    def go(q): return pmap_atoms(q, f, memo)
    if not any(a.kind in ('ite', 'sum') for a in all_atoms(p)): return p
    return go(p)
def top_conds(p, out=None):
    """conditions of Ites that are not below a sum"""
    out = [] if out is None else out
    for a in sorted(p.atoms(), key=lambda a: a.uid):
        if a.kind == 'ite':
            if a.args[0] not in out: out.append(a.args[0])
        elif a.kind == 'sum': continue
        for x in a.args:
            if isinstance(x, Poly): top_conds(x, out)
    return out
def leaf_conds(cs):
    """literals of conditions, simplest first"""
    out = []
    def go(c):
        if c.op in ('and', 'or'):
            for x in c.a: go(x)
        elif c.op == 'not': go(c.a[0])
        elif c not in out: out.append(c)
    for c in cs: go(c)
    return out
class Stats: splits = 0; goals = 0; inner = False
REDUCERS = []      # functions(poly) -> poly, sound rewriting with lemmas, tried when the normal form is not zero
def prove_zero(p, depth=0, trace=None, eqd=-1):
    """p == 0 in the current context, for every value of every variable"""
    Stats.goals += 1
    p = simp(p)
    if not p.d: return True
    if depth > 40:
        if trace is not None: trace.append((list(Ctx.stack), p))
        return False
    cs = [c for c in leaf_conds(top_conds(p)) if not decide(c) and not decide(Not(c))]
    if cs:
        c = cs[0]; Stats.splits += 1
        for lit in (c, Not(c)):
            with assume(lit):
                if infeasible(): continue
                if not prove_zero(_using(p, lit), depth + 1, trace): return False
        return True
    if eqd != len(Ctx.stack):
        q = _eqs(p)
        if q != p: return prove_zero(q, depth + 1, trace, len(Ctx.stack))
    # sums: combine those over the same range
    if any(a.kind == 'sum' for a in p.atoms()): 
        if _prove_sums(p, depth, trace): return True
    for red in REDUCERS:
        q = red(p)
        if q is not None and q != p:
            if not q.d: return True
            if prove_zero(q, depth + 8, trace): return True
    q = _vecs(p)
    if q is not None and q != p: return prove_zero(q, depth + 8, trace, eqd)
    if _real(p): return True
    if trace is not None: trace.append((list(Ctx.stack), p))
    return False
def reallits():
    """comparisons of reals the context asserts: (kind, polynomials, polarity)"""
    out = []
    def go(c, pol):
        if c.op == 'not': go(c.a[0], not pol)
        elif c.op == 'and' and pol or c.op == 'or' and not pol:
            for x in c.a: go(x, pol)
        elif c.op == 'atom' and c.a[0] in ('rlt', 'req') and all(isinstance(x, Poly) for x in c.a[1:]): out.append((c.a[0], c.a[1:], pol))
    for c in Ctx.stack: go(c, True)
    return out
def _vecs(p):
    """rewrites p with the equalities of vectors (no index where they differ) that the context asserts"""
    qs = []
    for c in Ctx.stack:
        for d in c.a if c.op == 'and' else (c,):
            if d.op not in ('ge0', 'eq0'): continue
            e = d.a[0]; a = list(e.atoms())
            if len(a) == 1 and a[0].kind == 'cnt' and (e == -toI(a[0]) or d.op == 'eq0' and e == toI(a[0])) and a[0].args[3].op == 'not' and a[0].args[3].a[0].op == 'atom' and a[0].args[3].a[0].a[0] == 'req': qs.append(a[0])
    if not qs: return None
    xs = []
    for a in sorted(all_atoms(p), key=lambda a: a.uid):
        for x in a.args:
            if isinstance(x, I) and x not in xs: xs.append(x)
    ch = {}
    for a in qs:
        b, lo, hi, body = a.args
        for x in xs:
            if not decide(And(ge(x, lo), lt(x, hi))): continue
            e = csubst(body, {b: x}).a[0]
            if e.op != 'atom': continue
            e = e.a[1]
            for m, k in e.d.items():
                if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'var' and m[0][0] not in ch and sum(m[0][0] in [y for y, _ in z] for z in e.d) == 1:
                    ch[m[0][0]] = pat(m[0][0]) - e * inv(Poly({(): k})); break
    return pmap_atoms(p, ch.get) if ch else None
def _real(p):
    """p == 0 by real arithmetic from the comparisons of the context (also when those contradict each other)"""
    ls = reallits()
    if not ls or len(ls) > 12 or len(p.d) > 60: return False
    ds = [p] + [a[1] - a[0] if k == 'rlt' else a[0] for k, a, _ in ls]; ms = [rvar('$m%d' % i) for i in range(len(ds))]; mk = {list(m.atoms())[0]: i for i, m in enumerate(ms)}
    q = _unify(_quot(sum((d * m for d, m in zip(ds, ms)), Poly({})))); ds = [{} for _ in ds]
    for m, c in q.d.items():
        i = [mk[a] for a, _ in m if a in mk]
        if len(i) != 1: return False
        ds[i[0]][tuple(x for x in m if x[0] not in mk)] = c
    vs = {}; ax = []
    def at(a):
        if a not in vs:
            v = vs[a] = z3.Real('r_%d' % a.uid)
            if a.kind == 'fn' and len(a.args) == 1 and isinstance(a.args[0], Poly):
                x = None if a.name not in ('inv', 'abs', 'sqrt') else po(a.args[0].d)
                if a.name == 'inv': ax.append(z3.Or(x == 0, x * v == 1))
                elif a.name == 'abs': ax.append(z3.And(v >= 0, z3.Or(v == x, v == -x)))
                elif a.name == 'sqrt': ax.append(z3.And(v >= 0, z3.Or(x < 0, v * v == x)))
                elif a.name in ('sin', 'cos'): ax.append(z3.And(v <= 1, v >= -1))
        return vs[a]
    def po(d):
        s = z3.RealVal(0)
        for m, c in d.items():
            t = z3.RealVal(str(c))
            for a, e in m:
                v = at(a)
                if isinstance(e, int) and 0 < e < 5:
                    for _ in range(e): t = t * v
                else: t = t * z3.Real('w_%d_%s' % (a.uid, hash(repr(e))))
            s = s + t
        return s
    try:
        S_ = z3.Solver(); S_.set('timeout', 1500); z = [po(d) for d in ds]
        for (k, a, pol), x in zip(ls, z[1:]): c = x > 0 if k == 'rlt' else x == 0; S_.add(c if pol else z3.Not(c))
        S_.add(z[0] != 0); S_.add(*ax); return S_.check() == z3.unsat
    except z3.Z3Exception: return False
def _eqs(p):
    """rewrite with the integer equations of the context, and identify entries whose indices are equal in it"""
    es = []
    def go(c):
        if c.op == 'eq0': es.append(c)
        elif c.op == 'and':
            for x in c.a: go(x)
    for c in Ctx.stack: go(c)
    q = p
    for c in es[-12:]:
        r = _using(q, c)
        if r is not q and r != q: q = r
        if not q.d: return q
    return _unify(_quot(q))
def _quot(p):
    """quotients that the context fixes to another index"""
    at = set()
    def go(a):
        for x in a.args:
            if isinstance(x, I): at.update(_deep(x))
            elif isinstance(x, RAtom): go(x)
    for a in all_atoms(p): go(a)
    ds = sorted((a for a in at if a.kind == 'div'), key=lambda a: a.uid)
    if not ds: return p
    vs = sorted((a for a in at if a.kind == 'v'), key=lambda a: a.uid); m = {}
    for d in ds[:4]:
        for v in vs[:8]:
            if v in _deep(toI(d)): continue
            x = next((toI(v) + k for k in (0, -1, 1) if decide(eq(toI(d), toI(v) + k))), None)
            if x is not None:
                m[toI(d)] = x
                r = toI(_iatom('mod', 'mod', d.args)); m[r] = d.args[0] - x * d.args[1]; break
    return psubst(p, m) if m else p
def _unify(p):
    by = {}
    for a in all_atoms(p):
        if a.kind == 'var' and a.args and all(isinstance(x, I) for x in a.args): by.setdefault((a.name, len(a.args)), []).append(a)
    m = {}
    for l in by.values():
        l.sort(key=lambda a: a.uid); l = l[:14]
        for i, a in enumerate(l):
            for b in l[:i]:
                if b in m: continue
                if any((x - y).const() not in (None, 0) for x, y in zip(a.args, b.args)): continue
                if all(x == y or decide(eq(x, y)) for x, y in zip(a.args, b.args)): m[a] = b; break
    if not m: return p
    return pmap_atoms(p, lambda a: pat(m[a]) if a in m else None)
def _using(p, lit):
    """substitute an equation between integers x == e"""
    if lit.op == 'eq0':
        e = lit.a[0]
        for m, c in e.t:
            if len(m) == 1 and abs(c) == 1 and m[0].kind == 'v':
                rest = e - c * toI(m[0])
                if m[0] in _deep(rest): continue
                return psubst(p, {toI(m[0]): rest * (-c)})
    return p
def _prove_sums(p, depth, trace):
    groups = {}; rest = ZERO
    for m, c in p.d.items():
        ss = [(a, e) for a, e in m if a.kind == 'sum']
        if not ss: rest = rest + Poly({m: c}); continue
        if len(ss) > 1 or ss[0][1] > 1: 
            # a product of sums: keep the first as the sum, the others inside its coefficient
            pass
        a = ss[0][0]
        coef = Poly({tuple((x, e if x is not a else e - 1) for x, e in m if not (x is a and e == 1)): c})
        groups.setdefault((a.args[1], a.args[2]), []).append((coef, a))
    if rest.d:
        # a sum whose terms cannot cancel the rest: try splitting the last/first element off equal ranges
        m = _align(groups, rest)
        if m is not None: return prove_zero(m, depth + 1, trace)
        return False
    if len(groups) > 1:
        m = _align(groups, rest)
        if m is not None: return prove_zero(m, depth + 1, trace)
    for (lo, hi), items in groups.items():
        v = ivar('s', lo, hi); body = ZERO
        for coef, a in items: body = body + coef * psubst(a.args[3], {a.args[0]: v})
        with assume(ge(v, lo), lt(v, hi)):
            if infeasible(): continue
            if not prove_zero(body, depth + 1, trace if Stats.inner else None): return False      # a summand is no counterexample to a sum
    return True
def _align(groups, rest):
    """ranges that differ by a constant at the end: unroll the longer ones"""
    ks = list(groups)
    base = None
    for lo, hi in ks:
        for lo2, hi2 in ks:
            d = (hi2 - hi).const(); e = (lo2 - lo).const()
            if (lo, hi) != (lo2, hi2) and d is not None and e is not None:
                base = (lo2 if e > 0 else lo, hi if d > 0 else hi2); break
        if base: break
    if not base or not decide(le(base[0], base[1])): return None
    r = rest
    for (lo, hi), items in groups.items():
        d = (hi - base[1]).const(); e = (base[0] - lo).const()
        for coef, a in items:
            if d is None or e is None: r = r + coef * pat(a); continue
            for j in range(d): r = r + coef * psubst(a.args[3], {a.args[0]: base[1] + j})
            for j in range(e): r = r + coef * psubst(a.args[3], {a.args[0]: lo + j})
            v = ivar('s', base[0], base[1])
            r = r + coef * _rawsum(v, base[0], base[1], psubst(a.args[3], {a.args[0]: v}))
    return r

def prenex(p):
    """nested sums over ranges that do not depend on each other, as one sum over tuples in a canonical order of its variables"""
    class No(Exception): pass
    def flat(a):
        b, lo, hi, body = a.args; v = ivar('px', lo, hi); va = list(v.atoms())[0]; out = []
        for m, c in psubst(body, {b: v}).d.items():
            acc = [([(v, lo, hi)], Poly({(): c}))]
            for x, e in m:
                if x.kind == 'sum':
                    for _ in range(e):
                        if va in _deep(x.args[1]) | _deep(x.args[2]): raise No()
                        acc = [(vs + vs2, t * t2) for vs, t in acc for vs2, t2 in flat(x)]
                else: acc = [(vs, t * pat(x) ** e) for vs, t in acc]
            out += acc
        return out
    def canon(vs, m, c):
        k = Poly({(): c}); keep = []
        for v, lo, hi in vs:
            va = list(v.atoms())[0]
            if any(v_in(x, va) for x, _ in m): keep.append((v, lo, hi))
            elif decide(le(lo, hi)): k = k * toP(hi - lo)
            else: raise No()
        if len(keep) > 5: raise No()
        dep = tuple(z for z in m if any(v_in(z[0], list(v.atoms())[0]) for v, _, _ in keep)); k = k * Poly({tuple(z for z in m if z not in dep): Q(1)})
        if not keep: return k
        best = None
        for pm in itertools.permutations(keep):
            key = tuple((repr(lo), repr(hi)) for _, lo, hi in pm)
            b = psubst(Poly({dep: Q(1)}), {v: bound(900 + i) for i, (v, _, _) in enumerate(pm)})
            o = (key, sorted((tuple((x.uid, e) for x, e in mo), co) for mo, co in b.d.items()))
            if best is None or o < best[0]: best = (o, pm, b)
        _, pm, b = best
        return k * pat(_ratom('msum', 'msum', tuple(x for _, lo, hi in pm for x in (lo, hi)) + (b,)))
    def f(a):
        if a.kind != 'sum': return None
        if not any(x.kind == 'sum' for x in a.args[3].atoms()): return None
        r = ZERO
        try:
            for vs, t in flat(a):
                for m, c in t.d.items(): r = r + canon(vs, m, c)
        except No: return None
        return r
    if not any(a.kind == 'sum' and any(x.kind == 'sum' for x in a.args[3].atoms()) for a in p.atoms()): return None
    r = ZERO
    for m, c in p.d.items():
        t = Poly({(): c})
        for a, e in m:
            y = f(a); t = t * (pat(a) if y is None else y) ** e
        r = r + t
    return None if r == p else r
REDUCERS.append(prenex)
# ------------------------------------------------------------------ derivative
class Deriv:
    """partial derivative by an input symbol; rules for atoms that stand for functions of the configuration"""
    rules = {}         # var name -> function(atom, wrt) -> Poly
def diff(p, wrt):
    """wrt: RAtom of kind var (an input entry)"""
    r = ZERO
    for m, c in p.d.items():
        for k, (a, e) in enumerate(m):
            da = datom(a, wrt)
            if not da.d: continue
            rest = tuple((x, y) for x, y in m if x is not a)
            t = Poly({rest: c * e})
            if e > 1: t = t * pat(a) ** (e - 1)
            r = r + t * da
    return r
def datom(a, wrt):
    k = a.kind
    if k == 'var':
        if a.name in Deriv.rules: return Deriv.rules[a.name](a, wrt)
        if str(a.name).startswith(('minv', 'PRE', 'undef')): raise Unsupported('derivative of %s' % a.name)
        if a.name == wrt.name and len(a.args) == len(wrt.args):
            return ite_d(And(*[eq(x, y) for x, y in zip(a.args, wrt.args)]), ONE, ZERO) if a is not wrt else ONE
        return ZERO
    if k == 'fn':
        x = a.args[0]; dx = diff(x, wrt)
        if not dx.d: return ZERO
        if a.name == 'sin': return fn('cos', x) * dx
        if a.name == 'cos': return -fn('sin', x) * dx
        if a.name == 'inv': return -inv(x) * inv(x) * dx
        if a.name == 'exp': return pat(a) * dx
        if a.name == 'log': return inv(x) * dx
        if a.name == 'tan': return (1 + pat(a) * pat(a)) * dx
        if a.name == 'tanh': return (1 - pat(a) * pat(a)) * dx
        if a.name == 'atan': return inv(1 + x * x) * dx
        return pat(_ratom('fn', "d" + a.name, (x,))) * dx
    if k == 'ite': return ite(a.args[0], diff(a.args[1], wrt), diff(a.args[2], wrt))
    if k == 'sum':
        b, lo, hi, body = a.args; v = ivar('s', lo, hi)
        return psum(v, lo, hi, diff(psubst(body, {b: v}), wrt))
    if k == 'pow':
        x, e = a.args; dx = diff(x, wrt)
        return ZERO if not dx.d else toP(e) * power(x, e - 1) * dx
    if k == 'int': return ZERO
    if k == 'D':
        if a.args[0].kind == 'var' and a.args[0].name in Deriv.rules: return dsym(a, wrt) if Deriv.rules[a.args[0].name](a.args[0], wrt).d else ZERO
        return ZERO
    raise Unsupported('derivative of %r' % a)
def dsym(a, wrt):
    """formal derivative atom, symmetric in the order of differentiation"""
    if a.kind == 'D': base, ws = a.args[0], a.args[1:]
    else: base, ws = a, ()
    return pat(_ratom('D', 'D', (base,) + tuple(sorted(ws + (wrt,), key=lambda x: x.uid))))
def _rebuild_D(a, fi, fc, fp):
    def r(x):
        y = rmap(x, fi, fc, fp)
        (m, c), = y.d.items()
        return m[0][0]
    base = rmap(a.args[0], fi, fc, fp); ws = [r(w) for w in a.args[1:]]
    out = base
    for w in ws: out = diff(out, w)
    return out
REBUILD['D'] = _rebuild_D

# ------------------------------------------------------------------ numeric evaluation (refutation, sanity)
EVAL = {}      # var name -> function(env, indices): inputs that stand for functions of other inputs
class Env:
    """concrete values: ints (IAtom name -> int), rv(name, idx) -> float, pred(name, args) -> bool, ifn(name,args)->int"""
    def __init__(s, ints, rv, pred=None, ifn=None): s.ints = ints; s.rv = rv; s.pred = pred; s.ifn = ifn; s.b = {}
def ei(e, env):
    r = 0
    for m, c in e.t:
        p = c
        for a in m: p *= eia(a, env)
        r += p
    return r
def eia(a, env):
    if a in env.b: return env.b[a]
    if a.kind == 'v' or a.kind == 'b':
        if a.name in env.ints: return env.ints[a.name]
        raise Unsupported('no value for %r' % a)
    if a.kind == 'f': return env.ifn(a.name, [ei(x, env) for x in a.args])
    if a.kind == 'ind': return 1 if ec(a.args[0], env) else 0
    if a.kind == 'iite': return ei(a.args[1] if ec(a.args[0], env) else a.args[2], env)
    if a.kind == 'div': return ei(a.args[0], env) // ei(a.args[1], env)
    if a.kind == 'mod': return ei(a.args[0], env) % ei(a.args[1], env)
    if a.kind in ('cnt', 'sel'):
        b = list(a.args[0].atoms())[0]; lo, hi = ei(a.args[1], env), ei(a.args[2], env); xs = []
        old = env.b.get(b)
        for v in range(lo, hi):
            env.b[b] = v
            if ec(a.args[3], env): xs.append(v)
        if old is None: env.b.pop(b, None)
        else: env.b[b] = old
        return len(xs) if a.kind == 'cnt' else xs[ei(a.args[4], env)]
    raise Unsupported('eval %r' % a)
def ec(c, env):
    o = c.op
    if o == 'true': return True
    if o == 'false': return False
    if o == 'ge0': return ei(c.a[0], env) >= 0
    if o == 'eq0': return ei(c.a[0], env) == 0
    if o == 'not': return not ec(c.a[0], env)
    if o == 'and': return all(ec(x, env) for x in c.a)
    if o == 'or': return any(ec(x, env) for x in c.a)
    if o == 'ex':
        b = list(c.a[0].atoms())[0]; old = env.b.get(b); r = False
        for v in range(ei(c.a[1], env), ei(c.a[2], env)):
            env.b[b] = v
            if ec(c.a[3], env): r = True; break
        if old is None: env.b.pop(b, None)
        else: env.b[b] = old
        return r
    return env.pred(c.a[0], [ei(x, env) if isinstance(x, I) else ep(x, env) if isinstance(x, Poly) else x for x in c.a[1:]])
def ep(p, env):
    r = 0.
    for m, c in p.d.items():
        t = float(c)
        for a, e in m: t *= era(a, env) ** e
        r += t
    return r
def f32(x):
    import struct
    return struct.unpack('f', struct.pack('f', x))[0]
def era(a, env):
    k = a.kind
    if k == 'var': return env.rv(a.name, [ei(x, env) if isinstance(x, I) else x for x in a.args])
    if k == 'fn':
        x = ep(a.args[0], env)
        return {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'tanh': math.tanh, 'exp': math.exp, 'log': math.log, 'atan': math.atan, 'asin': math.asin, 'acos': math.acos, 'abs': abs, 'f32': f32, 'sqrt': lambda y: math.sqrt(max(y, 0)), 'inv': lambda y: 1 / y, 'dabs': lambda y: (y > 0) - (y < 0)}[a.name](x)
    if k == 'ite': return ep(a.args[1] if ec(a.args[0], env) else a.args[2], env)
    if k == 'sum':
        b = list(a.args[0].atoms())[0]; old = env.b.get(b); r = 0.
        for v in range(ei(a.args[1], env), ei(a.args[2], env)):
            env.b[b] = v; r += ep(a.args[3], env)
        if old is None: env.b.pop(b, None)
        else: env.b[b] = old
        return r
    if k == 'pow':
        e = ei(a.args[1], env); return ep(a.args[0], env) ** e
    if k == 'int': return float(ei(a.args[0], env))
    if k == 'D':
        f = lambda x: (x.name,) + tuple(ei(y, env) if isinstance(y, I) else y for y in x.args)
        return env.rv('D', [f(a.args[0]), tuple(sorted(f(w) for w in a.args[1:]))])
    raise Unsupported('eval %r' % a)
