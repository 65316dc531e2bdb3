"""Loops.  A loop with a small constant number of iterations is unrolled.  Any other loop gets an invariant in closed form, Inv(t):
the value of every place the body changes, after the iterations before t.  The invariant is guessed from one symbolic
iteration (or given as a ghost by the specification) and then checked: Inv(lo) is the state on entry, and one execution of the body
from Inv(t), lo<=t<hi, ends in Inv(t+1).  Only the check is trusted."""
from .values import *
from . import terms as T
from . import exec as X
_n = itertools.count(1)
MAXR = 9

# ------------------------------------------------------------------ running the body
def run_body(ex, body, st):
    """-> (state or None, alive, breaks): state is that of the normal end and of 'continue'"""
    fr = ex.frames[-1]; sb, sc, lb = fr.brk, fr.cnt, ex.loopbase
    fr.brk, fr.cnt, ex.loopbase = [], [], len(Ctx.stack)
    try: al = ex.scoped(body, st); brk, cnt = fr.brk, fr.cnt
    finally: fr.brk, fr.cnt, ex.loopbase = sb, sc, lb
    outs = list(cnt) + ([(al, st)] if al is not FALSE else [])
    if not outs: return None, FALSE, brk
    c, z = outs[-1]
    for c2, z2 in reversed(outs[:-1]): z = ex.merge(c2, z2, z); c = Or(c, c2)
    return z, c, brk
class Saved:
    """lists an execution appends to; trial executions leave no trace in them"""
    def __init__(s, ex): s.ex = ex; fr = ex.frames[-1]; s.fr = fr; s.r = len(fr.rets), len(fr.throws), len(ex.events), len(ex.obs), len(ex.prints); s.check = ex.check
    def undo(s): del s.fr.rets[s.r[0]:], s.fr.throws[s.r[1]:], s.ex.events[s.r[2]:], s.ex.obs[s.r[3]:], s.ex.prints[s.r[4]:]; s.ex.check = s.check
def finish(ex, st, outs):
    """outs: (cond, state) that leave the loop"""
    outs = [o for o in outs if o[0] is not FALSE and not decide(Not(o[0]))]
    if not outs: return FALSE
    c, z = outs[-1]
    for c2, z2 in reversed(outs[:-1]): z = ex.merge(c2, z2, z); c = Or(c, c2)
    st.v = z.v
    return TRUE if decide(c) else c

def unroll(ex, st, setups, body):
    """setups: list of functions that prepare one iteration"""
    n0 = len(Ctx.stack); alive = TRUE; outs = []
    try:
        for f in setups:
            f(st)
            z, al, brk = run_body(ex, body, st)
            outs += [(And(alive, c), s2) for c, s2 in brk]
            if z is None: alive = FALSE; break
            st = z
            if al is not TRUE:
                if decide(al): continue
                alive = And(alive, al); Ctx.stack.append(al)
                if infeasible(): alive = FALSE; break
    finally: del Ctx.stack[n0:]
    return st, alive, outs

# ------------------------------------------------------------------ statements
def for_stmt(ex, n, st):
    before = set(st.v)
    init, _, cond, inc, body = (list(n.c) + [None] * 5)[:5]
    it = iterators(init, cond, inc, body)
    if it is not None:
        ex.derefs.add(it[1].id)
        try: return each(ex, n, st, it[0], it[1], body, True)
        finally: ex.derefs.discard(it[1].id)
    if init is not None: ex.stmt(init, st)
    if cond is None or inc is None: raise Unsupported('loop without a bound')
    op, var, bexp = header(ex, cond, st)
    step = step_of(ex, inc, var)
    lo = ex.read(st, var); lo = toI(lo)
    def bound_of(s2): return toI(ex.num(ex.ev(bexp, s2)))
    b = bound_of(st)
    if step == 1:
        if op == '<': hi = b
        elif op == '<=': hi = b + 1
        elif op == '!=':
            if not decide(le(lo, b)): raise Unsupported('loop condition !=')
            hi = b
        else: raise Unsupported('loop condition %s' % op)
        val = lambda t: t; start, end = lo, hi
    else:
        if op == '>=': k = lo - b + 1
        elif op == '>': k = lo - b
        else: raise Unsupported('loop condition %s' % op)
        val = lambda t: lo - t; start, end = toI(0), k
    def setup(t):
        def f(s2): s2.v[var.root] = val(t)
        return f
    def keep(s2, t):
        """the body leaves the loop variable and the bound alone"""
        if not (isinstance(s2.v.get(var.root), I) and decide(eq(s2.v[var.root], val(t)))): raise Unsupported('the body changes the loop variable')
        if not decide(eq(bound_of(s2), b)): raise Unsupported('the loop bound changes')
    al = go(ex, st, start, end, setup, body, keep, {var.root}, n)
    for k in [k for k in st.v if k not in before]: del st.v[k]
    if var.root in before: st.v[var.root] = UNDEF if has_kind(body, 'BreakStmt') else val(iite(ge(end, start), end, start))
    return al
def iterators(init, cond, inc, body):
    """for (auto it = e.begin(); it != e.end(); ++it) with it only dereferenced in the body: (e, it), else None"""
    if init is None or init.k != 'DeclStmt' or len(init.c) != 1 or init.c[0].k != 'VarDecl' or cond is None or inc is None: return None
    var = init.c[0]; x = [c for c in var.c if c]
    def strip(q):
        while q is not None and q.k in ('CXXConstructExpr', 'ImplicitCastExpr', 'CXXFunctionalCastExpr') and len([c for c in q.c if c]) == 1: q = [c for c in q.c if c][0]
        return q
    def end_of(q, names):
        q = strip(q)
        if q is None or q.k != 'CXXMemberCallExpr' or len(q.c) != 1 or q.c[0].k != 'MemberExpr' or q.c[0].name not in names: return None
        return q.c[0].c[0]
    def isit(q): q = strip(q); return q is not None and q.k == 'DeclRefExpr' and q.rid == var.id
    e = end_of(x[0], ('begin', 'cbegin')) if len(x) == 1 else None
    cond = strip(cond)
    if e is None or cond is None or cond.k != 'CXXOperatorCallExpr' or len(cond.c) != 3 or (cond.c[0].ref or '') != 'operator!=' or not isit(cond.c[1]): return None
    g = end_of(cond.c[2], ('end', 'cend'))
    def same_ast(a, b):
        if a is None or b is None: return a is b
        return (a.k, a.name, a.ref, a.rid, a.op, str(a.val), len(a.c)) == (b.k, b.name, b.ref, b.rid, b.op, str(b.val), len(b.c)) and all(same_ast(q, w) for q, w in zip(a.c, b.c))
    if g is None or not same_ast(e, g) or e.k not in ('DeclRefExpr', 'MemberExpr'): return None
    if inc.k != 'CXXOperatorCallExpr' or (inc.c[0].ref or '') != 'operator++' or not isit(inc.c[1]): return None
    def only(q, ok):
        if q is None: return True
        if q.k == 'DeclRefExpr' and q.rid == var.id: return ok
        d = q.k == 'CXXOperatorCallExpr' and len(q.c) == 2 and (q.c[0].ref or '') in ('operator*', 'operator->')
        return all(only(c, d and i == 1) for i, c in enumerate(q.c))
    return (e, var) if only(body, False) else None
def header(ex, cond, st):
    if cond.k != 'BinaryOperator' or cond.op not in ('<', '<=', '!=', '>', '>='): raise Unsupported('loop condition')
    a, b = cond.c
    flip = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}
    while a.k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr') and a.c: a = a.c[0]
    while b.k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr') and b.c: b = b.c[0]
    la = ex.lv(a, st) if a.k == 'DeclRefExpr' else None
    if la is not None and not la.path and isinstance(ex.read(st, la), I): return cond.op, la, b
    lb = ex.lv(b, st) if b.k == 'DeclRefExpr' else None
    if lb is not None and not lb.path: return flip[cond.op], lb, a
    raise Unsupported('loop condition')
def step_of(ex, inc, var):
    def isv(x): return x.k == 'DeclRefExpr' and x.rid == var.root
    if inc.k == 'UnaryOperator' and inc.op in ('++', '--') and isv(inc.c[0]): return 1 if inc.op == '++' else -1
    if inc.k == 'CompoundAssignOperator' and inc.op in ('+=', '-=') and isv(inc.c[0]) and inc.c[1].k == 'IntegerLiteral' and int(inc.c[1].val) == 1: return 1 if inc.op == '+=' else -1
    if inc.k == 'BinaryOperator' and inc.op == '=' and isv(inc.c[0]) and inc.c[1].k == 'BinaryOperator' and inc.c[1].op in '+-' and isv(inc.c[1].c[0]) and inc.c[1].c[1].k == 'IntegerLiteral' and int(inc.c[1].c[1].val) == 1: return 1 if inc.c[1].op == '+' else -1
    raise Unsupported('loop increment')
def as_for(ex, n, st):
    """while (i < n) { ...; i++; } is read as the for loop it is"""
    cond, body = n.c[0], n.c[-1]
    if body.k != 'CompoundStmt' or not body.c or has_kind(body, 'ContinueStmt'): return None
    try: _, var, _ = header(ex, cond, st); step_of(ex, body.c[-1], var)
    except Unsupported: return None
    f, b = type(n)(), type(n)()
    for k in n.__slots__: setattr(f, k, getattr(n, k, None)); setattr(b, k, getattr(body, k, None))
    b.c = list(body.c[:-1]); f.k = 'ForStmt'; f.c = [None, None, cond, body.c[-1], b]; return f
def has_kind(n, k): return n is not None and (n.k == k or any(has_kind(c, k) for c in n.c))
def range_stmt(ex, n, st):
    before = set(st.v)
    ds = [c for c in n.c if c is not None and c.k == 'DeclStmt']; body = n.c[-1]
    rng = ds[0].c[0]; var = ds[-1].c[0]
    rexp = [c for c in rng.c if c][0]
    return each(ex, n, st, rexp, var, body, var.t.rstrip().endswith('&') and 'const' not in var.t)
def each(ex, n, st, rexp, var, body, byref):
    before = set(st.v)
    lv = ex.lv(rexp, st); v = ex.read(st, lv) if lv is not None else ex.ev(rexp, st)
    v = force(v)
    parts = [c for c in var.c if c is not None and c.k == 'BindingDecl'] if var.k == 'DecompositionDecl' else []
    ty = 'auto' if parts or var.id in ex.derefs else X.tclean(var.t)
    def bindv(s2, x, place=None):
        if parts and not isinstance(x, Tup): raise Unsupported('structured binding of %r' % (x,))
        for k, b in enumerate(parts): s2.v[b.id] = (place if byref and place is not None else X.LV(var.id)) + ('t', k)
        if byref and place is not None: s2.v[var.id] = place
        else: s2.v[var.id] = x if ty in ('auto', '') else ex.conv(x, ty)
    keep0 = None
    if isinstance(v, Map) and not v.base and len(v.log) == 1 and v.log[0][0] == 'f' and v.enum and same(v.log[0][2], 0) and v.log[0][4] is TRUE:          # an unknown map, its entries enumerated in the order of their keys
        keep0 = True
        e = v.log[0]; v = dense(e[3], lambda t: vsubst(Tup((e[5], e[6])), {e[1]: t})); lv = None
    if isinstance(v, Map):
        if v.log: raise Unsupported('iteration over a map with computed keys')
        ks = sorted(v.base)
        place = lambda k: None
        fs = []
        last = [None]
        def unchanged(s2):
            if byref and last[0] is not None and not vsame(s2.v[var.id], last[0]): raise Unsupported('the body changes the map it iterates over')
        for k in ks:
            def f(s2, k=k):
                unchanged(s2)
                cur = ex.read(s2, lv).get(S(k)) if lv is not None else v.base[k]
                s2.v[var.id] = last[0] = Tup((S(k), cur))
            fs.append(f)
        z, al, outs = unroll(ex, st.copy(), fs, body)
        if al is not FALSE and fs: unchanged(z)
        r = finish(ex, st, outs + ([(al, z)] if al is not FALSE else []))
    elif isinstance(v, (Vec, YNode)) or (isinstance(v, Mat) and (v.c.const() == 1 or v.r.const() == 1)):
        if isinstance(v, YNode): N = X.ylen(v); at = lambda t: YNode(v.p + (('it', t),)); place = lambda t: None
        elif isinstance(v, Mat): N = v.numel(); at = lambda t: v.lin(t); place = lambda t: lv + ('l', t) if lv is not None else None
        else:
            N = v.size(); at = lambda t: (ex.step(ex.read(st_[0], lv), ('x', t)) if lv is not None and st_[0] is not None else v.get(t)); place = lambda t: lv + ('x', t) if lv is not None else None
        st_ = [None]
        def setup(t):
            def f(s2):
                st_[0] = s2; bindv(s2, at(t), place(t))
            return f
        def keep(s2, t):
            if keep0 and byref and not vsame(s2.v[var.id], at(t)): raise Unsupported('the body changes the map it iterates over')
            if isinstance(v, Vec) and lv is not None:
                w = ex.read(s2, lv)
                if not decide(eq(w.size(), N)): raise Unsupported('the body resizes the range')
        if isinstance(v, Vec) and any(x[0] in 'cf' for x in v.s):
            r = filtered(ex, st, v, body, bindv)
        else: r = go(ex, st, toI(0), N, setup, body, keep, {var.id}, n)
    else: raise Unsupported('iteration over %r' % (v,))
    for k in [k for k in st.v if k not in before]: del st.v[k]
    return r
def filtered(ex, st, v, body, bindv): raise Unsupported('iteration over a filtered vector')

def go(ex, st, lo, hi, setup, body, keep, skip, n):
    k = (hi - lo).const()
    if k is not None and k <= ex.unroll:
        def mk(i):
            f = setup(lo + i)
            return f
        fs = [mk(i) for i in range(max(k, 0))]
        def wrap(i, f):
            def g(s2):
                if i > 0: keep(s2, lo + i - 1)
                f(s2)
            return g
        z, al, outs = unroll(ex, st.copy(), [wrap(i, f) for i, f in enumerate(fs)], body)
        return finish(ex, st, outs + ([(al, z)] if al is not FALSE else []))
    if decide(ge(lo, hi)): return TRUE
    if not decide(le(lo, hi)):
        a = st.copy(); c = le(lo, hi)
        with assume(c): al = go(ex, a, lo, hi, setup, body, keep, skip, n)
        return finish(ex, st, ([(And(c, al), a)] if al is not FALSE else []) + [(Not(c), st.copy())])
    ex.nloops += 1
    err = None; why = []; fn = ex.cur[-1] if ex.cur else ''
    cand = [l for l in leaves(st, skip) for h in ex.hints if h(ex, fn, name_of(ex, l), getl(st, l), lo, hi) is not None] if ex.hints else []
    hit = set()
    for sel, strat, eager in [((), x, False) for x in ('plain', 'last', 'first', 'both')] + ([(tuple(cand), x, False) for x in ('plain', 'last')] if cand else []) + [((l,), x, g) for g in (False, True) for l in cand for x in ('plain', 'last')]:
        if not eager and (len(sel) == 1 and len(cand) > 1 and (sel[0] not in hit or len(hit) == 1)): continue
        ex.hint_sel = (sel, hit, eager)
        sv = Saved(ex); z = st.copy(); n0 = len(Ctx.stack)
        try:
            if strat == 'plain':
                al = symbolic(ex, z, lo, hi, setup, body, keep, skip, n); st.v = z.v; return al
            c = ge(hi, lo + (2 if strat == 'both' else 1))
            if infeasible(): return TRUE
            l2 = lo + 1 if strat in ('first', 'both') else lo; h2 = hi - 1 if strat in ('last', 'both') else hi
            need = decide(c)
            if not need: Ctx.stack.append(c)
            al = TRUE
            if l2 is not lo and l2 != lo:
                z, al1, outs = unroll(ex, z, [setup(lo)], body)
                if outs or al1 is FALSE: raise Unsupported('loop leaves early')
                keep(z, lo); al = And(al, al1)
            if (h2 - l2).const() is None or (h2 - l2).const() > 0: al = And(al, symbolic(ex, z, l2, h2, setup, body, keep, skip, n))
            if h2 != hi:
                z, al1, outs = unroll(ex, z, [setup(h2)], body)
                if outs or al1 is FALSE: raise Unsupported('loop leaves early')
                keep(z, h2); al = And(al, al1)
            del Ctx.stack[n0:]
            if need: st.v = z.v; return al
            # the few iterations not covered
            outs = [(And(c, al), z)]
            for m in range(2 if strat == 'both' else 1):
                y = st.copy(); cm = eq(hi, lo + m)
                with assume(cm):
                    if infeasible(): continue
                    y, al1, o1 = unroll(ex, y, [setup(lo + i) for i in range(m)], body)
                if o1: raise Unsupported('loop leaves early')
                outs.append((And(cm, al1), y))
            return finish(ex, st, outs)
        except Unsupported as e:
            if err is None: err = e
            if getattr(ex, 'verbose', 0) > 2: import traceback; traceback.print_exc()
            why.append('%s: %s' % (strat, e)); sv.undo(); del Ctx.stack[n0:]
    if getattr(ex, 'verbose', 0): print('LOOP', n.line, '\n   '.join(why))
    raise Unsupported('loop at line %s: %s' % (n.line, why[0][7:]))

# ------------------------------------------------------------------ places
def leaves(st, skip=()):
    out = []
    def walk(root, path, v):
        if isinstance(v, Obj):
            for k, x in v.f.items(): walk(root, path + (k,), x)
        elif isinstance(v, Map):
            for k in v.base: out.append((root, path + (('m', k),)))
            out.append((root, path + (('log',),)))
        elif isinstance(v, (X.LV, X.Lam, X.Stream, X.CommaInit)): return
        else: out.append((root, path))
    for r, v in st.v.items():
        if r not in skip: walk(r, (), v)
    return out
def getl(st, l):
    v = st.v[l[0]]
    for k in l[1]:
        if isinstance(k, tuple):
            if not isinstance(v, Map): return None
            v = v.base.get(k[1], UNDEF) if k[0] == 'm' else Map({}, v.log, v.dflt)
            continue
        if not isinstance(v, Obj): return None
        v = v.f.get(k, UNDEF)
    return v
def setl(st, l, x):
    def put(v, p):
        if p and isinstance(p[0], tuple):
            if p[0][0] == 'm': b = dict(v.base); b[p[0][1]] = x; return Map(b, v.log, v.dflt)
            return Map(v.base, x.log, v.dflt)
        return x if not p else v.put(p[0], put(v.f.get(p[0], UNDEF), p[1:]))
    st.v[l[0]] = put(st.v[l[0]], l[1])

class Pre:
    def __init__(s): s.n = 'PRE%d' % next(_n)
    def make(s, v, ix=(), sub=''):
        nm = s.n + sub
        if v is UNDEF: return UNDEF
        if isinstance(v, Poly): return rvar(nm, *ix)
        if isinstance(v, (I, int)): return ifun(nm, *ix) if ix else ivar(nm, fresh=False)
        if isinstance(v, (C, bool)): return patom(nm, *ix)
        if isinstance(v, Mat):
            if v.r.const() == 0 or v.c.const() == 0: return PreEmpty(v.r, v.c, nm, ix)
            return Mat.gen(v.r, v.c, lambda i, j: rvar(nm, *ix, i, j))
        if isinstance(v, Str): return Str((('sym', nm, tuple(ix)),))
        if isinstance(v, Tup): return Tup([s.make(x, ix, sub + '.%d' % k) for k, x in enumerate(v.x)])
        if isinstance(v, Obj): return Obj(v.cls, {k: s.make(x, ix, sub + '.' + k) for k, x in v.f.items()})
        if isinstance(v, Vec):
            if v.s and all(x[0] == 'i' for x in v.s): return Vec([('i', s.make(x[1], ix, sub + '[%d]' % k)) for k, x in enumerate(v.s)])
            if len(v.s) == 1 and v.s[0][0] == 'd' and not (ix and K0 in ix):
                n, b = v.s[0][1:]
                with assume(ge(K0, 0), lt(K0, n)): return Vec([('d', n, s.make(b, tuple(ix) + (K0,), sub))])
            if ix: raise Unsupported('no name for the elements of a vector of vectors')
            return Vec([('p', nm)])
        if isinstance(v, Map): return Map(v.base, v.log + (('p', nm),), v.dflt)
        if isinstance(v, VIte):
            a, b = s.make(v.a, ix, sub + '?'), s.make(v.b, ix, sub + ':')
            return vite(v.c, a, b)
        raise Unsupported('no name for %r' % (v,))
def pre_atom(a, seen):
    if a in seen: return False
    seen.add(a)
    if isinstance(a, T.IAtom):
        if a.kind in ('v', 'f') and a.name.startswith('PRE'): return True
    elif a.kind == 'var' and str(a.name).startswith('PRE'): return True
    for x in a.args:
        if has_pre(x, seen): return True
    return False
def has_pre(v, seen=None):
    seen = set() if seen is None else seen
    if isinstance(v, I): return any(pre_atom(a, seen) for a in v.atoms())
    if isinstance(v, Poly): return any(pre_atom(a, seen) for a in v.atoms())
    if isinstance(v, (T.IAtom, T.RAtom)): return pre_atom(v, seen)
    if isinstance(v, C):
        if v in seen: return False
        seen.add(v)
        if v.op == 'atom' and str(v.a[0]).startswith('PRE'): return True
        if v.op == 'atom' and v.a[0] == 'streq' and any('PRE' in str(x) for x in v.a[1:]): return True
        return any(has_pre(x, seen) for x in v.a if not isinstance(x, str))
    if isinstance(v, PreEmpty): return True
    if isinstance(v, Mat): return has_pre(v.r, seen) or has_pre(v.c, seen) or any(has_pre(x, seen) for x in v.d.values())
    if isinstance(v, Str) and any(not isinstance(x, str) and x[0] not in ('int', 'sym') for x in v.p): return any(not isinstance(x, str) and (any(has_pre(y, seen) for y in x[1:]) if x[0] not in ('int', 'sym') else has_pre(Str((x,)), seen)) for x in v.p)
    if isinstance(v, Str): return any(not isinstance(x, str) and (has_pre(x[1], seen) if x[0] == 'int' else (x[1].startswith('PRE') or any(has_pre(y, seen) for y in x[2]))) for x in v.p)
    if isinstance(v, Vec):
        for x in v.s:
            if x[0] == 'p': return True
            if any(has_pre(y, seen) for y in x[1:] if not isinstance(y, tuple)): return True
            if x[0] == 'f' and any(has_pre(c, seen) or has_pre(y, seen) for c, y in x[4]): return True
        return False
    if isinstance(v, VIte): return has_pre(v.c, seen) or has_pre(v.a, seen) or has_pre(v.b, seen)
    if isinstance(v, Obj): return any(has_pre(x, seen) for x in v.f.values())
    if isinstance(v, Tup): return any(has_pre(x, seen) for x in v.x)
    if isinstance(v, YNode): return any(has_pre(x if isinstance(x, Str) else x[1], seen) for x in v.p)
    if isinstance(v, Map): return any(x[0] == 'p' or any(has_pre(y, seen) for y in x[1:]) for x in v.log) or any(has_pre(x, seen) for x in v.base.values())
    if isinstance(v, Slice): return v.lo is not None and (has_pre(v.lo, seen) or has_pre(v.hi, seen))
    if isinstance(v, Fun): return has_pre(v.name, seen) or has_pre(v.ins, seen) or has_pre(v.out, seen)
    if isinstance(v, SegMat): return has_pre(v.v, seen)
    if isinstance(v, X.Iter): return has_pre(v.seq, seen) or has_pre(v.off, seen)
    return False

# ------------------------------------------------------------------ closed forms
class No(Exception): pass
def dep(v, t):
    """does v depend on t"""
    w = ivar('dp'); return not vsame(vsubst(v, {t: w}), v)
def simpI(e, depth=0):
    if depth > 12: return e
    for a in e.atoms():
        if a.kind in ('ind', 'iite'):
            c = a.args[0]
            if decide(c): return simpI(isubst(e, {toI(a): toI(1) if a.kind == 'ind' else a.args[1]}), depth + 1)
            if decide(Not(c)): return simpI(isubst(e, {toI(a): toI(0) if a.kind == 'ind' else a.args[2]}), depth + 1)
    return e
def vsimp(v):
    """v in the current context"""
    if isinstance(v, VIte):
        if decide(v.c): return vsimp(v.a)
        if decide(Not(v.c)): return vsimp(v.b)
        return v
    if isinstance(v, Vec) and all(x[0] == 'i' for x in v.s): return Vec([('i', vsimp(x[1])) for x in v.s])
    if isinstance(v, Poly) and has_pre(v): return simp(v)
    if isinstance(v, I) and has_pre(v): return simpI(v)
    return v
def cases(v, pre, depth=0):
    """[(cond, value)]: values that are pre, pre + something free of PRE, or free of PRE"""
    if depth > 20: raise No("too many cases %r" % v)
    while isinstance(pre, VIte):
        if decide(pre.c): pre = pre.a
        elif decide(Not(pre.c)): pre = pre.b
        else: break
    if isinstance(v, VIte):
        if has_pre(v.c): raise No('condition depends on the loop state: %r' % (v.c,))
        out = []
        for c, x in ((v.c, v.a), (Not(v.c), v.b)):
            with assume(c):
                if infeasible(): continue
                out += [(And(c, d), y) for d, y in cases(vsimp(x), pre, depth + 1)]
        return out
    if vsame(v, pre) or not has_pre(v): return [(TRUE, v)]
    if isinstance(v, Poly) and isinstance(pre, Poly):
        if not has_pre(v - pre): return [(TRUE, v)]
        v = simp(v)
        if not has_pre(v) or not has_pre(v - pre): return [(TRUE, v)]
        d = T._eqs(v - pre)
        if not has_pre(d): return [(TRUE, pre + d)]
        cs = [c for c in leaf_conds(pre_conds(v)) if not has_pre(c) and not decide(c) and not decide(Not(c))]; sm = simp
    elif isinstance(v, I) and isinstance(pre, I):
        if not has_pre(v - pre): return [(TRUE, v)]
        cs = [c for c in leaf_conds([a.args[0] for a in v.atoms() if a.kind in ('ind', 'iite')]) if not has_pre(c) and not decide(c) and not decide(Not(c))]; sm = simpI
    else: raise No('value %s' % (dumpv(v)[:300] + ' PRE ' + dumpv(pre)[:300]))
    if not cs: raise No('value %r' % (v,))
    out = []
    for c in (cs[0], Not(cs[0])):
        with assume(c):
            if infeasible(): continue
            out += [(And(c, d), y) for d, y in cases(sm(v), pre, depth + 1)]
    return out
def force_c(v):
    while isinstance(v, VIte):
        if decide(v.c): v = v.a
        elif decide(Not(v.c)): v = v.b
        else: break
    return v
def pre_conds(p, out=None):
    """conditions of the Ites with loop state in a branch"""
    out = [] if out is None else out
    for a in sorted(p.atoms(), key=lambda a: a.uid):
        if a.kind == 'ite' and (has_pre(a.args[1]) or has_pre(a.args[2])):
            if a.args[0] not in out: out.append(a.args[0])
        if a.kind == 'sum': continue
        for x in a.args:
            if isinstance(x, Poly): pre_conds(x, out)
    return out
def lits(c): return list(c.a) if c.op == 'and' else [c]
def dnf(c):
    if c.op == 'or': return [y for x in c.a for y in dnf(x)]
    if c.op == 'and':
        out = [[]]
        for x in c.a: out = [o + [y] for o in out for y in dnf(x)]
        if len(out) > 8: raise No('condition')
        return [And(*o) for o in out]
    return [c]
def lincoef(e, t):
    """e = p + t*q, q and p free of t -> (p, q)"""
    ta = list(t.atoms())[0]; p = {}; q = {}
    for m, c in e.t:
        k = sum(x is ta for x in m)
        if k == 0: p[m] = p.get(m, 0) + c
        elif k == 1:
            m2 = list(m); m2.remove(ta); q[tuple(m2)] = q.get(tuple(m2), 0) + c
        else: return None
    P_, Q_ = I(T._ti(p)), I(T._ti(q))
    if ta in _deep_(P_) or ta in _deep_(Q_): return None
    return P_, Q_
def stride(e, t):
    """e == 0 where e = p + q t and q is a size"""
    z = lincoef(e, t)
    if z is None or z[1].const() is not None: return None
    p, q = z
    if not decide(ge(q, 1)): p, q = -p, -q
    if not decide(ge(q, 1)): return None
    p = -p                                   # t = p / q
    for m, c in p.t:
        y = I(((m, 1),))
        if c == -1 and len(m) == 1 and decide(And(ge(y, 0), lt(y, q))): return idiv(p + y, q), [eq(imod(p + y, q), y)]
    return idiv(p, q), [eq(imod(p, q), 0)]
def solve_t(c, t):
    """the only t at which the conjunction c can hold -> (t, remaining conditions)"""
    ls = lits(c)
    for k in ls:
        if k.op == 'eq0':
            z = solve(k, t)
            if z is None: z = stride(k.a[0], t)
            if z is not None: return z[0], [x for x in ls if x is not k] + list(z[1])
    ges = [(k, lincoef(k.a[0], t)) for k in ls if k.op == 'ge0']
    ges = [(k, z) for k, z in ges if z is not None and z[1].t]
    for k1, (p1, q1) in ges:
        for k2, (p2, q2) in ges:
            if k1 is k2: continue
            a = q2
            if (q1 + a).t: continue
            # p1 - a t >= 0 and p2 + a t >= 0, p1 + p2 = a - 1
            if (p1 + p2 - a + 1).t: continue
            if not decide(ge(a, 1)) : continue
            return idiv(p1, a), [x for x in ls if x is not k1 and x is not k2] + [ge(p1, 0)]
    for k1, (p1, q1) in ges:
        for k2, (p2, q2) in ges:
            if k1 is k2 or (q1 + q2).t: continue
            # p1 - a t >= 0 and p2 + a t >= 0 with fewer than a values between: at most one t
            if decide(ge(q2, 1)) and decide(T.le(p1 + p2 + 1, q2)): return idiv(p1, q2), [x for x in ls if x is not k1] + [ge(p1, 0)]
    return None
def counted(d, t, lo, hi):
    """the write happens where the number of earlier iterations with the same condition is a given index -> (index, condition of the iteration)"""
    ls = lits(d); ta = list(t.atoms())[0]
    for k in ls:
        if k.op != 'eq0': continue
        cs = [(m[0], c) for m, c in k.a[0].t if len(m) == 1 and m[0].kind == 'cnt']
        if len(cs) != 1 or abs(cs[0][1]) != 1: continue
        a, c = cs[0]; b, l, h, body = a.args; at = (toI(a) * c - k.a[0]) * c
        if l != lo or h != t or dep(at, t): continue
        rest = [x for x in ls if x is not k]; same_ = csubst(body, {b: t}); here = [x for x in rest if dep(x, t)]; free = [x for x in rest if not dep(x, t)]
        if And(*here) is same_ or decide(Or(And(And(*here), same_), And(Not(And(*here)), Not(same_)))): return at, (b, body), free
    return None
class Cur: hi = None
def overwrite(init, ws, t, lo):
    """ws: exclusive (condition, value) under which the place is written; -> Inv"""
    W = Or(*[c for c, _ in ws]); hi = Cur.hi
    def chain(m): 
        r = None
        for c, f in reversed(ws):
            f2 = vsubst(f, m) if m else f
            r = f2 if r is None else vite(csubst(c, m) if m else c, f2, r)
        return r
    def last(T_):
        m = {t: T_ - 1}; w = And(ge(T_, lo + 1), csubst(W, m))
        if decide(Not(w)): return init
        with assume(w): x = chain(m)
        return x if decide(w) else vite(w, x, init)
    if W is TRUE or decide(W) or not dep(W, t): return last
    sols = []
    for c, f in ws:
        for d in dnf(c):
            z = solve_t(d, t)
            if z is None and hi is not None:
                z = counted(d, t, lo, hi)
                if z is not None:
                    at, (b, body), free = z; z = T.toI(T._iatom('sel', 'sel', (b, toI(lo), toI(hi), body, toI(at)))), None
                    sols.append((z[0], (lambda T_, b=b, body=body, at=at, free=free: And(ge(at, 0), lt(at, T.count(None, lo, T_, None, raw=(b, body))), *free)), f)); continue
            if z is None: sols = None; break
            sols.append((z[0], z[1], f))
        if sols is None: break
    if sols is not None:
        def inv(T_):
            r = init
            for s_, rest, f in reversed(sols):
                c = rest(T_) if callable(rest) else And(ge(s_, lo), lt(s_, T_), *[csubst(x, {t: s_}) for x in rest])
                if decide(Not(c)): continue
                with assume(c): x = vsubst(f, {t: s_})
                r = x if decide(c) else vite(c, x, r)
            return r
        return inv
    w1 = csubst(W, {t: t + 1})
    if decide(Or(Not(W), w1)): return last
    if not any(dep(f, t) for _, f in ws) and len(ws) == 1:
        f = ws[0][1]
        if decide(Or(Not(w1), W)):      # the first iteration decides
            def inv2(T_): return vite(And(ge(T_, lo + 1), csubst(W, {t: lo})), f, init)
            return inv2
        def inv3(T_): return vite(exists(t, lo, T_, W), f, init)
        return inv3
    raise No('conditional write %r' % W)
def undef_cases(v, c, out):
    if isinstance(v, VIte):
        with assume(c): yes, no = decide(v.c), decide(Not(v.c))
        if not no: undef_cases(v.a, c if yes else And(c, v.c), out)
        if not yes: undef_cases(v.b, c if no else And(c, Not(v.c)), out)
    else: out.append((c, v))
def depc(c, t): return list(t.atoms())[0] in iatoms_of(c)
def at_k0(v, c):
    """v under the condition, which may fix an index variable in terms of K0"""
    k0 = list(K0.atoms())[0]
    for x in lits(c):
        if x.op != 'eq0' or k0 not in iatoms_of(x): continue
        for a in iatoms_of(x):
            if a.kind != 'v' or a is k0: continue
            z = solve(x, toI(a))
            if z is not None and not z[1]: return vsubst(v, {toI(a): z[0]})
    return v
def closed(init, pre, post, t, lo):
    """Inv as a function of the iteration, or No"""
    if vsame(post, pre): return lambda T_: init
    if init is UNDEF:
        ws = []; undef_cases(post, TRUE, ws)
        if ws and len(ws) <= 4 and not any(x is TRUE for x, _ in ws) and not has_pre(post) and any(x is UNDEF for _, x in ws): return overwrite(init, [w for w in ws if w[1] is not UNDEF], t, lo)
        if not has_pre(post): return lambda T_: vite(ge(T_, lo + 1), vsubst(post, {t: T_ - 1}), UNDEF)
        raise No('undefined before the loop')
    if isinstance(post, VIte) and isinstance(pre, (Vec, Mat)) and has_pre(post) and not has_pre(post.c) and not depc(post.c, t):
        with assume(post.c): fa = None if infeasible() else closed(init, pre, at_k0(post.a, post.c), t, lo)
        with assume(Not(post.c)): fb = None if infeasible() else closed(init, pre, post.b, t, lo)
        def inv(T_):
            with assume(post.c): a = fa and fa(T_)
            with assume(Not(post.c)): b = fb and fb(T_)
            return b if fa is None else a if fb is None else vite(post.c, a, b)
        return inv
    if isinstance(pre, Str) and isinstance(init, Str) and pre.p and has_pre(post):
        try: return text_appends(init, pre, post, t, lo)
        except No: pass
    if isinstance(pre, Vec) and len(pre.s) == 1 and pre.s[0][0] == 'p': return pushes(init, pre, post, t, lo)
    if not has_pre(post):
        return overwrite(init, [(TRUE, post)], t, lo)
    if isinstance(pre, Map): return puts(init, pre, post, t, lo)
    if isinstance(pre, Mat) and isinstance(post, Mat) and isinstance(init, Mat) and pre.d.keys() == post.d.keys() and same(pre.r, post.r) and same(pre.c, post.c):
        fs = {}
        for k in pre.d:
            with assume(*_facts_(pre.r, pre.c, *k)): fs[k] = closed(init.d[k] if k in init.d else None, pre.d[k], post.d[k], t, lo)
        def inv(T_):
            d = {}
            for k in pre.d:
                with assume(*_facts_(pre.r, pre.c, *k)): d[k] = toP(fs[k](T_))
            return Mat(pre.r, pre.c, d)
        return inv
    if isinstance(pre, Vec) and isinstance(post, Vec) and isinstance(init, Vec):
        if len(post.s) == len(pre.s) == 1 and pre.s[0][0] == 'd' and post.s[0][0] == 'd' and same(pre.s[0][1], post.s[0][1]):
            n = pre.s[0][1]; b0 = init.s[0][2]
            with assume(ge(K0, 0), lt(K0, n)): f = closed(b0, pre.s[0][2], post.s[0][2], t, lo)
            def inv(T_):
                with assume(ge(K0, 0), lt(K0, n)): return Vec([('d', n, f(T_))])
            return inv
        if len(post.s) == len(pre.s) and all(x[0] == 'i' == y[0] for x, y in zip(pre.s, post.s)):
            fs = [closed(a[1], b[1], c[1], t, lo) for a, b, c in zip(init.s, pre.s, post.s)]
            return lambda T_: Vec([('i', f(T_)) for f in fs])
        if len(post.s) > len(pre.s) and all(seg_same(x, y) for x, y in zip(pre.s, post.s)):
            return family(init, post.s[len(pre.s):], t, lo)
        raise No('vector %r' % (post,))
    if isinstance(pre, Obj) and isinstance(post, Obj):
        fs = {k: closed(init.f[k], pre.f[k], post.f[k], t, lo) for k in pre.f}
        return lambda T_: Obj(pre.cls, {k: f(T_) for k, f in fs.items()})
    if isinstance(pre, Tup) and isinstance(post, Tup) and len(pre.x) == len(post.x):
        fs = [closed(a, b, c, t, lo) for a, b, c in zip(init.x, pre.x, post.x)]
        return lambda T_: Tup([f(T_) for f in fs])
    if isinstance(pre, C) and isinstance(post, C): return boolean(init, pre, post, t, lo)
    cs = []
    for c, x in cases(post, pre):
        with assume(c): y = force_c(pre)
        cs.append((c, pre if vsame(x, y) else x))
    ws = [(c, x) for c, x in cs if not vsame(x, pre) and not has_pre(x)]
    acc = [(c, x) for c, x in cs if not vsame(x, pre) and has_pre(x)]
    if acc and ws: raise No('mixed writes')
    if not acc: return overwrite(init, ws, t, lo)
    if isinstance(pre, Poly):
        d = ZERO
        for c, x in acc: d = d + ite(c, x - pre, ZERO)
        def inv(T_):
            w = ivar('a'); return toP(init) + psum(w, lo, T_, psubst(d, {t: w}))
        return inv
    if isinstance(pre, I):
        d = []
        for c, x in acc:
            x = x - pre; tm = [(m, I(((m, q),))) for m, q in x.t]
            if dep(x, t) and all(not dep(q, t) or (len(m) == 1 and m[0].kind == 'ind') for m, q in tm):
                td = dict(x.t)
                for m, q in list(tm):
                    if dep(q, t) and () in td and td[()] == -td[m]: d.append((And(c, Not(m[0].args[0])), I((((), td[()]),)))); tm = [z for z in tm if z[0] not in ((), m)]; break
                for m, q in tm:
                    if dep(q, t): d.append((And(c, m[0].args[0]), I((((), q.t[0][1]),))))
                    else: d.append((c, q))
            else: d.append((c, x))
        if any(dep(x, t) for _, x in d): raise No('integer step %r' % d)
        def inv(T_):
            r = toI(init)
            for c, x in d:
                r = r + x * (T_ - lo if c is TRUE or decide(c) else ind(c) * (T_ - lo) if not dep(c, t) else count(t, lo, T_, c))
            return r
        return inv
    raise No('value %r' % (post,))
from .values import _facts as _facts_, _deep_
def cofactor(c, atom, val):
    if c is atom: return val
    if c.op in ('and', 'or'): return (And if c.op == 'and' else Or)(*[cofactor(x, atom, val) for x in c.a])
    if c.op == 'not': return Not(cofactor(c.a[0], atom, val))
    return c
def boolean(init, pre, post, t, lo):
    f1, f0 = cofactor(post, pre, TRUE), cofactor(post, pre, FALSE); init = toC(init)
    if has_pre(f1) or has_pre(f0): raise No('flag')
    if decide(f1): return lambda T_: Or(init, exists(t, lo, T_, f0))
    if decide(Not(f0)): return lambda T_: And(init, Not(exists(t, lo, T_, Not(f1))))
    raise No('flag %r' % post)
def appended(post, pre):
    """the text that the iteration appends"""
    if isinstance(post, VIte):
        if has_pre(post.c): raise No('condition depends on the loop state')
        out = []
        for c, x in ((post.c, post.a), (Not(post.c), post.b)):
            with assume(c): out.append(None if infeasible() else appended(x, pre))
        if out[0] is None or out[1] is None: return out[0] or out[1]
        return Str((('alt', post.c, out[0], out[1]),))
    if not isinstance(post, Str) or post.p[:1] != pre.p or has_pre(Str(post.p[1:])): raise No('text %r' % (post,))
    return Str(post.p[1:])
def vcof(v, atom, val):
    if not isinstance(v, VIte): return v
    c = cofactor(v.c, atom, val)
    return vcof(v.a, atom, val) if c is TRUE else vcof(v.b, atom, val) if c is FALSE else VIte(c, vcof(v.a, atom, val), vcof(v.b, atom, val))
def text_appends(init, pre, post, t, lo):
    e = str_eq(pre, Str(()))
    if 'PRE' in repr(post) and isinstance(post, VIte) and not vsame(vcof(post, e, TRUE), vcof(post, e, FALSE)):       # what is appended depends on whether something has been appended
        a1, a0 = appended(vcof(post, e, TRUE), pre), appended(vcof(post, e, FALSE), pre); i0 = emptiness(init.p)
        w = ivar('s', lo, t); c = And(i0, Not(exists(t, lo, t, Not(emptiness(a1.p))))) if i0 is not FALSE else FALSE
        b = Str((('alt', c, a1, a0),)) if c is not FALSE else a0
    else: b = appended(post, pre)
    def inv(T_):
        if decide(ge(lo, T_)): return init
        w = ivar('f')
        with assume(ge(w, lo), lt(w, T_)): x = vsubst(b, {t: w})
        return Str(init.p + (('fam', w, toI(lo), toI(T_), x),))
    return inv
def pushes(init, pre, post, t, lo):
    if isinstance(post, Vec) and post.s and post.s[0] == pre.s[0]: return family(init, post.s[1:], t, lo)
    if not has_pre(post): return overwrite(init, [(TRUE, post)], t, lo)
    raise No('vector %r' % (post,))
def family(init, segs, t, lo):
    """what every iteration appends"""
    for x in segs:
        if has_pre(Vec([x])): raise No('appended value depends on the loop state')
    if not segs: return lambda T_: init
    if all(x[0] == 'i' for x in segs):
        m = len(segs)
        def inv(T_):
            n = (T_ - lo) * m
            if n.const() == 0: return init
            if m == 1:
                with assume(ge(K0, 0), lt(K0, n)): b = vsubst(segs[0][1], {t: lo + K0})
            else:
                with assume(ge(K0, 0), lt(K0, n)):
                    q, r = idiv(K0, m), imod(K0, m); b = None
                    for j in reversed(range(m)):
                        z = vsubst(segs[j][1], {t: lo + q}); b = z if b is None else vite(eq(r, j), z, b)
            return Vec(init.s + (('d', n, b),))
        return inv
    if all(x[0] in 'ic' for x in segs):
        def inv(T_):
            w = ivar('f'); bd = []
            for x in segs:
                c, v = (TRUE, x[1]) if x[0] == 'i' else (x[1], x[2])
                with assume(ge(w, lo), lt(w, T_)): bd.append((csubst(c, {t: w}), vsubst(v, {t: w})))
            if decide(ge(lo, T_)): return init
            return Vec(init.s + (('f', w, lo, T_, tuple(bd)),))
        return inv
    if len(segs) == 1 and segs[0][0] == 'd' and not dep(segs[0][1], t):
        L, b = segs[0][1:]
        def inv(T_):
            n = L * (T_ - lo)
            if decide(ge(lo, T_)): return init
            z = ivar('z')
            with assume(ge(K0, 0), lt(K0, n), ge(L, 1)):
                w = vsubst(b, {K0: z}); w = vsubst(vsubst(w, {t: lo + idiv(K0, L)}), {z: imod(K0, L)})
            return Vec(init.s + (('d', n, w),))
        return inv
    raise No('appended segments')
def puts(init, pre, post, t, lo):
    if not isinstance(post, Map): raise No('map')
    k = len(pre.log)
    if len(post.log) < k or not all(log_same(x, y) for x, y in zip(pre.log, post.log)): raise No('map log')
    if post.base is not pre.base and not all(vsame(post.base.get(q, UNDEF), pre.base.get(q, UNDEF)) for q in set(post.base) | set(pre.base)): raise No('map base')
    new = post.log[k:]
    for e in new:
        if e[0] != 'w' or any(has_pre(x) for x in e[1:]): raise No('map entry %r' % (e,))
    def inv(T_):
        log = list(init.log)
        for e in new:
            if dep(e[2], t):
                w = ivar('m')
                with assume(ge(w, lo), lt(w, T_)): log.append(('f', w, lo, T_, csubst(e[1], {t: w}), vsubst(e[2], {t: w}), vsubst(e[3], {t: w})))
            else:
                if dep(e[1], t): raise No('conditional entry with a constant key')
                log.append(('w', And(ge(T_, lo + 1), csubst(e[1], {t: T_ - 1})), e[2], vsubst(e[3], {t: T_ - 1})))
        if decide(ge(lo, T_)): return init
        return Map(init.base, [e for e in log if not (e[0] == 'w' and decide(Not(e[1])))], init.dflt)
    return inv

# ------------------------------------------------------------------ the symbolic loop
def symbolic(ex, st, lo, hi, setup, body, keep, skip, n):
    t = ivar('t%d_' % next(_n)); fr = ex.frames[-1]
    init = st.copy(); base = leaves(init, skip); fn = ex.cur[-1] if ex.cur else ''
    inv = {}; changed = []; ghost_used = {}; brk_sol = None; hi0 = hi
    def state(T_, pres):
        z = init.copy()
        for l in changed:
            if l in inv: setl(z, l, inv[l](T_))
            elif l in pres: setl(z, l, pres[l])
        return z
    focus = {}
    def place(l, log):
        """the one element of the vector l the body writes to, if there is one"""
        v = getl(init, l)
        if not (isinstance(v, Vec) and len(v.s) == 1 and v.s[0][0] == 'd' and all(isinstance(k, str) for k in l[1])): return None
        at = None; d = len(l[1])
        for r, p in log:
            q = tuple(x[1] if x[0] == 'f' else x for x in p)
            if r != l[0] or q[:d] != l[1][:len(q)]: continue
            if len(p) <= d or p[d][0] != 'x' or dep(toI(p[d][1]), t) or has_pre(toI(p[d][1])) or at is not None and not same(at, p[d][1]): return None
            at = toI(p[d][1])
        return at
    fresh = {}; lastlog = []
    def moving(l, log):
        """c, if the body writes the vector l at index t + c and nowhere else"""
        v = getl(init, l); c = None; d = len(l[1])
        if not (isinstance(v, Vec) and len(v.s) == 1 and v.s[0][0] == 'd' and all(isinstance(k, str) for k in l[1])): return None
        for r, p in log:
            q = tuple(x[1] if x[0] == 'f' else x for x in p)
            if r != l[0] or q[:d] != l[1][:len(q)]: continue
            if len(p) <= d or p[d][0] != 'x': return None
            e = toI(p[d][1]) - t
            if dep(e, t) or has_pre(e) or c is not None and not same(c, e): return None
            c = e
        return c
    sels, hit, eager = ex.hint_sel or ((), set(), False); ex.hint_sel = None
    def ghost(l):
        if l in sels:
            for h in ex.hints:
                f = h(ex, fn, name_of(ex, l), getl(init, l), lo, hi)
                if f is not None: inv[l] = f; hit.add(l); return
    if eager:
        for l in base:
            ghost(l)
            if l in inv: changed.append(l)
    for l in base:
        if l not in inv and not l[1] and isinstance(getl(init, l), I) and l[0] in counters(body):
            inv[l] = lambda T_, l=l: getl(init, l) + (T_ - lo); changed.append(l)
    k0 = len(Ctx.stack)
    with assume(ge(t, lo), lt(t, hi)):
        sv = Saved(ex); ex.check = False; k1 = len(Ctx.stack)
        try:
            for rnd in range(MAXR):
                pres = {}
                for l in changed:
                    if l in inv: continue
                    v = getl(init, l)
                    if l in fresh: pres[l] = v
                    elif l in focus: focus[l][1] = Pre().make(v.get(focus[l][0])); pres[l] = v.set(focus[l][0], focus[l][1])
                    else:
                        try: pres[l] = Pre().make(v)
                        except Unsupported as e:
                            c = moving(l, lastlog)
                            if c is None and not any(q not in inv and q != l for q in changed): raise
                            fresh[l] = c; pres[l] = v; blank = e
                z = state(t, pres); pre = z.copy(); setup(t)(z); log0, ex.wlog = ex.wlog, []
                try: post, al, brk = run_body(ex, body, z)
                finally: log, ex.wlog = ex.wlog, log0
                lastlog = log
                rets = fr.rets[sv.r[0]:]; sv.undo(); ex.check = False
                if brk and not rets and brk_sol is None:
                    c = Or(*[q for q, _ in brk]); w = solve_t(c, t) if not has_pre(c) else None
                    if w is not None and (dep(w[0], t) or [x for x in w[1] if not decide(x)]): w = None
                    if w is None: rets = rets or [None]
                if rets:
                    del Ctx.stack[k0:]
                    return search(ex, st, lo, hi, t, setup, body, keep, base, (pre, post, al, brk, [r for r in rets if r is not None]), k1)
                if brk and brk_sol is None:
                    c = Or(*[q for q, _ in brk])
                    if not has_pre(c):
                        w = solve_t(c, t)
                        if w is None or [x for x in w[1] if not decide(x)]: raise Unsupported('break under %r' % c)
                        brk_sol = w[0]
                        if dep(brk_sol, t): raise Unsupported('break')
                        return early(ex, st, lo, hi0, brk_sol, setup, body, keep, skip, n)
                if post is None: raise Unsupported('the body never ends normally')
                new = []
                for l in base:
                    a, b = getl(pre, l), getl(post, l)
                    if l in inv: continue
                    if b is None: raise Unsupported('object replaced')
                    if not vsame(a, b) and l not in changed: new.append(l)
                if new:
                    ints = [l for l in new if isinstance(getl(init, l), I)]
                    if ints and len(ints) < len(new) and not eager: new = ints           # the places written may be indexed by them
                    changed += new
                    for l in new:
                        ghost(l)
                        if l not in inv:
                            w = place(l, log)
                            if w is not None: focus[l] = [w, None]
                    continue
                todo = [l for l in changed if l not in inv]
                if not todo: break
                prog = False; why = []; Cur.hi = hi
                for l in todo:
                    try:
                        if l in fresh and fresh[l] is None:
                            fresh[l] = moving(l, log)         # known once the places it is indexed by are
                            if fresh[l] is None: raise blank
                            prog = True; continue
                        if l in fresh: f = one_each(getl(init, l), getl(post, l), fresh[l], t, lo)
                        elif l in focus:
                            w, e = focus[l]; v = getl(init, l); g = closed(v.get(w), e, getl(post, l).get(w), t, lo); f = lambda T_, v=v, w=w, g=g: v.set(w, g(T_))
                        else:
                            try: f = closed(getl(init, l), pres[l], getl(post, l), t, lo)
                            except (No, Unsupported):
                                c = moving(l, lastlog)
                                if c is None: raise
                                fresh[l] = c; prog = True; continue      # run the iteration again from the elements as they were before the loop
                        inv[l] = f; prog = True
                    except (No, Unsupported) as e: why.append('%s: %s' % (name_of(ex, l), str(e)[:160]))
                if not prog: raise Unsupported('no invariant found: ' + '; '.join(why)[:700])
            else: raise Unsupported('no invariant found in %d rounds' % MAXR)
        finally: sv.undo()
        # the check
        if ex.check:
            for l in changed:
                a = inv[l](lo)
                if not veq(a, getl(init, l)): raise Unsupported('the invariant of %s does not hold on entry' % name_of(ex, l))
            z = state(t, {}); setup(t)(z); r0 = len(fr.rets)
            post, al, brk = run_body(ex, body, z)
            if len(fr.rets) > r0: raise Unsupported('return inside a symbolic loop')
            if brk: raise Unsupported('break')
            keep(post, t)
            with assume(al):
                for l in base:
                    b = getl(post, l); want = inv[l](t + 1) if l in inv else getl(init, l)
                    tr = []
                    if b is None or not veq(b, want, tr):
                        if getattr(ex, 'verbose', 0): print('NOT PRESERVED', name_of(ex, l), [(k, x) for k, x in (b.s[0][2].f.items() if isinstance(b, Vec) and b.s[0][0] == 'd' and isinstance(b.s[0][2], Obj) else ())], '\n  got ', repr(b)[:800], '\n  want', repr(want)[:800], '\n  ', repr(tr[:1])[:1500], '\n', dumpv(b), '\n', dumpv(want))
                        raise Unsupported('the invariant of %s is not preserved' % name_of(ex, l))
        else: keep(post, t)
    if ex.wlog is not None: ex.wlog += [(l[0], tuple(('f', k) if isinstance(k, str) else k for k in l[1]) + ((('x', focus[l][0]),) if l in focus else ())) for l in changed]
    fin = state(hi, {}); st.v = fin.v
    return TRUE
def one_each(init, post, c, t, lo):
    """iteration t writes the element t + c of the vector, as if the earlier iterations had written the elements before it: to be checked"""
    e = post.get(t + c)
    if has_pre(e): raise No('the elements depend on each other')
    n, b = init.s[0][1:]
    def inv(T_):
        with assume(ge(K0, 0), lt(K0, n)):
            w = And(ge(K0, lo + c), lt(K0, T_ + c))
            return Vec([('d', n, vite(w, vsubst(e, {t: K0 - c}), b))])
    return inv
def counters(body):
    """variables the body increments exactly once, at its top level"""
    out = {}
    def walk(n, top):
        if n is None: return
        if n.k == 'UnaryOperator' and n.op in ('++', '--') or n.k == 'CompoundAssignOperator' or (n.k == 'BinaryOperator' and n.op == '='):
            v = n.c[0]
            if v.k == 'DeclRefExpr': out[v.rid] = out.get(v.rid, 0) + (1 if top and n.k == 'UnaryOperator' and n.op == '++' else 2)
        for c in n.c: walk(c, False)
    for c in body.c if body.k == 'CompoundStmt' else [body]: walk(c, c is not None and c.k == 'UnaryOperator')
    return {k for k, x in out.items() if x == 1} if not has_kind(body, 'ContinueStmt') else set()
def search(ex, st, lo, hi, t, setup, body, keep, base, one, k1):
    """the loop is left (break or return) in the first iteration whose condition holds, if there is one; every iteration before it
    changes nothing and what it leaves with does not depend on the iteration"""
    pre, post, al, brk, rets = one; fr = ex.frames[-1]
    cs = [q for q, _ in brk] + [And(*r.stk[k1:]) for r in rets]; c = Or(*cs)
    if has_pre(c): raise Unsupported('loop left under a condition on its own state')
    if len(cs) > 1 and (brk or not all(isinstance(r[1], (I, C)) and vsame(r[1], rets[0][1]) for r in rets)): raise Unsupported('several exits')
    with assume(ge(t, lo), lt(t, hi)):
        if post is not None:
            with assume(al):
                if not infeasible():
                    for l in base:
                        b = getl(post, l)
                        if b is None or not veq(b, getl(pre, l)): raise Unsupported('the loop changes %s before it is left' % name_of(ex, l))
        elif not decide(c): raise Unsupported('the body never ends normally')
    E = exists(t, lo, hi, c)
    z = brk[0][1] if brk else rets[0][2]; out = st.copy()
    with assume(ge(t, lo), lt(t, hi), c):
        for r in rets[1:]:
            for l in base:
                if not veq(getl(z, l), getl(r[2], l)): raise Unsupported('several exits')
    for l in base:
        b = getl(z, l)
        if b is None: raise Unsupported('object replaced')
        if not vsame(b, getl(pre, l)):
            if dep(b, t) or has_pre(b): raise Unsupported('what the loop leaves in %s depends on the iteration' % name_of(ex, l))
            setl(out, l, b)
    if rets:
        v = rets[0][1]
        if v is not None and dep(v, t): raise Unsupported('the returned value depends on the iteration')
        with assume(E): r = X.Ret((And(ex.pathcond(), TRUE), v, out)); r.stk = list(Ctx.stack)
        if r[0] is not FALSE and not decide(Not(E)): fr.rets.append(r)
        return FALSE if decide(E) else Not(E)
    if decide(E): st.v = out.v; return TRUE
    if not decide(Not(E)): st.v = ex.merge(E, out, st.copy()).v
    return TRUE
def early(ex, st, lo, hi, sol, setup, body, keep, skip, n):
    """the loop breaks at t == sol: it runs to min(hi, sol)"""
    if not decide(ge(sol, lo)): raise Unsupported('break before the first iteration')
    h2 = hi if decide(le(hi, sol)) else sol if decide(le(sol, hi)) else iite(le(sol, hi), sol, hi)
    al = symbolic(ex, st, lo, h2, setup, body, keep, skip, n) if not decide(ge(lo, h2)) else TRUE
    c = lt(sol, hi)
    with assume(c):
        if not infeasible():
            z = st.copy(); setup(sol)(z); ref = z.copy(); sv = Saved(ex)
            post, al2, brk = run_body(ex, body, z)
            if al2 is not FALSE or len(brk) != 1: raise Unsupported('break')
            for l in leaves(ref, skip):
                if not veq(getl(ref, l), getl(brk[0][1], l)): raise Unsupported('the iteration that breaks changes %s' % name_of(ex, l))
    return al
def name_of(ex, l):
    d = ex.u.byid.get(l[0]); nm = d.name if d is not None and d.name else ex.names.get(l[0], l[0])
    return '.'.join((str(nm),) + tuple(x if isinstance(x, str) else x[-1] for x in l[1]))
def dumpv(v):
    if isinstance(v, Mat): return 'Mat%r' % (v.d,)
    if isinstance(v, VIte): return '(%r ? %s : %s)' % (v.c, dumpv(v.a), dumpv(v.b))
    if isinstance(v, Vec): return 'Vec' + ','.join(dumpv(x[-1]) if x[0] in 'ic' else dumpv(x[2]) if x[0] == 'd' else repr(x)[:300] for x in v.s)
    return repr(v)[:600]
def while_stmt(ex, n, st):
    from . import texts
    f = as_for(ex, n, st)
    if f is None: return texts.while_stmt(ex, n, st)
    s0 = st.copy()
    try: return for_stmt(ex, f, st)
    except Unsupported as e:
        st.v = s0.v
        try: return texts.while_stmt(ex, n, st)
        except Unsupported: raise e
