"""Text: substrings, searching and left-to-right substitution, and the while loops that compute them.
A text is a sequence of pieces (values.Str).  Extra pieces: ('sub', T, lo, hi) the characters [lo,hi) of the unknown text T;
('subst', T, P, R, p): what is left to write from position p on when every non-overlapping occurrence of P in T is replaced by R, left to right:
    subst(p) = T[p, f) R subst(f + |P|)  where f is the first occurrence of P at or after p;  subst(p) = T[p, end)  when there is none."""
from .terms import *
from .values import *
from . import exec as X
NPOS = 2 ** 64 - 1
def length(t):
    n = toI(0)
    for x in t.p:
        if isinstance(x, str): n = n + len(x)
        elif x[0] == 'sub': n = n + x[3] - x[2]
        elif x[0] == 'sym':
            nm = 'len:' + x[1]; FUN_FACTS.setdefault(nm, lambda a, v: [ge(v, 0), le(v, 2 ** 62)]); n = n + ifun(nm, *x[2])
        else: n = n + ifun('strlen:' + repr(x))
    return n
def one(t): return len(t.p) == 1 and not isinstance(t.p[0], str) and t.p[0][0] == 'sym' and not t.p[0][2]
def find(t, p, pos):
    """first occurrence of p in t at or after pos"""
    pos = toI(pos)
    if t.lit() is not None and p.lit() is not None and pos.const() is not None:
        r = t.lit().find(p.lit(), pos.const()); return toI(r if r >= 0 else NPOS)
    if one(t) and (one(p) or p.lit()):
        nm = 'find:%r:%r' % (t, p); L, m = length(t), length(p)
        FUN_FACTS.setdefault(nm, lambda a, v: [Or(eq(v, NPOS), And(ge(v, a[0]), le(v + m, L))), ge(v, 0)])
        return ifun(nm, pos)
    if p.lit() and pos.const() == 0:
        try: k = _search(t, p.lit())
        except Unsupported:          # somewhere before the first place where it is known to be
            h = [length(Str(t.p[:i])) + x.find(p.lit()) for i, x in enumerate(t.p) if isinstance(x, str) and p.lit() in x]
            if not h: raise
            nm = 'find:%r:%r' % (t, p); FUN_FACTS.setdefault(nm, lambda a, v: [ge(v, 0), le(v, h[0])]); return ifun(nm, pos)
        return toI(NPOS) if k is None else length(Str(t.p[:k[0]])) + k[1]
    raise Unsupported('search of %r in %r' % (p, t))
NOSLASH = set()
def find_last(t, p, any_):
    """last position of a character of p (any_) or of the literal p; unknown pieces named in NOSLASH hold no '/' """
    q = p.lit()
    if not q: raise Unsupported('search of %r' % (p,))
    for k in range(len(t.p) - 1, -1, -1):
        x = t.p[k]
        if isinstance(x, str):
            i = max(x.rfind(c) for c in q) if any_ else x.rfind(q)
            if i >= 0: return length(Str(t.p[:k])) + i
            if any_ or len(q) == 1 or k == 0: continue
        elif x[0] == 'sym' and x[1] in NOSLASH and q == '/': continue
        raise Unsupported('last %r in %r' % (p, t))
    return toI(NPOS)
def sub(t, lo, hi):
    lo, hi = toI(lo), toI(hi)
    if same(lo, hi): return Str(())
    if t.lit() is not None and lo.const() is not None and hi.const() is not None: return S(t.lit()[lo.const():hi.const()])
    if same(lo, 0) and same(hi, length(t)): return t
    if one(t): return Str((('sub', t, lo, hi),))
    # pieces wholly inside or outside
    o = []; off = toI(0)
    for x in t.p:
        n = length(Str((x,))); e = off + n
        if decide(ge(lo, e)) or decide(le(hi, off)): pass
        elif decide(le(lo, off)) and decide(ge(hi, e)): o.append(x)
        elif isinstance(x, str):
            a = toI(0) if decide(le(lo, off)) else lo - off; b = n if decide(ge(hi, e)) else hi - off
            if a.const() is None or b.const() is None: raise Unsupported('substring of %r' % (t,))
            o.append(x[a.const():b.const()])
        else: raise Unsupported('substring of %r' % (t,))
        off = e
    return Str(tuple(o))
# ---------------------------------------------------------------- known text with unknown identifiers in it
IDENT = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_')
def _search(t, p, start=(0, 0)):
    """(piece, offset) of the first occurrence of the literal p in t from start on; the unknown pieces are words (identifier characters only) or text in PLAIN, which is assumed free of placeholders"""
    for k in range(start[0], len(t.p)):
        x = t.p[k]
        if isinstance(x, str):
            b = start[1] if k == start[0] else 0
            q = x.find(p, b)
            if q >= 0: return k, q
            if k + 1 < len(t.p) and any(p.startswith(x[b:][-i:]) for i in range(1, min(len(p), len(x) - b) + 1)): raise Unsupported('%r may match across an unknown piece of text' % p)
            if k > 0 and not isinstance(t.p[k - 1], str) and b == 0 and any(x.startswith(p[i:]) and inside(t.p[k - 1], p[:i]) for i in range(1, len(p))): raise Unsupported('%r may match across an unknown piece of text' % p)
        elif inside(x, p): raise Unsupported('%r may match in %r' % (p, x))
    return None
def inside(x, q):
    """the unknown piece may contain the text q, or end with it"""
    if x[0] == 'int': return all(c in '0123456789-' for c in q)
    if x[0] in ('sym', 'app') and x[1] in WORDS: return set(q) <= IDENT and q not in NOTIN
    if x[0] in ('sym', 'app') and x[1] in PLAIN: return not q.startswith('/*#-')
    if x[0] in ('fam', 'alt'):
        for t in ((x[4],) if x[0] == 'fam' else x[2:]):
            if _search(t, q) is not None: return True
            if t.p and isinstance(t.p[-1], str) and any(q.startswith(t.p[-1][-i:]) for i in range(1, min(len(q), len(t.p[-1])) + 1)): return True
        return False
    return True
PLAIN = {'fname', 'fdescr', 'farg', 'inp', 'gather'}; NOTIN = {'THUNDERROBOT'}
WORDS = {'to_robot', 'robotName'}
def replaced(t, p, r):
    """every non-overlapping occurrence of p in t, left to right, becomes r (contract of replace_all)"""
    if p.lit() is None: raise Unsupported('unknown pattern %r' % (p,))
    q = p.lit()
    if q == '': raise Unsupported('empty pattern')
    out = []; at = (0, 0)
    while True:
        w = _search(t, q, at)
        k1 = w[0] if w else len(t.p)
        for k in range(at[0], k1):
            x = t.p[k]; out.append(x[at[1]:] if k == at[0] and isinstance(x, str) else x)
        if not w: break
        x = t.p[k1]; out.append(x[at[1] if k1 == at[0] else 0:w[1]]); out += list(r.p); at = (k1, w[1] + len(q))
        if at[1] == len(x): at = (k1 + 1, 0)
    return Str(tuple(out))
# ---------------------------------------------------------------- normal form
def norm(t):
    """adjacent parts of one text are joined, empty ones dropped"""
    o = []
    for x in t.p:
        if not isinstance(x, str) and x[0] == 'sub':
            if decide(eq(x[2], x[3])): continue
            if o and not isinstance(o[-1], str) and o[-1][0] == 'sub' and o[-1][1] == x[1] and decide(eq(o[-1][3], x[2])): x = ('sub', x[1], o.pop()[2], x[3])
            if decide(And(eq(x[2], 0), eq(x[3], length(x[1])))): o += list(x[1].p); continue
        o.append(x)
    return Str(tuple(o))
def unfold(x):
    """one step of the definition of subst, as far as the context decides it"""
    _, T_, P_, R_, p = x; f = find(T_, P_, p)
    if decide(eq(f, NPOS)): return sub(T_, p, length(T_))
    if decide(Not(eq(f, NPOS))): return Str(sub(T_, p, f).p + R_.p + (('subst', T_, P_, R_, f + length(P_)),))
    return Str((x,))
def equal(a, b):
    a, b = norm(a), norm(b)
    for n in range(2):
        if len(a.p) == len(b.p) and all(piece_eq(x, y) for x, y in zip(a.p, b.p)): return True
        a, b = [norm(Str(tuple(z for x in t.p for z in (unfold(x).p if not isinstance(x, str) and x[0] == 'subst' and not any(piece_eq(x, y) for y in o.p) else (x,))))) for t, o in ((a, b), (b, a))]
    return len(a.p) == len(b.p) and all(piece_eq(x, y) for x, y in zip(a.p, b.p))
def piece_eq(x, y):
    if isinstance(x, str) or isinstance(y, str): return x == y
    if x[0] != y[0] or len(x) != len(y): return False
    f = lambda p, q: p == q or (isI(p) and isI(q) and decide(eq(p, q)))
    if x[0] == 'sym': return x[1] == y[1] and len(x[2]) == len(y[2]) and all(f(p, q) for p, q in zip(x[2], y[2]))
    return all(f(p, q) for p, q in zip(x[1:], y[1:]))
# ---------------------------------------------------------------- equality of built texts
def compound(t): return any(not isinstance(x, str) and x[0] in ('fam', 'alt', 'app') for x in t.p)
def match(a, b, fuel=4000):
    """proof that two texts are equal in the current context, character by character from the left"""
    f = [fuel]
    return _match(list(a.p), list(b.p), f)
def _len0(x): return decide(ge(x[2], x[3]))
def _same(x, y):
    if x == y: return True
    if isinstance(x, str) or isinstance(y, str) or x[0] != y[0]: return False
    if x[0] == 'int': return decide(eq(x[1], y[1]))
    if x[0] == 'sym': return x[1] == y[1] and len(x[2]) == len(y[2]) and all(p == q or (isI(p) and isI(q) and decide(eq(p, q))) for p, q in zip(x[2], y[2]))
    if x[0] == 'app': return x[1] == y[1] and len(x) == len(y) and all(veq(p, q) for p, q in zip(x[2:], y[2:]))
    return piece_eq(x, y)
def _elem(x, k): return list(vsubst(x[4], {x[1]: toI(k)}).p)
def _match(a, b, f):
    a, b = list(a), list(b)
    while a or b:
        f[0] -= 1
        if f[0] < 0: return False
        if infeasible(): return True
        for z in (a, b):          # empty families, decided alternatives
            while z and not isinstance(z[0], str):
                x = z[0]
                if x[0] == 'fam' and _len0(x): z.pop(0)
                elif x[0] == 'alt' and decide(x[1]): z[:1] = list(x[2].p)
                elif x[0] == 'alt' and decide(Not(x[1])): z[:1] = list(x[3].p)
                elif x[0] == 'int' and (k := _value(x[1])) is not None: z[0] = str(k)
                else: break
            while len(z) > 1 and isinstance(z[0], str) and isinstance(z[1], str): z[:2] = [z[0] + z[1]]
            if z and z[0] == '': z.pop(0)
        if not a and not b: return True
        x, y = (a[0] if a else None), (b[0] if b else None)
        if isinstance(x, str) and isinstance(y, str):
            k = min(len(x), len(y))
            if not k or x[:k] != y[:k]: return False
            a[:1] = [x[k:]] if x[k:] else []; b[:1] = [y[k:]] if y[k:] else []
            continue
        if x is not None and y is not None and _same(x, y): a.pop(0); b.pop(0); continue
        for p, q in ((a, b), (b, a)):
            if p and not isinstance(p[0], str) and p[0][0] == 'alt':
                z = p[0]
                for c, v in ((z[1], z[2]), (Not(z[1]), z[3])):
                    with assume(c):
                        if not infeasible() and not _match(list(v.p) + p[1:], q, f): return False
                return True
        fx = x is not None and x[0] == 'fam' and not isinstance(x, str); fy = y is not None and y[0] == 'fam' and not isinstance(y, str)
        if fx and fy and same(x[2], y[2]):
            for p, q in ((x, y), (y, x)):
                if decide(le(p[3], q[3])):
                    w = ivar('w', p[2], p[3])
                    with assume(ge(w, p[2]), lt(w, p[3])):
                        if not infeasible() and not _match(_elem(p, w), _elem(q, w), f): return False
                    r = [] if same(p[3], q[3]) else [('fam', q[1], p[3], q[3], q[4])]
                    if p is x: a.pop(0); b[:1] = r
                    else: b.pop(0); a[:1] = r
                    break
            else: return False
            continue
        done = False
        for p in ([b, a] if fy else [a]) if fx or fy else ():
            z = p[0]
            if isinstance(z, str) or z[0] != 'fam': continue
            if decide(lt(z[2], z[3])): p[:1] = _elem(z, z[2]) + [('fam', z[1], z[2] + 1, z[3], z[4])]; done = True; break
        if done: continue
        for p, q in ((a, b), (b, a)):
            if p and not isinstance(p[0], str) and p[0][0] == 'fam':
                z = p[0]; c = lt(z[2], z[3])
                with assume(c): ok = infeasible() or _match(p, q, f)
                if not ok: return False
                with assume(Not(c)): return infeasible() or _match(p[1:], q, f)
        return False
    return True
def join(v):
    """a conditional text as one text"""
    if not isinstance(v, VIte): return v
    if decide(v.c): return join(v.a)
    if decide(Not(v.c)): return join(v.b)
    with assume(v.c): a = join(v.a)
    with assume(Not(v.c)): b = join(v.b)
    if not isinstance(a, Str) or not isinstance(b, Str): raise Unsupported('text %r' % (v,))
    k = 0
    while k < len(a.p) and k < len(b.p) and a.p[k] == b.p[k]: k += 1
    x, y = Str(a.p[k:]), Str(b.p[k:])
    return Str(a.p[:k] + (('alt', v.c, x, y),)) if x != y else a
def _value(e):
    if e.const() is not None: return e.const()
    for k in (0, 1):
        if decide(eq(e, k)): return k
    return None
# ---------------------------------------------------------------- while loops
def while_stmt(ex, n, st):
    """proved with an invariant given by a hint: h(ex, fn, init, mods) -> list of (havoc, check) candidates
       havoc: {place: value} for every place the loop changes; check(state) -> (invariant holds, variant)"""
    cond, body = n.c[0], n.c[1]; fn = ex.cur[-1] if ex.cur else ''
    init = st.copy(); mods = set()
    for r in range(4):           # what the loop changes
        log0, ex.wlog = ex.wlog, []
        z = init.copy(); k0 = ex.check; ex.check = False
        try:
            for l in mods: z.v[l] = fresh(z.v[l])
            try:
                c, al = ex.full(cond, z); cc = X.asC(c)
                with assume(cc): run = not infeasible() and loops.run_body(ex, body, z)
            finally: log, ex.wlog = ex.wlog, log0; ex.check = k0
        except Unsupported as e: raise Unsupported('loop body: %s' % e)
        new = {l for l, _ in log if l in init.v} - mods
        if not new: break
        mods |= new
    why = 'no invariant'
    for h in ex.hints:
        for hav, holds in getattr(h, 'whiles', lambda *a: ())(ex, fn, init, mods):
            try:
                ok, _ = holds(init)
                if not ok: why = 'the invariant does not hold on entry'; continue
                z = init.copy(); facts = []
                for l, (v, fs) in hav.items(): z.v[l] = v; facts += fs
                with assume(*facts):
                    pre = z.copy(); c, al = ex.full(cond, z); cc = X.asC(c)
                    if al is not TRUE: raise Unsupported('exit in the loop condition')
                    after = z.copy(); _, v0 = holds(pre)
                    with assume(cc):
                        nr = len(ex.frames[-1].rets); post, al2, brk = loops.run_body(ex, body, z)
                        if brk or len(ex.frames[-1].rets) > nr or post is None or al2 is not TRUE: raise Unsupported('exit from the loop body')
                        ok, v1 = holds(post)
                        if not ok: why = 'the invariant is not preserved'; continue
                        if not (decide(ge(v0, 0)) and decide(lt(v1, v0))): why = 'no progress: the loop may not terminate'; continue
                        for l in init.v:
                            if l not in hav and not isinstance(post.v[l], X.LV) and not veq(post.v[l], init.v[l]): raise Unsupported('the loop changes %s' % l)
                ex.after = facts + [Not(cc)]; ex.after_state = pre
                for x in ex.after: Ctx.stack.append(x)        # popped with the enclosing block of the function
                st.v = after.v; return TRUE
            except Unsupported as e: why = str(e)
    raise Unsupported('while loop: %s' % why)
def fresh(v):
    if isinstance(v, Str): return Str((('sym', 'h%d' % next(loops._n), ()),))
    if isinstance(v, I) or v is UNDEF: return ivar('h%d' % next(loops._n), 0, None)
    raise Unsupported('while loop changes %r' % (v,))
from . import loops
