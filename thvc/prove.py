"""Entry point of the prover for one property: runs its obligations in parallel processes and reports their fate.

An obligation is a python function registered with @ob(property, name).  It executes functions of /repo symbolically (exec.py)
and states goals; a goal is discharged when the decision procedures of terms.py/values.py (z3 for the integer part) accept it for every
value of every symbol; it is refuted when a concrete point is found at which it is false; otherwise it is unproved."""
import signal, os, re, sys, time, random, traceback, hashlib, math, importlib
import multiprocessing as mp
from . import ast as A
from .exec import *
from . import terms as T
LEVEL = {'C%02d' % i: 'proof' for i in range(1, 19)}
_B = ' Doubles and SX scalars are mathematical reals, int is unbounded. The bounded companion (real code against an independent reference) is run beside it and never counted as proof.'
_M = 'Every number of joints, joint types, parameter and state values; the expressions the library registers are proved equal to the specification.'
_F = 'Every document and robot of every size. yaml-cpp is a contract: emitted values are read back unchanged, maps keep their order, keys listed in the assumptions exist and convert.'
NOTE = {k: v + _B for k, v in dict(
    C01=_M + ' Induction over the chain.', C02=_M + ' The derivative of the chain is an induction obligation; every proper rotation has Euler angles (assumed).',
    C03=_M + ' CasADi jtimes and the matrix inverse are contracts.', C04=_M + ' Positive semi-definiteness: x^T M x is proved to be a sum of m|v|^2 + |L^T R^T w|^2 for body inertias I = L L^T.',
    C05=_M + ' CasADi jacobian = derivative (contract).', C06=_M, C07=_M + ' CasADi jacobian/jtimes = derivative (contract).', C08=_M + ' CasADi jacobian of an expression linear in the parameters (contract).',
    C09=_M + ' Every order, every pattern of elastic joints.', C10=_M, C11='Every parameter vector with non-zero masses, every number of links, library and generated class.',
    C12='Every selection pattern and every number of joints; the model map is proved entry by entry.', C13='Every vector and every size, library and generated class.',
    C14=_F, C15=_F + ' The round trip is the composition of the save and the load contracts.',
    C16='Proved: the text and the argument lists of every generated function, what the generator is asked to emit. Trusted: CasADi code generation and the C compiler (the bounded companion compares the compiled library with the in-process model).',
    C17='Every rotation, mass and inertia; library, template and URDF converter copies.', C18='Every template text with any number of placeholders, every robot name that is an identifier.').items()}
TRUSTED_BASE = ['clang 18 AST dump of the real source', 'thvc symbolic semantics of C++/CasADi SX/Eigen/yaml-cpp operations (thvc/exec.py, values.py)',
                'thvc normal form of real polynomials and integer terms (thvc/terms.py)', 'z3 4.8.12 for linear integer side conditions',
                'real arithmetic: doubles and CasADi scalars are treated as mathematical reals', 'CasADi jacobian/jtimes/gradient = mathematical derivative']
OBS = {}
def ob(pid, name, replay=(), tmo=120, internal=False):
    def d(f):
        for p in (pid if isinstance(pid, (list, tuple)) else [pid]): OBS.setdefault(p, []).append(dict(name=name, f=f, replay=list(replay), tmo=tmo, internal=internal))
        return f
    return d
def rnd(*k):
    h = hashlib.sha256(repr(k).encode()).digest(); return int.from_bytes(h[:6], 'big') / 2.**48
class P:
    """collects the goals of one obligation"""
    def __init__(s, name): s.name = name; s.goals = []; s.entered = set(); s.used = set(); s.assumed = []; s.opaque = set(); s.exs = []
    def exec(s, unit, contracts=None, **kw):
        if s.inline: contracts = {k: c for k, c in (contracts or {}).items() if k not in unit.funs}
        e = Exec(unit, contracts, **kw); s.exs.append(e); return e
    inline = False
    def assume_note(s, t):
        if t not in s.assumed: s.assumed.append(t)
    def add(s, label, ok, why='', refuted=False):
        s.goals.append((label, 'discharged' if ok else 'refuted' if refuted else 'unproved', why))
        return ok
    def goal(s, label, a, b):
        if infeasible(): return s.add(label, False, 'vacuous: the context is contradictory')
        if a is UNDEF and b is not UNDEF: return s.missing(label)
        tr = []
        try: ok = veq(a, b, tr)
        except Unsupported as e: return s.add(label, False, 'outside reach: %s' % e)
        if ok: return s.add(label, True)
        for st, r in tr[:3]:
            w = s.point(st, r)
            if w: return s.add(label, False, w, True)
        for st in [None] + [st for st, r in tr[:2]]:
            try: w = s.concrete(a, b, st)
            except (Unsupported, RecursionError): w = None
            if w: return s.add(label, False, w, True)
        return s.add(label, False, 'difference: %s' % (repr(tr[0][1])[:300] if tr else '?'))
    def missing(s, label):
        """the result has no such entry: refuted when the context has a concrete point"""
        names = {x.name: x for c in Ctx.stack for x in iatoms_of(c) if x.kind == 'v'}; tr = Trial(names, Ctx.stack, 3); t0 = time.time()
        for t in range(200):
            try:
                if time.time() - t0 < 10 and tr.env(t): return s.add(label, False, 'there is no such entry at %s' % tr.where(), True)
            except (Unsupported, ZeroDivisionError, OverflowError, KeyError, IndexError): continue
        return s.add(label, False, 'there is no such entry')
    def concrete(s, a, b, stack=None):
        """evaluates both values at concrete points of the context and compares them"""
        names = {}; seen = set()
        cvars(a, names, seen); cvars(b, names, seen)
        for c in stack or Ctx.stack:
            for x in iatoms_of(c):
                if x.kind == 'v': names[x.name] = x
        if any(str(n).startswith('PRE') for n in names): return None
        tr = Trial(names, stack or Ctx.stack, 11, reals(seen)); t0 = time.time()
        for t in range(300):
            if time.time() - t0 > (5 if stack else 10): return None
            try:
                env = tr.env(t)
                if env is None: continue
                d = cdiff(cv(a, env), cv(b, env), '')
                if d: return 'difference at %s: %s' % (tr.where(), d[:250])
            except (Unsupported, ZeroDivisionError, OverflowError, KeyError, IndexError): continue
        return None
    def point(s, stack, r):
        """a concrete point of the context at which r is not zero"""
        if isinstance(r, tuple):
            x, y = r
            if isinstance(x, Mat) and isinstance(y, Mat): r = None; dims = (x, y)
            else: return None
        else: dims = None
        if dims is None:
            if s.opaque and any(a.kind == 'var' and (a.name in s.opaque or a.name.startswith(('PRE', 'undef'))) for a in all_atoms(r)): return None
        names = {}
        def ints(c):
            for a in iatoms_of(c):
                if a.kind == 'v': names[a.name] = a
        for c in stack: ints(c)
        if dims is None:
            for a in all_atoms(r):
                for x in a.args:
                    if isinstance(x, I):
                        for y in deep_ints(x): names[y.name] = y
        else:
            for m in dims:
                for x in (m.r, m.c):
                    for y in deep_ints(x): names[y.name] = y
        seen = set(); cvars(r, {}, seen) if dims is None else None
        tr = Trial(names, stack, 7, reals(seen)); t0 = time.time()
        for t in range(300):
            if time.time() - t0 > 15: return None
            try:
                env = tr.env(t, text=False)
                if env is None: continue
                if dims:
                    a = [(ei(m.r, env), ei(m.c, env)) for m in dims]
                    if a[0] != a[1]: return 'shapes %r and %r at %s' % (a[0], a[1], tr.where())
                    continue
                v = ep(r, env)
                if abs(v) > 1e-6 and math.isfinite(v): return 'difference %.6g at %s, residue %s' % (v, tr.where(), repr(r)[:200])
            except (Unsupported, ZeroDivisionError, OverflowError, KeyError, IndexError): continue
        return None
    def cond(s, label, c):
        """the condition holds in the context; refuted by a concrete point"""
        c = toC(c)
        if decide(c): return s.add(label, True)
        names = {}
        for x in list(Ctx.stack) + [c]:
            for a in iatoms_of(x):
                if a.kind == 'v': names[a.name] = a
        tr = Trial(names, Ctx.stack, 7); t0 = time.time()
        for t in range(300):
            if time.time() - t0 > 15: break
            try:
                env = tr.env(t, text=False)
                if env is not None and not ec(c, env): return s.add(label, False, 'fails at %s: %r' % (tr.where(), c), True)
            except (Unsupported, ZeroDivisionError, OverflowError, KeyError, IndexError): continue
        return s.add(label, False, 'not derivable: %r' % (c,))
    def holds(s, label, c):
        if infeasible(): return s.add(label, False, 'vacuous: the context is contradictory')
        if decide(c): return s.add(label, True)
        if decide(Not(c)): return s.add(label, False, 'never holds', True)
        return s.add(label, False, 'not derivable: %r' % (c,))
    def has(s, label, ok):
        """a fact about the shape of a result; where it does not hold the obligation is open, not refuted"""
        if infeasible(): return s.add(label, False, 'vacuous: the context is contradictory')
        return s.add(label, bool(ok), '' if ok else 'the result has another shape')
class Trial:
    """concrete points of a context: random values, then repaired condition by condition"""
    def __init__(s, names, stack, seed, conds=()):
        s.conds = list(conds); s.stack = list(stack); s.g = random.Random(seed); s.names = names
        s.facts = [f for x in names.values() for f in x.facts]; s.lits = set(); s.words = {}
    def env(s, t, text=True):
        s.iv = {n: s.g.randrange(0, 5) for n in s.names}; s.fi, s.fp, s.fr = {}, {}, {}; s.words = {}
        def pred(n, x):
            if n == 'streq' and text:          # unknown texts are rendered by their own names: distinct ones differ
                r = rendered(x, s.word, s.lits)
                if r is None: raise Unsupported('text')
                return r
            if n == 'rlt': return x[0] < x[1]
            if n == 'req': return x[0] == 0
            k = (n, tuple(x)); return s.fp[k] if k in s.fp else rnd(t, n, x) < .5
        def ifn(n, x):
            k = (n, tuple(x)); v = s.fi[k] if k in s.fi else int(4 * rnd(t, n, x))
            for f in T.FUN_FACTS[n]([toI(y) for y in x], toI(v)) if n in T.FUN_FACTS else ():
                if not ec(f, s.e): raise Unsupported('fact')
            return v
        e = s.e = Env(s.iv, None, pred, ifn)
        def rv(n, i):
            if str(n).startswith('PRE'): raise Unsupported('trial value')
            if (n, tuple(i)) in s.fr: return s.fr[n, tuple(i)]
            return T.EVAL[n](e, i) if n in T.EVAL else minv_at(n, i, e) if str(n).startswith('minv') else 4 * rnd(t, n, i) - 2
        e.rv = rv; e.word = s.word
        cs = s.stack + s.facts
        if s.conds and t % 3:              # also in the region that one comparison of reals inside the values selects
            c = s.g.choice(s.conds); m = {toI(a): toI(s.g.choice((0, 0, 1, 2))) for a in iatoms_of(c) if a.kind == 'b'}; c = csubst(c, m) if m else c
            cs = cs + [c if s.g.random() < .5 else Not(c)]
        for _ in range(30):
            bad = [c for c in cs if not ec(c, e)]
            if not bad: return e
            for c in bad: s.fix(c, True)
        return None
    def word(s, name, args):
        """the word an unknown text stands for: usually its own name, sometimes one of the literals it is compared with; different ones differ"""
        if name in ('chr', 'chx'): return chr(int(args) % 256)
        k = (name, args)
        if k not in s.words:
            w = '<%s[%s]>' % k; free = sorted(s.lits - set(s.words.values()))
            s.words[k] = s.g.choice(free) if free and s.g.random() < .3 else w
        return s.words[k]
    def where(s): return repr({**{n + x.join('[]'): w for (n, x), w in s.words.items() if w[:1] != '<'}, **{str(k): v for k, v in s.iv.items()}, **{'%s%s' % (n, list(x) if x else ''): v for (n, x), v in s.fi.items()}})[:300]
    def fix(s, c, want):
        """makes a condition true (or false) by changing one of its symbols"""
        if c.op in ('true', 'false') or ec(c, s.e) == want: return
        if c.op == 'not': return s.fix(c.a[0], not want)
        if c.op in ('and', 'or'):
            if (c.op == 'and') == want:
                for x in c.a: s.fix(x, want)
            else: s.fix(s.g.choice(c.a), want)
        elif c.op in ('ge0', 'eq0'):
            v = ei(c.a[0], s.e)
            s.move(c.a[0], (-v if c.op == 'eq0' else -v + s.g.choice((0, 0, 1, 2))) if want else (s.g.choice((-1, 1)) if c.op == 'eq0' else -v - 1 - s.g.choice((0, 0, 1))))
        elif c.op == 'ex': pass
        elif c.a[0] in ('rlt', 'req'): s.real(c, want)
        else: s.fp[(c.a[0], tuple(ei(x, s.e) if isinstance(x, I) else ep(x, s.e) if isinstance(x, Poly) else x for x in c.a[1:]))] = want
    def real(s, c, want):
        """makes a comparison of reals true (or false) by changing one real symbol"""
        p = c.a[2] - c.a[1] if c.a[0] == 'rlt' else c.a[1]; d = s.g.choice((.25, .25, 1e-3, 1e-5, 3., 40.))
        goal = (d if want else s.g.choice((0., -d))) if c.a[0] == 'rlt' else (0. if want else d)
        at = [a for a in sorted(all_atoms(p), key=lambda a: a.uid) if a.kind == 'var' and a.name not in T.EVAL and not str(a.name).startswith(('PRE', 'minv'))]
        if not at: return
        free = [a for a in at if any(isinstance(x, I) and any(y.kind == 'b' for y in x.atoms()) for x in a.args)]
        if free and len(free) <= 2 and all(len(a.args) == 1 for a in free):      # a norm: makes the vectors equal, or one of them zero
            for far in s.g.choice(((0., 1.), (0., 1.), (1., 0.))):
                for v in range(40): s.fr[free[-1].name, (v,)] = (s.e.rv(free[0].name, [v]) if len(free) == 2 else 0.) + far
                if ec(c, s.e) == want: return
            return
        a = s.g.choice(at); i = tuple(ei(x, s.e) if isinstance(x, I) else x for x in a.args); k = (a.name, i); x = s.e.rv(a.name, list(i))
        for _ in range(4):
            s.fr[k] = x; f = ep(p, s.e) - goal; s.fr[k] = x + .01; g = (ep(p, s.e) - goal - f) / .01
            if abs(f) < 1e-12 or abs(g) < 1e-9: break
            x -= f / g
        s.fr[k] = float(x)
        if c.a[0] == 'req' and want or goal == 0.:
            s.fr[k] = 0.; z = ep(p, s.e)
            for r in (x, -z, z, round(x, 12), round(x, 6), round(x, 3)):
                s.fr[k] = r
                if ec(c, s.e) == want: return
            s.fr[k] = x
    def move(s, e, d, depth=0):
        """adds d to the value of an expression"""
        def settable(a): return a.kind in ('v', 'f') or a.kind == 'cnt' and depth < 3 or a.kind == 'iite' and depth < 3 and ((a.args[1] if ec(a.args[0], s.e) else a.args[2]).atoms() or 1)
        ms = []
        for m, c in e.t:
            for i, a in enumerate(m):
                k = c
                for j, b in enumerate(m):
                    if j != i: k *= T.eia(b, s.e)
                if k and d % k == 0 and settable(a): ms.append((a, int(d // k)))
        if not ms: return
        a, x = s.g.choice(ms)
        if a.kind == 'v': s.iv[a.name] = T.eia(a, s.e) + x
        elif a.kind == 'f':
            k = (a.name, tuple(ei(y, s.e) for y in a.args)); v = T.eia(a, s.e) + x
            if v >= 0: s.fi[k] = v
        elif a.kind == 'cnt':          # makes that many instances of the counted condition true (or false)
            b = list(a.args[0].atoms())[0]; old = s.e.b.get(b)
            for v in range(ei(a.args[1], s.e), min(ei(a.args[2], s.e), 60)):
                if not x: break
                s.e.b[b] = v
                if ec(a.args[3], s.e) != (x > 0): s.fix(a.args[3], x > 0); x += -1 if x > 0 else 1
            if old is None: s.e.b.pop(b, None)
            else: s.e.b[b] = old
        elif s.g.random() < .3: s.fix(a.args[0], not ec(a.args[0], s.e))
        else: s.move(a.args[1] if ec(a.args[0], s.e) else a.args[2], x, depth + 1)
def reals(seen): return sorted([x[1] for x in seen if isinstance(x, tuple)], key=lambda c: c.uid)
def cvars(v, out, seen):
    """the integer symbols of a value"""
    def at(x):
        if x in seen: return
        seen.add(x)
        if isinstance(x, T.IAtom) and x.kind == 'v': out[x.name] = x
        for y in x.args: cvars(y, out, seen)
    if isinstance(v, (I, Poly)):
        for x in v.atoms(): at(x)
    elif isinstance(v, (T.IAtom, T.RAtom)): at(v)
    elif isinstance(v, C):
        if v.op == 'atom' and v.a[0] in ('rlt', 'req'): seen.add(('real', v))
        for x in v.a: cvars(x, out, seen)
    elif isinstance(v, Mat):
        for x in (v.r, v.c) + tuple(v.d.values()): cvars(x, out, seen)
    elif isinstance(v, Str):
        for x in v.p:
            if not isinstance(x, str): cvars(x[1] if x[0] == 'int' else x[2] if x[0] == 'sym' else tuple(x[1:]), out, seen)
    elif isinstance(v, (tuple, list)):
        for x in v: cvars(x, out, seen)
    elif isinstance(v, Vec): cvars(tuple(v.s), out, seen)
    elif isinstance(v, VIte): cvars((v.c, v.a, v.b), out, seen)
    elif isinstance(v, Obj): cvars(tuple(v.f.values()), out, seen)
    elif isinstance(v, Tup): cvars(tuple(v.x), out, seen)
    elif isinstance(v, SegMat): cvars((v.v, v.rows), out, seen)
    elif isinstance(v, YNode): cvars(v.p, out, seen)
    elif isinstance(v, Map): cvars((tuple(v.base.values()), v.log), out, seen)
LIM = 40
def cv(v, env):
    """the value at a concrete point"""
    if isinstance(v, bool): return v
    if isinstance(v, C): return ec(v, env)
    if isinstance(v, I): return float(ei(v, env))
    if isinstance(v, Poly): return ep(v, env)
    if isinstance(v, (int, float, Q)): return float(v)
    if isinstance(v, Mat):
        r, c = ei(v.r, env), ei(v.c, env)
        if not (0 <= r <= LIM and 0 <= c <= LIM): raise Unsupported('size')
        m = [[ep(v.get(toI(i), toI(j)), env) for j in range(c)] for i in range(r)]
        return m[0][0] if (r, c) == (1, 1) else ('mat', (r, c), m)
    if isinstance(v, Str) and any(not isinstance(x, str) and x[0] not in ('int', 'sym') for x in v.p):
        o = []
        for x in v.p:
            if isinstance(x, str) or x[0] in ('int', 'sym'): o.append(cv(Str((x,)), env))
            elif x[0] == 'alt': o.append(cv(x[2] if ec(x[1], env) else x[3], env))
            elif x[0] == 'app': o.append('<%s%r>' % (x[1], [cv(y, env) for y in x[2:]]))
            elif x[0] == 'fam':
                lo, hi = ei(x[2], env), ei(x[3], env)
                if hi - lo > LIM: raise Unsupported('size')
                o += [cv(vsubst(x[4], {x[1]: toI(k)}), env) for k in range(lo, hi)]
            else: raise Unsupported('text')
        return ''.join(o)
    if isinstance(v, Str): return ''.join(x if isinstance(x, str) else str(ei(x[1], env)) if x[0] == 'int' else env.word(x[1], ', '.join(str(ei(y, env)) if isinstance(y, I) else repr(y) for y in x[2])) for x in v.p)
    if isinstance(v, VIte): return cv(v.a if ec(v.c, env) else v.b, env)
    if isinstance(v, Tup): return ('tup', [cv(x, env) for x in v.x])
    if isinstance(v, Obj): return ('obj', {k: cv(x, env) for k, x in v.f.items()})
    if isinstance(v, YNode): return ('yaml', [cv(x, env) if isinstance(x, Str) else ei(x[1], env) for x in v.p])
    if isinstance(v, Vec):
        o = []
        for x in v.s:
            if x[0] == 'i': o.append(cv(x[1], env))
            elif x[0] == 'c':
                if ec(x[1], env): o.append(cv(x[2], env))
            elif x[0] in 'df':
                lo, hi = (0, ei(x[1], env)) if x[0] == 'd' else (ei(x[2], env), ei(x[3], env)); w = K0 if x[0] == 'd' else x[1]
                if hi - lo > LIM: raise Unsupported('size')
                for k in range(lo, hi):
                    for c, y in ((TRUE, x[2]),) if x[0] == 'd' else x[4]:
                        m = {w: toI(k)}
                        if c is TRUE or ec(csubst(c, m), env): o.append(cv(vsubst(y, m), env))
            else: raise Unsupported('trial vector')
        return ('vec', o)
    if isinstance(v, SegMat):
        o = cv(v.v, env)[1]
        if v.rows is None: return o[0] if len(o) == 1 else ('mat', (len(o), 1), [[x] for x in o])
        r = ei(v.rows, env); cs = [x[2] if isinstance(x, tuple) else [[x]] for x in o]
        if any(len(x) != r or len(x[0]) != 1 for x in cs if r): raise Unsupported('columns')
        m = [[x[i][0] for x in cs] for i in range(r)]
        return m[0][0] if (r, len(cs)) == (1, 1) else ('mat', (r, len(cs)), m)
    if isinstance(v, Map):
        d = {k: cv(x, env) for k, x in v.base.items()}
        for e in v.log:
            if e[0] == 'w':
                if ec(e[1], env): d[cv(e[2], env)] = cv(e[3], env)
            elif e[0] == 'f':
                for k in range(ei(e[2], env), ei(e[3], env)):
                    m = {e[1]: toI(k)}
                    if ec(csubst(e[4], m), env): d[cv(vsubst(e[5], m), env)] = cv(vsubst(e[6], m), env)
            else: raise Unsupported('trial map')
        return ('map', d)
    raise Unsupported('no concrete value of %r' % (type(v),))
def cdiff(a, b, path):
    """the first difference of two concrete values"""
    if isinstance(a, bool): a = float(a)
    if isinstance(b, bool): b = float(b)
    if isinstance(a, float) and isinstance(b, float): return None if a == b or not (math.isfinite(a) and math.isfinite(b)) or abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b)) else '%s: %.6g instead of %.6g' % (path, a, b)
    if isinstance(a, str) and isinstance(b, str) and a != b and len(a) + len(b) > 200:
        k = 0
        while k < len(a) and k < len(b) and a[k] == b[k]: k += 1
        return '%s: %r instead of %r after %r' % (path, a[k:k + 60], b[k:k + 60], a[max(0, k - 40):k])
    if isinstance(a, str) or isinstance(b, str) or isinstance(a, float) or isinstance(b, float) or a[0] != b[0]: return None if a == b else '%s: %r instead of %r' % (path, a, b)
    if a[0] == 'mat':
        if a[1] != b[1]: return '%s: shape %r instead of %r' % (path, a[1], b[1])
        for i, (x, y) in enumerate(zip(a[2], b[2])):
            for j, (p, q) in enumerate(zip(x, y)):
                d = cdiff(p, q, '%s(%d,%d)' % (path, i, j))
                if d: return d
        return None
    if a[0] == 'map' and set(a[1]) != set(b[1]):
        # reading a missing entry inserts an empty one: not a difference
        void = lambda v: isinstance(v, tuple) and (v[0] == 'mat' and not (v[1][0] and v[1][1]) or v[0] in ('vec', 'list') and not v[1])
        com = set(a[1]) & set(b[1]); a, b = ((x[0], {k: v for k, v in x[1].items() if k in com or not void(v)}) for x in (a, b))
    if a[0] in ('obj', 'map'):
        if set(a[1]) != set(b[1]): return '%s: keys %r' % (path, sorted(map(str, set(a[1]) ^ set(b[1]))))
        it = [(k, a[1][k], b[1][k]) for k in sorted(a[1], key=str)]
    else:
        if len(a[1]) != len(b[1]): return '%s: %d entries instead of %d' % (path, len(a[1]), len(b[1]))
        it = [(k, x, y) for k, (x, y) in enumerate(zip(a[1], b[1]))]
    for k, x, y in it:
        d = cdiff(x, y, '%s[%s]' % (path, k)) if not isinstance(x, int) else (None if x == y else '%s[%s]: %r instead of %r' % (path, k, x, y))
        if d: return d
    return None
def minv_at(name, i, env):
    """entry of a matrix inverse at a concrete point"""
    import numpy as np
    for a, r in INV:
        (m, c), = r.get(0, 0).d.items()
        if m[0][0].name == name:
            n = ei(a.r, env); b = env.b; env.b = {}
            try: w = np.linalg.inv(np.array([[ep(a.get(x, y), env) for y in range(n)] for x in range(n)]))
            finally: env.b = b
            return float(w[i[0]][i[1]])
    raise Unsupported(name)
def deep_ints(e):
    return [a for a in T._deep(e) if a.kind == 'v']
def _clear(p):
    """clears denominators of several terms; p == 0 iff the result is, where the denominators are not zero"""
    best = {}
    for m in p.d:
        for a, e in m:
            if a.kind == 'fn' and a.name == 'inv' and len(a.args[0].d) > 1: best[a] = max(best.get(a, 0), e)
    if not best: return None
    a, k = list(best.items())[0]; P_ = a.args[0]; Cleared.seen.add(P_)
    r = ZERO
    for m, c in p.d.items():
        e = dict(m).get(a, 0)
        r = r + Poly({tuple(x for x in m if x[0] is not a): c}) * P_ ** (k - e)
    return r
class Cleared: seen = set()
T.REDUCERS.append(_clear)

def _one(conn, o, tier):
    sys.setrecursionlimit(20000)
    p = P(o['name']); t0 = time.time()
    try: o['f'](p)
    except Unsupported as e: p.goals.append(('*', 'unproved', 'outside reach: %s' % e))
    except RecursionError: p.goals.append(('*', 'unproved', 'outside reach: recursion'))
    except Exception: p.goals.append(('*', 'unproved', 'prover error: ' + traceback.format_exc()[-600:]))
    if any(g[1] == 'refuted' for g in p.goals):     # the contract of a callee may have changed together with its callers: the same obligation through the callees' bodies
        q = P(o['name']); q.inline = True
        def stop(*a): raise TimeoutError()
        try:
            signal.signal(signal.SIGALRM, stop); signal.alarm(45); o['f'](q)
            if q.goals and [g[0] for g in q.goals] == [g[0] for g in p.goals] and all(g[1] == 'discharged' for g in q.goals): p = q; p.assume_note('proved through the bodies of its callees')
        except BaseException: pass
        finally: signal.alarm(0)
    ent = set(); used = set()
    for e in p.exs: ent |= set(e.entered); used |= set(map(str, e.used))
    for q in Cleared.seen: p.assume_note('denominator is not zero: %s' % repr(q)[:120])
    conn.send(dict(goals=p.goals, entered=sorted(ent, key=repr), used=sorted(used), assumed=p.assumed, t=time.time() - t0, splits=T.Stats.splits, n=T.Stats.goals)); conn.close()
def load():
    d = os.path.dirname(__file__)
    for f in sorted(os.listdir(d)):
        if f.startswith('sp_') and f.endswith('.py'): importlib.import_module('thvc.' + f[:-3])
def run(pid, tier, only=None, verbose=False, nproc=8):
    load(); obs = [o for o in OBS.get(pid, []) if only is None or only in o['name']]
    res = dict(obligations=[], undecided=[], functions=[], assumptions=[], solver={})
    if not obs: return res
    try: A.library()
    except Exception as e:
        res['undecided'].append('the source cannot be read: %s' % str(e)[:300]); return res
    ctx = mp.get_context('fork'); todo = list(obs); live = []; fns = {}; ass = []; used = set(); tt = 0.; nz = 0; end = time.time() + (300 if tier == 'quick' else 780)
    done = {}
    while todo or live:
        while todo and len(live) < nproc:
            o = todo.pop(0); r, w = ctx.Pipe(False); pr = ctx.Process(target=_one, args=(w, o, tier)); pr.start(); w.close(); live.append((o, pr, r, time.time()))
        for x in list(live):
            o, pr, r, t0 = x; g = None; lim = o['tmo'] * (1 if tier == 'quick' else 6)
            if r.poll(0.005):
                try: g = r.recv()
                except EOFError: g = dict(goals=[('*', 'unproved', 'prover process ended')], entered=[], used=[], assumed=[], t=0, n=0)
            elif time.time() - t0 > lim or time.time() > end: g = dict(goals=[('*', 'unproved', 'no answer in %d s' % lim)], entered=[], used=[], assumed=[], t=lim, n=0)
            if g is None: continue
            pr.terminate(); pr.join(); live.remove(x); done[o['name']] = g
            if verbose: print('%-50s %5.1fs %s' % (o['name'], g['t'], {k: sum(q[1] == k for q in g['goals']) for k in ('discharged', 'refuted', 'unproved')}), flush=True)
    for o in obs:
        g = done[o['name']]
        for lab, stt, why in g['goals']:
            if lab == '*': res['undecided'].append('%s: %s' % (o['name'], why))
            if o['internal'] and stt == 'refuted': stt, why = 'unproved', 'the contract of this helper fails: ' + why
            res['obligations'].append(dict(name='%s: %s' % (o['name'], lab) if lab != '*' else o['name'], status=stt, why=why, replay=o['replay']))
        if not g['goals']: res['obligations'].append(dict(name=o['name'], status='unproved', why='no goal stated', replay=[]))
        for e in g['entered']: fns[e] = 1
        used |= set(g['used']); ass += [a for a in g['assumed'] if a not in ass]; tt += g['t']; nz += g['n']
    res['functions'] = sorted('%s:%s:%s' % f for f in fns); res['assumptions'] = ass + ['contract used at calls: %s' % u for u in sorted(used)]
    res['solver'] = dict(backend='thvc normal form + z3', cpu_s=round(tt, 1), goals=nz)
    return res
def report_unreplayed(refuted): return True
if __name__ == '__main__':
    from thvc import prove as me
    t0 = time.time(); r = me.run(sys.argv[1], 'quick', sys.argv[2] if len(sys.argv) > 2 else None, True)
    for o in r['obligations']:
        if o['status'] != 'discharged': print('  %s %s: %s' % (o['status'], o['name'], o['why']))
    print(sum(o['status'] == 'discharged' for o in r['obligations']), 'of', len(r['obligations']), '%.1fs' % (time.time() - t0)); print(r['functions'])
    for a in r['assumptions']: print('  assume:', a)
