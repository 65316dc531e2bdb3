"""C04-C08: mass matrix, Coriolis, gravity and regressors, for any number of joints."""
from .prove import *
from . import units as U
from .sp_c17 import run, add, sub, scale, skew, sym6, Rx, Ry, Rz
from .sp_kin import *
def dyn(k, c): return rvar('par_DYN', toI(k) * 10 + c)
def com(k): return col([dyn(k, 1), dyn(k, 2), dyn(k, 3)])
def Icm(k): return sym6(items([dyn(k, 4 + c) for c in range(6)]))
def Rot(k): return T0(k).block(0, 3, 0, 3)
def Pos(k): return T0(k).block(0, 3, 3, 1)
def pcm(k):
    """centre of mass of link k (1-based) in world coordinates"""
    return add(Pos(k), mul(Rot(k), com(toI(k) - 1)))
def Jcm(k):
    """6 x N: velocity map of the centre of mass of link k (1-based)"""
    c = pcm(k)
    def f(i, j):
        j = toI(j); r = toI(i).const()
        if r < 3: return diff(c.get(r, 0), q_at(j))
        return ite_d(lt(j, toI(k)), twist(j)[0][r - 3], ZERO)
    return Mat.gen(toI(6), N, f)
def after_chain(**kw): return robot(**kw).put('model', model_after_chain())
def cm_ob(pre):
    def f(p):
        use_rigid(p); u = A.library(); r = after_chain() if pre else robot()
        v, st = run(p, u, U.find(u, 'DHJacCM', 'dynamics.cpp'), [r], contracts=dict(RC, compute_chain=c_chain))
        m = st.v['arg0'].f['model']; k = ivar('k', 1, N + 1)
        with assume(ge(k, 1), le(k, N)):
            J = Jcm(k)
            p.goal('J_cm_k is the velocity map of the centre of mass of link k', m.get(key('J_cm_', k)), J)
            p.goal('returned linear block', v.x[0].get(k - 1), J.block(0, 3, 0, N)); p.goal('returned angular block', v.x[1].get(k - 1), J.block(3, 3, 0, N))
    return f
ob(('C02', 'C04', 'C06'), 'DHJacCM, chain computed before')(cm_ob(True))
ob('C02', 'DHJacCM, chain not computed before')(cm_ob(False))
@ob(('C04', 'C06'), 'createInertialParameters', internal=True)
def o_ip(p):
    u = A.library(); v, _ = run(p, u, U.find(u, 'createInertialParameters', 'dynamics.cpp'), [N, toI(10), vec_(N * 10, 'par_DYN')])
    k = ivar('k', 0, N)
    with assume(ge(k, 0), lt(k, N)):
        p.goal('mass of link k', v.x[0].get(k), toM(dyn(k, 0))); p.goal('centre of mass of link k', v.x[1].get(k), com(k)); p.goal('inertia of link k', v.x[2].get(k), Icm(k))
# ------------------------------------------------------------------ mass matrix, gravity, Coriolis
def oJ(k): return Mat.gen(toI(6), N, lambda i, j: rvar('Jcm', toI(k), i, j))
def opcm(k): return col([rvar('pcm', toI(k), r) for r in range(3)])
T.Deriv.rules['pcm'] = lambda a, w: rvar('Jcm', a.args[0], a.args[1], w.args[0]) if w.name == 'q' else ZERO
def c_cm(ex, st, this, args, n):
    ex.used.add('DHJacCM: the velocity maps Jcm(k) of the centres of mass (proved in C02)')
    with assume(ge(K0, 0), lt(K0, N)): J = oJ(K0 + 1); v, w = J.block(0, 3, 0, N), J.block(3, 3, 0, N)
    return Tup((Vec([('d', N, v)]), Vec([('d', N, w)])))
class Christ:
    """contract of stdCmatrix and stdCmatrix_classic: the Christoffel matrix of the argument (one opaque matrix per argument)"""
    def __init__(self): self.known = []
    def of(self, M):
        for a, r in self.known:
            if veq(a, M): return r
        k = len(self.known); r = Mat.gen(N, N, lambda i, j: rvar('christ%d' % k, i, j)); self.known.append((M, r)); return r
    def __call__(self, ex, st, this, args, n):
        a = [toM(ex.ev(x, st)) for x in args]
        ex.used.add('stdCmatrix, stdCmatrix_classic: Christoffel matrix of the first argument for q, dq (proved in C05)')
        if not (veq(a[1], vec_(N, 'q')) and veq(a[2], vec_(N, 'dq'))): raise Unsupported('Christoffel matrix along another motion')
        if not veq(a[3], sel_spec()): raise Unsupported('another selection matrix')
        return self.of(a[0])
def mcg(p, pre=True):
    u = A.library(); r = after_chain() if pre else robot(); ch = Christ()
    ct = dict(RC, compute_chain=c_chain, DHJacCM=c_cm, stdCmatrix=ch, stdCmatrix_classic=ch)
    v, st = run(p, u, U.find(u, 'compute_MCG', 'dynamics.cpp'), [r], contracts=ct)
    return st.v['arg0'], ch, v
def dq_at(j): return list(rvar('dq', toI(j)).atoms())[0]
def kinetic():
    """kinetic energy of all links for joint rates dq"""
    l = ivar('l', 0, N); i = l + 1; J = oJ(i); dq = vec_(N, 'dq'); v = mul(J.block(0, 3, 0, N), dq); w = mul(J.block(3, 3, 0, N), dq)
    with assume(ge(l, 0), lt(l, N)):
        R = Rot(i); I_ = mul(mul(R, Icm(i - 1)), R.T())
        e = dyn(i - 1, 0) * mul(v.T(), v).scalar() + mul(mul(w.T(), I_), w).scalar()
    return psum(l, 0, N, e * toP(Q(1, 2)))
@ob('C04', 'compute_MCG: mass matrix')
def o_M(p):
    r, _, v = mcg(p); M = r.f['model'].get(S('M')); K = kinetic()
    H = Mat.gen(N, N, lambda a, b: diff(diff(K, dq_at(a)), dq_at(b)))
    p.goal('M is the Hessian of the kinetic energy of all links with respect to dq', M, H)
    p.goal('M is symmetric', M, M.T())
    a, b, c = ivar('a', 0, N), ivar('b', 0, N), ivar('c', 0, N)
    with assume(ge(a, 0), lt(a, N), ge(b, 0), lt(b, N), ge(c, 0), lt(c, N)):
        p.goal('the kinetic energy is quadratic in dq: third derivatives vanish', diff(diff(diff(K, dq_at(a)), dq_at(b)), dq_at(c)), ZERO)
        z = pmap_atoms(K, lambda x: ZERO if x.kind == 'var' and x.name == 'dq' else None)
        p.goal('it vanishes at dq = 0', z, ZERO)
        p.goal('and so does its gradient', pmap_atoms(diff(K, dq_at(a)), lambda x: ZERO if x.kind == 'var' and x.name == 'dq' else None), ZERO)
    p.goal('returns success', toI(v) if not isinstance(v, C) else ind(v), toI(1))
    p.assume_note('a quadratic form is determined by its second derivatives')
    # positive semi-definite body inertias are L L^T; then x^T M x is a sum of m |v|^2 + |L^T R^T w|^2
    l = ivar('l', 0, N); x = Mat.gen(N, toI(1), lambda i, j: rvar('x', i)); L = lambda k: mat([[rvar('L', toI(k), i * 3 + j) if j <= i else ZERO for j in range(3)] for i in range(3)])
    def chol(a):
        if a.kind == 'var' and a.name == 'par_DYN':
            k, c = idiv(a.args[0], 10), imod(a.args[0], 10)
            if c.const() is not None and c.const() >= 4: i, j = ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2))[c.const() - 4]; return mul(L(k), L(k).T()).get(i, j)
        return None
    J = oJ(l + 1); v = mul(J.block(0, 3, 0, N), x); w = mul(J.block(3, 3, 0, N), x); sq = lambda a: sum((a.get(i, 0) * a.get(i, 0) for i in range(3)), ZERO)
    with assume(ge(l, 0), lt(l, N)): e = dyn(l, 0) * sq(v) + sq(mul(L(l).T(), mul(Rot(l + 1).T(), w)))
    p.goal('x^T M x = sum of m |v|^2 + |L^T R^T w|^2 with I = L L^T: positive semi-definite', pmap_atoms(mul(mul(x.T(), M), x).scalar(), chol), psum(l, 0, N, e))
@ob('C06', 'compute_MCG: gravity term')
def o_G(p):
    r, _, v = mcg(p); G = r.f['model'].get(S('G')); l = ivar('l', 0, N); i = l + 1; g = vec_(3, 'par_gravity')
    U_ = psum(l, 0, N, -dyn(i - 1, 0) * mul(g.T(), opcm(i)).scalar())
    p.goal('G is the gradient of the potential energy of all links', G, Mat.gen(N, toI(1), lambda a, b: diff(U_, q_at(a))))
@ob('C06', 'the velocity map of the centre of mass is its position gradient')
def o_p(p):
    k = ivar('k', 1, N + 1)
    with assume(ge(k, 1), le(k, N)): p.goal('linear block of Jcm(k) = d pcm(k)/dq', Jcm(k).block(0, 3, 0, N), Mat.gen(toI(3), N, lambda i, j: diff(pcm(k).get(i, 0), q_at(j))))
def c_sel(ex, st, this, args, n): raise Unsupported('x')
def sel_spec(): return Mat.gen(N, N * N, lambda i, c: rvar('dq', idiv(c, N)) * ite(eq(imod(c, N), i), ONE, ZERO))
@ob('C05', 'dq_select', internal=True)
def o_sel(p):
    u = A.library(); v, _ = run(p, u, U.find(u, 'dq_select', 'dynamics.cpp'), [vec_(N, 'dq')]); p.goal('selection matrix: dq_k in the diagonals of block k', v, sel_spec())
T.Deriv.rules['Mq'] = lambda a, w: T.dsym(a, w) if w.name == 'q' else ZERO
def Msym(): return Mat.gen(N, N, lambda i, j: rvar('Mq', i, j) + rvar('Mq', j, i))
def christ(M, dqr=None):
    def f(i, j):
        k = ivar('k', 0, N)
        with assume(ge(k, 0), lt(k, N)):
            e = diff(M.get(i, j), q_at(k)) + diff(M.get(i, k), q_at(j)) - diff(M.get(j, k), q_at(i))
            return psum(k, 0, N, e * rvar('dq', k) * toP(Q(1, 2)))
    return Mat.gen(N, N, f)
@ob('C05', 'stdCmatrix')
def o_std(p):
    u = A.library(); M = Msym(); v, _ = run(p, u, U.find(u, 'stdCmatrix', 'dynamics.cpp'), [M, vec_(N, 'q'), vec_(N, 'dq'), sel_spec()])
    p.goal('Christoffel form: C_ij = 1/2 sum_k (dM_ij/dq_k + dM_ik/dq_j - dM_jk/dq_i) dq_k', v, christ(M))
    k = ivar('k', 0, N)
    Md = M.map(lambda x: psum(k, 0, N, diff(x, q_at(k)) * rvar('dq', k)))
    Nn = sub(Md, scale(toP(2), v)); p.goal('dM/dt - 2C is skew-symmetric', add(Nn, Nn.T()), zeros(N, N))
    dq = vec_(N, 'dq'); K = mul(mul(dq.T(), M), dq).scalar() * toP(Q(1, 2))
    EL = Mat.gen(N, toI(1), lambda i, j: mul(Md, dq).get(i, 0) - diff(K, q_at(i)))
    p.goal('C dq = d/dt(dT/d dq) - dT/dq - M ddq', mul(v, dq), EL)
@ob('C05', 'stdCmatrix_classic')
def o_cls(p):
    u = A.library(); M = Msym(); v, _ = run(p, u, U.find(u, 'stdCmatrix_classic', 'dynamics.cpp'), [M, vec_(N, 'q'), vec_(N, 'dq'), sel_spec()])
    p.goal('the classic formulation is the same matrix', v, christ(M))
@ob('C05', 'compute_MCG: Coriolis matrices')
def o_C(p):
    r, ch, v = mcg(p); m = r.f['model']; M = m.get(S('M'))
    if not ch.known: raise Unsupported('the Coriolis matrices are not built by stdCmatrix')
    p.goal('the Coriolis matrices are built from the published mass matrix', ch.known[0][0], M)
    for nm in ('C', 'C_std'): p.goal('%s is the Christoffel matrix of the published mass matrix' % nm, m.get(S(nm)), ch.of(M))
    for nm, x in (('q', 'q'), ('dq', 'dq')): p.goal('%s is left as it is' % nm, m.get(S(nm)), vec_(N, x))
