"""C08: the inertial regressor, for any number of joints."""
from .prove import *
from . import units as U
from .sp_c17 import run, add, sub, scale, skew, sym6
from .sp_kin import *
from .sp_dyn import dyn, com, Icm, Rot, Pos, pcm, Jcm, sel_spec, christ
from .sp_time import formal, fm
formal('Rf', 'q'); formal('Jf', 'q')
def Rf(k): return Mat.gen(toI(3), toI(3), lambda i, j: rvar('Rf', toI(k), i, j))
def Jf(k): return Mat.gen(toI(6), N, lambda i, j: rvar('Jf', toI(k), i, j))
def Of(k): return col([rvar('Of', toI(k), r) for r in range(3)])
E6 = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]
def Emat(l): return mat([[ONE if (a, b) == E6[l] or (b, a) == E6[l] else ZERO for b in range(3)] for a in range(3)])
def Qmat(l): return skew([ONE if x == l else ZERO for x in range(3)])
def mul_(*ms):
    r = ms[0]
    for m in ms[1:]: r = mul(r, m)
    return r
def basis(J, R):
    """the 10 matrices whose combination with (mass, first moment, inertia about the origin) is the mass matrix of a link"""
    v, w = J.block(0, 3, 0, N), J.block(3, 3, 0, N); out = [mul(v.T(), v)]
    for l in range(3):
        X = mul_(R, Qmat(l), R.T()); out.append(sub(mul_(w.T(), X, v), mul_(v.T(), X, w)))
    for l in range(6): out.append(mul_(w.T(), R, Emat(l), R.T(), w))
    return out
def reg(k, c): return rvar('par_REG', toI(k) * 10 + c)
def formal_chain(m, J=True):
    i = ivar('fc')
    with assume(ge(i, 1), le(i, N)): a, b = rigid(Rf(i), Of(i)), Jf(i)
    log = (('w', TRUE, S('T_0_0'), frame_of('par_world2L0')), ('f', i, toI(1), N + 1, TRUE, key('T_0_', i), a))
    if J: log += (('f', i, toI(1), N + 1, TRUE, key('J_', i), b),)
    return Map(m.base, m.log + log, m.dflt)
def c_std(ex, st, this, args, n):
    ex.used.add('stdCmatrix: Christoffel matrix of a symmetric first argument for q, dq (proved in C05)')
    a = [toM(ex.ev(x, st)) for x in args]
    if not (veq(a[1], vec_(N, 'q')) and veq(a[2], vec_(N, 'dq')) and veq(a[3], sel_spec())): raise Unsupported('Christoffel matrix along another motion')
    if not veq(a[0], a[0].T()): raise Unsupported('the Christoffel matrix of a matrix that is not symmetric')
    return christ(a[0])
def c_chain_f(ex, st, this, args, n):
    ex.used.add('compute_chain'); lv = ex.lv(args[0], st); r = ex.read(st, lv); ex.write(st, lv, r.put('model', formal_chain(r.f['model'], False))); return toI(1)
def c_jac_f(ex, st, this, args, n):
    ex.used.add('compute_jacobians'); lv = ex.lv(args[0], st); r = ex.read(st, lv); ex.write(st, lv, r.put('model', formal_chain(r.f['model']))); return toI(1)
def yr(p):
    u = A.library(); r = robot().put('model', formal_chain(robot().f['model']))
    v, st = run(p, u, U.find(u, 'compute_Yr', 'regressors.cpp'), [r], contracts=dict(RC, compute_chain=c_chain_f, compute_jacobians=c_jac_f, stdCmatrix=c_std))
    return st.v['arg0'].f['model'], v
def cols(f):
    """N x 10N matrix whose columns 10 k + c are f(k)[c]"""
    kk = ivar('kk', 0, N)
    with assume(ge(kk, 0), lt(kk, N)): fs = f(kk)
    def g(i, j):
        k = idiv(j, 10); c = imod(j, 10); r = ZERO
        for x, m in enumerate(fs): r = r + ite(eq(c, x), psubst(m.get(i, 0), {kk: k}), ZERO)
        return r
    return Mat.gen(N, N * 10, g)
@ob('C08', 'compute_Yr')
def o_yr(p):
    m, v = yr(p); dqr, ddqr, g = vec_(N, 'dqr'), vec_(N, 'ddqr'), vec_(3, 'par_gravity')
    bs = lambda k: basis(Jf(k + 1), Rf(k + 1))
    RM, RCm, RG = m.get(S('reg_M')), m.get(S('reg_C')), m.get(S('reg_G'))
    p.goal('reg_M, column c of link k: basis matrix c of the link times ddqr', RM, cols(lambda k: [mul(b, ddqr) for b in bs(k)]))
    p.goal('reg_C, column c of link k: Christoffel matrix of basis matrix c times dqr', RCm, cols(lambda k: [mul(christ(b), dqr) for b in bs(k)]))
    def G(k):
        R = Rf(k + 1); z = zeros(N, 1); gq = mul(R.T(), g)
        return [neg(mul(Jf(k + 1).block(0, 3, 0, N).T(), g))] + [Mat.gen(N, toI(1), lambda i, j, l=l: -diff(gq.get(l, 0), q_at(i))) for l in range(3)] + [z] * 6
    p.goal('reg_G, column c of link k: gradient of the potential energy per unit of parameter c', RG, cols(G))
    p.goal('Yr = reg_M + reg_C + reg_G', m.get(S('Yr')), add(RM, RCm, RG))
    p.goal('returns success', toI(v) if not isinstance(v, C) else ind(v), toI(1))
# ------------------------------------------------------------------ what the regressor columns amount to
def phi(k):
    """regressor parameters of link k (0-based) from its dynamic parameters (the conversion proved in C11)"""
    m, c, I_ = dyn(k, 0), com(k), Icm(k)
    h = skew([c.get(r, 0) for r in range(3)]); Io = add(I_, scale(m, mul(h.T(), h)))
    return [m] + [m * c.get(r, 0) for r in range(3)] + [Io.get(a, b) for a, b in E6]
def hatc(R, c): w = mul(R, c); return skew([w.get(r, 0) for r in range(3)])
@ob('C08', 'the basis of a link carries its kinetic energy')
def o_basis(p):
    """sum_c phi_c B_c = m Jc^T Jc + Jw^T R I R^T Jw with Jc = Jv - hat(R c) Jw, for any rotation R and any J"""
    p.assume_note('every proper rotation is Rz(a) Ry(b) Rx(c) for some angles a, b, c')
    k = ivar('k', 0, N)
    with assume(ge(k, 0), lt(k, N)):
        a = [rvar('eul', k + 1, c) for c in range(3)]; R = rotsym(k + 1); J = Jf(k + 1); v, w = J.block(0, 3, 0, N), J.block(3, 3, 0, N)
        f = phi(k); tot = zeros(N, N)
        for x, b in zip(f, basis(J, R)): tot = add(tot, scale(x, b))
        vc = sub(v, mul(hatc(R, com(k)), w))
        p.goal('mass matrix of one link', tot, add(scale(dyn(k, 0), mul(vc.T(), vc)), mul_(w.T(), R, Icm(k), R.T(), w)))
        for n_, b in enumerate(basis(J, R)): p.goal('basis matrix %d is symmetric' % n_, b, b.T())
@ob('C08', 'velocity map of the centre of mass from that of the frame')
def o_cmj(p):
    use_rigid(p); k = ivar('k', 0, N)
    with assume(ge(k, 0), lt(k, N)):
        J = jac_of(T0(k + 1), k + 1); v, w = J.block(0, 3, 0, N), J.block(3, 3, 0, N); Jc = Jcm(k + 1)
        p.goal('linear', Jc.block(0, 3, 0, N), sub(v, mul(hatc(Rot(k + 1), com(k)), w))); p.goal('angular', Jc.block(3, 3, 0, N), w)
@ob('C08', 'gravity columns carry the potential energy')
def o_grav(p):
    use_rigid(p); k = ivar('k', 0, N); g = vec_(3, 'par_gravity')
    with assume(ge(k, 0), lt(k, N)):
        R = Rot(k + 1); J = jac_of(T0(k + 1), k + 1); gq = mul(R.T(), g); f = phi(k)
        t = scale(f[0], neg(mul(J.block(0, 3, 0, N).T(), g)))
        for l in range(3): t = add(t, scale(f[1 + l], Mat.gen(N, toI(1), lambda i, j, l=l: -diff(gq.get(l, 0), q_at(i)))))
        U_ = -dyn(k, 0) * mul(g.T(), pcm(k + 1)).scalar()
        p.goal('gradient of -m g^T p_c', t, Mat.gen(N, toI(1), lambda i, j: diff(U_, q_at(i))))
formal('Bf', 'q')
def Bf(k, c): return Mat.gen(N, N, lambda i, j: rvar('Bf', toI(k), c, i, j))
@ob('C08', 'regressor times parameters')
def o_lin(p):
    """columns B_c(k) x times phi_c(k), summed over all links, is (sum phi B) x; the Christoffel matrix is linear in its argument"""
    x = vec_(N, 'x'); par = vec_(N * 10, 'par_REG')
    def tot(fB):
        k = ivar('k', 0, N); r = zeros(N, N)
        with assume(ge(k, 0), lt(k, N)):
            for c in range(10): r = add(r, scale(reg(k, c), fB(k, c)))
        return r.map(lambda e: psum(k, 0, N, e))
    p.goal('mass part', mul(cols(lambda k: [mul(Bf(k, c), x) for c in range(10)]), par), mul(tot(Bf), x))
    p.goal('Christoffel matrix of the total', christ(tot(Bf)), tot(lambda k, c: christ(Bf(k, c))))
    p.goal('Coriolis part', mul(cols(lambda k: [mul(christ(Bf(k, c)), x) for c in range(10)]), par), mul(christ(tot(Bf)), x))
    h = lambda k, c: Mat.gen(N, toI(1), lambda i, j: rvar('Hf', toI(k), c, i))
    def totv():
        k = ivar('k', 0, N); r = zeros(N, 1)
        with assume(ge(k, 0), lt(k, N)):
            for c in range(10): r = add(r, scale(reg(k, c), h(k, c)))
        return r.map(lambda e: psum(k, 0, N, e))
    p.goal('gravity part', mul(cols(lambda k: [h(k, c) for c in range(10)]), par), totv())
