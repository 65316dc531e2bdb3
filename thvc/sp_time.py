"""C03, C07: time derivatives along joint trajectories and the damped pseudo-inverse, for any number of joints."""
from .prove import *
from . import units as U
from .sp_c17 import run, add, sub, scale
from .sp_kin import *
from .sp_dyn import after_chain
def formal(name, *on): T.Deriv.rules[name] = lambda a, w: T.dsym(a, w) if w.name in on else ZERO
formal('Jee', 'q'); formal('Mf', 'q'); formal('Cf', 'q', 'dq'); formal('Cstdf', 'q', 'dq'); formal('Gf', 'q')
STEP = {'q': 'dq', 'dq': 'ddq', 'ddq': 'd3q', 'd3q': 'd4q'}
def Dt(m):
    """total time derivative along a trajectory q(t) with derivatives dq, ddq, d3q, d4q"""
    def f(x):
        r = ZERO
        for a, b in STEP.items():
            k = ivar('t', 0, N)
            with assume(ge(k, 0), lt(k, N)): r = r + psum(k, 0, N, diff(x, list(rvar(a, k).atoms())[0]) * rvar(b, k))
        return r
    return m.map(f)
def fm(name, r, c): return Mat.gen(toI(r), toI(c), lambda i, j: rvar(name, i, j))
def c_jacs(ex, st, this, args, n):
    ex.used.add('compute_jacobians: J_ee (proved in C02)'); lv = ex.lv(args[0], st); r = ex.read(st, lv)
    ex.write(st, lv, r.put('model', r.f['model'].put(S('J_ee'), fm('Jee', 6, N)).put(S('J_1'), fm('J1', 6, N)))); return toI(1)
def only(p, lab, m, names):
    """the expression contains no input of another kind"""
    bad = [a for a in all_atoms(m.get(ivar('r', 0, m.r), ivar('c', 0, m.c))) if a.kind == 'var' and a.name in STATE + ('par_gravity',) and a.name not in names]
    p.add(lab, not bad, repr(bad[:3]))
def kin_adv(state):
    def f(p):
        u = A.library(); r = robot() if state == 0 else after_chain()
        if state == 2: r = r.put('model', r.f['model'].put(S('J_ee'), fm('Jee', 6, N)))
        v, st = run(p, u, U.find(u, 'compute_kin_adv', 'kinematics.cpp'), [r], contracts=dict(RC, compute_chain=c_chain, compute_jacobians=c_jacs)); m = st.v['arg0'].f['model']
        J = fm('Jee', 6, N); p.goal('J_ee is left as it is', m.get(S('J_ee')), J)
        p.goal('J_ee_dot = d/dt J_ee', m.get(S('J_ee_dot')), Dt(J))
        p.goal('J_ee_ddot = d^2/dt^2 J_ee', m.get(S('J_ee_ddot')), Dt(Dt(J)))
        W = minv(add(mul(J, J.T()), scale(toP(Q('0.02')), eye(6))))
        p.goal('J_ee_pinv = J^T (J J^T + 0.02 I)^-1', m.get(S('J_ee_pinv')), mul(J.T(), W))
        p.goal('returns success', toI(v) if not isinstance(v, C) else ind(v), toI(1))
    return f
for s_, t in enumerate(('nothing computed before', 'chain computed before', 'Jacobians computed before')): ob('C03', 'compute_kin_adv, ' + t)(kin_adv(s_))
@ob('C03', 'J_ee depends on q only')
def o_q(p):
    u = A.library(); r = robot().put('model', model_after_chain())
    v, st = run(p, u, U.find(u, 'compute_jacobians', 'kinematics.cpp'), [r], contracts=dict(RC, compute_chain=c_chain)); only(p, 'no joint velocity or acceleration in J_ee', st.v['arg0'].f['model'].get(S('J_ee')), ('q',))
def mcg_model(m):
    return m.put(S('M'), fm('Mf', N, N)).put(S('C'), fm('Cf', N, N)).put(S('C_std'), fm('Cstdf', N, N)).put(S('G'), fm('Gf', N, 1))
def c_mcg(ex, st, this, args, n):
    ex.used.add('compute_MCG: M, C, G (proved in C04, C05, C06)'); lv = ex.lv(args[0], st); r = ex.read(st, lv); ex.write(st, lv, r.put('model', mcg_model(r.f['model']))); return toI(1)
def dyn_der(pre):
    def f(p):
        u = A.library(); r = after_chain()
        if pre: r = r.put('model', mcg_model(r.f['model']))
        v, st = run(p, u, U.find(u, 'compute_dyn_derivatives', 'dynamics.cpp'), [r], contracts=dict(RC, compute_MCG=c_mcg)); m = st.v['arg0'].f['model']
        for nm, o, c in (('M', 'Mf', N), ('C', 'Cf', N), ('G', 'Gf', 1)):
            X = fm(o, N, c); p.goal('%s is left as it is' % nm, m.get(S(nm)), X)
            p.goal('%s_dot = d/dt %s' % (nm, nm), m.get(S(nm + '_dot')), Dt(X)); p.goal('%s_ddot = d^2/dt^2 %s' % (nm, nm), m.get(S(nm + '_ddot')), Dt(Dt(X)))
        p.goal('returns success', toI(v) if not isinstance(v, C) else ind(v), toI(1))
    return f
ob('C07', 'compute_dyn_derivatives, M computed before')(dyn_der(True)); ob('C07', 'compute_dyn_derivatives, M not computed before')(dyn_der(False))
@ob('C07', 'M and G depend on q only, C on q and dq only')
def o_dep(p):
    from .sp_dyn import mcg
    r, _, v = mcg(p); m = r.f['model']; only(p, 'M', m.get(S('M')), ('q',)); only(p, 'G', m.get(S('G')), ('q', 'par_gravity'))
    from .sp_dyn import Msym, sel_spec
    u = A.library(); v, _ = run(p, u, U.find(u, 'stdCmatrix', 'dynamics.cpp'), [Msym(), vec_(N, 'q'), vec_(N, 'dq'), sel_spec()]); only(p, 'C', v, ('q', 'dq'))
