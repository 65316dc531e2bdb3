"""C12: the argument list of every kinematic and dynamic function, for any robot: the state vectors it depends on, then its parameter vectors."""
from .prove import *
from . import units as U
from .sp_c17 import run
from .sp_kin import *
from .sp_dyn import mcg, after_chain, c_cm
from .sp_fric import *
from .sp_time import c_jacs, c_mcg, mcg_model
from .sp_reg import formal_chain, c_chain_f, c_jac_f, c_std
D, W, E, Y, GR = 'par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_DYN', 'par_gravity'
def names(v):
    """the names of a list, as a set (the order is not part of the property)"""
    xs = []
    for g in v.s:
        if g[0] == 'c' and decide(Not(g[1])): continue
        if not (g[0] == 'i' or g[0] == 'c' and decide(g[1])): return None
        t = g[-1].p if isinstance(g[-1], Str) else None
        if t is None or not all(isinstance(c, str) for c in t): return None
        xs.append(''.join(t))
    return xs
def takes(p, o, k, states, pars, lab=None):
    lab = '%s takes %s' % (lab or k, ', '.join(list(states) + ['the symbolic ' + x for x in pars]) or 'nothing')
    a = o.f['funs'].get(S(k) if isinstance(k, str) else k)
    if a is UNDEF: return p.missing(lab)
    a = a.x[1]; want = alist(list(states), list(pars))
    try:
        t = a.get(toI(0)).x if a.size().const() == 1 else None
        if t and all(names(x) is not None for x in t): a = alist(sorted(names(t[0])), sorted(names(t[1]))); want = alist(sorted(states), sorted(pars))
    except (Unsupported, AttributeError, TypeError): pass
    p.goal(lab, a, want)
def lib(p, fun, file, r, contracts):
    u = A.library(); _, st = run(p, u, U.find(u, fun, file), [r], contracts=dict(RC, **contracts)); return st.v['arg0']
@ob('C12', 'arguments of the frames')
def o_chain(p):
    use_unfold(); u = A.library(); ex = chain_exec(p, u); _, st = run(p, u, U.find(u, 'compute_chain', 'kinematics.cpp'), [robot()], ex=ex); o = st.v['arg0']
    i = ivar('i', 1, N + 1)
    with assume(ge(i, 1), le(i, N)): takes(p, o, key('T_', i), ['q'], [D], 'T_i'); takes(p, o, key('T_0_', i), ['q'], [D, W], 'T_0_i')
    for k in ('T_0', 'T_0_0'): takes(p, o, k, [], [W])
    takes(p, o, key('T_0_', N + 1), ['q'], [D, W, E], 'T_0_{n+1}'); takes(p, o, 'T_0_ee', ['q'], [D, W, E])
@ob('C12', 'arguments of the Jacobians')
def o_jac(p):
    o = lib(p, 'compute_jacobians', 'kinematics.cpp', after_chain(), dict(compute_chain=c_chain)); k = ivar('k', 1, N + 1)
    with assume(ge(k, 1), le(k, N)): takes(p, o, key('J_', k), ['q'], [D, W], 'J_k')
    takes(p, o, key('J_', N + 1), ['q'], [D, W, E], 'J_{n+1}'); takes(p, o, 'J_ee', ['q'], [D, W, E])
@ob('C12', 'arguments of the Jacobian derivatives and the pseudo-inverse')
def o_adv(p):
    o = lib(p, 'compute_kin_adv', 'kinematics.cpp', robot(), dict(compute_chain=c_chain, compute_jacobians=c_jacs))
    takes(p, o, 'J_ee_dot', ['q', 'dq'], [D, W, E]); takes(p, o, 'J_ee_ddot', ['q', 'dq', 'ddq'], [D, W, E]); takes(p, o, 'J_ee_pinv', ['q'], [D, W, E])
@ob('C12', 'arguments of the centre of mass Jacobians')
def o_cm(p):
    o = lib(p, 'DHJacCM', 'dynamics.cpp', after_chain(), dict(compute_chain=c_chain)); k = ivar('k', 1, N + 1)
    with assume(ge(k, 1), le(k, N)): takes(p, o, key('J_cm_', k), ['q'], [D, W, Y], 'J_cm_k')
@ob('C12', 'arguments of M, C and G')
def o_mcg(p):
    o = mcg(p)[0]; takes(p, o, 'M', ['q'], [D, W, Y]); takes(p, o, 'G', ['q'], [D, W, GR, Y])
    for k in ('C', 'C_std'): takes(p, o, k, ['q', 'dq'], [D, W, Y])
@ob('C12', 'arguments of the derivatives of M, C and G')
def o_der(p):
    r = after_chain(); o = lib(p, 'compute_dyn_derivatives', 'dynamics.cpp', r.put('model', mcg_model(r.f['model'])), dict(compute_MCG=c_mcg)); q = ['q', 'dq', 'ddq', 'd3q']
    for k, n, ps in (('M_dot', 2, [D, W, Y]), ('M_ddot', 3, [D, W, Y]), ('C_dot', 3, [D, W, Y]), ('C_ddot', 4, [D, W, Y]), ('G_dot', 2, [D, W, GR, Y]), ('G_ddot', 3, [D, W, GR, Y])): takes(p, o, k, q[:n], ps)
@ob('C12', 'arguments of the inertial regressors')
def o_yr(p):
    o = lib(p, 'compute_Yr', 'regressors.cpp', robot().put('model', formal_chain(robot().f['model'])), dict(compute_chain=c_chain_f, compute_jacobians=c_jac_f, stdCmatrix=c_std))
    takes(p, o, 'Yr', ['q', 'dq', 'dqr', 'ddqr'], [D, W, GR]); takes(p, o, 'reg_M', ['q', 'ddqr'], [D, W]); takes(p, o, 'reg_C', ['q', 'dq', 'dqr'], [D, W]); takes(p, o, 'reg_G', ['q'], [D, W, GR])
@ob('C12', 'arguments of the link friction')
def o_dl(p):
    with assume(ge(OL, 1)):
        o = lib(p, 'compute_Dl', 'dynamics.cpp', elrobot(), {}); takes(p, o, 'dl', ['dq'], ['par_Dl']); x = ivar('o', 0, OL)
        with assume(ge(x, 0), lt(x, OL)): takes(p, o, key('Dl', x + 1), [], ['par_Dl'], 'Dl_k')
@ob('C12', 'arguments of the elastic terms')
def o_el(p):
    with assume(ge(NE, 1), ge(OK_, 1), ge(OD, 1), ge(ODM, 1)):
        o = lib(p, 'compute_elastic', 'dynamics.cpp', elrobot(), {})
        takes(p, o, 'k', ['q', 'x'], ['par_K']); takes(p, o, 'd', ['dq', 'dx'], ['par_D']); takes(p, o, 'dm', ['dx'], ['par_Dm']); takes(p, o, 'Mm', [], ['par_Mm'])
        for pre, O_, par, f in (('K', OK_, 'par_K', lambda x: x * 2 + 1), ('D', OD, 'par_D', lambda x: x + 1), ('Dm', ODM, 'par_Dm', lambda x: x + 1)):
            x = ivar('o', 0, O_)
            with assume(ge(x, 0), lt(x, O_)): takes(p, o, key(pre, f(x)), [], [par], pre + '_k')
