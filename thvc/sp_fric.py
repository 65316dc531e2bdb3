"""C09: link friction, joint stiffness, coupling and motor damping, for any number of joints, pattern of elastic joints and order."""
from .prove import *
from . import units as U
from .sp_c17 import run, add, sub, scale
from .sp_kin import *
T.FUN_FACTS['el'] = lambda args, v: [ge(v, 0), le(v, 1)]
def isel(k): return Not(eq(ifun('el', toI(k)), 0))
def nel(k=None): v = ivar('e'); return count(v, 0, N if k is None else k, isel(v))
def elj(k): v = ivar('e'); return sel(v, 0, N, isel(v), k)
NE = nel()
OL, OK_, OD, ODM = [ivar(n, 0, None) for n in ('Dl_order', 'K_order', 'D_order', 'Dm_order')]
def elrobot(elastic=True, **kw):
    """a robot with the class invariant: numElasticJoints counts the elastic joints"""
    m = {'x': vec_(NE, 'x'), 'dx': vec_(NE, 'dx'), 'ddx': vec_(NE, 'ddx'), 'ddxr': vec_(NE, 'ddxr'), 'par_Dl': vec_(N * OL, 'par_Dl'),
         'par_K': vec_(NE * OK_, 'par_K'), 'par_D': vec_(NE * OD, 'par_D'), 'par_Dm': vec_(NE * ODM, 'par_Dm'), 'par_Mm': vec_(NE, 'par_Mm')}
    f = dict(ELASTIC=elastic if isinstance(elastic, C) else TRUE if elastic else FALSE, numElasticJoints=NE, isElasticJoint=dense(N, lambda k: ifun('el', k)),
             Dl_order=OL, K_order=OK_, D_order=OD, Dm_order=ODM)
    f.update(kw)
    return robot(m, **f)
def signed(v, k):
    """|v|^k v"""
    with assume(ge(k, 0)): return ite_d(eq(imod(k, 2), 0), lambda: power(v, k + 1), lambda: fn('abs', v) * power(v, k))
def law(v, par, order, k):
    """sum over orders k = 0..order-1 of parameter_k |v|^k v, for element k of the vector"""
    o = ivar('o', 0, order)
    with assume(ge(o, 0), lt(o, order)): t = rvar(par, toI(k) * order + o) * signed(v, o)
    return psum(o, 0, order, t)
def diag(n, f):
    return Mat.gen(n, n, lambda i, j: ite_d(eq(i, j), lambda: f(i), ZERO))
@ob('C09', '|v|^k v')
def o_abs(p):
    k = ivar('k', 0, None); v = rvar('v')
    with assume(ge(k, 0)):
        p.goal('k = 2 j: |v|^(2j) v = v^(2j+1); step |v|^2 = v^2', fn('abs', v) ** 2, v ** 2)
        p.assume_note('|v|^(2j) = (v^2)^j')
@ob('C09', 'compute_Dl')
def o_dl(p):
    u = A.library(); f = U.find(u, 'compute_Dl', 'dynamics.cpp')
    with assume(ge(OL, 1)):
        v, st = run(p, u, f, [elrobot()], contracts=RC); m = st.v['arg0'].f['model']
        p.goal('dl_i = sum_k par_Dl[i][k] |dq_i|^k dq_i', m.get(S('dl')), Mat.gen(N, toI(1), lambda i, j: law(rvar('dq', i), 'par_Dl', OL, i)))
        o = ivar('o', 0, OL)
        with assume(ge(o, 0), lt(o, OL)): p.goal('Dl_{o+1} is diagonal with the parameters of order o', m.get(key('Dl', o + 1)), diag(N, lambda i: rvar('par_Dl', i * OL + o)))
        p.goal('returns success', toI(v) if not isinstance(v, C) else ind(v), toI(1))
    with assume(eq(OL, 0)):
        v, st = run(p, u, f, [elrobot()], contracts=RC); p.goal('nothing is published for order 0', st.v['arg0'].f['model'], elrobot().f['model'])
@ob('C09', 'compute_elastic')
def o_el(p):
    with assume(ge(NE, 1)): elastic(p)
def elastic(p):
    u = A.library(); f = U.find(u, 'compute_elastic', 'dynamics.cpp')
    v, st = run(p, u, f, [elrobot()], contracts=RC); m = st.v['arg0'].f['model']
    def sprung(i, j):
        o = ivar('o', 0, OK_)
        with assume(ge(o, 0), lt(o, OK_)): t = rvar('par_K', i * OK_ + o) * power(rvar('x', i) - rvar('q', elj(i)), o * 2 + 1)
        return psum(o, 0, OK_, t)
    with assume(ge(OK_, 1)):
        p.goal('k_i = sum_k par_K[i][k] (x_i - q of the joint it is mounted on)^(2k+1)', m.get(S('k')), Mat.gen(NE, toI(1), sprung))
        o = ivar('o', 0, OK_)
        with assume(ge(o, 0), lt(o, OK_)): p.goal('K_{2o+1} is diagonal with the parameters of order o', m.get(key('K', o * 2 + 1)), diag(NE, lambda i: rvar('par_K', i * OK_ + o)))
    for nm, O_, par, vel in (('d', OD, 'par_D', lambda i: rvar('dx', i) - rvar('dq', elj(i))), ('dm', ODM, 'par_Dm', lambda i: rvar('dx', i))):
        with assume(ge(O_, 1)):
            p.goal('%s_i = sum_k %s[i][k] |v|^k v' % (nm, par), m.get(S(nm)), Mat.gen(NE, toI(1), lambda i, j: law(vel(i), par, O_, i)))
            o = ivar('o', 0, O_)
            with assume(ge(o, 0), lt(o, O_)): p.goal('%s_{o+1} is diagonal with the parameters of order o' % nm[0].upper(), m.get(key(nm[0].upper() + nm[1:], o + 1)), diag(NE, lambda i: rvar(par, i * O_ + o)))
    for nm, O_ in (('k', OK_), ('d', OD), ('dm', ODM)):
        with assume(eq(O_, 0)): p.add('%s is not published for order 0' % nm, decide(Not(m.has(S(nm)))), '', decide(m.has(S(nm))))
    p.goal('Mm is diagonal with the motor inertias', m.get(S('Mm')), diag(NE, lambda i: rvar('par_Mm', i)))
    p.goal('returns success', toI(v) if not isinstance(v, C) else ind(v), toI(1))
@ob('C09', 'compute_elastic, rigid robot')
def o_rig(p):
    u = A.library(); f = U.find(u, 'compute_elastic', 'dynamics.cpp'); r = elrobot(False)
    v, st = run(p, u, f, [r], contracts=RC); p.goal('nothing is published', st.v['arg0'].f['model'], r.f['model'])
