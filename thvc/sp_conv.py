"""C11: dynamic <-> regressor form of the inertial parameters."""
from .prove import *
from . import units as U
from .sp_c17 import run
from .sp_kin import *
from .sp_set import *
def link_of(par, i): return [rvar(par, toI(i) * 10 + r) for r in range(10)]
def to_reg(d):
    m, c, I_ = d[0], d[1:4], d[4:]; n = c[0] * c[0] + c[1] * c[1] + c[2] * c[2]
    J = [[m * ((n if a == b else ZERO) - c[a] * c[b]) for b in range(3)] for a in range(3)]
    return [m, m * c[0], m * c[1], m * c[2]] + [I_[k] + J[a][b] for k, (a, b) in enumerate(((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)))]
def to_dyn(g):
    m = g[0]; c = [x * fn('inv', m) for x in g[1:4]]; n = c[0] * c[0] + c[1] * c[1] + c[2] * c[2]
    J = [[m * ((n if a == b else ZERO) - c[a] * c[b]) for b in range(3)] for a in range(3)]
    return [m] + c + [g[4 + k] - J[a][b] for k, (a, b) in enumerate(((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)))]
def stack10(f):
    """the vector of length 10 n whose entries 10 l .. 10 l + 9 are f(l)"""
    def e(i, j):
        i = toI(i); l, r = idiv(i, 10), imod(i, 10); w = f(l); x = w[9]
        for k in reversed(range(9)): x = ite_d(eq(r, k), w[k], x)
        return x
    return Mat.gen(N * 10, toI(1), e)
@ob('C11', 'the two conversions are inverse')
def o_inv(p):
    p.assume_note('every mass is not zero'); d = link_of('d', 0)
    p.goal('dynamic -> regressor -> dynamic', col(to_dyn(to_reg(d))), col(d)); p.goal('regressor -> dynamic -> regressor', col(to_reg(to_dyn(d))), col(d))
    c = d[1:4]; S_ = mat([[ZERO, -c[2], c[1]], [c[2], ZERO, -c[0]], [-c[1], c[0], ZERO]]); J = mul(S_.T(), S_); g = to_reg(d)
    p.goal('parallel axis: I_origin = I_cm + m hat(c)^T hat(c)', col(g[4:]), col([d[4 + k] + d[0] * J.get(a, b) for k, (a, b) in enumerate(((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)))]))
@ob('C11', 'library update_inertial_REG')
def o_ur(p):
    u = A.library(); r = lrobot(); f = U.find(u, 'update_inertial_REG', 'robot.cpp')
    v, st = run(p, u, f, [], this=r); p.goal('par_REG is the regressor form of par_DYN, everything else as before', st.v['obj'], r.put('args', r.f['args'].put(S('par_REG'), stack10(lambda l: to_reg(link_of('a_par_DYN', l))))))
@ob('C11', 'library update_inertial_DYN')
def o_ud(p):
    p.assume_note('every mass is not zero'); u = A.library(); r = lrobot(); f = U.find(u, 'update_inertial_DYN', 'robot.cpp')
    v, st = run(p, u, f, [], this=r); p.goal('par_DYN is the dynamic form of par_REG, everything else as before', st.v['obj'], r.put('args', r.f['args'].put(S('par_DYN'), stack10(lambda l: to_dyn(link_of('a_par_REG', l))))))
@ob('C11', 'generated update_inertial_REG')
def o_gur(p):
    u, f = gfind('update_inertial_REG'); r = grobot()
    with assume(*GCTX): v, st = run(p, u, f, [], this=r); p.goal('par_REG is the regressor form of par_DYN, everything else as before', st.v['obj'], r.put('par_REG', stack10(lambda l: to_reg(link_of('a_par_DYN', l)))))
@ob('C11', 'generated update_inertial_DYN')
def o_gud(p):
    p.assume_note('every mass is not zero'); u, f = gfind('update_inertial_DYN'); r = grobot()
    with assume(*GCTX): v, st = run(p, u, f, [], this=r); p.goal('par_DYN is the dynamic form of par_REG, everything else as before', st.v['obj'], r.put('par_DYN', stack10(lambda l: to_dyn(link_of('a_par_REG', l)))))
def put_arg(r, **kw):
    a = r.f['args']
    for k, x in kw.items(): a = a.put(S(k), x)
    return r.put('args', a)
for nm, keep_ in (('update_inertial_REG', 'par_REG'), ('update_inertial_DYN', 'par_DYN')):
    def part(p, nm=nm):
        u = A.library(); m = ivar('m', 0, None); r = lrobot(args=amap(par_DYN=vec_(m, 'a_par_DYN'))); f = U.find(u, nm, 'robot.cpp')
        with assume(ge(m, 0), Not(eq(m, N * 10))): v, st = run(p, u, f, [], this=r); p.goal('nothing is converted when only the symbolic entries are stored', st.v['obj'], r); p.goal('reports failure', toI(v), toI(0))
    ob('C11', 'library %s, compacted par_DYN' % nm)(part)
CONV = {'par_DYN': ('par_REG', to_reg), 'par_REG': ('par_DYN', to_dyn)}
for key in CONV:
    def ls(p, key=key):
        """the value set and the other form of it; sizes other than the stored one are refused"""
        if key == 'par_REG': p.assume_note('every mass is not zero')
        u = A.library(); f = U.find(u, 'set_' + key, 'robot.cpp'); r = lrobot(); o, cv = CONV[key]; m = ivar('m', 0, None); val = vec_(m, 'val')
        with assume(ge(m, 0), eq(m, N * 10)):
            v, st = run(p, u, f, [val], this=r); p.goal('right size: %s is the value, %s its other form, everything else as before' % (key, o), st.v['obj'], put_arg(r, **{key: vec_(N * 10, 'val'), o: stack10(lambda l: cv(link_of('val', l)))})); p.goal('right size: accepted', toI(v), toI(1))
        with assume(ge(m, 0), Not(eq(m, N * 10))):
            v, st = run(p, u, f, [val], this=r); p.goal('wrong size: nothing changes', st.v['obj'], r); p.goal('wrong size: refused', toI(v), toI(0))
        z = ivar('z', 0, None); r = lrobot(args=amap(par_DYN=vec_(z, 'a_par_DYN')))
        with assume(ge(z, 0), Not(eq(z, N * 10)), ge(m, 0)):
            n = z if key == 'par_DYN' else N * 10
            with assume(eq(m, n)): v, st = run(p, u, f, [val], this=r); p.goal('compacted par_DYN, right size: %s is the value, everything else as before' % key, st.v['obj'], put_arg(r, **{key: vec_(n, 'val')}))
            with assume(Not(eq(m, n))): v, st = run(p, u, f, [val], this=r); p.goal('compacted par_DYN, wrong size: nothing changes', st.v['obj'], r)
    ob(('C11', 'C13'), 'library set_' + key)(ls)
    def gs(p, key=key):
        if key == 'par_REG': p.assume_note('every mass is not zero')
        u, f = gfind('set_' + key); r = grobot(); o, cv = CONV[key]; m = ivar('m', 0, None); val = vec_(m, 'val')
        with assume(*GCTX):
            with assume(ge(m, 0), eq(m, N * 10)):
                v, st = run(p, u, f, [val, TRUE], this=r); p.goal('right size: %s is the value, %s its other form, everything else as before' % (key, o), st.v['obj'], r.put(key, vec_(N * 10, 'val')).put(o, stack10(lambda l: cv(link_of('val', l)))))
                v, st = run(p, u, f, [val, FALSE], this=r); p.goal('right size, without update: %s is the value, everything else as before' % key, st.v['obj'], r.put(key, vec_(N * 10, 'val')))
            with assume(ge(m, 0), Not(eq(m, N * 10))):
                for b in (TRUE, FALSE): v, st = run(p, u, f, [val, b], this=r); p.goal('wrong size: nothing changes', st.v['obj'], r)
    ob(('C11', 'C13'), 'generated set_' + key)(gs)
