"""C13: setters replace exactly their target, getters read it back (library robot and generated class)."""
from .prove import *
from . import units as U
from .sp_c17 import run
from .sp_kin import *
from .sp_fric import NE, OL, OK_, OD, ODM, isel, elj
LSIZES = dict(q=N, dq=N, ddq=N, d3q=N, d4q=N, dqr=N, ddqr=N, x=NE, dx=NE, ddx=NE, ddxr=NE, w=toI(6), par_DYN=N * 10, par_REG=N * 10, par_DHtable=N * 4, par_world2L0=toI(6), par_Ln2EE=toI(6), par_gravity=toI(3),
    par_Dl=N * OL, par_K=NE * OK_, par_D=NE * OD, par_Dm=NE * ODM, par_Mm=NE)
def amap(**kw):
    m = {k: vec_(n, 'a_' + k) for k, n in LSIZES.items()}; m.update(kw); return Map(m)
def lrobot(**kw):
    f = {'numJoints': N, 'STD_PAR_LINK': toI(10), 'numElasticJoints': NE, 'args': amap(), 'model': Map({k: vec_(n, k) for k, n in LSIZES.items()}), 'funs': Map({})}
    f.update(kw); return Obj('Robot', f)
def setter(p, nm, key, n):
    u = A.library(); f = U.find(u, nm, 'robot.cpp'); m = ivar('m', 0, None); val = vec_(m, 'val'); r = lrobot()
    with assume(ge(m, 0), eq(m, n)):
        v, st = run(p, u, f, [val], this=r); o = st.v['obj']
        p.goal('right size: %s is the value, everything else as before' % key, o, r.put('args', r.f['args'].put(S(key), vec_(n, 'val')))); p.goal('right size: accepted', toI(v), toI(1))
    with assume(ge(m, 0), Not(eq(m, n))):
        v, st = run(p, u, f, [val], this=r); p.goal('wrong size: nothing changes', st.v['obj'], r); p.goal('wrong size: refused', toI(v), toI(0))
for key in ('q', 'dq', 'dqr', 'ddqr', 'x', 'dx', 'ddx', 'ddxr'):
    ob('C13', 'library set_' + key)(lambda p, key=key: setter(p, 'set_' + key, key, LSIZES[key]))
# ---------------------------------------------------------------- generated class
GSIZES = dict(q=N, dq=N, ddq=N, d3q=N, d4q=N, dqr=N, ddqr=N, x=NE, dx=NE, ddx=NE, ddxr=NE, w=toI(6), par_DYN=N * 10, par_REG=N * 10, par_Dl=N * OL, par_K=NE * OK_, par_D=NE * OD, par_Dm=NE * ODM, par_Mm=NE,
    par_DHtable=ivar('sDH', 0, None), par_world2L0=ivar('sW', 0, None), par_Ln2EE=ivar('sE', 0, None), par_gravity=ivar('sG', 0, None))
GCONST = dict(n_joints=N, numElasticJoints=NE, K_order=OK_, D_order=OD, Dl_order=OL, Dm_order=ODM, STD_PAR_LINK=toI(10), numParDYN=N * 10, numParREG=N * 10)
GSYM = dict(DHtable_symb=N * 4, gravity_symb=toI(3), world2L0_symb=toI(6), Ln2EE_symb=toI(6))
def grobot(**kw):
    f = dict(GCONST); f.update({k: dense(n, lambda i, k=k: ifun('g_' + k, i)) for k, n in GSYM.items()}); f.update({k: vec_(n, 'a_' + k) for k, n in GSIZES.items()}); f.update(kw)
    return Obj('thunder_robot', f)
GCTX = [ge(GSIZES[k], 0) for k in ('par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity')]
def gfind(nm, **kw): u = U.template(); return u, U.find(u, nm, 'thunder_robot.cpp', **kw)
def gset(p, key):
    u, f = gfind('set_' + key); m = ivar('m', 0, None); val = vec_(m, 'val'); r = grobot(); n = GSIZES[key]
    with assume(*GCTX):
        with assume(ge(m, 0), eq(m, n)):
            v, st = run(p, u, f, [val], this=r); p.goal('right size: %s is the value, everything else as before' % key, st.v['obj'], r.put(key, vec_(n, 'val')))
        with assume(ge(m, 0), Not(eq(m, n))):
            v, st = run(p, u, f, [val], this=r); p.goal('wrong size: nothing changes', st.v['obj'], r)
for key in GSIZES:
    if key not in ('par_DYN', 'par_REG'): ob('C13', 'generated set_' + key)(lambda p, key=key: gset(p, key))
for key in GSIZES:
    if key.startswith('par_'):
        def g_(p, key=key):
            u, f = gfind('get_' + key); r = grobot()
            with assume(*GCTX): v, st = run(p, u, f, [], this=r); p.goal('returns %s' % key, v, vec_(GSIZES[key], 'a_' + key)); p.goal('nothing changes', st.v['obj'], r)
        ob('C13', 'generated get_' + key)(g_)
@ob('C13', 'generated setArguments')
def o_gsa(p):
    u, f = gfind('setArguments'); r = grobot(); ms = [ivar('m%d' % k, 0, None) for k in range(4)]; vals = [vec_(m, 'val%d' % k) for k, m in enumerate(ms)]
    with assume(*GCTX, *[ge(m, 0) for m in ms]):
        ok = And(*[eq(m, N) for m in ms]); want = r
        for k, key in enumerate(('q', 'dq', 'dqr', 'ddqr')): want = want.put(key, vec_(N, 'val%d' % k))
        with assume(ok): v, st = run(p, u, f, vals, this=r); p.goal('right sizes: the four vectors are the values, everything else as before', st.v['obj'], want)
        with assume(Not(ok)): v, st = run(p, u, f, vals, this=r); p.goal('any wrong size: nothing changes', st.v['obj'], r)
@ob('C13', 'generated resizeVariables')
def o_grs(p):
    u, f = gfind('resizeVariables'); r = grobot(**{k: Vec([]) for k in GSYM}); v, st = run(p, u, f, [], this=r); o = st.v['obj']
    sz = dict(GSIZES, par_DHtable=N * 4, par_world2L0=toI(6), par_Ln2EE=toI(6), par_gravity=toI(3))
    for k, n in sz.items(): p.goal('%s starts at zero with its own size' % k, o.f[k], zeros(n, toI(1)))
    for k, n in GSYM.items(): p.goal('%s starts as nothing selected' % k, o.f[k], dense(n, lambda i: toI(0)))
# ---------------------------------------------------------------- library getters
for nm, key, n in (('get_par_DYN', 'par_DYN', N * 10), ('get_par_REG', 'par_REG', N * 10)):
    def lg(p, nm=nm, key=key, n=n):
        u = A.library(); r = lrobot(); v, st = run(p, u, U.find(u, nm, 'robot.cpp'), [], this=r)
        p.goal('returns %s' % key, v, vec_(n, 'a_' + key)); p.goal('nothing changes', st.v['obj'], r)
    ob('C13', 'library ' + nm)(lg)
@ob('C13', 'library get_arg')
def o_ga(p):
    u = A.library(); r = lrobot(); f = U.find(u, 'get_arg', 'robot.cpp')
    for key, n in LSIZES.items():
        v, st = run(p, u, f, [S(key)], this=r); p.goal('returns %s' % key, v, vec_(n, 'a_' + key)); p.goal('%s: nothing changes' % key, st.v['obj'], r)
@ob('C13', 'library set_arg')
def o_sa(p):
    u = A.library(); r = lrobot(); f = U.find(u, 'set_arg', 'robot.cpp')
    for key, n in LSIZES.items():
        v, st = run(p, u, f, [S(key), vec_(n, 'val')], this=r); p.goal('%s is the value, everything else as before' % key, st.v['obj'], r.put('args', r.f['args'].put(S(key), vec_(n, 'val'))))
