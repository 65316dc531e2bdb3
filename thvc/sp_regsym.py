"""C10: regressors of friction, elasticity and kinematics: one column per symbolic parameter, in storage order."""
from .prove import *
from . import units as U
from .sp_c17 import run, add, sub, scale
from .sp_kin import *
from .sp_fric import *
from .sp_time import formal, fm
for nm, on in (('dlf', 'par_Dl'), ('kf', 'par_K'), ('df', 'par_D'), ('dmf', 'par_Dm'), ('Mmf', 'par_Mm')): formal(nm, on)
formal('Jp', 'par_DHtable', 'par_world2L0', 'par_Ln2EE')
PARS = {'par_DHtable': N * 4, 'par_world2L0': toI(6), 'par_Ln2EE': toI(6), 'par_gravity': toI(3), 'par_DYN': N * 10, 'par_Dl': N * OL, 'par_K': NE * OK_, 'par_D': NE * OD, 'par_Dm': NE * ODM, 'par_Mm': NE}
def sy(par, k): return ifun('sy_' + par, toI(k))
def issym(par, k): return Not(eq(sy(par, k), 0))
def nsym(par):
    n = PARS[par].const()
    if n is not None: return sum((ind(issym(par, k)) for k in range(n)), toI(0))
    v = ivar('y'); return count(v, 0, PARS[par], issym(par, v))
def symb(): return Map({k: dense(n, lambda i, k=k: sy(k, i)) for k, n in PARS.items()})
def srobot(elastic=True, **kw): return elrobot(elastic, symb=symb(), **kw)
def columns(pars, f):
    """one column per symbolic entry of the parameter vectors, in storage order"""
    segs = []
    for par in pars:
        n = PARS[par]
        if n.const() is not None: segs += [('c', issym(par, k), f(list(rvar(par, toI(k)).atoms())[0])) for k in range(n.const())]
        else:
            v = ivar('y', 0, n)
            with assume(ge(v, 0), lt(v, n), issym(par, v)): segs.append(('f', v, toI(0), n, ((issym(par, v), f(list(rvar(par, v).atoms())[0])),)))
    return Vec(segs)
def partial(m):
    return lambda w: m.map(lambda p: diff(p, w))
def args_of(p, o, nm, want):
    a = o.f['funs'].get(S(nm))
    if a is UNDEF: return p.missing('%s: arguments' % nm)
    p.goal('%s: arguments' % nm, a.x[1], want if isinstance(want, Vec) else items([S(x) for x in want]))
def c_put(name, **puts):
    def c(ex, st, this, args, n):
        ex.used.add(name); lv = ex.lv(args[0], st); r = ex.read(st, lv); m = r.f['model']
        for k, x in puts.items(): m = m.put(S(k), x)
        ex.write(st, lv, r.put('model', m)); return toI(1)
    return c
DLF = fm('dlf', N, 1); KF, DF, DMF, MMF = fm('kf', NE, 1), fm('df', NE, 1), fm('dmf', NE, 1), fm('Mmf', NE, NE); JP = fm('Jp', 6, N)
c_dl = c_put('compute_Dl: dl (proved in C09)', dl=DLF); c_ela = c_put('compute_elastic: k, d, dm, Mm (proved in C09)', k=KF, d=DF, dm=DMF, Mm=MMF)
def jcon(ex, st, this, args, n):
    r0 = c_put('compute_jacobians: J_ee (proved in C02)', J_ee=JP); return r0(ex, st, this, args, n)
CR = dict(RC, compute_Dl=c_dl, compute_elastic=c_ela, compute_chain=c_chain, compute_jacobians=jcon)
@ob('C10', 'compute_reg_Dl')
def o_rdl(p):
    u = A.library(); f = U.find(u, 'compute_reg_Dl', 'regressors.cpp')
    with assume(ge(OL, 1), ge(nsym('par_Dl'), 1)):
        v, st = run(p, u, f, [srobot()], contracts=CR); o = st.v['arg0']
        p.goal('reg_dl: one column per symbolic friction parameter, the partial derivative of dl', o.f['model'].get(S('reg_dl')), SegMat(columns(['par_Dl'], partial(DLF)), N)); args_of(p, o, 'reg_dl', ['dq'])
    with assume(ge(OL, 1), eq(nsym('par_Dl'), 0)):
        v, st = run(p, u, f, [srobot()], contracts=CR); o = st.v['arg0']; p.add('nothing is published without symbolic parameters', decide(Not(o.f['model'].has(S('reg_dl')))), '')
@ob('C10', 'compute_reg_elastic')
def o_rel(p):
    u = A.library(); f = U.find(u, 'compute_reg_elastic', 'regressors.cpp')
    ddx = vec_(NE, 'ddx'); spec = (('reg_k', 'par_K', KF, ['q', 'x'], 'K_order', OK_), ('reg_d', 'par_D', DF, ['dq', 'dx'], 'D_order', OD), ('reg_dm', 'par_Dm', DMF, ['dx'], 'Dm_order', ODM), ('reg_Mm', 'par_Mm', mul(MMF, ddx), ['ddx'], None, toI(1)))
    al = And(*[And(ge(o, 1), ge(nsym(par), 1)) for _, par, _, _, _, o in spec])
    with assume(al):
        v, st = run(p, u, f, [srobot()], contracts=CR); o = st.v['arg0']
        for nm, par, F, ar, _, od in spec:
            p.goal('%s: one column per symbolic entry of %s, the partial derivative' % (nm, par), o.f['model'].get(S(nm)), SegMat(columns([par], partial(F)), NE)); args_of(p, o, nm, ar)
        p.goal('returns success', toI(v) if not isinstance(v, C) else ind(v), toI(1))
    for nm, par, F, ar, _, od in spec:
        with assume(*[And(ge(o, 1), eq(nsym(q), 0) if q == par else ge(nsym(q), 1)) for _, q, _, _, _, o in spec]):
            v, st = run(p, u, f, [srobot()], contracts=CR); o = st.v['arg0']
            p.add('%s: not published without symbolic parameters' % nm, decide(Not(o.f['model'].has(S(nm)))), '')
            for n2, par2, F2, ar2, _, _ in spec:
                if n2 != nm: p.goal('%s: published although %s has no symbolic entry' % (n2, par), o.f['model'].get(S(n2)), SegMat(columns([par2], partial(F2)), NE))
JPARS = ['par_DHtable', 'par_world2L0', 'par_Ln2EE']
@ob('C10', 'compute_reg_J')
def o_rj(p):
    u = A.library(); f = U.find(u, 'compute_reg_J', 'regressors.cpp'); tot = nsym(JPARS[0]) + nsym(JPARS[1]) + nsym(JPARS[2])
    dq, w = vec_(N, 'dq'), vec_(6, 'w')
    with assume(ge(tot, 1)):
        v, st = run(p, u, f, [srobot()], contracts=CR); o = st.v['arg0']
        p.goal('reg_Jdq: one column per symbolic kinematic parameter, in storage order', o.f['model'].get(S('reg_Jdq')), SegMat(columns(JPARS, partial(mul(JP, dq))), toI(6))); args_of(p, o, 'reg_Jdq', alist(['q', 'dq'], JPARS))
        p.goal('reg_JTw: one column per symbolic kinematic parameter, in storage order', o.f['model'].get(S('reg_JTw')), SegMat(columns(JPARS, partial(mul(JP.T(), w))), N)); args_of(p, o, 'reg_JTw', alist(['q', 'w'], JPARS))
        p.goal('returns success', toI(v) if not isinstance(v, C) else ind(v), toI(1))
    with assume(eq(tot, 0)):
        v, st = run(p, u, f, [srobot()], contracts=CR); o = st.v['arg0']
        for nm in ('reg_Jdq', 'reg_JTw'): p.add('%s: not published without symbolic parameters' % nm, decide(Not(o.f['model'].has(S(nm)))), '')
