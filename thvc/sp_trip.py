"""C15 composed: the document a function writes, given to the function that loads it."""
from .prove import *
from . import units as U, exec as X
from .sp_c17 import run
from .sp_kin import *
from .sp_set import *
from .sp_conv import stack10, to_reg, to_dyn, put_arg
from .sp_conf import *
def document(p, path):
    """what the last run wrote to the path"""
    ev = [e for e in p.exs[-1].events if e[1].lit() == path]; p.has('one file at the path', len(ev) == 1); em = ev[0][2]; o = em.f['out'].s
    p.has('it holds one document', em.cls == 'Emitter' and len(o) == 1 and o[0][0] == 'i' and isinstance(o[0][1], Map)); X.YDOC[''] = o[0][1]
def others(pre, **kw):
    """a robot with the same sizes and any other values"""
    return {k: vec_(n, pre + k) for k, n in kw.items()}
def saved(nm, l): return [rvar(nm, l * 10 + j) for j in range(10)]
@ob('C15', 'ten entries per link, link by link, are the whole vector')
def o_ten(p): p.goal('the vector', stack10(lambda l: saved('a_par_REG', l)), vec_(N * 10, 'a_par_REG'))
def per_link(n, nm): return per(n, OL, lambda l, k: rvar(nm, l * OL + k))
@ob('C15', 'Dl_order entries per link, link by link, are the whole vector')
def o_per(p):
    with assume(ge(OL, 1)): p.goal('the vector', per_link(N, 'a_par_Dl'), vec_(N * OL, 'a_par_Dl'))
@ob('C15', 'round trip: save_par_REG, load_par_REG')
def o_trip_reg(p):
    u = A.library(); S1 = U.find(u, 'save_par_REG', 'robot.cpp'); L1 = U.find(u, 'load_par_REG', 'robot.cpp'); r = lrobot(Dl_order=OL)
    with assume(ge(OL, 1)):
        run(p, u, S1, [S('f.yaml')], this=r); document(p, 'f.yaml')
        r2 = put_arg(r, **others('z_', par_REG=N * 10, par_DYN=N * 10))
        for upd in (True,):
            v, st = run(p, u, L1, [S('f.yaml'), toC(upd)], this=r2); o = st.v['obj']
            w = {'par_REG': stack10(lambda l: saved('a_par_REG', l))}
            if upd: w['par_DYN'] = stack10(lambda l: to_dyn(saved('a_par_REG', l)))
            p.goal('regressor-form parameters restored, nothing else changed (update %s)' % upd, o, put_arg(r2, **w))
def trip_par(p, listed):
    u = A.library(); S1 = U.find(u, 'save_par', 'robot.cpp'); L1 = U.find(u, 'load_par', 'robot.cpp'); m = ivar('m', 1, None); La = lambda k: ifun('Lb', k); T.FUN_FACTS['Lb'] = lambda a, v: [ge(v, 0)]
    mk = lambda nm: Obj('Robot', {'args': X.kmap('pp', dense(m, lambda k: Mat.gen(La(k), toI(1), lambda i, j: rvar(nm, k, i)))), 'numJoints': N})
    names = dense(m, lambda i: Str((('sym', 'pp', (toI(i),)),)))
    with assume(ge(m, 1)):
        run(p, u, S1, [S('f.yaml'), names], this=mk('Ar')); document(p, 'f.yaml')
        v, st = run(p, u, L1, [S('f.yaml'), names if listed else Vec([])], this=mk('Az'))
        p.goal('every saved vector restored', st.v['obj'].f['args'].f['v'], mk('Ar').f['args'].f['v']); p.goal('accepted', v, toI(1))
ob('C15', 'round trip: save_par, load_par of the same list')(lambda p: trip_par(p, True))
ob('C15', 'round trip: save_par, load_par of the whole file')(lambda p: trip_par(p, False))
def trip_gen(p, dl):
    u, f = gfind('save_par_REG'); _, g = gfind('load_par_REG'); r = grobot(Dl_order=OL if dl else toI(0), **({} if dl else {'par_Dl': Mat.gen(toI(0), toI(1), lambda i, j: ZERO)}))
    with assume(ge(OL, 1), *GCTX):
        run(p, u, f, [S('f.yaml')], this=r); document(p, 'f.yaml')
        r2 = r.put('par_REG', vec_(N * 10, 'z_REG')).put('par_DYN', vec_(N * 10, 'z_DYN'))
        if dl: r2 = r2.put('par_Dl', vec_(N * OL, 'z_Dl'))
        for upd in (True,):
            v, st = run(p, u, g, [S('f.yaml'), toC(upd)], this=r2); w = r2.put('par_REG', stack10(lambda l: saved('a_par_REG', l)))
            if dl: w = w.put('par_Dl', per_link(N, 'a_par_Dl'))
            if upd: w = w.put('par_DYN', stack10(lambda l: to_dyn(saved('a_par_REG', l))))
            p.goal('regressor-form parameters and friction restored, nothing else changed (update %s)' % upd, st.v['obj'], w)
for dl in (True, False): ob('C15', 'generated class round trip: save_par_REG, load_par_REG (%sfriction)' % ('' if dl else 'no '))(lambda p, dl=dl: trip_gen(p, dl))

def trip_class_dyn(p):
    """written by the class, loaded by the library robot"""
    u, f = gfind('save_par_DYN'); u2 = A.library(); L1 = U.find(u2, 'load_conf_par', 'robot.cpp')
    with assume(ge(OL, 1), *GCTX):
        run(p, u, f, [S('f.yaml')], this=grobot()); document(p, 'f.yaml')
        r2 = lrobot(ELASTIC=FALSE, Dl_order=OL, K_order=toI(0), D_order=toI(0), Dm_order=toI(0))
        for upd in (True,):
            v, st = run(p, u2, L1, [S('f.yaml'), toC(upd)], this=r2); w = {'par_DYN': stack10(lambda l: saved('a_par_DYN', l)), 'par_Dl': per_link(N, 'a_par_Dl')}
            if upd: w['par_REG'] = stack10(lambda l: to_reg(saved('a_par_DYN', l)))
            p.goal('dynamic parameters and friction of the class in the robot, nothing else changed (update %s)' % upd, st.v['obj'], put_arg(r2, **w))
ob('C15', 'class save_par_DYN loaded by the library robot')(trip_class_dyn)
def trip_files(p):
    """the two inertial files of the generator, loaded by the library robot"""
    u = U.geninertial(); f = U.find(u, 'genInertial_files', 'genYaml.cpp'); u2 = A.library(); X.YIMPLIED['dynamics/*/friction/Dl/'] = lambda l: yhas('dynamics/*/friction/', l)
    T.FUN_FACTS['Ylen:dynamics/*/friction/Dl/'] = lambda a, v: [eq(v, OL)]; X.YPRESENT.update({'dynamics/', 'dynamics/*/', 'dynamics/*/friction/', 'dynamics/*/friction/Dl/'})
    has = yhas('Dl_order/'); order = yint('Dl_order/')
    with assume(ge(ylen_('dynamics/'), N), has, ge(OL, 1), eq(order, OL)):
        v, st = run(p, u, f, [S('name'), N, S('config.yaml'), S('dyn.yaml'), S('reg.yaml')])
        L = lambda l: link_yaml(DYNK, l); fr = per(N, OL, lambda l, k: yvec('dynamics/*/friction/Dl/', l, k)); r2 = lrobot(ELASTIC=FALSE, Dl_order=OL, K_order=toI(0), D_order=toI(0), Dm_order=toI(0)); ex = p.exs[-1]
        document(p, 'dyn.yaml'); v, st = run(p, u2, U.find(u2, 'load_conf_par', 'robot.cpp'), [S('dyn.yaml'), TRUE], this=r2)
        p.goal('dyn file: every parameter of the configuration', st.v['obj'], put_arg(r2, par_DYN=stack10(L), par_REG=stack10(lambda l: to_reg(L(l))), par_Dl=fr))
        p.exs.append(ex); document(p, 'reg.yaml'); v, st = run(p, u2, U.find(u2, 'load_par_REG', 'robot.cpp'), [S('reg.yaml'), FALSE], this=r2)
        p.goal('reg file: the same parameters in regressor form', st.v['obj'], put_arg(r2, par_REG=stack10(lambda l: to_reg(L(l))), par_Dl=fr))
ob(('C15', 'C11'), 'files of the generator loaded by the library robot')(trip_files)
