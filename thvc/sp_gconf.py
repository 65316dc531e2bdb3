"""C14, C15 on the generated class: loading and saving."""
from .prove import *
from . import units as U, exec as X
from .sp_c17 import run
from .sp_kin import *
from .sp_set import *
from .sp_conv import stack10, to_reg, to_dyn
from .sp_conf import *
for dl in (True, False):
    def glpr(p, dl=dl):
        u, f = gfind('load_par_REG'); X.YIMPLIED.pop('dynamics/*/friction/Dl/', None)
        p.assume_note('well-formed file: every read key exists and converts, lists are at least as long as the model orders')
        r = grobot(Dl_order=OL if dl else toI(0)); has = lambda l: And(yhas('dynamics/*/friction/', l), yhas('dynamics/*/friction/Dl/', l))
        fr = per(N, OL, lambda l, k: ite_d(has(l), yvec('dynamics/*/friction/Dl/', l, k), rvar('a_par_Dl', l * OL + k)))
        with assume(ge(ylen_('dynamics/'), N), ge(OL, 1), *GCTX):
            for there in (True, False):
                with assume(yhas('dynamics/') if there else Not(yhas('dynamics/'))):
                    for upd in (True, False):
                        v, st = run(p, u, f, [S('reg.yaml'), toC(upd)], this=r); o = st.v['obj']; w = r
                        if there:
                            w = w.put('par_REG', stack10(lambda l: link_yaml(REGK, l)))
                            if dl: w = w.put('par_Dl', fr)
                            if upd: w = w.put('par_DYN', stack10(lambda l: to_dyn(link_yaml(REGK, l))))
                        p.goal('every value in its slot, everything else as before (update %s)' % upd, o, w); p.goal('returns the parameters', v, w.f['par_REG'])
    ob(('C14', 'C15'), 'generated load_par_REG (%sfriction)' % ('' if dl else 'no '))(glpr)
# ------------------------------------------------------------------ saving
for which, keys in (('REG', REGK), ('DYN', DYNK)):
    def gsp(p, which=which, keys=keys):
        u, f = gfind('save_par_' + which); r = grobot()
        with assume(*GCTX):
            ex = p.exec(u, contracts={'fillInertialYaml': filled}); v, st = run(p, u, f, [S('out.yaml')], this=r, ex=ex)
            p.goal('files written', toI(len(ex.events)), toI(1)); p.goal('to the given path', ex.events[0][1], S('out.yaml')); em = ex.events[0][2].f
            p.goal('every link', em['n'], N); p.goal('keys', Vec(em['keys'].s[:3]), Vec(KEYS[which].s[:3])); p.goal('as many links', em['links'].size(), N)
            k = ivar('k', 0, N); w = ivar('w')
            with assume(ge(k, 0), lt(k, N)):
                l = em['links'].get(k).f
                p.goal('parameters of link k', Vec([('i', l['mass'])] + list(l['xyz'].s) + list(l['parI'].s)), Vec([('i', rvar('a_par_' + which, k * 10 + j)) for j in range(10)]))
                p.goal('name of link k', l['name'], Str(('link', ('int', k + 1)))); p.goal('friction of link k', l['Dl'], dense(OL, lambda j: rvar('a_par_Dl', k * OL + j)))
            p.goal('nothing changes', st.v['obj'], r)
    ob(('C15',), 'generated save_par_' + which)(gsp)
# ------------------------------------------------------------------ loading a configuration
def gsel(key, path, n):
    """the selection the class uses: the file's, else its own; (flag of entry i)"""
    return lambda i: iite(yhas(path), yivec(path, toI(i)), ifun('g_' + key, toI(i)))
def picked(n, val, flag):
    """the values of the entries whose flag is set, in storage order"""
    n = toI(n); y = ivar('y'); c = lambda i: Not(eq(flag(i), 0))
    if n.const() is None: return Mat.gen(count(y, 0, n, c(y)), toI(1), lambda i, j: val(sel(y, 0, n, c(y), i)))
    r = toI(0)
    for k in range(n.const()): r = r + ind(c(toI(k)))
    def at(i, j):
        v, b = ZERO, toI(0)
        for k in range(n.const()): v = v + ite(And(c(toI(k)), eq(b, i)), val(toI(k)), ZERO); b = b + ind(c(toI(k)))
        return v
    return Mat.gen(r, toI(1), at)
def h_pick(ex, fn, nm, init, lo, hi):
    """ghost invariant of the compaction of the DH table: after t entries the selected ones among them fill the front"""
    if nm.split('.')[-1] != 'par_DHtable' or fn.find('load_conf') < 0 or not isinstance(init, Mat): return None
    y = ivar('y'); c = Not(eq(GFLAG(y), 0)); q = lambda t: count(y, 0, t, c)
    return lambda t: Mat.gen(init.r, init.c, lambda i, j: ite_d(lt(i, q(t)), rvar('Yv:kinematics/DH/', sel(y, 0, N * 4, c, i)), init.get(i, j)))
GFLAG = None
def glc(p, el, dl, symb):
    """symb: the file gives the selections (else the class keeps its own)"""
    global GFLAG
    u, f = gfind('load_conf'); p.assume_note('well-formed file: every read key exists and converts, lists have the lengths of the model'); X.YIMPLIED['dynamics/*/friction/Dl/'] = lambda l: yhas('dynamics/*/friction/', l); X.YIMPLIED['gravity/value/'] = lambda: yhas('gravity/')
    X.YPRESENT.update({'kinematics/', 'Base_to_L0/', 'Ln_to_EE/', 'dynamics/'})
    sizes = {'kinematics/symb/': N * 4, 'Base_to_L0/symb/': toI(6), 'Ln_to_EE/symb/': toI(6), 'gravity/symb/': toI(3)}
    ctx = [ge(ylen_(k), 3) for k in ('Base_to_L0/tr/', 'Base_to_L0/ypr/', 'Ln_to_EE/tr/', 'Ln_to_EE/ypr/')] + [ge(ylen_('gravity/value/'), 3), eq(ylen_('kinematics/DH/'), N * 4), ge(ylen_('dynamics/'), N), ge(ylen_('elastic/joints/'), NE), ge(OL, 1)]
    ctx += [c for k, n in sizes.items() for c in ((yhas(k), eq(ylen_(k), n)) if symb else (Not(yhas(k)),))] + [yhas('elastic/') if el else Not(yhas('elastic/'))]
    r = grobot(Dl_order=OL if dl else toI(0)); fl = {'par_DHtable': gsel('DHtable_symb', 'kinematics/symb/', N * 4), 'par_world2L0': gsel('world2L0_symb', 'Base_to_L0/symb/', 6), 'par_Ln2EE': gsel('Ln2EE_symb', 'Ln_to_EE/symb/', 6), 'par_gravity': gsel('gravity_symb', 'gravity/symb/', 3)}
    GFLAG = (lambda i: yivec('kinematics/symb/', i)) if symb else (lambda i: ifun('g_DHtable_symb', i))
    with assume(*GCTX, *ctx):
        for grav in ((el != symb),):        # every pair of the four switches is covered
            with assume(yhas('gravity/') if grav else Not(yhas('gravity/'))):
                for upd in ((dl != symb),):
                    ex = p.exec(u, hints=[h_pick]); v, st = run(p, u, f, [S('conf.yaml'), toC(upd)], this=r, ex=ex); o = st.v['obj'].f; w = r
                    frm = lambda a, b: (lambda k: rvar(a, k) if k.const() < 3 else rvar(b, k - 3))
                    def flagof(k, q): return (lambda i: yivec(q, i)) if symb else (lambda i: ifun('g_' + k, i))
                    w = w.put('par_DHtable', picked(N * 4, lambda i: rvar('Yv:kinematics/DH/', i), flagof('DHtable_symb', 'kinematics/symb/')))
                    w = w.put('par_world2L0', picked(6, frm('Yv:Base_to_L0/tr/', 'Yv:Base_to_L0/ypr/'), flagof('world2L0_symb', 'Base_to_L0/symb/')))
                    w = w.put('par_Ln2EE', picked(6, frm('Yv:Ln_to_EE/tr/', 'Yv:Ln_to_EE/ypr/'), flagof('Ln2EE_symb', 'Ln_to_EE/symb/')))
                    if grav: w = w.put('par_gravity', picked(3, lambda i: rvar('Yv:gravity/value/', i), flagof('gravity_symb', 'gravity/symb/')))
                    if symb:
                        for k, q in (('DHtable_symb', 'kinematics/symb/'), ('world2L0_symb', 'Base_to_L0/symb/'), ('Ln2EE_symb', 'Ln_to_EE/symb/')) + ((('gravity_symb', 'gravity/symb/'),) if grav else ()): w = w.put(k, Vec([('d', ylen_(q), yivec(q, K0))]))
                    w = w.put('par_DYN', stack10(lambda l: link_yaml(DYNK, l)))
                    if upd: w = w.put('par_REG', stack10(lambda l: to_reg(link_yaml(DYNK, l))))
                    if dl: w = w.put('par_Dl', per(N, OL, lambda l, k: ite_d(yhas('dynamics/*/friction/', l), yvec('dynamics/*/friction/Dl/', l, k), rvar('a_par_Dl', l * OL + k))))
                    if el:
                        for k, x in elastics().items(): w = w.put(k, x)
                    for k in w.f: p.goal('%s (update %s, gravity %s)' % (k, upd, grav), o[k], w.f[k])
for el in (True, False):
    for dl in (True, False):
        for sy_ in (True, False): ob('C14', 'generated load_conf (%selastic, %sfriction, %s selection)' % ('' if el else 'not ', '' if dl else 'no ', 'given' if sy_ else 'own'))(lambda p, el=el, dl=dl, sy_=sy_: glc(p, el, dl, sy_))
@ob('C15', 'generated save_par')
def o_gspar(p):
    """written: every parameter vector, whole, under its own key"""
    u, f = gfind('save_par'); r = grobot()
    with assume(*GCTX):
        v, st = run(p, u, f, [S('par.yaml')], this=r); d = written(p, 'par.yaml')
        node(p, 'the file', d, {(k[4:] if k in ('par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity') else k): dense(GSIZES[k], lambda i, k=k: rvar('a_' + k, i)) for k in GSIZES if k.startswith('par_')})
        p.goal('reports success', v, toI(1)); p.goal('nothing changes', st.v['obj'], r)
