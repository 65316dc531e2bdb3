"""C14: configuration values reach exactly their own slots.
A configuration file is any document: 'Y:path' is the number at a path, '*' in a path the position in an ordered map."""
from .prove import *
from . import units as U, exec as X
from .sp_c17 import run
from .sp_kin import *
from .sp_set import *
from .sp_regsym import PARS
from .sp_conv import stack10, put_arg, to_reg, to_dyn, link_of
DYNK = ('mass', 'CoM_x', 'CoM_y', 'CoM_z', 'Ixx', 'Ixy', 'Ixz', 'Iyy', 'Iyz', 'Izz')
REGK = ('mass', 'm_CoM_x', 'm_CoM_y', 'm_CoM_z') + DYNK[4:]
X.YPRESENT |= {'num_joints/', 'type_joints/', 'kinematics/DH/', 'Base_to_L0/tr/', 'Base_to_L0/ypr/', 'Ln_to_EE/tr/', 'Ln_to_EE/ypr/'}
X.YPRESENT |= {'dynamics/*/inertial/%s/' % k for k in DYNK + REGK} | {'elastic/joints/*/%s/' % k for k in ('K', 'D', 'Dm', 'Mm')} | {'elastic/K_order/', 'elastic/D_order/', 'elastic/Dm_order/'}
for k, n in (('K', OK_), ('D', OD), ('Dm', ODM)): T.FUN_FACTS['Ylen:elastic/joints/*/%s/' % k] = lambda a, v, n=n: [ge(v, n)]
T.FUN_FACTS['Ylen:dynamics/*/friction/Dl/'] = lambda a, v: [ge(v, OL)]
def yhas(path, *ix): return patom('yex', path, *ix)
def ynum(path, *ix): return rvar('Y:' + path, *ix)
def yvec(path, *ix): return rvar('Yv:' + path, *ix)
def ylen_(path, *ix): return ifun('Ylen:' + path, *ix)
WF = [ge(ylen_('dynamics/'), N), ge(ylen_('elastic/joints/'), NE)]
def link_yaml(ks, l): return [ynum('dynamics/*/inertial/%s/' % k, l) for k in ks]
def per(n, order, f):
    """the vector with the values f(item, k) of every item, order entries each"""
    return Mat.gen(n * order, toI(1), lambda i, j: f(idiv(toI(i), order), imod(toI(i), order)))
def friction(old=None): return per(N, OL, lambda l, k: ite_d(yhas('dynamics/*/friction/', l), yvec('dynamics/*/friction/Dl/', l, k), old(l, k) if old else ZERO))
def elastics():
    d = {'par_' + k: per(NE, o, lambda e, q, k=k: yvec('elastic/joints/*/%s/' % k, e, q)) for k, o in (('K', OK_), ('D', OD), ('Dm', ODM))}
    d['par_Mm'] = Mat.gen(NE, toI(1), lambda i, j: ynum('elastic/joints/*/Mm/', toI(i))); return d
for el in (True, False):
    for dl in (True, False):
        def lcp(p, el=el, dl=dl):
            u = A.library(); f = U.find(u, 'load_conf_par', 'robot.cpp'); p.assume_note('well-formed file: every read key exists and converts, lists are at least as long as the model orders')
            X.YIMPLIED['dynamics/*/friction/Dl/'] = lambda l: yhas('dynamics/*/friction/', l)
            r = lrobot(ELASTIC=toC(el), Dl_order=OL if dl else toI(0), **{k: x if el else toI(0) for k, x in (("K_order", OK_), ("D_order", OD), ("Dm_order", ODM))})
            with assume(*WF, *([yhas('elastic/'), ge(OL, 1)] if el else [ge(OL, 1)])):
                for upd in (True, False):
                    v, st = run(p, u, f, [S('conf.yaml'), toC(upd)], this=r); o = st.v['obj']
                    w = {'par_DYN': stack10(lambda l: link_yaml(DYNK, l))}
                    if dl: w['par_Dl'] = friction()
                    if el: w.update(elastics())
                    if upd: w['par_REG'] = stack10(lambda l: to_reg(link_yaml(DYNK, l)))
                    p.goal('every value in its slot, everything else as before (update %s)' % upd, o, put_arg(r, **w))
        ob(('C14', 'C11'), 'load_conf_par (%selastic, %sfriction)' % ('' if el else 'not ', '' if dl else 'no '))(lcp)
# ------------------------------------------------------------------ parse_config
def yint(path, *ix): return ifun('Yi:' + path, *ix)
def yivec(path, *ix): return ifun('Yvi:' + path, *ix)
def ytext(i): return Str((('sym', 'jt', (toI(i),)),))
def sea(i): return Or(str_eq(ytext(i), S('R_SEA')), str_eq(ytext(i), S('P_SEA')))
def opt(path, v, d): return iite(yhas(path), v, toI(d))
def flag(path, l, k):
    """entry k of the selection vector at path: missing file or missing entry means not selected"""
    l = [] if l is None else [l]
    return iite(And(yhas(path, *l), lt(k, ylen_(path, *l))), yivec(path, *l, k), toI(0))
def flags(n, order, path): return dense(n * order, lambda i: flag(path, idiv(i, order), imod(i, order)))
def given(path, n):
    w = Vec([('d', ylen_(path), yivec(path, K0))])
    return vite(yhas(path), w, dense(n, lambda i: toI(0)))
def stack6(a, b): return mat([[rvar(x, k)] for x in (a, b) for k in range(3)])
def parsed(p, el, dl):
    u = A.library(); f = U.find(u, 'parse_config', 'robot.cpp')
    X.YPRESENT.update({'elastic/', 'kinematics/', 'Base_to_L0/', 'Ln_to_EE/', 'dynamics/'})
    X.YIMPLIED['gravity/value/'] = lambda: yhas('gravity/')
    EL = And(yhas('ELASTIC_MODEL/'), patom('Yb', 'ELASTIC_MODEL/')); DL = opt('Dl_order/', yint('Dl_order/'), 0); N = yint('num_joints/'); dlo = yint('Dl_order/')
    ko, do, mo = [yint('elastic/%s_order/' % k) if el else toI(0) for k in ('K', 'D', 'Dm')]
    i = ivar('t'); nel_ = count(i, 0, N, sea(i))
    r = Obj('Robot', {'STD_PAR_LINK': toI(10), 'config_yaml': YNode(()), 'symb': Map({}), 'model': Map({}), 'args': Map({}), 'numJoints': ivar('n0'), 'isElasticJoint': Vec([]), 'jointsType': Vec([])})
    ctx = [ge(ylen_(k), 3) for k in ('Base_to_L0/tr/', 'Base_to_L0/ypr/', 'Ln_to_EE/tr/', 'Ln_to_EE/ypr/')] + [ge(ylen_('gravity/value/'), 3), ge(N, 1), eq(ylen_('type_joints/'), N), eq(ylen_('kinematics/DH/'), N * 4), ge(ylen_('dynamics/'), N), ge(ylen_('elastic/joints/'), nel_)]
    ctx += [ge(yint('elastic/%s_order/' % k), 0) for k in ('K', 'D', 'Dm')] + [EL if el else Not(EL), *([yhas('Dl_order/'), ge(dlo, 1)] if dl else [eq(DL, 0)])]
    with assume(*ctx):
        v, st = run(p, u, f, [], this=r); o = st.v['obj'].f
        p.goal('accepted', toI(v), toI(1)); p.goal('joints', o['numJoints'], N); p.goal('joint types', o['jointsType'], dense(N, ytext))
        p.goal('friction order', o['Dl_order'], DL); p.holds('elastic model flag', o['ELASTIC'] if el else Not(o['ELASTIC']))
        for k, w in (('K', ko), ('D', do), ('Dm', mo)): p.goal('%s order' % k, o[k + '_order'], w)
        p.goal('elastic joints', o['isElasticJoint'], dense(N, lambda i: iite(sea(i), toI(1), toI(0)))); p.goal('number of elastic joints', o['numElasticJoints'], nel_)
        s = lambda k: o['symb'].get(S(k))
        p.goal('inertial selection of every link', s('par_DYN'), flags(N, toI(10), 'dynamics/*/inertial/symb/'))
        p.goal('friction selection of every link', s('par_Dl'), flags(N, dlo, 'dynamics/*/friction/symb/') if dl else Vec([]))
        for k, w in (('K', ko), ('D', do), ('Dm', mo)): p.goal('%s selection of every elastic joint' % k, s('par_' + k), flags(nel_, w, 'elastic/joints/*/%s_symb/' % k) if el else Vec([]))
        p.goal('motor inertia selection', s('par_Mm'), dense(nel_, lambda i: iite(yhas('elastic/joints/*/Mm_symb/', i), yint('elastic/joints/*/Mm_symb/', i), toI(0))) if el else Vec([]))
        for k, q, n in (('par_DHtable', 'kinematics/symb/', N * 4), ('par_world2L0', 'Base_to_L0/symb/', toI(6)), ('par_Ln2EE', 'Ln_to_EE/symb/', toI(6)), ('par_gravity', 'gravity/symb/', toI(3))): p.goal('%s selection: as given, or none' % k, s(k), given(q, n))
        a = lambda k: o['args'].get(S(k)); m = lambda k: o['model'].get(S(k))
        p.goal('DH values', a('par_DHtable'), vec_(N * 4, 'Yv:kinematics/DH/'))
        p.goal('base frame values', a('par_world2L0'), stack6('Yv:Base_to_L0/tr/', 'Yv:Base_to_L0/ypr/')); p.goal('end-effector frame values', a('par_Ln2EE'), stack6('Yv:Ln_to_EE/tr/', 'Yv:Ln_to_EE/ypr/'))
        p.goal('gravity values (none: zero)', a('par_gravity'), mat([[ite_d(yhas('gravity/'), rvar('Yv:gravity/value/', k), ZERO)] for k in range(3)]))
        for k, nm, n in (('par_DHtable', 'DHtable', N * 4), ('par_world2L0', 'world2L0', toI(6)), ('par_Ln2EE', 'Ln2EE', toI(6)), ('par_gravity', 'gravity', toI(3))): p.goal('%s symbols' % k, m(k), vec_(n, nm))
        ks = lambda w: sorted(set(w.base) | {e[2].lit() for e in w.log})
        p.has('nothing else in the tables', ks(o['args']) == ks(o['model']) == sorted(('par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity')) and ks(o['symb']) == sorted(('par_DYN', 'par_Dl', 'par_K', 'par_D', 'par_Dm', 'par_Mm', 'par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity')))
for el in (True, False):
    for dl in (True, False): ob(('C14', 'C12'), 'parse_config (%selastic, %sfriction)' % ('' if el else 'not ', '' if dl else 'no '))(lambda p, el=el, dl=dl: parsed(p, el, dl))
# ------------------------------------------------------------------ construction
def inited(p, el, dl):
    u = A.library(); f = U.find(u, 'initVarsFuns', 'robot.cpp'); names = ('par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity'); pars = tuple(PARS)
    sy0 = Map({k: dense(PARS[k], lambda i, k=k: ifun('Sy_' + k, i)) for k in pars})
    r = lrobot(ELASTIC=toC(el), Dl_order=OL if dl else toI(0), K_order=OK_ if el else toI(0), D_order=OD if el else toI(0), Dm_order=ODM if el else toI(0), jointsType=dense(N, jt_text), args=Map({k: vec_(LSIZES[k], 'a_' + k) for k in names}), model=Map({k: vec_(LSIZES[k], k) for k in names}), symb=sy0)
    with assume(ge(OL, 1)):
        v, st = run(p, u, f, [], this=r); o = st.v['obj'].f
        ks = STATES + (XSTATES if el else ()); ps = ('par_DYN', 'par_REG') + (('par_Dl',) if dl else ()) + (('par_K', 'par_D', 'par_Dm', 'par_Mm') if el else ())
        for k in ks + ps:
            p.goal('%s: symbols of its own' % k, o['model'].get(S(k)), vec_(LSIZES[k], k)); p.goal('%s: starts at zero' % k, o['args'].get(S(k)), zeros(LSIZES[k], toI(1)))
        for k in ks: p.goal('%s: always symbolic' % k, o['symb'].get(S(k)), dense(LSIZES[k], lambda i: toI(1)))
        for k in names: p.goal('%s: as configured' % k, o['args'].get(S(k)), vec_(LSIZES[k], 'a_' + k)); p.goal('%s: symbols as configured' % k, o['model'].get(S(k)), vec_(LSIZES[k], k))
        for k in pars: p.goal('%s: selection as configured' % k, o['symb'].get(S(k)), sy0.get(S(k)))
        kk = lambda w: sorted(set(w.base) | {e[2].lit() for e in w.log})
        p.has('nothing else in the tables', kk(o['args']) == kk(o['model']) == sorted(ks + ps + names) and kk(o['symb']) == sorted(ks + pars))
        for k in r.f:
            if k not in ('args', 'model', 'symb'): p.goal('%s unchanged' % k, o[k], r.f[k])
STATES = ('q', 'dq', 'ddq', 'd3q', 'd4q', 'dqr', 'ddqr', 'w'); XSTATES = ('x', 'dx', 'ddx', 'ddxr')
def jt_text(i): return Str((('sym', 'jt', (toI(i),)),))
for el in (True, False):
    for dl in (True, False): ob(('C12', 'C13'), 'initVarsFuns (%selastic, %sfriction)' % ('' if el else 'not ', '' if dl else 'no '))(lambda p, el=el, dl=dl: inited(p, el, dl))
@ob(('C14', 'C13'), 'construction and loading')
def o_load(p):
    u = A.library()
    ok = ivar('parsed', 0, 2)
    def mark(k):
        def c(ex, st, lv, a, n):
            o = ex.read(st, lv); ex.write(st, lv + ('f', 'did'), Vec(o.f['did'].s + (('i', S(k)),)))
            if k == 'parse': ex.write(st, lv + ('f', 'from'), o.f['config_yaml'])
            return ok
        return c
    CC = {'parse_config': mark('parse'), 'initVarsFuns': mark('init')}
    for want, fs in ((('parse', 'init'), u.funs['Robot']), (('parse',), u.funs['load_config'])):
        for f in fs:
            if not A.body(f) or 'Robot &' in f.t: continue
            r = Obj('Robot', {'did': Vec([]), 'config_yaml': YNode(('none',)), 'from': YNode(('none',)), 'numJoints': N})
            y = 'YAML' in f.t.split('(')[1]; arg = YNode(('given',)) if y else S('file.yaml')
            v, st = run(p, u, f, [arg], this=r, contracts=CC); o = st.v['obj'].f
            p.goal('%s: steps in order' % f.t, o['did'], Vec([('i', S(k)) for k in want]))
            p.goal('%s: from the given document' % f.t, o['from'], arg if y else YNode(())); p.goal('%s: configuration kept' % f.t, o['config_yaml'], arg if y else YNode(()))
            if f.name == 'load_config' and y: p.goal('reports whether parsing succeeded', toI(v), ind(Not(eq(ok, 0))))
# ------------------------------------------------------------------ inertial parameters in regressor form
for dl in (True, False):
    def lpr(p, dl=dl):
        u = A.library(); f = U.find(u, 'load_par_REG', 'robot.cpp'); p.assume_note('well-formed file: every read key exists and converts, lists are at least as long as the model orders')
        X.YIMPLIED.pop('dynamics/*/friction/Dl/', None)
        r = lrobot(Dl_order=OL if dl else toI(0)); has = lambda l: And(yhas('dynamics/*/friction/', l), yhas('dynamics/*/friction/Dl/', l))
        fr = per(N, OL, lambda l, k: ite_d(has(l), yvec('dynamics/*/friction/Dl/', l, k), rvar('a_par_Dl', l * OL + k)))
        with assume(ge(ylen_('dynamics/'), N), ge(OL, 1)):
            for upd in (True, False):
                v, st = run(p, u, f, [S('inertial_REG.yaml'), toC(upd)], this=r); o = st.v['obj']
                w = {'par_REG': stack10(lambda l: link_yaml(REGK, l))}
                if dl: w['par_Dl'] = fr
                if upd: w['par_DYN'] = stack10(lambda l: to_dyn(link_yaml(REGK, l)))
                p.goal('returns the loaded parameters (update %s)' % upd, v, stack10(lambda l: link_yaml(REGK, l)))
                p.goal('every value in its slot, everything else as before (update %s)' % upd, o, put_arg(r, **w))
    ob(('C14', 'C11'), 'load_par_REG (%sfriction)' % ('' if dl else 'no '))(lpr)
# ------------------------------------------------------------------ plain parameter files
@ob('C15', 'load_par, listed names')
def o_lp(p):
    u = A.library(); f = U.find(u, 'load_par', 'robot.cpp'); m = ivar('m', 1, None); from_ = [S(x) for x in ('par_DYN', 'par_K', 'mine')]
    own = {'par_DYN': N * 10, 'par_K': NE * OK_, 'mine': ivar('nm', 0, None)}; X.YPRESENT.update(k + '/' for k in own)
    r = lrobot(args=amap(mine=vec_(own['mine'], 'a_mine')))
    with assume(ge(own['mine'], 0), *[eq(ylen_(k + '/'), n) for k, n in own.items()]):
        v, st = run(p, u, f, [S('par.yaml'), Vec([('i', x) for x in from_])], this=r)
        p.goal('the listed vectors take the values of the file, everything else as before', st.v['obj'], put_arg(r, **{k: vec_(n, 'Yv:%s/' % k) for k, n in own.items()})); p.goal('accepted', toI(v), toI(1))
def lpn(p, listed):
    """the list (or the file) names one parameter vector per index, pairwise different; the file has as many values as the vector"""
    u = A.library(); f = U.find(u, 'load_par', 'robot.cpp'); m = ivar('m', 1, None); La = lambda k: ifun('La', k); X.YPRESENT.update({'<pp>/', '*/'}); path = '<pp>/' if listed else '*/'
    T.FUN_FACTS['La'] = lambda a, v: [ge(v, 0), eq(v, ylen_(path, *a))]
    r = Obj('Robot', {'args': X.kmap('pp' if listed else 'Yk:*/', dense(m, lambda k: Mat.gen(La(k), toI(1), lambda i, j: rvar('Ar', k, i)))), 'numJoints': N})
    with assume(ge(m, 1), *([] if listed else [eq(ylen_(''), m)])):
        v, st = run(p, u, f, [S('par.yaml'), dense(m, lambda i: Str((('sym', 'pp', (toI(i),)),))) if listed else Vec([])], this=r)
        p.goal('every named vector takes the values of the file', st.v['obj'].f['args'].f['v'], dense(m, lambda k: Mat.gen(La(k), toI(1), lambda i, j: yvec(path, k, i)))); p.goal('accepted', v, toI(1))
ob('C15', 'load_par, any list of names')(lambda p: lpn(p, True))
ob('C15', 'load_par, every name in the file')(lambda p: lpn(p, False))
# ------------------------------------------------------------------ writing
@ob('C15', 'save_par')
def o_sp(p):
    u = A.library(); f = U.find(u, 'save_par', 'robot.cpp'); m = ivar('m', 1, None); La = lambda k: ifun('Lb', k); T.FUN_FACTS['Lb'] = lambda a, v: [ge(v, 0)]
    r = Obj('Robot', {'args': X.kmap('pp', dense(m, lambda k: Mat.gen(La(k), toI(1), lambda i, j: rvar('Ar', k, i)))), 'numJoints': N})
    with assume(ge(m, 1)):
        v, st = run(p, u, f, [S('par.yaml'), dense(m, lambda i: Str((('sym', 'pp', (toI(i),)),)))], this=r)
        d = written(p, 'par.yaml'); k = ivar('k', 0, m)
        family(p, 'the file', d, m, lambda k: Str((('sym', 'pp', (k,)),)), lambda k: Vec([('d', La(k), rvar('Ar', k, K0))])); p.goal('reports success', v, toI(1)); p.goal('the robot is unchanged', st.v['obj'], r)
def written(p, path, ev=0, n=1):
    """the document written to the path (one of n files)"""
    es = p.exs[-1].events; p.goal('files written', len(es), n); ev = es[ev]; p.goal('to the given path', ev[1], S(path))
    return emitted(p, ev[2])
def emitted(p, em):
    o = em.f['out'].s; p.has('it holds one document', em.cls == 'Emitter' and len(o) == 1 and o[0][0] == 'i' and isinstance(o[0][1], Map))
    return o[0][1]
def family(p, what, d, n, key, val):
    """d has exactly the entries key(k): val(k), k = 0 .. n-1 in this order"""
    e = d.log[0] if len(d.log) == 1 and not d.base else None
    p.has('%s has one entry per item, in order' % what, e is not None and e[0] == 'f' and decide(And(eq(e[2], 0), eq(e[3], n), e[4])))
    k = ivar('k', 0, n)
    with assume(ge(k, 0), lt(k, n)):
        p.goal('%s: keys' % what, Str(vsubst(e[5], {e[1]: k}).p), key(k)); g = vsubst(e[6], {e[1]: k}); w = val(k)
        if isinstance(w, dict): node(p, what, g, w)
        else: p.goal('%s: values' % what, g, w)
def node(p, what, g, w):
    """the map g has exactly the entries of w"""
    p.has('%s: exactly its own keys' % what, isinstance(g, Map) and set(g.base) | {e[2].lit() for e in g.log} == set(w))
    for q in w:
        if isinstance(w[q], dict): node(p, what + '/' + q, g.get(S(q)), w[q])
        else: p.goal('%s: %s' % (what, q), g.get(S(q)), w[q])
@ob('C15', 'save_par_REG')
def o_sr(p):
    """written: link i+1 carries entries 10 i .. 10 i + 9 of par_REG under the keys load_par_REG reads (proved in C14 to land in those entries)"""
    u = A.library(); f = U.find(u, 'save_par_REG', 'robot.cpp'); r = lrobot(); v, st = run(p, u, f, [S('out.yaml')], this=r); d = written(p, 'out.yaml')
    p.has('one section', set(d.base) | {e[2].lit() for e in d.log} == {'dynamics'})
    family(p, 'dynamics', d.get(S('dynamics')), N, lambda k: Str(('link', ('int', k + 1))), lambda k: {'inertial': {q: rvar('a_par_REG', k * 10 + j) for j, q in enumerate(REGK)}})
    p.goal('reports success', v, toI(1)); p.goal('the robot is unchanged', st.v['obj'], r)
def lname(i): return Str((('sym', 'ln', (toI(i),)),))
def own_vec(ln, nm, i): w = ivar('w', 0, ifun(ln, i)); return Vec([('f', w, toI(0), ifun(ln, i), ((TRUE, rvar(nm, i, w)),))])
def links_(n):
    """any vector of link properties"""
    return dense(n, lambda i: Obj('LinkProp', {'name': lname(i), 'mass': rvar('Lm', i), 'xyz': Vec([('i', rvar('Lx', i, toI(k))) for k in range(3)]), 'parI': Vec([('i', rvar('LI', i, toI(k))) for k in range(6)]), 'Dl': own_vec('LD', 'Ldl', i)}))
T.FUN_FACTS['LD'] = lambda a, v: [ge(v, 0)]
def inertia_doc(keys, k): return {'inertial': dict(zip(keys, [rvar('Lm', k)] + [rvar('Lx', k, toI(j)) for j in range(3)] + [rvar('LI', k, toI(j)) for j in range(6)])), 'friction': {'Dl': own_vec('LD', 'Ldl', k)}}
KEYS = {'DYN': Vec([('i', S(x)) for x in ('mass', 'CoM_', 'I', 'DYN', 'comment')]), 'REG': Vec([('i', S(x)) for x in ('mass', 'm_CoM_', 'I', 'REG', 'comment')])}
def fill(p, u, f, this=None):
    for q, keys in (('DYN', DYNK), ('REG', REGK)):
        ex = p.exec(u); st0 = State(); em = Obj('Emitter', {'out': Vec([])})
        v, st = run(p, u, f, [N, em, links_(N), KEYS[q]], this=this, ex=ex); d = emitted(p, st.v['arg1'])
        p.has('one section (%s)' % q, set(d.base) | {e[2].lit() for e in d.log} == {'dynamics'})
        family(p, 'dynamics (%s)' % q, d.get(S('dynamics')), N, lname, lambda k: inertia_doc(keys, k))
        if this: p.goal('the robot is unchanged', st.v['obj'], this)
@ob('C15', 'fillInertialYaml (file generator)')
def o_fl(p): u = U.geninertial(); fill(p, u, U.find(u, 'fillInertialYaml', 'genYaml.cpp'))
@ob('C15', 'fillInertialYaml (generated class)')
def o_flt(p): u, f = gfind('fillInertialYaml'); fill(p, u, f, grobot())
# ------------------------------------------------------------------ the two inertial files of a robot
def filled(ex, st, lv, an, n):
    """contract of fillInertialYaml (proved in C15): the emitter holds the document of these links under these keys"""
    a = [ex.ev(x, st) for x in an]; ex.write(st, ex.lv(an[1], st), Obj('Emitter', {'out': Vec([]), 'n': a[0], 'links': a[2], 'keys': a[3]})); return None
def gif(p, dl):
    u = U.geninertial(); f = U.find(u, 'genInertial_files', 'genYaml.cpp'); has = yhas('Dl_order/'); order = yint('Dl_order/'); X.YIMPLIED['dynamics/*/friction/Dl/'] = lambda l: yhas('dynamics/*/friction/', l)
    T.FUN_FACTS['Ylen:dynamics/*/friction/Dl/'] = lambda a, v: [ge(v, 0)]
    L = lambda l: link_yaml(DYNK, l); R = lambda l: to_reg(link_yaml(DYNK, l)); X.YPRESENT.update({'dynamics/', 'dynamics/*/', 'dynamics/*/friction/', 'dynamics/*/friction/Dl/'})
    with assume(ge(ylen_('dynamics/'), N), *([has, Not(eq(order, 0)), ge(order, 0)] if dl else [Or(Not(has), eq(order, 0))])):
        ex = p.exec(u, contracts={'fillInertialYaml': filled})
        v, st = run(p, u, f, [S('name'), N, S('config.yaml'), S('dyn.yaml'), S('reg.yaml')], ex=ex); ev = {e[1].lit(): e[2] for e in ex.events}
        p.has('two files', len(ex.events) == 2 and set(ev) == {'dyn.yaml', 'reg.yaml'}); p.goal('reports success', v, toI(1))
        for q, val in (('dyn', L), ('reg', R)):
            em = ev[q + '.yaml'].f; p.goal('%s: every link' % q, em['n'], N); k = ivar('k', 0, N)
            p.goal('%s: keys' % q, Vec(em['keys'].s[:3]), Vec(KEYS[q.upper()].s[:3])); p.goal('%s: as many links' % q, em['links'].size(), N)
            with assume(ge(k, 0), lt(k, N)):
                l = em['links'].get(k).f; x = val(k)
                p.goal('%s: mass, first moment, inertia of link k' % q, Vec([('i', l['mass'])] + list(l['xyz'].s) + list(l['parI'].s)), Vec([('i', y) for y in x]))
                p.goal('%s: name of link k' % q, l['name'], Str((('sym', 'Yk:dynamics/*/', (k,)),)))
                w = ivar('w'); p.goal('%s: friction of link k' % q, l['Dl'], Vec([('f', w, toI(0), ylen_('dynamics/*/friction/Dl/', k), ((TRUE, yvec('dynamics/*/friction/Dl/', k, w)),))]) if dl else Vec([('i', ZERO)]))
for dl in (True, False): ob(('C15', 'C11'), 'genInertial_files (%sfriction)' % ('' if dl else 'no '))(lambda p, dl=dl: gif(p, dl))
@ob('C15', 'save_conf')
def o_sc(p):
    """written: the very document the robot was loaded from (loading it again: parse_config and load_conf_par of C14)"""
    u = A.library(); f = U.find(u, 'save_conf', 'robot.cpp'); r = lrobot(config_yaml=YNode(('given',))); v, st = run(p, u, f, [S('out.yaml')], this=r)
    es = p.exs[-1].events; o = es[0][2].f['out'].s if len(es) == 1 else ()
    p.goal('to the given path', es[0][1], S('out.yaml')); p.has('one document', len(o) == 1 and o[0][0] == 'i' and isinstance(o[0][1], YNode)); p.goal('it is the configuration', o[0][1], YNode(('given',)))
    p.goal('reports success', v, toI(1)); p.goal('the robot is unchanged', st.v['obj'], r)
