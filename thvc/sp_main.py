"""The dispatchers and the whole pipeline: which computations run, in which stage, and what is reported.
Every computation is a contract that records itself ('done': name -> stage) and reports an arbitrary status."""
from .prove import *
from . import units as U
from .sp_c17 import run
from .sp_kin import *
from .sp_fric import NE, OL, OK_, OD, ODM
from .sp_set import lrobot, grobot, gfind, GCTX, GSIZES, GSYM, GCONST
def status(nm): return ifun('status_' + nm)
def rec(nm):
    def c(ex, st, this, args, n):
        ex.used.add('%s is the computation of its own obligation' % nm)
        lv = ex.lv(args[0], st) if args else this
        r = ex.read(st, lv); ex.write(st, lv, r.put('done', r.f['done'].put(S(nm), r.f['stage']))); return status(nm)
    return c
def drobot(**kw): return robot(done=Map({}), stage=toI(1), **kw)
KIN = ('compute_chain', 'compute_jacobians', 'compute_kin_adv'); DYN = ('compute_MCG', 'compute_Dl', 'compute_elastic', 'compute_dyn_derivatives'); REG = ('compute_Yr', 'compute_reg_J', 'compute_reg_Dl', 'compute_reg_elastic')
for nm in KIN + DYN + REG: T.FUN_FACTS['status_' + nm] = lambda a, v: []
def bint(v): return ind(v) if isinstance(v, C) else toI(v)
def ran(p, o, names, what):
    for nm in names: p.cond('%s: %s was computed' % (what, nm), o.f['done'].has(S(nm)))
def disp(p, fn, file, args, names, skipped, okreq, what, stops=False, **kw):
    """when every computation succeeds all of names run and none of skipped; success is reported iff each of okreq succeeds"""
    u = A.library(); f = U.find(u, fn, file); r = drobot(**kw)
    good = And(*[Not(eq(status(x), 0)) for x in names])
    with assume(good):
        v, st = run(p, u, f, [r] + args, contracts={x: rec(x) for x in KIN + DYN + REG}); o = st.v['arg0']
        ran(p, o, names, what)
        for x in skipped: p.cond('%s: %s is not computed' % (what, x), Not(o.f['done'].has(S(x))))
        p.cond('%s: success is reported' % what, Not(eq(bint(v), 0)))
    for x in names:
        with assume(eq(status(x), 0)):
            v, st = run(p, u, f, [r] + args, contracts={x: rec(x) for x in KIN + DYN + REG}); o = st.v['arg0']
            p.cond('%s: failure of %s is reported' % (what, x), eq(bint(v), 0))
            if not stops: ran(p, o, names, what + ', %s failed' % x)
@ob(('C01', 'C02', 'C03'), 'compute_kinematics', internal=True)
def o_ck(p):
    disp(p, 'compute_kinematics', 'kinematics.cpp', [TRUE], KIN, (), KIN, 'advanced', stops=True)
    disp(p, 'compute_kinematics', 'kinematics.cpp', [FALSE], KIN[:2], KIN[2:], KIN, 'basic', stops=True)
@ob(('C04', 'C05', 'C06', 'C07', 'C09'), 'compute_dynamics', internal=True)
def o_cd(p):
    disp(p, 'compute_dynamics', 'dynamics.cpp', [TRUE], DYN, (), DYN, 'advanced')
    disp(p, 'compute_dynamics', 'dynamics.cpp', [FALSE], DYN[:3], DYN[3:], DYN, 'basic')
@ob(('C08', 'C10'), 'compute_regressors', internal=True)
def o_cr(p):
    for el in (True, False):
        for dl in (True, False):
            names = REG[:2] + (REG[2:3] if dl else ()) + (REG[3:] if el else ()); skip = tuple(x for x in REG if x not in names)
            with assume(ge(OL, 1)):
                disp(p, 'compute_regressors', 'regressors.cpp', [TRUE], names, skip, names, '%selastic, %sfriction' % ('' if el else 'not ', '' if dl else 'no '), ELASTIC=toC(el), Dl_order=OL if dl else toI(0))
@ob(('C01', 'C12', 'C14', 'C16'), 'robot_from_file', internal=True)
def o_rff(p):
    """parameters are loaded before the symbols are chosen, the expressions are built on the chosen symbols, the argument values are compacted last"""
    u = A.library(); f = U.find(u, 'robot_from_file', 'robot.cpp'); path = Str((('sym', 'fname', ()),)); nm = Str((('sym', 'robotName', ()),))
    stages = {'load_config': 0, 'initVarsFuns': 0, 'load_conf_par': 0, 'init_symb_parameters': 1, 'compute_kinematics': 2, 'compute_dynamics': 2, 'compute_regressors': 2, 'compute_userDefined': 2, 'update_symb_parameters': 3}
    def c(x):
        def g(ex, st, this, args, n):
            free = x.startswith('compute_'); lv = ex.lv(args[0], st) if free else this; r = ex.read(st, lv); k = r.f['count'].f
            if x in ('load_config', 'load_conf_par'): p.goal('%s reads the given file' % x, ex.ev(args[0], st), path)
            if len(args) > 1 and free and x != 'compute_userDefined': p.cond('%s computes everything' % x, toC(ex.ev(args[1], st)) if not isinstance(ex.ev(args[1], st), I) else Not(eq(ex.ev(args[1], st), 0)))
            before = [y for y in stages if stages[y] < stages[x]]
            if x == 'initVarsFuns': before = ['load_config']
            if x == 'load_conf_par': before = ['load_config', 'initVarsFuns']
            p.add('%s runs after %s' % (x, ', '.join(before) or 'nothing'), all(k.get(y, 0) == 1 for y in before) and not k.get(x, 0), repr(k), True)
            ex.write(st, lv, r.put('count', Obj('count', dict(k, **{x: 1})))); return YNode('Y') if x == 'load_config' and 0 else toI(1)
        return g
    for comp in (True, False):
        ex = p.exec(u, {x: c(x) for x in stages}); ex.structs = dict(ex.structs); n0 = ex.newobj
        ex.newobj = lambda b: Obj('Robot', {'count': Obj('count', {}), 'robotName': S('')}) if b == 'Robot' else n0(b)
        v, st = run(p, u, f, [nm, path, toC(comp)], ex=ex)
        p.add('every stage ran once (compute %s)' % comp, set(v.f['count'].f) == set(stages if comp else list(stages)[:3]), repr(v.f['count'].f), True)
        p.goal('the robot carries the given name', v.f['robotName'], nm)
@ob(('C11', 'C13'), 'parameter counts and joint counts')
def o_np(p):
    u = A.library(); r = lrobot(jointsType=Vec([]), ELASTIC=FALSE)
    for nm in ('get_numParDYN', 'get_numParREG'):
        v, st = run(p, u, U.find(u, nm, 'robot.cpp'), [], this=r); p.goal('library %s: ten per joint' % nm, v, N * 10); p.goal('%s changes nothing' % nm, st.v['obj'], r)
        u2, f = gfind(nm); v, st = run(p, u2, f, [], this=grobot()); p.goal('generated %s: ten per joint' % nm, v, N * 10)
    u2, f = gfind('get_numJoints'); v, st = run(p, u2, f, [], this=grobot()); p.goal('generated get_numJoints', v, N)
@ob('C13', 'generated constructor')
def o_gc(p):
    u, f = gfind('thunder_robot'); ex = p.exec(u); ex.consts = {'SYM_' + k: x for k, x in dict(n_joints=N, numElasticJoints=NE, K_order=OK_, D_order=OD, Dl_order=OL, Dm_order=ODM, ELASTIC=patom('elastic')).items()}
    r = Obj('thunder_robot', {k: UNDEF for k in grobot().f}).put('ELASTIC', UNDEF).put('robotName', UNDEF).put('isElasticJoint', UNDEF)
    for k in grobot().f:
        if k not in GCONST: r = r.put(k, Vec([]) if k in GSYM else zeros(toI(0), toI(1)))
    v, st = run(p, u, f, [], this=r, ex=ex); o = st.v['obj']
    for k, x in GCONST.items(): p.goal('%s is the generated constant' % k, o.f[k], x)
    p.goal('name', o.f['robotName'], S('NAME'))
    sz = dict(GSIZES, par_DHtable=N * 4, par_world2L0=toI(6), par_Ln2EE=toI(6), par_gravity=toI(3))
    for k, n in sz.items(): p.goal('%s starts at zero with its own size' % k, o.f[k], zeros(n, toI(1)))
    for k, n in GSYM.items(): p.goal('%s starts as nothing selected' % k, o.f[k], dense(n, lambda i: toI(0)))
@ob('C14', 'frame offset accessors', internal=True)
def o_fo(p):
    u = A.library(); v3 = lambda n: items([rvar(n, k) for k in range(3)]); r = Obj('FrameOffset', dict(ypr=v3('ypr'), translation=v3('tr'), gravity=v3('g')))
    v, st = run(p, u, U.find(u, 'get_ypr', 'FrameOffset.cpp'), [], this=r); p.goal('get_ypr', v, v3('ypr')); p.goal('get_ypr changes nothing', st.v['obj'], r)
    v, st = run(p, u, U.find(u, 'set_gravity', 'FrameOffset.cpp'), [v3('new')], this=r); p.goal('set_gravity', st.v['obj'], r.put('gravity', v3('new')))
