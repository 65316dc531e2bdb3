"""C12: symbolic selectivity."""
from .prove import *
from . import units as U
from .sp_c17 import run
from .sp_kin import *
from .sp_set import *
from .sp_regsym import PARS, sy, issym, nsym
class SymMap(Map):
    """a map with arbitrary entries: at(indices) is the entry at the key of that index; entries written at any other key are kept apart"""
    def __init__(s, at, log=()): Map.__init__(s, {}, log); s.at = at
    def own(s, key): return len(key.p) == 1 and not isinstance(key.p[0], str) and key.p[0][0] == 'sym' and key.p[0][1] in KEYED
    def get(s, key):
        if s.own(key): return s.at(*key.p[0][2])
        for _, c, k, v in reversed(s.log):
            if str_eq(k, key) is TRUE: return v
        if key.p and any(str_eq(k, key) is not FALSE for _, c, k, v in s.log): raise Unsupported('key %r' % (key,))
        return UNDEF
    def find(s, key):
        if s.own(key): return [(TRUE, s.get(key))]
        v = s.get(key); return [(TRUE, v)] if v is not UNDEF else [(patom('known_' + repr(key)), UNDEF)]
    def put(s, key, val, cond=TRUE):
        if s.own(key) or cond is not TRUE: raise Unsupported('write to a map at a symbolic key')
        return SymMap(s.at, s.log + (('w', TRUE, key, val),))
KEYED = ('pp', 'fa')
def symflags(*ix): return dense(ifun('Ln', *ix), lambda k: ifun('Sy', *ix, k))
T.FUN_FACTS['Er'] = lambda args, v: [ge(v, 0)]
T.FUN_FACTS['Ec'] = lambda args, v: [ge(v, 0)]
T.FUN_FACTS['Ln'] = lambda args, v: [ge(v, 0)]
def strs(nm, n): return dense(n, lambda i: Str((('sym', nm, (toI(i),)),)))
@ob('C12', 'obtain_symb_parameters')
def o_obt(p):
    u = A.library(); f = U.find(u, 'obtain_symb_parameters', 'robot.cpp'); a, m = ivar('na', 0, None), ivar('np', 0, None); r = Obj('Robot', {'symb': SymMap(symflags), 'numJoints': N})
    with assume(ge(a, 0), ge(m, 0)):
        v, st = run(p, u, f, [strs('sure', a), strs('pp', m)], this=r)
        i, k = ivar('i', 0, m), ivar('k')
        with assume(ge(i, 0), lt(i, m)): c = exists(k, 0, ifun('Ln', i), Not(eq(ifun('Sy', i, k), 0)))
        want = Vec(strs('sure', a).s + (('f', i, toI(0), m, ((c, Str((('sym', 'pp', (i,)),))),)),))
        p.goal('the given names, then in order those with at least one symbolic entry', v, want)
STKEYS = ('q', 'dq', 'ddq', 'd3q', 'd4q', 'dqr', 'ddqr', 'w'); XKEYS = ('x', 'dx', 'ddx', 'ddxr'); KPARS = ('par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity')
def crobot(elastic=True, dl=True, **kw):
    """the robot as constructed from a configuration: one selection vector per state (all selected) and per parameter vector"""
    st_ = STKEYS + (XKEYS if elastic else ()); pr = KPARS + ('par_DYN',) + (('par_Dl',) if dl else ()) + (('par_K', 'par_D', 'par_Dm', 'par_Mm') if elastic else ())
    sy_ = {k: dense(LSIZES[k], lambda i: toI(1)) for k in st_}; sy_.update({k: dense(PARS[k], lambda i, k=k: sy(k, i)) for k in pr})
    for k in PARS:
        if k not in pr: sy_[k] = Vec([])
    keys = st_ + pr + ('par_REG',)
    return lrobot(args=Map({k: vec_(LSIZES[k], 'a_' + k) for k in keys}), model=Map({k: vec_(LSIZES[k], k) for k in keys}), symb=Map(sy_), **kw), pr, st_
def fixed(par):
    """the model vector with the entries that are not selected replaced by their configured values"""
    return Mat.gen(PARS[par], toI(1), lambda i, j: ite_d(issym(par, i), rvar(par, i), rvar('a_' + par, i)))
def put_model(r, **kw):
    m = r.f['model']
    for k, x in kw.items(): m = m.put(S(k), x)
    return r.put('model', m)
@ob('C12', 'subs_symb_par')
def o_sub(p):
    u = A.library(); f = U.find(u, 'subs_symb_par', 'robot.cpp'); r, pr, ss = crobot()
    for par in pr: v, st = run(p, u, f, [S(par)], this=r); p.goal('%s: unselected entries become their values, selected ones stay, nothing else changes' % par, st.v['obj'], put_model(r, **{par: fixed(par)}))
    for par in ss: v, st = run(p, u, f, [S(par)], this=r); p.goal('%s: nothing changes' % par, st.v['obj'], r)
for el in (True, False):
    for dl in (True, False):
        def ini(p, el=el, dl=dl):
            u = A.library(); f = U.find(u, 'init_symb_parameters', 'robot.cpp'); r, pr, ss = crobot(el, dl)
            v, st = run(p, u, f, [], this=r); p.goal('in every parameter vector the unselected entries become their values, nothing else changes', st.v['obj'], put_model(r, **{k: fixed(k) for k in pr}))
        ob('C12', 'init_symb_parameters (%selastic, %sfriction)' % ('' if el else 'not ', '' if dl else 'no '))(ini)
def kept(par, T_): v = ivar('y'); return count(v, 0, T_, issym(par, v))
def compact(par, nm):
    """the selected entries in storage order"""
    n = toI(PARS[par]).const()
    if n is None: return Mat.gen(nsym(par), toI(1), lambda i, j: rvar(nm, selk(par, i)))
    r = toI(0)
    for i in range(n): r = r + ind(issym(par, toI(i)))
    def at(i, j):
        v, before = ZERO, toI(0)
        for k in range(n): v = v + ite(And(issym(par, toI(k)), eq(before, i)), rvar(nm, toI(k)), ZERO); before = before + ind(issym(par, toI(k)))
        return v
    return Mat.gen(r, toI(1), at)
def selk(par, k): v = ivar('y'); return sel(v, 0, PARS[par], issym(par, v), k)
def h_compact(ex, fn, nm, init, lo, hi):
    """ghost invariant of the compaction: after t entries, the selected ones among them fill the front, the others are where they were"""
    if not isinstance(init, Mat): return None
    par = nm.split('.')[-1]
    if par not in PARS or not same(init.r, PARS[par]): return None
    def inv(t): return Mat.gen(init.r, init.c, lambda i, j: ite_d(lt(i, kept(par, t)), init.get(selk(par, i), j), init.get(i, j)))
    return inv

for el in (True, False):
    for dl in (True, False):
        def upd(p, el=el, dl=dl):
            u = A.library(); f = U.find(u, 'update_symb_parameters', 'robot.cpp'); r, pr, ss = crobot(el, dl); ex = p.exec(u, hints=[h_compact])
            v, st = run(p, u, f, [], this=r, ex=ex); o = st.v['obj']; want = r
            for k in pr:
                w = lambda nm: compact(k, nm)
                p.goal('model[%s] holds the selected entries, in storage order' % k, o.f['model'].get(S(k)), w(k)); p.goal('args[%s] holds the selected entries, in storage order' % k, o.f['args'].get(S(k)), w('a_' + k))
            none = [k for k in PARS if k not in pr]
            more = lambda m: sorted(set(o.f[m].base) | {e[2].lit() or repr(e) for e in o.f[m].log if e[0] == 'w'} | {repr(e) for e in o.f[m].log if e[0] != 'w'})
            p.goal('only the empty vectors of the parameters the robot does not have may appear', Tup([not set(more('model')) - set(pr + ss + ('par_REG',)) - set(none), not set(more('args')) - set(pr + ss + ('par_REG',)) - set(none), o.put('model', r.f['model']).put('args', r.f['args'])]), Tup([True, True, r]))
            for k in none: p.goal('%s: empty' % k, Tup([toM(o.f[m].get(S(k))).numel() for m in ('model', 'args')]), Tup([toI(0)] * 2))
            for k in ss + ('par_REG',): p.goal('%s: nothing changes' % k, Tup([o.f['model'].get(S(k)), o.f['args'].get(S(k))]), Tup([vec_(LSIZES[k], k), vec_(LSIZES[k], 'a_' + k)]))
        ob('C12', 'update_symb_parameters (%selastic, %sfriction)' % ('' if el else 'not ', '' if dl else 'no '), tmo=140)(upd)

# ------------------------------------------------------------------ functions of the robot
def names_(nm): return Str((('sym', nm, ()),))
def fun_robot():
    """any robot whose maps know every argument name; a selection vector has the length of its model vector"""
    md = SymMap(lambda *ix: Mat.gen(ifun('Ln', *ix), toI(1), lambda i, j: rvar('Md', *ix, i)))
    return Obj('Robot', {'symb': SymMap(symflags), 'model': md, 'fun_args': SymMap(None), 'fun_descr': SymMap(None), 'casadi_fun': SymMap(None), 'robotName': names_('robot')})
@ob('C12', 'add_function')
def o_add(p):
    u = A.library(); f = U.find(u, 'add_function', 'robot.cpp'); m, r_, c_ = ivar('nf', 0, None), ivar('er', 0, None), ivar('ec', 0, None); r = fun_robot()
    with assume(ge(m, 0), ge(r_, 0), ge(c_, 0)):
        ex_ = Mat.gen(r_, c_, lambda i, j: rvar('E', i, j)); fa = strs('fa', m)
        v, st = run(p, u, f, [names_('f'), ex_, fa, names_('descr'), TRUE], this=r); o = st.v['obj']
        nm = Str((('sym', 'robot', ()), '_', ('sym', 'f', ()), '_fun'))
        def inp(k):
            i = ivar('i', 0, ifun('Ln', k))
            return SegMat(Vec([('f', i, toI(0), ifun('Ln', k), ((Not(eq(ifun('Sy', k, i), 0)), rvar('Md', k, i)),))]))
        fun = Obj('Function', {'name': nm, 'ins': dense(m, inp), 'outs': Vec([('i', ex_)])})
        for fld, want in (('model', ex_), ('fun_args', fa), ('fun_descr', names_('descr')), ('casadi_fun', fun)):
            p.goal('%s gets one entry, under the given name' % fld, Tup([len(o.f[fld].log), o.f[fld].log[-1][2]]), Tup([1, names_('f')])); p.goal('%s: its value' % fld, o.f[fld].log[-1][3], want)
        p.goal('reports success', v, toI(1)); p.goal('nothing else changes', Tup([o.f['symb'] is r.f['symb'], o.f['robotName']]), Tup([True, names_('robot')]))
@ob('C12', 'add_function, a known name')
def o_add2(p):
    u = A.library(); f = U.find(u, 'add_function', 'robot.cpp'); r = fun_robot(); m = ivar('nf', 0, None)
    with assume(ge(m, 0), r.f['model'].find(names_('f'))[0][0]):
        v, st = run(p, u, f, [names_('f'), vec_(3, 'E'), strs('fa', m), names_('descr'), FALSE], this=r); o = st.v['obj']
        p.goal('refused', v, toI(0)); p.goal('nothing changes', Tup([o.f[k] is r.f[k] for k in r.f]), Tup([True] * len(r.f)))
def evaluated(r_, c_):
    """assumed contract of casadi::Function::call: the output is the expression at the inputs; the call is recorded"""
    def c(ex, st, this, an, n):
        ins = ex.ev(an[0], st); f = ex.read(st, this) if isinstance(this, LV) else this
        ex.events.append(('call', f, ins)); ex.write(st, ex.lv(an[1], st), Vec([('i', Mat.gen(r_, c_, lambda i, j: rvar('Out', i, j)))])); return None
    return c
@ob(('C13', 'C12'), 'Robot::get')
def o_get(p):
    u = A.library(); f = U.find(u, 'get', 'robot.cpp'); m, r_, c_ = ivar('nf', 0, None), ivar('er', 0, None), ivar('ec', 0, None); nm = names_('f'); r = fun_robot()
    fa = strs('fa', m); fun = Obj('Function', {'name': names_('id')})
    ar = SymMap(lambda *ix: Mat.gen(ifun('La', *ix), toI(1), lambda i, j: rvar('Ar', *ix, i)))
    r = r.put('model', r.f['model'].put(nm, Mat.gen(r_, c_, lambda i, j: rvar('E', i, j)))).put('fun_args', r.f['fun_args'].put(nm, fa)).put('casadi_fun', r.f['casadi_fun'].put(nm, fun)).put('args', ar)
    with assume(ge(m, 0), ge(r_, 0), ge(c_, 0)):
        ex = p.exec(u, contracts={'call': evaluated(r_, c_)}); p.assume_note('casadi::Function::call evaluates the function at its inputs')
        v, st = run(p, u, f, [nm], this=r, ex=ex)
        p.goal('one evaluation', len(ex.events), 1)
        p.goal('of the function of that name, at the current arguments, in the declared order', Tup([ex.events[0][1], ex.events[0][2]]), Tup([fun, dense(m, lambda k: Mat.gen(ifun('La', k), toI(1), lambda i, j: rvar('Ar', k, i)))]))
        p.goal('its value, entry by entry', v, Mat.gen(r_, c_, lambda i, j: rvar('Out', i, j))); p.goal('nothing changes', st.v['obj'], r)
@ob('C13', 'get_functions')
def o_gfs(p):
    """any number of functions, enumerated in the order of their names"""
    u = A.library(); f = U.find(u, 'get_functions', 'robot.cpp'); n = ivar('nfun', 0, None, fresh=False); nm = lambda k: Str((('sym', 'fname', (toI(k),)),))
    E = lambda k: Mat.gen(ifun('Er', k), ifun('Ec', k), lambda i, j: rvar('Ex', k, i, j)); fa = lambda k: dense(ifun('Ln', k), lambda j: Str((('sym', 'farg', (toI(k), j)),))); de = lambda k: Str((('sym', 'fdescr', (toI(k),)),)); fu = lambda k: Obj('Function', {'name': Str((('sym', 'fid', (toI(k),)),))})
    def en(g):
        k = ivar('fn', 0, n)
        with assume(ge(k, 0), lt(k, n)): m = Map({}, [('f', k, toI(0), n, TRUE, nm(k), g(k))])
        m.enum = True; return m
    with assume(ge(n, 0)):
        r = Obj('Robot', {'model': en(E), 'fun_args': en(fa), 'fun_descr': en(de), 'casadi_fun': en(fu)})
        for only in (True, False):
            v, st = run(p, u, f, [toC(only)], this=r); t = ivar('at', 0, n)
            p.goal('one entry per function', v.size(), n)
            with assume(ge(t, 0), lt(t, n)):
                q = v.get(t)
                for what, x, y in (('name', q.f['name'], nm(t)), ('description', q.f['description'], de(t)), ('arguments', q.f['args'], fa(t)), ('size', q.f['out_size'], Vec([('i', E(t).r), ('i', E(t).c)]))): p.goal('%s %s' % (what, only), x, y)
                if not only: p.goal('expression', q.f['expr'], E(t)); p.goal('function', q.f['fun'], fu(t))
            p.goal('nothing changes', st.v['obj'], r)
