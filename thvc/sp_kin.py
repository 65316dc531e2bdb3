"""C01, C02: the kinematic chain and the Jacobians, for any number of joints."""
from .prove import *
from . import units as U
from .sp_c17 import run, add, sub, scale, skew, Rx, Ry, Rz, KC, vec3
N = ivar('N', 1, None)
T.FUN_FACTS['jt'] = lambda args, v: [ge(v, 0), le(v, 3)]        # joint types are P, P_SEA, R, R_SEA; others are refused (separate obligation)
def jt(k): return Str((('sym', 'jt', (toI(k),)),))
def isP(k): return Or(eq(ifun('jt', toI(k)), 0), eq(ifun('jt', toI(k)), 1))
def vec_(n, name): return Mat.gen(toI(n), toI(1), lambda i, j: rvar(name, i))
def dhp(k, c): return rvar('par_DHtable', toI(k) * 4 + c)
NOTE_ARGS = 'ArgList'
def c_add(ex, st, this, args, n):
    ex.used.add('add_function(name, expr, args): model[name] = expr, function registered with those arguments (proved in C12)')
    nm = ex.ev(args[0], st); e = ex.ev(args[1], st); e = e if isinstance(e, SegMat) else toM(e); al = ex.ev(args[2], st); r = ex.read(st, this)
    ex.write(st, this, r.put('model', r.f['model'].put(nm, e)).put('funs', r.f['funs'].put(nm, Tup((e, al)))))
    return TRUE
def c_obt(ex, st, this, args, n):
    ex.used.add('obtain_symb_parameters(state, par): the state vectors, then the parameter vectors that have a symbolic entry (proved in C12)')
    return Vec([('i', Tup((ex.ev(args[0], st), ex.ev(args[1], st))))])
RC = dict(KC, add_function=c_add, obtain_symb_parameters=c_obt)
def alist(a, p): return Vec([('i', Tup((items([S(x) for x in a]), items([S(x) for x in p]))))])
STATE = ('q', 'dq', 'ddq', 'd3q', 'd4q', 'dqr', 'ddqr')
def robot(model=None, **kw):
    b = {k: vec_(N, k) for k in STATE}
    b.update(par_DHtable=vec_(N * 4, 'par_DHtable'), par_world2L0=vec_(6, 'par_world2L0'), par_Ln2EE=vec_(6, 'par_Ln2EE'), par_gravity=vec_(3, 'par_gravity'), w=vec_(6, 'w'))
    b.update(par_DYN=vec_(N * 10, 'par_DYN'), par_REG=vec_(N * 10, 'par_REG'))
    b.update(model or {})
    with assume(ge(K0, 0), lt(K0, N)): j = jt(K0)
    f = {'numJoints': N, 'STD_PAR_LINK': toI(10), 'jointsType': dense(N, lambda k: jt(k)), 'model': Map(b), 'funs': Map({})}
    f.update(kw)
    return Obj('Robot', f)
def frame_of(name):
    f = [rvar(name, k) for k in range(6)]
    return rigid(mul(mul(Rz(f[3]), Ry(f[4])), Rx(f[5])), col(f[:3]))
def rigid(R, p): return vcat([hcat([R, p]), mat([[ZERO, ZERO, ZERO, ONE]])])
def rel(k):
    """modified Denavit-Hartenberg transform of joint k (1-based): Rot_x(alpha) Trans_x(a) Rot_z(theta) Trans_z(d)"""
    r = toI(k) - 1; a, al, d0, th0 = [dhp(r, c) for c in range(4)]; q = rvar('q', r); P_ = isP(r)
    th = ite_d(P_, th0, th0 + q); d = ite_d(P_, d0 + q, d0)
    Tx = rigid(eye(3), col([a, ZERO, ZERO])); Tz = rigid(eye(3), col([ZERO, ZERO, d])); z = col([ZERO, ZERO, ZERO])
    return mul(mul(mul(rigid(Rx(al), z), Tx), rigid(Rz(th), z)), Tz)
def T0(k): return Mat.gen(toI(4), toI(4), lambda i, j: rvar('T0', toI(k), i, j))
def _ent(m, i, j):
    return m.get(i, j)
def unfold(p):
    """T0(0) = world offset, T0(k+1) = T0(k) Rel(k+1)"""
    at = [a for a in all_atoms(p) if a.kind == 'var' and a.name == 'T0']
    ks = {a.args[0] for a in at}
    for k in ks:
        if k.const() == 0 or (k.const() is None and decide(eq(k, 0))): rep = frame_of('par_world2L0')
        elif any((k - x).const() == 1 for x in ks): rep = mul(T0(k - 1), rel(k))
        else: continue
        if not decide(ge(k, 0)): continue
        def f(a):
            if a.kind == 'var' and a.name == 'T0' and a.args[0] == k: return rep.get(a.args[1], a.args[2])
            return None
        if any(a.args[0] == k and (a.args[1].const() is None or a.args[2].const() is None) for a in at): continue
        return pmap_atoms(p, f)
    return None
def lastrow(p):
    """the last row of T0(k) is 0 0 0 1 (obligation 'T0 is rigid')"""
    def f(a):
        if a.kind == 'var' and a.name == 'T0' and a.args[1].const() == 3: return ONE if a.args[2].const() == 3 else ZERO if a.args[2].const() is not None else None
        return None
    q = pmap_atoms(p, f)
    return None if q == p else q
def h_T0(ex, fn, nm, init, lo, hi):
    """ghost invariant of the chain: after t iterations entries 0..t of T0i are T0(k)"""
    if not (isinstance(init, Vec) and ex.ghost_T0): return None
    try:
        n = init.size(); e = init.get(toI(0))
        if not isinstance(e, Mat) or e.r.const() != 4 or not decide(ge(n, 1)): return None
    except Unsupported: return None
    def inv(t):
        with assume(ge(K0, 0), lt(K0, n)):
            c = le(K0, toI(t) - lo)
            if decide(ge(K0, 0)): pass
            with assume(Not(c)): rest = init.get(K0) if not decide(c) else None
            return Vec([('d', n, vite(c, T0(K0), rest) if rest is not None else T0(K0))])
    return inv
def chain_exec(p, u, contracts=RC):
    ex = p.exec(u, contracts, hints=[h_T0]); ex.ghost_T0 = True
    return ex
def use_unfold(): T.REDUCERS.insert(0, unfold)
def key(pre, k): return Str((pre, ('int', toI(k))))
@ob('C01', 'DHTemplate')
def o_dh(p):
    u = A.library(); row = col([dhp(0, c) for c in range(4)]); f = U.find(u, 'DHTemplate', 'kinematics.cpp')
    v, _ = run(p, u, f, [row, toM(rvar('q', 0)), jt(0)], contracts=KC)
    p.goal('modified DH transform: joint variable on d for P and P_SEA, on theta for R and R_SEA', v, rel(1))
    z = Str((('sym', 'any', ()),))
    with assume(*[Not(str_eq(z, S(x))) for x in ('P', 'P_SEA', 'R', 'R_SEA')]):
        ex = p.exec(u, KC); st = State(); st.v.update(a0=row, a1=toM(rvar('q', 0)), a2=z)
        v, al = ex.call(f, st, [LV('a0'), LV('a1'), LV('a2')])
        p.add('any other joint type is refused', al is FALSE, repr(al))
@ob('C01', 'compute_chain')
def o_chain(p):
    use_unfold(); u = A.library(); ex = chain_exec(p, u); r = robot()
    v, st = run(p, u, U.find(u, 'compute_chain', 'kinematics.cpp'), [r], ex=ex); m = st.v['arg0'].f['model']
    i = ivar('i', 1, N + 1)
    with assume(ge(i, 1), le(i, N)):
        p.goal('T_i is the modified DH transform of row i', m.get(key('T_', i)), rel(i))
        p.goal('T_0_i is the world offset times the relative transforms 1..i', m.get(key('T_0_', i)), T0(i))
    p.goal('T_0 is the world offset', m.get(S('T_0')), frame_of('par_world2L0'))
    p.goal('T_0_0 is the world offset', m.get(S('T_0_0')), frame_of('par_world2L0'))
    ee = mul(T0(N), frame_of('par_Ln2EE'))
    p.goal('T_0_{n+1} appends the end-effector offset', m.get(key('T_0_', N + 1)), ee)
    p.goal('T_0_ee appends the end-effector offset', m.get(S('T_0_ee')), ee)
    p.goal('returns success', toI(v) if not isinstance(v, C) else ind(v), toI(1))
# ------------------------------------------------------------------ the chain as a contract; facts about T0
def chain_puts(m):
    i = ivar('ch')
    with assume(ge(i, 1), le(i, N)): a, b = rel(i), T0(i)
    ee = mul(T0(N), frame_of('par_Ln2EE'))
    return Map(m.base, m.log + (('w', TRUE, S('T_0'), frame_of('par_world2L0')), ('w', TRUE, S('T_0_0'), frame_of('par_world2L0')),
        ('f', i, toI(1), N + 1, TRUE, key('T_', i), a), ('f', i, toI(1), N + 1, TRUE, key('T_0_', i), b), ('w', TRUE, key('T_0_', N + 1), ee), ('w', TRUE, S('T_0_ee'), ee)), m.dflt)
def c_chain(ex, st, this, args, n):
    ex.used.add('compute_chain: T_i = modified DH transform, T_0_i = T0(i), T_0_ee = T0(n) EE (proved in C01)')
    lv = ex.lv(args[0], st); r = ex.read(st, lv); ex.write(st, lv, r.put('model', chain_puts(r.f['model']))); return toI(1)
def eul(k): return [rvar('eul', k, c) for c in range(3)]
def rotsym(k):
    a, b, c = eul(k); return mul(mul(Rz(a), Ry(b)), Rx(c))
_rots = {}
def euler(p):
    """T0(k) is rigid (obligation): its rotation is Rz(a) Ry(b) Rx(c) for some angles, its last row 0 0 0 1"""
    def f(a):
        if a.kind == 'var' and a.name == 'T0' and a.args[1].const() is not None and a.args[2].const() is not None:
            i, j = a.args[1].const(), a.args[2].const()
            if i == 3: return ONE if j == 3 else ZERO
            if j < 3:
                k = a.args[0]
                if k not in _rots: _rots[k] = rotsym(k)
                return _rots[k].get(i, j)
        return None
    q = pmap_atoms(p, f)
    return None if q == p else q
def use_rigid(p):
    p.assume_note('every proper rotation is Rz(a) Ry(b) Rx(c) for some angles a, b, c'); T.REDUCERS.insert(0, euler)
def twist(j):
    """(angular, linear) velocity at the origin per unit rate of joint j (0-based), from the frame T0(j+1)"""
    Tj = T0(toI(j) + 1); z = [Tj.get(r, 2) for r in range(3)]; o = [Tj.get(r, 3) for r in range(3)]; P_ = isP(j)
    w = [ite(P_, ZERO, x) for x in z]; zo = cross(o, z)
    return w, [ite(P_, z[r], zo[r]) for r in range(3)]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def dT0(a, wrt):
    """d T0(k) / d q_j = [j < k] S_j T0(k) (obligation 'derivative of T0')"""
    if wrt.name != 'q': return ZERO
    k, i, c = a.args; j = wrt.args[0]
    w, v = twist(j); Tk = T0(k); i = i.const(); col_ = [Tk.get(r, c) for r in range(4)]
    if i == 3: return ZERO
    x = cross(w, col_[:3])[i] + v[i] * col_[3]
    return ite_d(And(ge(j, 0), lt(j, k)), x, ZERO)
T.Deriv.rules['T0'] = dT0
def q_at(j): return list(rvar('q', toI(j)).atoms())[0]
def dM(m, j):
    w = q_at(j)
    return m.map(lambda x: diff(x, w)) if hasattr(m, 'map') else None
@ob(('C01', 'C02'), 'T0 is rigid (induction)')
def o_rigid(p):
    """base and step of: the rotation of T0(k) is proper orthonormal and the last row is 0 0 0 1"""
    use_rigid(p)
    def chk(lab, M_):
        R = M_.block(0, 3, 0, 3)
        p.goal(lab + ': R R^T = 1', mul(R, R.T()), eye(3))
        c = [[R.get(r, k) for r in range(3)] for k in range(3)]
        p.goal(lab + ': right-handed', col(cross(c[0], c[1])), col(c[2]))
        p.goal(lab + ': last row', M_.block(3, 1, 0, 4), mat([[ZERO, ZERO, ZERO, ONE]]))
    chk('base, k = 0', frame_of('par_world2L0'))
    k = ivar('k', 0, N)
    with assume(ge(k, 0), lt(k, N)): chk('step, T0(k) Rel(k+1)', mul(T0(k), rel(k + 1)))
    chk('end-effector', mul(T0(N), frame_of('par_Ln2EE')))
@ob('C02', 'derivative of T0 (induction)')
def o_dT(p):
    use_rigid(p); k, j = ivar('k', 0, N), ivar('j', 0, N)
    with assume(ge(k, 0), lt(k, N), ge(j, 0), lt(j, N)):
        p.goal('base: the world offset does not depend on q', frame_of('par_world2L0').map(lambda x: diff(x, q_at(j))), zeros(4, 4))
        Tn = mul(T0(k), rel(k + 1))                    # T0(k+1)
        got = Tn.map(lambda x: diff(x, q_at(j)))       # uses d T0(k) (hypothesis) and d Rel(k+1)
        with assume(lt(j, k)):
            w, v = twist(j); Sj = vcat([hcat([skew(w), col(v)]), zeros(1, 4)])
            p.goal('step, joint before frame k: S_j T0(k+1)', got, mul(Sj, Tn))
        with assume(eq(j, k)):
            P_ = isP(k); z = [Tn.get(r, 2) for r in range(3)]; o = [Tn.get(r, 3) for r in range(3)]; zo = cross(o, z)
            w = [ite(P_, ZERO, x) for x in z]; v = [ite(P_, z[r], zo[r]) for r in range(3)]
            p.goal('step, joint of frame k+1: S_k T0(k+1)', got, mul(vcat([hcat([skew(w), col(v)]), zeros(1, 4)]), Tn))
        with assume(gt(j, k)): p.goal('step, joint after frame k+1: zero', got, zeros(4, 4))
def jac_of(Tm, upto):
    """6 x N: d position / d q_j and the angular velocity per unit rate of q_j (dR/dq_j = hat(w_j) R)"""
    def f(i, j):
        j = toI(j)
        if isinstance(i, int): r = i
        else: r = toI(i).const()
        if r < 3: return diff(Tm.get(r, 3), q_at(j))
        return ite_d(lt(j, upto), twist(j)[0][r - 3], ZERO)
    return Mat.gen(toI(6), N, f)
@ob('C02', 'angular velocity is the axis of the rotation derivative')
def o_ang(p):
    use_rigid(p); k, j = ivar('k', 1, N + 1), ivar('j', 0, N)
    with assume(ge(k, 1), le(k, N), ge(j, 0), lt(j, N)):
        for lab, M_ in (('frame k', T0(k)), ('end-effector', mul(T0(N), frame_of('par_Ln2EE')))):
            R = M_.block(0, 3, 0, 3); kk = k if lab[0] == 'f' else N
            w = [ite(lt(j, kk), x, ZERO) for x in twist(j)[0]]
            p.goal('dR/dq_j = hat(w_j) R (%s)' % lab, R.map(lambda x: diff(x, q_at(j))), mul(skew(w), R))
def model_after_chain(): return chain_puts(robot().f['model'])
def jac_goals(p, m, fm):
    k = ivar('k', 1, N + 1)
    with assume(ge(k, 1), le(k, N)): p.goal('J_k is the velocity map of frame k', m.get(key('J_', k)), jac_of(T0(k), k))
    Tee = mul(T0(N), frame_of('par_Ln2EE'))
    p.goal('J_ee is the velocity map of the end-effector', m.get(S('J_ee')), jac_of(Tee, N))
    p.goal('J_{n+1} is J_ee', m.get(key('J_', N + 1)), jac_of(Tee, N))
def jac_ob(pre):
    def f(p):
        use_rigid(p); u = A.library(); r = robot()
        if pre: r = r.put('model', model_after_chain())
        v, st = run(p, u, U.find(u, 'compute_jacobians', 'kinematics.cpp'), [r], contracts=dict(RC, compute_chain=c_chain))
        o = st.v['arg0']; jac_goals(p, o.f['model'], o.f['funs'])
        p.goal('returns success', toI(v) if not isinstance(v, C) else ind(v), toI(1))
    return f
ob('C02', 'compute_jacobians, chain computed before')(jac_ob(True))
ob('C02', 'compute_jacobians, chain not computed before')(jac_ob(False))
# ------------------------------------------------------------------ concrete chains (refutation)
def _num(m, env): return [[ep(m.get(i, j), env) for j in range(m.c.const())] for i in range(m.r.const())]
def T_at(env, k):
    import numpy as np
    d = env.__dict__.setdefault('chain', {})
    if k not in d:
        b = env.b; env.b = {}
        try: d[k] = np.array(_num(frame_of('par_world2L0'), env)) if k <= 0 else T_at(env, k - 1) @ np.array(_num(rel(k), env))
        finally: env.b = b
    return d[k]
def eul_at(env, i):
    R = T_at(env, i[0]); b = math.asin(max(-1., min(1., -R[2][0])))
    return (math.atan2(R[1][0], R[0][0]), b, math.atan2(R[2][1], R[2][2]))[i[1]]
def pcm_at(env, k):
    Tk = T_at(env, k); c = [env.rv('par_DYN', [(k - 1) * 10 + x]) for x in (1, 2, 3)]
    return [sum(Tk[r][x] * c[x] for x in range(3)) + Tk[r][3] for r in range(3)]
def Jcm_at(env, i):
    k, r, j = i
    if j >= k or j < 0: return 0.
    Tj = T_at(env, j + 1); z = [Tj[x][2] for x in range(3)]; P_ = env.ifn('jt', [j]) < 2
    if r >= 3: return 0. if P_ else z[r - 3]
    p = pcm_at(env, k); d = [p[x] - Tj[x][3] for x in range(3)]
    return z[r] if P_ else cross(z, d)[r]
T.EVAL.update(T0=lambda env, i: float(T_at(env, i[0])[i[1]][i[2]]), eul=eul_at, pcm=lambda env, i: float(pcm_at(env, i[0])[i[1]]), Jcm=lambda env, i: float(Jcm_at(env, i)))
