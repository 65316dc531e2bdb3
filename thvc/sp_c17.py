"""C17: the rigid-body utilities, every copy of them."""
from .prove import *
from . import units as U
def dv(n, k): return items([rvar(n, i) for i in range(k)])
def link(n, **kw): return Obj('LinkProp', dict({'name': S(n), 'mass': rvar(n + '.m'), 'xyz': dv(n + '.xyz', 3), 'parI': dv(n + '.I', 6), 'rpy': dv(n + '.rpy', 3)}, **kw))
def Rx(a): c, s_ = fn('cos', a), fn('sin', a); return mat([[ONE, ZERO, ZERO], [ZERO, c, -s_], [ZERO, s_, c]])
def Ry(a): c, s_ = fn('cos', a), fn('sin', a); return mat([[c, ZERO, s_], [ZERO, ONE, ZERO], [-s_, ZERO, c]])
def Rz(a): c, s_ = fn('cos', a), fn('sin', a); return mat([[c, -s_, ZERO], [s_, c, ZERO], [ZERO, ZERO, ONE]])
def rpy(v): return mul(mul(Rz(v.get(2)), Ry(v.get(1))), Rx(v.get(0)))
def skew(v): return mat([[ZERO, -v[2], v[1]], [v[2], ZERO, -v[0]], [-v[1], v[0], ZERO]])
def sym6(v): g = [v.get(k) for k in range(6)]; return mat([[g[0], g[1], g[2]], [g[1], g[3], g[4]], [g[2], g[4], g[5]]])
def add(*ms):
    r = ms[0]
    for m in ms[1:]: r = ew(lambda x, y: x + y, r, m)
    return r
def sub(a, b): return ew(lambda x, y: x - y, a, b)
def scale(k, a): return ew(lambda x, y: x * y, toP(k), a)
def run(p, u, fun, args, this=None, contracts=None, ex=None, alive=True):
    ex = ex or p.exec(u, contracts); st = State(); ls = []
    for i, a in enumerate(args): st.v['arg%d' % i] = a; ls.append(LV('arg%d' % i))
    t = None
    if this is not None: st.v['obj'] = this; t = LV('obj')
    v, al = ex.call(fun, st, ls, t)
    if alive and not decide(al):
        p.cond('%s returns normally' % fun.name, al); raise Unsupported('%s may not return normally' % fun.name)
    return v, st
def vec3(x): return [x.get(k, 0) if isinstance(x, Mat) else x.get(k) for k in range(3)]
COPIES = [('utils.cpp', A.library, 'utils.cpp', None), ('template', U.template, 'thunder_robot.cpp', 'thunder_robot'), ('genYAML', U.genyaml, 'urdf2dh_inertial.cpp', None)]
def this_of(u, cls): return Obj(cls, {}) if cls else None
def reg(tag, getu, file, cls):
    R17 = [('c17_case', None)]
    @ob('C17', 'rpyRot (%s)' % tag)
    def o(p):
        u = getu(); r = dv('r', 3); v, _ = run(p, u, U.find(u, 'rpyRot', file), [r], this_of(u, cls))
        p.goal('rpyRot = Rz(yaw) Ry(pitch) Rx(roll)', v, rpy(r))
        p.goal('rpyRot is orthonormal', mul(v, v.T()), eye(3))
        d = [v.get(i, j) for i in range(3) for j in range(3)]
        det = d[0] * (d[4] * d[8] - d[5] * d[7]) - d[1] * (d[3] * d[8] - d[5] * d[6]) + d[2] * (d[3] * d[7] - d[4] * d[6])
        p.goal('rpyRot is a proper rotation', det, ONE)
    @ob('C17', 'createI and hat (%s)' % tag)
    def o2(p):
        u = getu(); r = dv('I', 6); v, _ = run(p, u, U.find(u, 'createI', file), [r], this_of(u, cls))
        p.goal('createI is the symmetric matrix of (xx,xy,xz,yy,yz,zz)', v, sym6(r))
        for f in u.funs.get('hat', []):
            if not f.file.endswith(file): continue
            w = [rvar('w', k) for k in range(3)]; v, _ = run(p, u, f, [col(w)], this_of(u, cls))
            p.goal('hat(w) v = w x v (%s)' % f.t, v, skew(w))
            y = [rvar('y', k) for k in range(3)]
            p.goal('hat is the cross product (%s)' % f.t, mul(v, col(y)), col([w[1] * y[2] - w[2] * y[1], w[2] * y[0] - w[0] * y[2], w[0] * y[1] - w[1] * y[0]]))
    if cls is None:
        @ob('C17', 'transformBodyInertial (%s)' % tag)
        def o3(p):
            u = getu(); d = dv('d', 3); r = dv('r', 3); b = link('b')
            v, st = run(p, u, U.find(u, 'transformBodyInertial', file), [d, r, b, link('n')])
            n = st.v['arg3']
            p.goal('mass is kept', n.f['mass'], b.f['mass'])
            p.goal('centre of mass: d + R c', col(n.f['xyz'].items()), add(col(d.items()), mul(rpy(r), col(b.f['xyz'].items()))))
            Q_ = mul(rpy(r), rpy(b.f['rpy']))
            p.goal('inertia: (R Rb) I (R Rb)^T', sym6(n.f['parI']), mul(mul(Q_, sym6(b.f['parI'])), Q_.T()))
            p.goal('name is kept', n.f['name'], b.f['name'])
        @ob('C17', 'mergeBodyInertial (%s)' % tag)
        def o4(p):
            u = getu(); a, b = link('a'), link('b')
            v, st = run(p, u, U.find(u, 'mergeBodyInertial', file), [a, b, link('n')])
            n = st.v['arg2']; m1, m2 = a.f['mass'], b.f['mass']; m = m1 + m2; c = col(n.f['xyz'].items())
            p.goal('masses add', n.f['mass'], m)
            c1, c2 = col(a.f['xyz'].items()), col(b.f['xyz'].items())
            p.goal('mass-weighted centre of mass', scale(m, c), add(scale(m1, c1), scale(m2, c2)))
            def par(mm, cc, I6):
                d = vec3(sub(cc, c)); q = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
                return add(sym6(I6), scale(mm, sub(scale(q, eye(3)), mul(col(d), col(d).T()))))
            p.goal('parallel-axis theorem', sym6(n.f['parI']), add(par(m1, c1, a.f['parI']), par(m2, c2, b.f['parI'])))
for c in COPIES: reg(*c)
@ob('C17', 'FrameOffset rotation and transform')
def fo(p):
    u = A.library(); o = Obj('FrameOffset', {'ypr': dv('ypr', 3), 'translation': dv('t', 3), 'gravity': dv('g', 3)})
    y = o.f['ypr']; Rw = mul(mul(Rz(y.get(0)), Ry(y.get(1))), Rx(y.get(2)))
    v, _ = run(p, u, U.find(u, 'get_rotation', 'FrameOffset.cpp'), [], o); p.goal('get_rotation = Rz(yaw) Ry(pitch) Rx(roll)', v, Rw)
    p.goal('get_rotation is orthonormal', mul(v, v.T()), eye(3))
    v, _ = run(p, u, U.find(u, 'get_transform', 'FrameOffset.cpp'), [], o)
    p.goal('get_transform: rotation', v.block(0, 3, 0, 3), Rw); p.goal('get_transform: translation', v.block(0, 3, 3, 1), col(o.f['translation'].items())); p.goal('get_transform: last row', v.block(3, 1, 0, 4), mat([[ZERO, ZERO, ZERO, ONE]]))
    w = dv('w', 3); v, _ = run(p, u, U.find(u, 'hat', 'FrameOffset.cpp'), [w], o); p.goal('hat(w)', v, skew([w.get(k) for k in range(3)]))
    v, _ = run(p, u, U.find(u, 'get_translation', 'FrameOffset.cpp'), [], o); p.goal('get_translation', v, col(o.f['translation'].items()))
    v, _ = run(p, u, U.find(u, 'get_gravity', 'FrameOffset.cpp'), [], o); p.goal('get_gravity', v, col(o.f['gravity'].items()))
@ob('C17', 'FrameOffset constructors and setters')
def fo_new(p):
    u = A.library(); y, t, g = dv('y', 3), dv('t', 3), dv('g', 3)
    for f in [f for f in u.funs['FrameOffset'] if A.body(f) and len(A.params(f)) in (2, 3)]:
        n = len(A.params(f)); ex = p.exec(u)
        for k in range(n):
            st = State(); st.v.update(obj=Obj('FrameOffset', {'ypr': Vec([]), 'translation': Vec([]), 'gravity': Vec([])}), a0=y, a1=t, a2=g)
            m = ivar('len', 0, None); st.v['a%d' % k] = Vec([('d', m, rvar('v', K0))])
            with assume(Not(eq(m, 3))):
                v, al = ex.call(f, st, [LV('a%d' % i) for i in range(n)], LV('obj')); p.add('%d arguments: a vector of another size is refused' % n, al is FALSE or decide(Not(al)), repr(al))
        v, st = run(p, u, f, [y, t, g][:n], Obj('FrameOffset', {'ypr': Vec([]), 'translation': Vec([]), 'gravity': Vec([])})); o = st.v['obj']
        for get, want in (('get_ypr', y), ('get_translation', col(t.items()))) + ((('get_gravity', col(g.items())),) if n == 3 else ()):
            v, _ = run(p, u, U.find(u, get, 'FrameOffset.cpp'), [], o); p.goal('%d arguments: %s' % (n, get), v, want)
    for k in ('ypr', 'translation', 'gravity'):
        o = Obj('FrameOffset', {'ypr': dv('Y', 3), 'translation': dv('T', 3), 'gravity': dv('G', 3)})
        v, st = run(p, u, U.find(u, 'set_' + k, 'FrameOffset.cpp'), [dv('n', 3)], o); p.goal('set_%s: the new value, the rest as before' % k, st.v['obj'], o.put(k, dv('n', 3)))
def atoms_c(c, out):
    if c.op == 'atom': out.append(c)
    else:
        for x in c.a:
            if isinstance(x, C): atoms_c(x, out)
    return out
@ob(('C17', 'C01'), 'ZIS')
def zis(p):
    """the rounding filter changes a value only where it is below 1e-12"""
    u = A.library(); x = rvar('x'); v, _ = run(p, u, U.find(u, 'ZIS', 'kinematics.cpp'), [toM(x)])
    v = toP(v) if not isinstance(v, Mat) else v.scalar()
    small = [c for q in top_conds(v) for c in atoms_c(q, []) if c.a[0] == 'rlt']
    ok = all(c.a[1] == fn('abs', x) and c.a[2].const() is not None and 0 < c.a[2].const() <= Q(1, 10 ** 12) for c in small)
    p.add('tolerance at most 1e-12 on |x|', ok, 'conditions %r' % small)
    with assume(*[Not(c) for c in small]): p.goal('unchanged unless |x| < tolerance', v, x)
    with assume(*small):
        with assume(patom('isconst', x)): p.goal('zero when |x| < tolerance', v, ZERO) if small else None
        with assume(Not(patom('isconst', x))): p.goal('unchanged when not a number', v, x)
def c_zis(ex, st, this, args, n):
    ex.used.add('ZIS(x) = x (proved: differs from x by less than 1e-12)'); return ex.ev(args[0], st)
KC = {'ZIS': c_zis}
@ob(('C17', 'C01'), 'kinematics.cpp rotations and frame transform')
def kr(p):
    u = A.library(); a = toM(rvar('a'))
    for nm, f in (('R_x', Rx), ('R_y', Ry), ('R_z', Rz)):
        v, _ = run(p, u, U.find(u, nm, 'kinematics.cpp'), [a], contracts=KC); p.goal('%s(a)' % nm, v, f(rvar('a')))
    fr = [rvar('fr', k) for k in range(6)]
    v, _ = run(p, u, U.find(u, 'get_transform', 'kinematics.cpp'), [col(fr)], contracts=KC)
    p.goal('get_transform: rotation = Rz(psi) Ry(theta) Rx(phi)', v.block(0, 3, 0, 3), mul(mul(Rz(fr[3]), Ry(fr[4])), Rx(fr[5])))
    p.goal('get_transform: translation', v.block(0, 3, 3, 1), col(fr[:3])); p.goal('get_transform: last row', v.block(3, 1, 0, 4), mat([[ZERO, ZERO, ZERO, ONE]]))
