"""Independent numerical reference for the robot properties, written from the property
statements only.  Values are truncated Taylor series in time (order N) whose coefficients
are complex numbers; perturbing an input by an imaginary 1e-25 gives its partial derivative
to machine precision (complex step), so no reference here uses the library's formulas for
Jacobians, Coriolis or gravity terms."""
import numpy as np
H = 1e-25
class TS:
    """matrix-valued Taylor series: c[k] is the coefficient of t^k"""
    __array_ufunc__ = None
    def __init__(s, c): s.c = [np.asarray(x, dtype=complex) for x in c]
    @property
    def N(s): return len(s.c)
    @property
    def T(s): return TS([x.T for x in s.c])
    def __add__(s, o):
        o = lift(o, s.N); return TS([a + b for a, b in zip(s.c, o.c)])
    __radd__ = __add__
    def __neg__(s): return TS([-a for a in s.c])
    def __sub__(s, o): return s + (-lift(o, s.N))
    def __rsub__(s, o): return lift(o, s.N) - s
    def _conv(s, o, f):
        o = lift(o, s.N)
        return TS([sum(f(s.c[i], o.c[k - i]) for i in range(k + 1)) for k in range(s.N)])
    def __mul__(s, o): return s._conv(o, lambda a, b: a * b)
    def __rmul__(s, o): return lift(o, s.N)._conv(s, lambda a, b: a * b)
    def __matmul__(s, o): return s._conv(o, lambda a, b: a @ b)
    def __rmatmul__(s, o): return lift(o, s.N)._conv(s, lambda a, b: a @ b)
    def __getitem__(s, i): return TS([a[i] for a in s.c])
    def d(s, k):
        f = 1
        for i in range(2, k + 1): f *= i
        return s.c[k].real * f
def lift(x, n):
    if isinstance(x, TS): return x
    x = np.asarray(x, dtype=complex); return TS([x] + [np.zeros_like(x)] * (n - 1))
def sincos(th):
    """Taylor recurrences for sin/cos of a scalar series"""
    n = th.N; s = [np.sin(th.c[0])]; c = [np.cos(th.c[0])]
    for k in range(1, n):
        s.append(sum(j * th.c[j] * c[k - j] for j in range(1, k + 1)) / k)
        c.append(-sum(j * th.c[j] * s[k - j] for j in range(1, k + 1)) / k)
    return TS(s), TS(c)
def mat(rows, n):
    rows = [[lift(x, n) for x in r] for r in rows]
    return TS([np.array([[x.c[k] for x in r] for r in rows]) for k in range(n)])
def Rx(a, n):
    s, c = sincos(lift(a, n)); return mat([[1, 0, 0], [0, c, -s], [0, s, c]], n)
def Ry(a, n):
    s, c = sincos(lift(a, n)); return mat([[c, 0, s], [0, 1, 0], [-s, 0, c]], n)
def Rz(a, n):
    s, c = sincos(lift(a, n)); return mat([[c, -s, 0], [s, c, 0], [0, 0, 1]], n)
def skew(v): return np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])

class Model:
    """r: dict(types, DH(4n), world(6), ee(6), g(3), dyn(10n), ...)"""
    def __init__(s, r): s.r = r; s.n = len(r['types'])
    def frame(s, f, N):
        R = Rz(f[3], N) @ Ry(f[4], N) @ Rx(f[5], N)
        return R, lift(np.array(f[:3], dtype=complex), N)
    def rel(s, i, q, N, DH):
        a, al, d, th = [lift(x, N) for x in DH[4 * i:4 * i + 4]]
        if s.r['types'][i][0] == 'P': d = d + q[i]
        else: th = th + q[i]
        X = Rx(al, N); R = X @ Rz(th, N)
        z = TS([np.array([0, 0, 1.]) * c for c in d.c]); x = TS([np.array([1., 0, 0]) * c for c in a.c])
        return R, (X @ z) + x
    def fk(s, q, N=1, DH=None, world=None, ee=None):
        """q: list of scalar TS. returns rel transforms, abs transforms [0..n+1] as (R,p)"""
        r = s.r; DH = r['DH'] if DH is None else DH; world = r['world'] if world is None else world; ee = r['ee'] if ee is None else ee
        cur = s.frame(world, N); rels = [cur]; ab = [cur]
        for i in range(s.n):
            R, p = s.rel(i, q, N, DH); rels.append((R, p))
            cur = (cur[0] @ R, cur[1] + cur[0] @ p); ab.append(cur)
        R, p = s.frame(ee, N); ab.append((cur[0] @ R, cur[1] + cur[0] @ p))
        return rels, ab
    def qs(s, *ders):
        f = 1; out = []
        for i in range(s.n):
            c = []; f = 1.
            for k, d in enumerate(ders):
                if k: f *= k
                c.append(d[i] / f)
            out.append(TS(c))
        return out
    def points(s, q, N, **kw):
        """(R,p) of frames 1..n, the ee, and the centres of mass of links 1..n"""
        _, ab = s.fk(q, N, **kw); n = s.n; dyn = s.r['dyn']
        cm = [(ab[i + 1][0], ab[i + 1][1] + ab[i + 1][0] @ np.array(dyn[10 * i + 1:10 * i + 4])) for i in range(n)]
        # the end-effector Jacobian refers to the orientation of the last frame (same angular velocity)
        return ab[1:n + 1], (ab[n][0], ab[n + 1][1]), cm
    def jacs(s, q, N=1, which=None, **kw):
        """Jacobians by complex step on the kinematics: dict of 6xn TS"""
        n = s.n
        base = s.points(q, N, **kw)
        flat0 = base[0] + [base[1]] + base[2]
        J = [[None] * n for _ in flat0]
        for k in range(n):
            qk = list(q); qk[k] = TS([q[k].c[0] + 1j * H] + list(q[k].c[1:]))
            b = s.points(qk, N, **kw); fl = b[0] + [b[1]] + b[2]
            for m, ((R0, p0), (R, p)) in enumerate(zip(flat0, fl)):
                dp = TS([c.imag / H for c in p.c]); dR = TS([c.imag / H for c in R.c]); W = dR @ TS([c.real for c in R0.c]).T
                J[m][k] = TS([np.concatenate([a, [w[2, 1], w[0, 2], w[1, 0]]]) for a, w in zip(dp.c, W.c)])
        out = [TS([np.stack([J[m][k].c[t] for k in range(n)], 1) for t in range(N)]) for m in range(len(flat0))]
        return out[:n], out[n], out[n + 1:]
    def geo(s, q, N=1, **kw):
        """geometric Jacobians (analytic; keeps complex parts, so it can itself be differentiated by complex step)"""
        n = s.n; _, ab = s.fk(q, N, **kw)
        def jac(p, upto):
            cols = []
            for j in range(n):
                if j > upto: cols.append(TS([np.zeros(6)] * N)); continue
                R, o = ab[j + 1]; k = R[:, 2]
                if s.r['types'][j][0] == 'P': cols.append(TS([np.concatenate([a, np.zeros(3)]) for a in k.c]))
                else:
                    e = p - o; lin = [sum(np.cross(k.c[i], e.c[m - i]) for i in range(m + 1)) for m in range(N)]
                    cols.append(TS([np.concatenate([l, a]) for l, a in zip(lin, k.c)]))
            return TS([np.stack([c.c[t] for c in cols], 1) for t in range(N)])
        dyn = s.r['dyn']
        Js = [jac(ab[i + 1][1], i) for i in range(n)]
        Jc = [jac(ab[i + 1][1] + ab[i + 1][0] @ np.array(dyn[10 * i + 1:10 * i + 4]), i) for i in range(n)]
        return Js, jac(ab[n + 1][1], n - 1), Jc, ab
    def M(s, q, N=1):
        _, _, Jc, ab = s.geo(q, N); n = s.n; dyn = s.r['dyn']; M = 0
        for i in range(n):
            p = dyn[10 * i:10 * i + 10]; I = np.array([[p[4], p[5], p[6]], [p[5], p[7], p[8]], [p[6], p[8], p[9]]])
            R = ab[i + 1][0]; Jv = Jc[i][0:3, :]; Jw = R.T @ Jc[i][3:6, :]
            M = p[0] * (Jv.T @ Jv) + (Jw.T @ (I @ Jw)) + M
        return M
    def pert(s, q, k): qk = list(q); qk[k] = TS([q[k].c[0] + 1j * H] + list(q[k].c[1:])); return qk
    def dM(s, q, N=1):
        return [TS([c.imag / H for c in s.M(s.pert(q, k), N).c]) for k in range(s.n)]
    def C(s, q, dq, N=1):
        n = s.n; D = s.dM(q, N); C = TS([np.zeros((n, n))] * N)
        rows = []
        for i in range(n):
            r = []
            for j in range(n):
                a = 0
                for k in range(n):
                    a = 0.5 * (D[k][i, j] + D[j][i, k] - D[i][j, k]) * dq[k] + a
                r.append(a)
            rows.append(r)
        return mat(rows, N)
    def U(s, q, N=1):
        _, _, cm = s.points(q, N); g = np.array(s.r['g'], dtype=complex); dyn = s.r['dyn']; U = 0
        for i in range(s.n): U = (-dyn[10 * i]) * (g @ cm[i][1]) + U
        return U
    def G(s, q, N=1):
        cols = [TS([c.imag / H for c in s.U(s.pert(q, k), N).c]) for k in range(s.n)]
        return TS([np.array([[x.c[t]] for x in cols]) for t in range(N)])

def dyn2reg(p):
    p = np.asarray(p, float); out = np.zeros_like(p)
    for i in range(len(p) // 10):
        m, c, I = p[10 * i], p[10 * i + 1:10 * i + 4], p[10 * i + 4:10 * i + 10]
        S = m * (c @ c * np.eye(3) - np.outer(c, c))
        out[10 * i] = m; out[10 * i + 1:10 * i + 4] = m * c
        out[10 * i + 4:10 * i + 10] = I + [S[0, 0], S[0, 1], S[0, 2], S[1, 1], S[1, 2], S[2, 2]]
    return out
def reg2dyn(p):
    p = np.asarray(p, float); out = np.zeros_like(p)
    for i in range(len(p) // 10):
        m = p[10 * i]; c = p[10 * i + 1:10 * i + 4] / m; I = p[10 * i + 4:10 * i + 10]
        S = m * (c @ c * np.eye(3) - np.outer(c, c))
        out[10 * i] = m; out[10 * i + 1:10 * i + 4] = c
        out[10 * i + 4:10 * i + 10] = I - [S[0, 0], S[0, 1], S[0, 2], S[1, 1], S[1, 2], S[2, 2]]
    return out

def reference(r, st, want=None):
    """All published quantities for state st (q,dq,ddq,d3q,dqr,ddqr,x,dx,ddx,w).  want: set of name prefixes or None"""
    m = Model(r); n = m.n; out = {}
    q0 = m.qs(st['q'])
    w = lambda *names: want is None or any(x in want for x in names)
    if w('T'):
        rels, ab = m.fk(q0)
        def hom(x):
            T = np.eye(4); T[:3, :3] = x[0].c[0].real; T[:3, 3] = x[1].c[0].real; return T
        out['T_0'] = hom(rels[0]); out['T_0_0'] = hom(ab[0])
        for i in range(1, n + 1): out['T_%d' % i] = hom(rels[i]); out['T_0_%d' % i] = hom(ab[i])
        out['T_0_%d' % (n + 1)] = out['T_0_ee'] = hom(ab[n + 1])
    if w('J'):
        Js, Je, Jc = m.jacs(q0)
        for i in range(n): out['J_%d' % (i + 1)] = Js[i].d(0); out['J_cm_%d' % (i + 1)] = Jc[i].d(0)
        out['J_%d' % (n + 1)] = out['J_ee'] = Je.d(0)
    if w('Jd'):
        # jacs() (complex-step) of time series: derivatives in t of J(q(t))
        _, Je, _ = m.jacs(m.qs(st['q'], st['dq'], st['ddq']), 3)
        out['J_ee_dot'] = Je.d(1); out['J_ee_ddot'] = Je.d(2)
        _, Je0, _ = m.jacs(q0); J = Je0.d(0); out['J_ee_pinv'] = J.T @ np.linalg.inv(J @ J.T + 0.02 * np.eye(6))
    if w('M'): out['M'] = m.M(q0).d(0)
    if w('C'): out['C'] = out['C_std'] = m.C(q0, [lift(x, 1) for x in st['dq']]).d(0)
    if w('G'): out['G'] = m.G(q0).d(0)
    if w('MCGd'):
        q3 = m.qs(st['q'], st['dq'], st['ddq']); dq3 = m.qs(st['dq'], st['ddq'], st['d3q'])
        M = m.M(q3, 3); C = m.C(q3, dq3, 3); G = m.G(q3, 3)
        for nm, X in (('M', M), ('C', C), ('G', G)): out[nm + '_dot'] = X.d(1); out[nm + '_ddot'] = X.d(2)
    if w('Y'):
        # columns of the regressors: dynamics evaluated at unit regressor-form parameters is linear in them
        M = m.M(q0).d(0); C = m.C(q0, [lift(x, 1) for x in st['dq']]).d(0); G = m.G(q0).d(0)
        pr = dyn2reg(r['dyn'])
        out['@Yr'] = (pr, M @ st['ddqr'] + C @ st['dqr'] + G[:, 0]); out['@reg_M'] = (pr, M @ st['ddqr'])
        out['@reg_C'] = (pr, C @ st['dqr']); out['@reg_G'] = (pr, G[:, 0])
    return out
def kin_regressors(r, st, symb):
    """d(J dq)/dp and d(J^T w)/dp for the symbolic kinematic parameters, by complex step"""
    m = Model(r); q = m.qs(st['q']); dq = np.array(st['dq']); w = np.array(st['w']); a = []; b = []
    for key, kw in (('par_DHtable', 'DH'), ('par_world2L0', 'world'), ('par_Ln2EE', 'ee')):
        for i, sy in enumerate(symb[key]):
            if not sy: continue
            v = np.array(r[kw], dtype=complex); v[i] += 1j * H
            J = m.geo(q, 1, **{kw: list(v)})[1].c[0].imag / H
            a.append(J @ dq); b.append(J.T @ w)
    if not a: return {}
    return dict(reg_Jdq=np.array(a).T, reg_JTw=np.array(b).T)
def elastic_regressors(r, st, symb):
    """the modelled quantities are linear in their parameters: column = value at the unit parameter vector"""
    out = {}
    for par, quant, key in (('Dl', 'dl', 'par_Dl'), ('K', 'k', 'par_K'), ('D', 'd', 'par_D'), ('Dm', 'dm', 'par_Dm'), ('Mm', 'Mm', 'par_Mm')):
        if par == 'Mm' and not r['elastic']: continue
        if par != 'Mm' and not r[par + '_order']: continue
        cols = []
        for i, sy in enumerate(symb[key]):
            if not sy: continue
            rr = dict(r); u = [0.] * len(r[par]); u[i] = 1.; rr[par] = u
            v = elastic_reference(rr, st)[quant]
            if par == 'Mm': v = v @ np.array(st['ddx']).reshape(-1, 1)
            cols.append(v[:, 0])
        if cols: out['reg_' + quant] = np.array(cols).T
    return out
def friction(par, order, i, v):
    return sum(par[i * order + k] * abs(v) ** k * v for k in range(order))
def stiff(par, order, i, e):
    return sum(par[i * order + k] * e ** (2 * k + 1) for k in range(order))
def elastic_reference(r, st):
    out = {}; n = len(r['types']); el = [i for i, t in enumerate(r['types']) if t.endswith('_SEA')]; ne = len(el)
    if r['Dl_order'] > 0:
        o = r['Dl_order']; out['dl'] = np.array([[friction(r['Dl'], o, i, st['dq'][i])] for i in range(n)])
        for k in range(o): out['Dl%d' % (k + 1)] = np.diag([r['Dl'][i * o + k] for i in range(n)])
    if r['elastic']:
        K, D, Dm = r['K_order'], r['D_order'], r['Dm_order']
        if K: out['k'] = np.array([[stiff(r['K'], K, a, st['x'][a] - st['q'][j])] for a, j in enumerate(el)]).reshape(ne, 1)
        if D: out['d'] = np.array([[friction(r['D'], D, a, st['dx'][a] - st['dq'][j])] for a, j in enumerate(el)]).reshape(ne, 1)
        if Dm: out['dm'] = np.array([[friction(r['Dm'], Dm, a, st['dx'][a])] for a in range(ne)]).reshape(ne, 1)
        for k in range(K): out['K%d' % (2 * k + 1)] = np.diag([r['K'][a * K + k] for a in range(ne)])
        for k in range(D): out['D%d' % (k + 1)] = np.diag([r['D'][a * D + k] for a in range(ne)])
        for k in range(Dm): out['Dm%d' % (k + 1)] = np.diag([r['Dm'][a * Dm + k] for a in range(ne)])
        out['Mm'] = np.diag(np.array(r['Mm'], float)) if ne else np.zeros((0, 0))
    return out
