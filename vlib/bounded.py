"""Bounded companion of the prover: runs the real code on generated inputs and compares it with the
independent reference (oracle.py).  It is what turns a refuted obligation into a failing input, and it is the
labelled bounded stand-in for functions outside the verifier's reach.  Never counted as proof."""
import os, sys, json, random, math, time, shutil, re, subprocess, itertools
import multiprocessing as mp
import numpy as np
from . import build, gen, oracle
NPROC = int(os.environ.get('THVC_JOBS', '8'))
_P = {}
def proc(kind='lib'):
    k = (kind, os.getpid())
    p = _P.get(k)
    if p is None or p.p.poll() is not None:
        exe = {'lib': build.build_lib, 'asan': build.build_asan, 'gy': build.build_gyaml}[kind]()
        env = dict(os.environ)
        if kind == 'asan': env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99'
        p = _P[k] = build.Proc(exe, env=env)
    p.log = []
    return p
def vec(v): return '%d %s' % (len(v), ' '.join(repr(float(x)) for x in v))
def nums(line): return [float(x) for x in line.split()]
def pmat(line):
    t = line.split()
    r, c = int(t[0]), int(t[1]); return np.array([float(x) for x in t[2:]]).reshape(c, r).T
def pvec(line):
    t = line.split(); return np.array([float(x) for x in t[1:]])
def vals(out):
    d = {}
    for l in out[1:]:
        t = l.split(' ', 2)
        if t[0] == 'V': d[t[1]] = None if t[2] == 'EXC' else pmat(t[2])
    return d
class Bad(Exception):
    def __init__(s, what, **kw): s.what = what; s.kw = kw; Exception.__init__(s, what)
_SD = None
def sdir():
    global _SD
    if _SD is None or not os.path.isdir(_SD) or _SD.split('/')[-1].split('_')[1] != str(os.getpid()):
        base = os.path.join(build.CACHE, 'scratch'); os.makedirs(base, exist_ok=True)
        _SD = os.path.join(base, 'w_%d' % os.getpid()); shutil.rmtree(_SD, ignore_errors=True); os.makedirs(_SD)
    return _SD
def write(name, text):
    f = os.path.join(sdir(), name); open(f, 'w').write(text); return f
TOL = 1e-9
def differs(a, b, tol=TOL, scale=0.):
    if a is None: return True
    a = np.asarray(a, float); b = np.asarray(b, float)
    if a.shape != b.shape: return True
    if a.size == 0: return False
    if not np.all(np.isfinite(a)): return True
    return bool(np.max(np.abs(a - b)) > tol * (1 + scale + np.max(np.abs(b))))

# ---------------------------------------------------------------- random robots with awkward values
SPECIAL_ANG = [0.0, math.pi / 2, -math.pi / 2, math.pi, 1e-16, 1e-9, -1e-5, 2e-15, -3e-16, 7.0]
SPECIAL_LEN = [0.0, 1e-16, -1e-9, 1e-4, 25.0, -0.5]
def spice(g, r):
    """replace some values by special ones"""
    n = r['n']
    p = g.choice([0, 0, 0.15, 0.4])
    for i in range(n):
        for k in range(4):
            if g.random() < p: r['DH'][4 * i + k] = g.choice(SPECIAL_ANG if k in (1, 3) else SPECIAL_LEN)
        for k in range(4):
            if g.random() < p * 0.5: r['dyn'][10 * i + k] = g.choice([1e-6, 0.0, 12.5] if k == 0 else [0.0, 1e-9, 1.25])
        for k in range(6):
            if g.random() < p * 0.3: r['dyn'][10 * i + 4 + k] = 0.0
    for key in ('world', 'ee'):
        for k in range(6):
            if g.random() < p: r[key][k] = g.choice(SPECIAL_LEN if k < 3 else SPECIAL_ANG)
    for k in range(3):
        if g.random() < p: r['g'][k] = g.choice([0.0, -9.81, 1e-9])
    # whole parts absent: pure translations and rotations, gravity along one axis, point masses, one column of the table
    for key in ('world', 'ee'):
        c = g.random()
        if c < 0.25: r[key][:3] = [0.0] * 3
        if 0.15 < c < 0.4: r[key][3:] = [0.0] * 3
    if g.random() < 0.25:
        k = g.randrange(3)
        for a in range(3):
            if (a == k) == (g.random() < 0.8): r['g'][a] = 0.0
    for i in range(n):
        c = g.random()
        if c < 0.06: r['dyn'][10 * i + 1:10 * i + 4] = [0.0] * 3
        if 0.04 < c < 0.1: r['dyn'][10 * i + 4:10 * i + 10] = [0.0] * 6
        if g.random() < 0.1: r['DH'][4 * i:4 * i + 4] = [0.0] * 4
    if g.random() < 0.15:
        k = g.randrange(4)
        for i in range(n): r['DH'][4 * i + k] = 0.0
    for key in ('Dl', 'K', 'D', 'Dm', 'Mm'):
        for k in range(len(r[key])):
            if g.random() < p * 0.5: r[key][k] = g.choice([0.0, -0.75, 1e-8, 40.0])
    return r
def spice_state(g, st):
    p = g.choice([0, 0, 0.2, 1.0])
    for k in st:
        for i in range(len(st[k])):
            if g.random() < p: st[k][i] = g.choice([0.0, 0.0, 1.0, math.pi / 2, -3.0, 1e-9])
    if g.random() < 0.5:              # entries of very different sizes: slow and fast joints together
        m = g.choice([0.3, 0.7, 1.0])
        for k in st:
            for i in range(len(st[k])):
                if g.random() < m: st[k][i] = g.choice([-1, 1]) * float('%.4g' % 10 ** g.uniform(-7, 1))
    if g.random() < 0.1 and st['x']:  # motor and link coincide
        st['x'] = [0.5] * len(st['x']); st['q'] = [0.5] * len(st['q'])
    return st

STATE = ('q', 'dq', 'ddq', 'd3q', 'd4q', 'dqr', 'ddqr', 'w')
ELSTATE = ('x', 'dx', 'ddx', 'ddxr')
KEYS = dict(par_DHtable='DH', par_world2L0='world', par_Ln2EE='ee', par_gravity='g', par_DYN='dyn', par_Dl='Dl', par_K='K', par_D='D', par_Dm='Dm', par_Mm='Mm')
def live_pars(r):
    out = ['par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity', 'par_DYN']
    if r['Dl_order']: out.append('par_Dl')
    if r['elastic']: out += [k for k, o in (('par_K', 'K_order'), ('par_D', 'D_order'), ('par_Dm', 'Dm_order')) if True] + ['par_Mm']
    return out
def eff(r):
    """the robot as configured (absent gravity section means zero gravity)"""
    rr = dict(r)
    if r.get('no_gravity'): rr['g'] = [0.] * 3
    return rr
def load(P, r, name='r', compute=1, text=None):
    f = write(name + '.yaml', text or gen.yaml_text(r))
    o = P.ask('robot %s %s %d' % (name, f, compute))
    if o != ['ok']: raise Bad('the library does not build a valid configuration: ' + ' '.join(o), yaml=open(f).read())
    return f
def history(P, seed, compute=1):
    """other robots in the same process before the one that is looked at"""
    g = random.Random('before/%s' % seed)
    for s in g.choice([['all'], ['none'], ['mix'], ['none', 'all']]):
        o = gen.robot(g, n=g.choice([1, 2, 3]), symb=s); load(P, o, g.choice(['other', 'r']), compute); set_state(P, o, gen.state(g, o)); P.ask('getall' if compute else 'args')
def set_state(P, r, st):
    for k in STATE + (ELSTATE if r['elastic'] else ()):
        P.ask('set %s %s' % (k, vec(st[k])))
def perturb_symbolic(g, P, r):
    """give every symbolic entry a new value, on the robot and in the reference"""
    rr = dict(r)
    for k in live_pars(r):
        s = r['symb'][k]
        if not any(s): continue
        new = list(r[KEYS[k]]); 
        for i, f in enumerate(s):
            if f: new[i] = gen.rnd(g, 0.2, 1.4) if k in ('par_DYN', 'par_Mm') else gen.rnd(g)
        rr[KEYS[k]] = new
        P.ask('set %s %s' % (k, vec([x for x, f in zip(new, s) if f])))
    return rr

WANT = dict(C01=('T',), C02=('J',), C03=('Jd',), C04=('M',), C05=('C',), C06=('G',), C07=('MCGd',), C08=('Y',), C09=(), C10=(),
            C12=('T', 'J', 'Jd', 'M', 'C', 'G', 'Y'))
def expected(pid, r, st):
    out = {}
    r = eff(r)
    if WANT[pid]: out.update(oracle.reference(r, {k: np.array(v) for k, v in st.items()}, set(WANT[pid])))
    if pid in ('C09', 'C12'): out.update(oracle.elastic_reference(r, st))
    if pid in ('C10', 'C12'): out.update(oracle.kin_regressors(r, st, r['symb'])); out.update(oracle.elastic_regressors(r, st, r['symb']))
    return out
FAMILY = dict(C01=r'T_', C02=r'J_(cm_)?\d+$|J_ee$', C03=r'J_ee_', C04=r'M$', C05=r'C$|C_std$', C06=r'G$', C07=r'[MCG]_d', C08=r'Yr$|reg_[MCG]$',
              C09=r'dl$|k$|d$|dm$|Mm$|[KD]\d+$|Dm\d+$|Dl\d+$', C10=r'reg_(dl|k|d|dm|Mm|Jdq|JTw)$', C12='.')
def compare(pid, V, ref, r, what):
    scale = 1.0
    for k, v in ref.items():
        name = k.lstrip('@')
        if name not in V: raise Bad('%s: the library has no function %s' % (what, name))
        if k[0] == '@':
            got = V[name] @ v[0] if V[name] is not None and V[name].shape[1] == len(v[0]) else V[name]; want = v[1]
            sc = np.abs(V[name]).max() * np.abs(v[0]).max() if V[name] is not None and V[name].size else 0
        else:
            got = V[name]; want = v; sc = 0
        if differs(got, want, 1e-8 if pid in ('C03', 'C07') else TOL, sc):
            raise Bad('%s: %s differs from the reference' % (what, name), function=name, got=np.asarray(got).tolist() if got is not None else None, want=np.asarray(want).tolist())
    extra = [n for n in V if re.match(FAMILY[pid], n) and n not in ref and '@' + n not in ref]
    if extra and pid != 'C12': raise Bad('%s: unexpected function(s) %s' % (what, extra))
def numeric_case(pid, seed, over=None):
    """one random robot, two evaluations: configured values, then every symbolic entry changed"""
    g = random.Random('%s/%s' % (pid, seed))
    o = dict(over or {})
    mode = seed % 8
    kw = {}
    big = pid in ('C01', 'C02', 'C09', 'C10')
    nmax = o.pop('nmax', 6 if big else 4)
    n = o.pop('n', None) or g.choice([1, 2, 2, 3, 3, 4] + [nmax] + ([5] if big else g.choice([[], [], [5, 6, 7]])))
    if seed % 97 == 41: n = 10
    if pid in ('C09', 'C10') and mode % 2 == 0: kw['types'] = [g.choice(['R_SEA', 'P_SEA', 'R', 'P']) for _ in range(n)]; kw['orders'] = dict(Dl=g.choice([0, 1, 2, 3, 4, 5]), K=g.choice([0, 1, 2, 3, 4]), D=g.choice([0, 1, 2, 3, 4]), Dm=g.choice([0, 1, 2, 3, 4]))
    if pid in ('C09', 'C10') and mode == 4: kw['elastic'] = True
    if pid == 'C10': kw['symb'] = g.choice(['random', 'all', 'mix', 'mix'])
    kw.update(o)
    r = gen.robot(g, n=n, **kw)
    if mode >= 3: spice(g, r)
    if g.random() < 0.1: r['no_gravity'] = True; r['symb']['par_gravity'] = [0, 0, 0]
    P = proc()
    if seed % 4 == 1: history(P, seed)
    y = load(P, r)
    st = gen.state(g, r)
    if mode >= 5: spice_state(g, st)
    set_state(P, r, st)
    V = vals(P.ask('getall'))
    ref = expected(pid, r, st); nt = any(np.any(np.asarray(v if k[0] != '@' else v[1])) for k, v in ref.items())
    compare(pid, V, ref, r, 'configured values')
    if any(any(r['symb'][k]) for k in live_pars(r)):
        r2 = perturb_symbolic(g, P, r)
        compare(pid, vals(P.ask('getall')), expected(pid, r2, st), r2, 'symbolic parameters changed')
    if pid in ('C04', 'C05'): extra_dyn(pid, V, r)
    return dict(n=n, types=r['types'], nontrivial=bool(nt))
def extra_dyn(pid, V, r):
    if pid == 'C04':
        M = V['M']
        if differs(M, M.T): raise Bad('M is not symmetric', got=M.tolist())
    if pid == 'C05' and V.get('M_dot') is not None:
        S = V['M_dot'] - 2 * V['C']
        if differs(S + S.T, 0 * S, TOL, np.abs(V['C']).max()): raise Bad('dM/dt - 2C is not skew-symmetric', got=S.tolist())
def chain_case(pid, seed, n=11):
    """long chains: two-digit frame names.  Only the chain and the Jacobians are computed"""
    g = random.Random('%s/chain/%s' % (pid, seed)); n = g.choice([n, n, 10, 12, 9])
    r = gen.robot(g, n=n, symb='none', elastic=False); P = proc(); f = write('c.yaml', gen.yaml_text(r))
    P.ask('newrobot c ' + f); P.ask('conf %s 1' % f)
    if P.ask('initsymb') == ['?'] or P.ask('compute chain') == ['?']: return dict(n=n, types=r['types'], nontrivial=False)
    P.ask('compute jac'); st = gen.state(g, r)
    for k in STATE: P.ask('set %s %s' % (k, vec(st[k])))
    V = vals(P.ask('getall'))
    ref = {k: v for k, v in expected(pid, r, st).items() if not k.startswith('J_cm')}
    compare(pid, V, ref, r, 'chain of %d joints' % n)
    return dict(n=n, types=r['types'], nontrivial=True)
def badtype_case(pid, seed):
    g = random.Random('%s/bt/%s' % (pid, seed)); r = gen.robot(g, n=2, types=['R', g.choice(['X', 'r', 'RR', 'R_sea', ''])], elastic=False)
    P = proc(); f = write('b.yaml', gen.yaml_text(r)); o = P.ask('robot b %s 1' % f)
    if o == ['ok']: raise Bad('a robot with joint type %r is accepted' % r['types'][1], yaml=open(f).read())
    return dict(n=2, types=r['types'], nontrivial=True)

# ---------------------------------------------------------------- C11
def psd_dyn(g, n):
    out = []
    for i in range(n):
        m = gen.rnd(g, 0.1, 5) if g.random() < 0.7 else float('%.4g' % 10 ** g.uniform(-7, 2))
        out += [m] + [gen.rnd(g, -0.6, 0.6) for _ in range(3)] + gen.psd(g)
    return out
def again(put, call, got, v, conv, name):
    """a vector stored without its derived one, then set: the derived one follows although the vector itself does not change"""
    put(v); call(v)
    if differs(got(), conv(v), 1e-8): raise Bad('%s with the vector that is already stored leaves the derived vector inconsistent' % name, got=got().tolist(), want=list(conv(v)))
def c11_case(pid, seed):
    g = random.Random('C11/%s' % seed); r = gen.robot(g, symb={'par_DYN': 'all'} if seed % 2 else 'none'); spice(g, r) if seed % 3 == 0 else 0
    for i in range(r['n']):
        if r['dyn'][10 * i] == 0: r['dyn'][10 * i] = 0.3
    P = proc()
    if seed % 5 == 1: history(P, seed, 0)
    y = load(P, r, compute=0); n = r['n']
    def arg(nm): return pvec(P.ask('arg ' + nm)[0])
    if differs(arg('par_REG'), oracle.dyn2reg(r['dyn'])): raise Bad('loading a configuration: par_REG is not the regressor form of par_DYN', got=arg('par_REG').tolist(), want=oracle.dyn2reg(r['dyn']).tolist())
    d = psd_dyn(g, n)
    P.ask('call set_par_DYN ' + vec(d))
    if differs(arg('par_DYN'), d): raise Bad('set_par_DYN did not store the vector')
    if differs(arg('par_REG'), oracle.dyn2reg(d)): raise Bad('set_par_DYN leaves par_REG inconsistent', got=arg('par_REG').tolist(), want=oracle.dyn2reg(d).tolist())
    d2 = psd_dyn(g, n); p = oracle.dyn2reg(d2)
    P.ask('call set_par_REG ' + vec(p))
    if differs(arg('par_REG'), p): raise Bad('set_par_REG did not store the vector')
    if differs(arg('par_DYN'), d2, 1e-8): raise Bad('set_par_REG leaves par_DYN inconsistent', got=arg('par_DYN').tolist(), want=list(d2))
    # the same vector again, after the derived one went out of step
    again(lambda v: P.ask('set par_DYN ' + vec(v)), lambda v: P.ask('call set_par_DYN ' + vec(v)), lambda: arg('par_REG'), psd_dyn(g, n), oracle.dyn2reg, 'set_par_DYN')
    again(lambda v: P.ask('set par_REG ' + vec(v)), lambda v: P.ask('call set_par_REG ' + vec(v)), lambda: arg('par_DYN'), list(oracle.dyn2reg(d)), lambda v: d, 'set_par_REG')
    # direct conversions
    P.ask('set par_DYN ' + vec(d))
    if P.ask('updREG') != ['?']:
        if differs(arg('par_REG'), oracle.dyn2reg(d)): raise Bad('update_inertial_REG is not the parallel-axis conversion', dyn=d, got=arg('par_REG').tolist(), want=oracle.dyn2reg(d).tolist())
        P.ask('set par_DYN ' + vec([0.] * len(d))); P.ask('updDYN')
        if differs(arg('par_DYN'), d, 1e-8): raise Bad('update_inertial_DYN does not undo update_inertial_REG', dyn=d, got=arg('par_DYN').tolist())
    # generated inertial files
    out = [os.path.join(sdir(), 'gi_%s.yaml' % x) for x in 'dr']
    o = P.ask('geninertial rb %d %s %s %s' % (n, y, out[0], out[1]))
    if o != ['?']:
        for f, k, ref in ((out[0], 'CoM_', r['dyn']), (out[1], 'm_CoM_', oracle.dyn2reg(r['dyn']))):
            got = read_inertial(f, k)
            if got is None or differs(got, ref): raise Bad('generated inertial file %s does not hold the %s vector' % (os.path.basename(f), k), got=None if got is None else list(got), want=list(ref))
    # keep-derived-vector option of the loader
    P.ask('newrobot k ' + y); P.ask('conf %s 0' % y)
    if np.any(arg('par_REG')): raise Bad('load_conf_par(file, false) changed par_REG')
    return dict(n=n, types=r['types'], nontrivial=True)
def read_yaml(f):
    import yaml
    return yaml.safe_load(open(f))
def read_inertial(f, com):
    """values of the dynamics section in file order (own reader: key: value lines)"""
    if not os.path.exists(f): return None
    out = []; cur = None; ks = ['mass'] + [com + c for c in 'xyz'] + ['Ixx', 'Ixy', 'Ixz', 'Iyy', 'Iyz', 'Izz']
    for l in open(f):
        m = re.match(r'^(\s*)([\w-]+):\s*(\S.*)?$', l.rstrip())
        if not m: continue
        if m.group(2) == 'inertial': cur = {}; out.append(cur)
        elif cur is not None and m.group(3) and m.group(2) != 'Dl': cur[m.group(2)] = float(m.group(3))
    try: return np.array([o[k] for o in out for k in ks])
    except KeyError: return None
def read_dl(f):
    return [[float(x) for x in m.group(1).split(',') if x.strip()] for m in re.finditer(r'Dl:\s*\[([^\]]*)\]', open(f).read())]

# ---------------------------------------------------------------- C12
NEED = [(r'T_0$|T_0_0$', (), ('par_world2L0',)), (r'T_0_ee$', ('q',), ('par_DHtable', 'par_world2L0', 'par_Ln2EE')),
        (r'T_0_\d+$', ('q',), ('par_DHtable', 'par_world2L0', '+ee')), (r'T_\d+$', ('q',), ('par_DHtable',)),
        (r'J_cm_\d+$', ('q',), ('par_DHtable', 'par_world2L0', 'par_DYN')), (r'J_\d+$', ('q',), ('par_DHtable', 'par_world2L0', '+ee')),
        (r'J_ee$|J_ee_pinv$', ('q',), ('par_DHtable', 'par_world2L0', 'par_Ln2EE')), (r'J_ee_dot$', ('q', 'dq'), ('par_DHtable', 'par_world2L0', 'par_Ln2EE')),
        (r'J_ee_ddot$', ('q', 'dq', 'ddq'), ('par_DHtable', 'par_world2L0', 'par_Ln2EE')),
        (r'M$', ('q',), ('par_DHtable', 'par_world2L0', 'par_DYN')), (r'M_dot$|C$|C_std$', ('q', 'dq'), ('par_DHtable', 'par_world2L0', 'par_DYN')),
        (r'M_ddot$|C_dot$', ('q', 'dq', 'ddq'), ('par_DHtable', 'par_world2L0', 'par_DYN')), (r'C_ddot$', ('q', 'dq', 'ddq', 'd3q'), ('par_DHtable', 'par_world2L0', 'par_DYN')),
        (r'G$', ('q',), ('par_DHtable', 'par_world2L0', 'par_gravity', 'par_DYN')), (r'G_dot$', ('q', 'dq'), ('par_DHtable', 'par_world2L0', 'par_gravity', 'par_DYN')),
        (r'G_ddot$', ('q', 'dq', 'ddq'), ('par_DHtable', 'par_world2L0', 'par_gravity', 'par_DYN')),
        (r'Yr$', ('q', 'dq', 'dqr', 'ddqr'), ('par_DHtable', 'par_world2L0', 'par_gravity')), (r'reg_M$', ('q', 'ddqr'), ('par_DHtable', 'par_world2L0')),
        (r'reg_C$', ('q', 'dq', 'dqr'), ('par_DHtable', 'par_world2L0')), (r'reg_G$', ('q',), ('par_DHtable', 'par_world2L0', 'par_gravity')),
        (r'dl$', ('dq',), ('par_Dl',)), (r'Dl\d+$', (), ('par_Dl',)), (r'k$', ('q', 'x'), ('par_K',)), (r'K\d+$', (), ('par_K',)),
        (r'd$', ('dq', 'dx'), ('par_D',)), (r'D\d+$', (), ('par_D',)), (r'dm$', ('dx',), ('par_Dm',)), (r'Dm\d+$', (), ('par_Dm',)), (r'Mm$', (), ('par_Mm',)),
        (r'reg_dl$', ('dq',), ()), (r'reg_k$', ('q', 'x'), ()), (r'reg_d$', ('dq', 'dx'), ()), (r'reg_dm$', ('dx',), ()), (r'reg_Mm$', ('ddx',), ()),
        (r'reg_Jdq$', ('q', 'dq'), ('par_DHtable', 'par_world2L0', 'par_Ln2EE')), (r'reg_JTw$', ('q', 'w'), ('par_DHtable', 'par_world2L0', 'par_Ln2EE'))]
def need(name, n):
    for pat, st, par in NEED:
        if re.match(pat, name):
            par = list(par)
            if '+ee' in par:
                par.remove('+ee')
                if int(name.split('_')[-1]) == n + 1: par.append('par_Ln2EE')
            return list(st), par
    return None
def c12_case(pid, seed):
    g = random.Random('C12/%s' % seed); r = gen.robot(g, symb=g.choice(['random', 'mix', 'all', 'none', 'random']), orders=None)
    if seed % 3 == 2: spice(g, r)
    P = proc()
    if seed % 3 == 1: history(P, seed)
    load(P, r); S = r['symb']; n = r['n']
    fs = P.ask('funs')
    if fs != ['?']:
        for l in fs[1:]:
            t = l.split(); name = t[1]; na = int(t[4]); args = [(t[5 + 2 * i], int(t[6 + 2 * i])) for i in range(na)]
            nd = need(name, n)
            if nd is None: continue
            want = {a: (6 if a == 'w' else len(r['el']) if a in ELSTATE else n) for a in nd[0]}
            want.update({p: sum(S[p]) for p in nd[1] if any(S[p])})
            if dict(args) != want or len(args) != len(want): raise Bad('%s takes the arguments %s instead of %s' % (name, args, sorted(want.items())), function=name, yaml=gen.yaml_text(r))
    for p in live_pars(r):
        got = pvec(P.ask('arg ' + p)[0]); want = [x for x, f in zip(eff(r)[KEYS[p]], S[p]) if f]
        if differs(got, want): raise Bad('%s does not hold exactly the symbolic entries in storage order' % p, got=got.tolist(), want=want, yaml=gen.yaml_text(r))
    st = gen.state(g, r); set_state(P, r, st)
    compare('C12', vals(P.ask('getall')), expected('C12', r, st), r, 'configured values')
    if any(any(S[k]) for k in live_pars(r)):
        r2 = perturb_symbolic(g, P, r); V = vals(P.ask('getall'))
        compare('C12', V, expected('C12', r2, st), r2, 'symbolic parameters changed')
    return dict(n=n, types=r['types'], nontrivial=any(any(v) for v in S.values()))

# ---------------------------------------------------------------- C13 (library half; the generated half is gen_case)
def snapshot(P):
    return {l.split()[1]: l.split(' ', 2)[2] for l in P.ask('args')[1:]}
def c13_case(pid, seed):
    g = random.Random('C13/%s' % seed); r = gen.robot(g, n=g.choice([1, 2, 3, 4]), types=None, elastic=True if seed % 2 else None, symb=g.choice(['none', 'all', 'random']))
    P = proc(); compute = seed % 3 == 0
    if seed % 5 == 1: history(P, seed, 0)
    load(P, r, compute=compute); n = r['n']; ne = len(r['el'])
    names = [('set_' + k, k, n) for k in ('q', 'dq', 'dqr', 'ddqr')] + ([('set_' + k, k, ne) for k in ELSTATE] if r['elastic'] else [])
    have = P.ask('args') != ['?']
    g.shuffle(names)
    for f, k, size in names:
        before = snapshot(P) if have else None
        v = [gen.rnd(g, -9, 9) for _ in range(size)]; rc = P.ask('call %s %s' % (f, vec(v)))
        got = pvec(P.ask('arg ' + k)[0])
        if differs(got, v): raise Bad('%s: reading back gives %s, stored %s' % (f, got.tolist(), v))
        if rc != ['1']: raise Bad('%s returns %s for a vector of the right size' % (f, rc))
        if have:
            after = snapshot(P); ch = [x for x in before if before[x] != after.get(x)] + [x for x in after if x not in before]
            if [x for x in ch if x != k]: raise Bad('%s also changes %s' % (f, ch))
        for wrong in {size + 1, max(size - 1, 0), size + 3, 0} - {size}:
            before = snapshot(P) if have else None; keep = P.ask('arg ' + k)
            rc = P.ask('call %s %s' % (f, vec([5.5 + i for i in range(wrong)])))
            if P.ask('arg ' + k) != keep or rc == ['1']: raise Bad('%s accepts a vector of size %d (expected %d), returned %s' % (f, wrong, size, rc))
            if have and snapshot(P) != before: raise Bad('%s with a wrong size changes stored vectors' % f)
    full = not compute or all(r['symb']['par_DYN'])
    for f, k, d in (('set_par_DYN', 'par_DYN', 'par_REG'), ('set_par_REG', 'par_REG', 'par_DYN')):
        if full:
            before = snapshot(P) if have else None
            dyn = psd_dyn(g, n); v = dyn if k == 'par_DYN' else list(oracle.dyn2reg(dyn)); rc = P.ask('call %s %s' % (f, vec(v)))
            if rc != ['1'] or differs(pvec(P.ask('arg ' + k)[0]), v): raise Bad('%s does not store a vector of the right size' % f)
            if differs(pvec(P.ask('getdyn' if k == 'par_DYN' else 'getreg')[0]), v): raise Bad('the getter of %s does not return the stored vector' % k)
            if have:
                after = snapshot(P); ch = [x for x in before if before[x] != after.get(x)]
                if [x for x in ch if x not in (k, d)]: raise Bad('%s also changes %s' % (f, ch))
            other = psd_dyn(g, n); w = other if k == 'par_DYN' else list(oracle.dyn2reg(other))
            if len(pvec(P.ask('arg ' + d)[0])) == 10 * n: again(lambda v: P.ask('set %s %s' % (k, vec(v))), lambda v: P.ask('call %s %s' % (f, vec(v))), lambda: pvec(P.ask('arg ' + d)[0]), w, lambda v: oracle.dyn2reg(other) if k == 'par_DYN' else other, f)
        for wrong in (10 * n + 1, 10 * n - 1, 10 * (n + 1), 0, 10 * n):
            if wrong == len(pvec(P.ask('arg ' + k)[0])): continue
            keep = (P.ask('arg par_DYN'), P.ask('arg par_REG')); before = snapshot(P) if have else None
            rc = P.ask('call %s %s' % (f, vec([0.5] * wrong)))
            if rc == ['1'] or keep != (P.ask('arg par_DYN'), P.ask('arg par_REG')) or (have and snapshot(P) != before): raise Bad('%s with a vector of size %d (not %d) returns %s or changes stored vectors' % (f, wrong, 10 * n, rc))
    # generic by-name setter
    for k in g.sample(list(STATE), 3):
        size = 6 if k == 'w' else n; v = [gen.rnd(g, -9, 9) for _ in range(size)]; before = snapshot(P) if have else None
        P.ask('set %s %s' % (k, vec(v)))
        if differs(pvec(P.ask('arg ' + k)[0]), v): raise Bad('set_arg(%s) does not read back' % k)
        if have:
            after = snapshot(P); ch = [x for x in before if before[x] != after.get(x)]
            if [x for x in ch if x != k]: raise Bad('set_arg(%s) also changes %s' % (k, ch))
    dsym = sum(r['symb']['par_DYN']) if compute else 10 * n
    got = pvec(P.ask('getdyn')[0])
    want = pvec(P.ask('arg par_DYN')[0])
    if differs(got, want): raise Bad('get_par_DYN returns %d values %s; the robot stores %d' % (len(got), got.tolist()[:6], len(want)), yaml=gen.yaml_text(r))
    return dict(n=n, types=r['types'], nontrivial=True)

# ---------------------------------------------------------------- C14
def c14_robot(g):
    r = gen.robot(g, n=g.choice([1, 2, 3, 4, 5]), symb='random', surplus=g.choice([0, 0, 1, 3]))
    r['shuffle'] = g.random() < 0.4
    if g.random() < 0.5: r['linknames'] = g.sample(['zeta', 'alpha', 'mid', 'link10', 'link2', 'base', 'a1', 'Z', 'w', 'link1'], r['n'] + r['surplus'])
    if g.random() < 0.2: r['no_gravity'] = True; r['symb']['par_gravity'] = [0] * 3
    if g.random() < 0.3: r['omit_Dl_order'] = True
    r['omit_flag'] = g.random() < 0.5
    return r
def check_loaded(P, r, what):
    rr = eff(r); n = r['n']; t = P.ask('info')[0].split()
    want = [n, len(r['el']), int(r['elastic']), r['K_order'], r['D_order'], r['Dl_order'], r['Dm_order'], 10 * n, 10 * n] + [1 if i in r['el'] else 0 for i in range(n)]
    if t != [str(x) for x in want] + r['types']: raise Bad('%s: structure read as %s, expected %s' % (what, t, want + r['types']))
    for p in live_pars(r):
        got = pvec(P.ask('arg ' + p)[0])
        if differs(got, rr[KEYS[p]]): raise Bad('%s: %s is %s, the file says %s' % (what, p, got.tolist(), rr[KEYS[p]]))
    reg = pvec(P.ask('arg par_REG')[0])
    if differs(reg, oracle.dyn2reg(rr['dyn']), scale=10): raise Bad('%s: par_REG is not the regressor form of the loaded values' % what)
    sy = P.ask('symbs')
    if sy != ['?']:
        S = {l.split()[1]: [int(x) for x in l.split()[3:]] for l in sy[1:]}
        for p in live_pars(r):
            if S.get(p) != [int(x) for x in r['symb'][p]]: raise Bad('%s: selection vector of %s read as %s, the file says %s' % (what, p, S.get(p), r['symb'][p]))
def c14_case(pid, seed):
    g = random.Random('C14/%s' % seed); r = c14_robot(g)
    P = proc('asan' if seed % 4 == 0 else 'lib'); txt = gen.yaml_text(r)
    if r.get('omit_Dl_order') and r['Dl_order'] == 0: txt = txt.replace('Dl_order: 0\n', '')
    if seed % 5 == 1: history(P, seed, 0)
    f = write('a.yaml', txt)
    o = P.ask('robot a %s 0' % f)
    if o != ['ok']: raise Bad('loading a valid configuration fails: %s %s' % (o, P.stderr()[:600]), yaml=txt)
    check_loaded(P, r, 'loading'); 
    P.ask('loadyaml ' + f); P.ask('conf %s 1' % f); check_loaded(P, r, 'loading from a YAML node')
    # re-loading other values of the same structure into the same robot
    r2 = dict(r); g2 = random.Random(seed); 
    for k in ('dyn', 'Dl', 'K', 'D', 'Dm', 'Mm'): r2[k] = [gen.rnd(g2, 0.2, 2) for _ in r[k]]
    if r['elastic'] and 'ELASTIC_MODEL: true\n' in txt:
        # the elastic section without the flag: a rigid robot
        r3 = dict(r, elastic=False, K_order=0, D_order=0, Dm_order=0); t3 = txt.replace('ELASTIC_MODEL: true\n', g2.choice(['', 'ELASTIC_MODEL: false\n']))
        f3 = write('a3.yaml', t3); o = P.ask('robot b %s 0' % f3)
        if o != ['ok']: raise Bad('loading a rigid robot with an elastic section fails: %s' % o, yaml=t3)
        check_loaded(P, r3, 'elastic section, model not elastic')
    f2 = write('a2.yaml', gen.yaml_text(r2)); P.ask('newrobot z ' + f); P.ask('conf %s 1' % f); P.ask('conf %s 1' % f2); check_loaded(P, r2, 're-loading')
    return dict(n=r['n'], types=r['types'], nontrivial=True)
def c14_over_symb(pid, seed):
    """selection vectors longer than the link's own slots must not touch anything else"""
    g = random.Random('C14o/%s' % seed); r = gen.robot(g, n=g.choice([1, 2, 3]), symb='none', orders=dict(Dl=2)); r['omit_symb'] = set()
    txt = gen.yaml_text(r).split('\n'); out = []; k = 0; which = r['n'] - 1 if seed % 2 else 0
    inl = -1
    for l in txt:
        if l.strip() == 'inertial:': inl += 1
        if inl == which and l.startswith('      symb:'): l = '      symb: ' + gen.I_([0] * (10 if out[-1].strip() == 'inertial:' else 2) + [1] * 40)
        out.append(l)
    P = proc('asan' if seed % 2 else 'lib'); f = write('o.yaml', '\n'.join(out)); o = P.ask('robot a %s 0' % f)
    if o != ['ok']: raise Bad('a configuration whose selection vector is too long: %s %s' % (o, P.stderr()[:600]), yaml='\n'.join(out))
    sy = P.ask('symbs')
    if sy != ['?']:
        S = {l.split()[1]: [int(x) for x in l.split()[3:]] for l in sy[1:]}
        for p in ('par_DYN', 'par_Dl'):
            if S[p] != r['symb'][p]: raise Bad('an over-long selection vector of link %d leaks into %s: %s' % (which + 1, p, S[p]), yaml='\n'.join(out))
    return dict(n=r['n'], types=r['types'], nontrivial=True)

# ---------------------------------------------------------------- C15
def c15_case(pid, seed):
    g = random.Random('C15/%s' % seed); r = gen.robot(g, n=g.choice([1, 2, 3, 4, 11] if seed % 5 == 0 else [1, 2, 3, 4]), symb=g.choice(['none', 'all', 'random']), elastic=True if seed % 2 else None)
    if seed % 3 == 0: r['linknames'] = g.sample(['zeta', 'alpha', 'mid', 'link10', 'link2', 'base', 'a1', 'Z', 'w', 'link1', 'x9'], r['n'])
    P = proc()
    if seed % 5 == 1: history(P, seed, 0)
    f = load(P, r, compute=0); n = r['n']
    arg = lambda k: pvec(P.ask('arg ' + k)[0])
    # configuration
    c = os.path.join(sdir(), 'saved_conf.yaml')
    if P.ask('saveconf ' + c) != ['1']: raise Bad('save_conf fails')
    o = P.ask('robot r2 %s 0' % c)
    if o != ['ok']: raise Bad('the saved configuration does not load: %s' % o, saved=open(c).read())
    check_loaded(P, r, 'saved configuration loaded back')
    # regressor-form parameters
    P.ask('sel r'); d = psd_dyn(g, n); p = oracle.dyn2reg(d) * g.choice([1, 1, 1e-4, 1e4]); P.ask('set par_REG ' + vec(p))
    Dl = arg('par_Dl') if r['Dl_order'] else None
    s = os.path.join(sdir(), 'saved_reg.yaml')
    if P.ask('savereg ' + s) != ['1']: raise Bad('save_par_REG fails')
    P.ask('set par_REG ' + vec([1.0] * (10 * n)))
    before = snapshot(P); P.ask('loadreg %s 1' % s)
    if differs(arg('par_REG'), p): raise Bad('save_par_REG then load_par_REG does not restore par_REG', want=list(p), got=arg('par_REG').tolist(), saved=open(s).read())
    if differs(arg('par_DYN'), oracle.reg2dyn(p), 1e-7): raise Bad('load_par_REG leaves par_DYN inconsistent', want=list(oracle.reg2dyn(p)), got=arg('par_DYN').tolist())
    after = snapshot(P); ch = [x for x in before if before[x] != after.get(x) and x not in ('par_REG', 'par_DYN')]
    if ch: raise Bad('load_par_REG of a file written by save_par_REG also changes %s' % ch)
    keep = arg('par_DYN'); P.ask('set par_REG ' + vec([2.0] * (10 * n))); P.ask('loadreg %s 0' % s)
    if differs(arg('par_DYN'), keep) or differs(arg('par_REG'), p): raise Bad('load_par_REG(file, false): wrong vector touched')
    # parameter lists
    names = [k for k in live_pars(r) + ['par_REG', 'q', 'dq']]; g.shuffle(names); names = names[:g.randint(1, len(names))]
    saved = {}
    for k in names:
        v = [gen.rnd(g, -5, 5) * g.choice([1, 1e-7, 1e5]) for _ in range(len(arg(k)))]; P.ask('set %s %s' % (k, vec(v))); saved[k] = v
    s = os.path.join(sdir(), 'saved_par.yaml')
    if P.ask('savepar %s %s' % (s, ' '.join(names))) != ['1']: raise Bad('save_par fails')
    for mode in (' '.join(names), ''):
        for k in names: P.ask('set %s %s' % (k, vec([0.25] * len(saved[k]))))
        before = snapshot(P)
        if P.ask(('loadpar %s %s' % (s, mode)).strip()) != ['1']: raise Bad('load_par of a saved file fails', saved=open(s).read())
        for k in names:
            if differs(arg(k), saved[k]): raise Bad('save_par then load_par does not restore %s' % k, want=saved[k], got=arg(k).tolist(), saved=open(s).read())
        after = snapshot(P); ch = [x for x in before if before[x] != after.get(x) and x not in names]
        if ch: raise Bad('load_par also changes %s' % ch)
    # generated files
    out = [os.path.join(sdir(), 'gj_%s.yaml' % x) for x in 'dr']
    for o in out:
        if os.path.exists(o): os.remove(o)
    o = P.ask('geninertial rb %d %s %s %s' % (n, f, out[0], out[1]))
    if o != ['?']:
        if o != ['1']: raise Bad('genInertial_files fails on a valid configuration: %s' % o, yaml=open(f).read())
        for fn in out:
            if r['Dl_order'] and differs(sum(read_dl(fn), []), r['Dl']): raise Bad('%s does not hold the friction values' % os.path.basename(fn), saved=open(fn).read())
        P.ask('newrobot y ' + f); P.ask('loadreg %s 1' % out[1])
        if differs(arg('par_REG'), oracle.dyn2reg(r['dyn'])): raise Bad('a generated par_REG file does not load back', got=arg('par_REG').tolist(), want=oracle.dyn2reg(r['dyn']).tolist())
        if r['Dl_order'] and differs(arg('par_Dl'), r['Dl']): raise Bad('the friction values of a generated par_REG file do not load back', got=arg('par_Dl').tolist(), want=r['Dl'])
    return dict(n=n, types=r['types'], nontrivial=True)

# ---------------------------------------------------------------- C17
def Rzyx(y, p, r):
    c, s = math.cos, math.sin
    Z = np.array([[c(y), -s(y), 0], [s(y), c(y), 0], [0, 0, 1]]); Y = np.array([[c(p), 0, s(p)], [0, 1, 0], [-s(p), 0, c(p)]]); X = np.array([[1, 0, 0], [0, c(r), -s(r)], [0, s(r), c(r)]])
    return Z @ Y @ X
def sym(I): return np.array([[I[0], I[1], I[2]], [I[1], I[3], I[4]], [I[2], I[4], I[5]]])
def unsym(M): return [M[0, 0], M[0, 1], M[0, 2], M[1, 1], M[1, 2], M[2, 2]]
def c17_case(pid, seed):
    g = random.Random('C17/%s' % seed); v = lambda k: [gen.rnd(g, -3, 3) for _ in range(k)]
    ang = lambda: [g.choice(SPECIAL_ANG) if g.random() < 0.25 else gen.rnd(g, -7, 7) for _ in range(3)]
    for kind in ('lib', 'gy'):
        P = proc(kind)
        a = ang(); R = Rzyx(a[2], a[1], a[0]); o = P.ask('rpyRot ' + vec(a))
        if o == ['?']: continue
        if differs(pmat(o[0]), R): raise Bad('%s rpyRot(roll,pitch,yaw)=%s is not Rz(yaw)Ry(pitch)Rx(roll)' % (kind, a), got=pmat(o[0]).tolist(), want=R.tolist())
        I = v(6)
        if differs(pmat(P.ask('createI ' + vec(I))[0]), sym(I)): raise Bad('%s createI(%s) is not the symmetric inertia' % (kind, I))
        w = v(3)
        for c in ('hatE', 'hatS') if kind == 'lib' else ('hatE',):
            if differs(pmat(P.ask(c + ' ' + vec(w))[0]), oracle.skew(w)): raise Bad('%s hat(%s) is not the cross-product matrix' % (kind, w))
        d, rpy, m, x, br, I = v(3), ang(), gen.rnd(g, 0.1, 4), v(3), ang(), gen.psd(g)
        if g.random() < .2: m = 10 ** g.uniform(-9, 4)
        if g.random() < .15: x = [0.] * 3
        if g.random() < .15: br = [0.] * 3
        o = nums(P.ask('transform %s %s %r %s %s %s' % (vec(d), vec(rpy), m, vec(x), vec(br), vec(I)))[0])
        R = Rzyx(rpy[2], rpy[1], rpy[0]); Rb = R @ Rzyx(br[2], br[1], br[0]); want = [m] + list(np.array(d) + R @ np.array(x)) + unsym(Rb @ sym(I) @ Rb.T)
        if differs(o, want): raise Bad('%s transformBodyInertial: wrong result' % kind, args=[d, rpy, m, x, br, I], got=o, want=want)
        m2, x2, I2 = gen.rnd(g, 0.0, 4), v(3), gen.psd(g)
        if g.random() < .4: m2 = g.choice([0., 10 ** g.uniform(-13, 0)])      # a light body still brings its inertia
        if g.random() < .2: x2 = list(x)
        c = (m * np.array(x) + m2 * np.array(x2)) / (m + m2)
        f = lambda mm, e: mm * (e @ e * np.eye(3) - np.outer(e, e))
        want = [m + m2] + list(c) + unsym(sym(I) + sym(I2) + f(m, c - np.array(x)) + f(m2, c - np.array(x2)))
        for cmd in ('merge', 'mergealias'):
            o = nums(P.ask('%s %r %s %s %s %r %s %s %s' % (cmd, m, vec(x), vec(br), vec(I), m2, vec(x2), vec(br), vec(I2)))[0])
            if differs(o, want): raise Bad('%s mergeBodyInertial%s: wrong result' % (kind, ' (result stored into its own argument)' if cmd != 'merge' else ''), got=o, want=want)
    P = proc('lib'); y, p, gr = ang(), v(3), v(3); o = P.ask('frame %s %s %s' % (vec(y), vec(p), vec(gr)))
    if o != ['?']:
        R = Rzyx(*y); T = np.eye(4); T[:3, :3] = R; T[:3, 3] = p
        o[0] = o[0]
        items = [o[0]] + [l[1:].strip() for l in o[1:]]
        for i, (nm, w) in enumerate((('get_transform', T), ('get_rotation', R), ('get_translation', np.array(p).reshape(3, 1)), ('get_gravity', np.array(gr).reshape(3, 1)), ('get_ypr', y), ('hat', oracle.skew(p)), ('get_transform after setters', T), ('get_gravity after setters', np.array(gr).reshape(3, 1)), ('get_transform (2-argument constructor)', T))):
            got = np.array(nums(items[i])) if nm == 'get_ypr' else pmat(items[i])
            if differs(got, w): raise Bad('FrameOffset::%s differs from translation + Rz(yaw)Ry(pitch)Rx(roll)' % nm, ypr=y, xyz=p, got=got.tolist(), want=np.asarray(w).tolist())
        if P.ask('framebad %s %s' % (vec(v(2)), vec(v(3)))) == ['accepted'] or P.ask('framebad %s %s' % (vec(v(3)), vec(v(4)))) == ['accepted']: raise Bad('FrameOffset accepts vectors of the wrong size')
    return dict(nontrivial=True)

# ---------------------------------------------------------------- C18
DH7 = [(0, -1, .333), (0, 1, 0), (.0825, 1, .316), (-.0825, -1, 0), (0, 1, .384), (.088, 1, 0), (0, 0, .107)]   # a, alpha/(pi/2), d: the table in the program's header
def genyaml_case(pid, seed):
    """the program of src/genYAML on a random description of eight links, in a scratch directory"""
    from . import build
    import subprocess
    exe = build.build_genyaml_main(); g = random.Random('GY/%s' % seed)
    D = os.path.join(sdir(), 'gy%s' % seed); os.makedirs(D + '/run/yaml', exist_ok=True); os.makedirs(D + '/generatedFiles', exist_ok=True)
    v = lambda k: [gen.rnd(g, -1, 1) for _ in range(k)]; L = []; t = ''
    for i in range(8):
        m, x, a, I = gen.rnd(g, 0.1, 4), v(3), v(3) if g.random() < .6 else [0., 0., 0.], gen.psd(g); I = [float(z) for z in I]; L.append((m, x, a, I))
        t += 'link%d:\n  origin:\n    xyz: %s\n    rpy: %s\n  mass: %r\n  inertia:\n' % (i, ' '.join(map(repr, x)), ' '.join(map(repr, a)), m) + ''.join('    %s: %r\n' % z for z in zip(('xx', 'xy', 'xz', 'yy', 'yz', 'zz'), I)) + '\n'
    with open(D + '/run/yaml/inertial.yaml', 'w') as fo: fo.write(t)
    r = subprocess.run([exe], cwd=D + '/run', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    want = []
    for (m, x, a, I), (aa, al, d) in zip(L[1:], DH7):
        al *= math.pi / 2; Rt = Rzyx(0, 0, -al); tr = np.array([-aa, 0, -d if al == 0 else 0]); Rb = Rt @ Rzyx(a[2], a[1], a[0])
        want += [m] + list(tr + Rt @ np.array(x)) + unsym(Rb @ sym(I) @ Rb.T)
    reg = oracle.dyn2reg(want)
    for f, com, ref in (('inertial_DH', 'CoM_', want), ('inertial_DH_DYN', 'CoM_', want), ('inertial_DH_REG', 'm_CoM_', reg)):
        f = D + '/generatedFiles/%s.yaml' % f; ks = ['mass'] + [com + c for c in 'xyz'] + ['Ixx', 'Ixy', 'Ixz', 'Iyy', 'Iyz', 'Izz']; cur = {}; names = []
        for l in open(f) if os.path.exists(f) else []:
            z = re.match(r'^(\s*)([\w-]+):\s*(\S.*)?$', l.rstrip())
            if not z: continue
            if not z.group(3): names.append(z.group(2)); cur[z.group(2)] = {}
            elif names: cur[names[-1]][z.group(2)] = float(z.group(3))
        if names != ['link%d' % i for i in range(1, 8)]: raise Bad('genYAML: %s does not list link1..link7' % os.path.basename(f), got=names, out=r.stdout[-300:])
        try: got = [cur[n][k] for n in names for k in ks]
        except KeyError as e: raise Bad('genYAML: %s lacks the key %s' % (os.path.basename(f), e))
        if differs(got, ref, 1e-9): raise Bad('genYAML: %s does not hold the %s of the links in their Denavit-Hartenberg frames' % (os.path.basename(f), 'dynamic parameters' if com == 'CoM_' else 'regressor parameters'), yaml=t, got=got, want=list(map(float, ref)))
    return dict(nontrivial=True)

def hexs(s): return 'x' + s.encode('latin1').hex()
def unhex(s): return bytes.fromhex(s[1:]).decode('latin1')
def c18_case(pid, seed):
    g = random.Random('C18/%s' % seed); P = proc()
    for k in range(60):
        al = g.choice(['ab', 'a', 'abc', 'rob', 'ab\n/*#-'])
        s = lambda n: ''.join(g.choice(al) for _ in range(n))
        p = s(g.randint(1, 4)); t = g.choice([s(g.randint(0, 30)), (p + s(2)) * g.randint(0, 8), p * g.randint(0, 9) + p[:-1]]); x = g.choice([s(g.randint(0, 5)), p + p, s(1) + p, '', p])
        if k % 20 == 0: t = (t + 'z') * 500
        o = P.ask('replace %s %s %s' % (hexs(t), hexs(p), hexs(x)))
        if o == ['?']: return dict(nontrivial=False)
        if unhex(o[0]) != t.replace(p, x): raise Bad('replace_all(%r, %r, %r) gives %r' % (t[:80], p, x, unhex(o[0])[:120]), text=t, pattern=p, replacement=x, got=unhex(o[0]), want=t.replace(p, x))
    a, b = g.randint(1, 30), g.randint(1, 120); o = unhex(P.ask('rettype %d %d' % (a, b))[0])
    if o.replace(' ', '') != 'Eigen::Matrix<double,%d,%d>' % (a, b): raise Bad('get_ret_type(%d,%d) = %s' % (a, b, o))
    nm = g.choice(['franka', 'r', 'robot', 'my_robot', 'robotrobot', 'a1']); tpl = open(build.TEMPLATE + '/CMakeLists.txt').read(); f = write('CM.txt', tpl)
    if P.ask('updcmake robot %s %s' % (nm, f)) != ['1'] or open(f).read() != tpl.replace('robot', nm): raise Bad('update_cmake(%s) does not rewrite exactly the robot name' % nm, got=open(f).read())
    return dict(nontrivial=True)

# ---------------------------------------------------------------- generated class
GEN_PARS = ('par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity', 'par_DYN', 'par_Dl', 'par_K', 'par_D', 'par_Dm', 'par_Mm')
NAMES = ['franka', 'r', 'robot', 'my_robot', 'robotrobot', 'a1', 'RRR_sea', 'thunder', 'Robot2', 'x_gen', 'arm7']
def gargs(Q):
    return {l.split()[0] + ' ' + l.split()[1]: l.split(' ', 2)[2] for l in Q.ask('args')[1:] if l.startswith('A ')}
def gvec(line): return pmat(line).T.reshape(-1)
def gen_text_checks(name, d, py, tpl, fs, lib):
    """C18 (and the interface part of C16): what the written files are"""
    rd = lambda f: open(os.path.join(d, f)).read()
    H, Cc = rd('thunder_%s.h' % name), rd('thunder_%s.cpp' % name)
    th, tc = open(build.TEMPLATE + '/thunder_robot.h').read(), open(build.TEMPLATE + '/thunder_robot.cpp').read()
    strip = lambda t: re.sub(r'//[^\n]*|/\*.*?\*/', '', t, flags=re.S)
    m = re.search(r'#ifndef\s+(\w+)\s*\n#define\s+(\w+)', H)
    if not m or m.group(1) != m.group(2) or m.group(1) != 'THUNDER_' + name + '_H': raise Bad('header guard of robot %r is %s' % (name, m and m.groups()))
    if not re.search(r'\bclass\s+thunder_%s\s*\{' % name, H): raise Bad('class name of robot %r is not thunder_%s' % (name, name))
    if '#include "thunder_%s.h"' % name not in Cc or '#include "%s_gen.h"' % name not in Cc: raise Bad('generated source of %r does not include its own headers' % name, head=Cc[:200])
    nl = lambda t: re.sub(r'//[^\n]*', '', t)
    if '/*#-' in nl(H) or '/*#-' in nl(Cc).replace('/*#-OPTIONAL SPACE FOR PYTHON BINDINGS-#*/', '', 0 if py else 1): raise Bad('a placeholder of the template is left in the generated files', robot=name)
    decl = re.findall(r'\bget_(\w+)\s*\(\s*\)\s*;', strip(H)); dfn = re.findall(r'\bthunder_%s::get_(\w+)\s*\(\s*\)\s*\{' % name, strip(Cc))
    if sorted(decl) != sorted(set(decl)) or sorted(dfn) != sorted(decl): raise Bad('declared and defined getters of %r differ' % name, declared=sorted(decl), defined=sorted(dfn))
    # the text outside the inserted blocks is the template with the name replaced, nothing else
    ins = tc.split('/*#-FUNCTIONS_CPP-#*/')[0].replace('robot', name)
    if not py and not Cc.startswith(ins): 
        k = next((i for i in range(min(len(ins), len(Cc))) if ins[i] != Cc[i]), 0); raise Bad('generated source differs from the template with the robot name replaced', at=k, got=Cc[k - 40:k + 80], want=ins[k - 40:k + 80])
    ret = dict(re.findall(r'Eigen::Matrix<double,\s*(\d+,\s*\d+)>\s+get_(\w+)\s*\(', strip(H)) and [(b, a.replace(' ', '')) for a, b in re.findall(r'Eigen::Matrix<double,\s*(\d+,\s*\d+)>\s+get_(\w+)\s*\(', strip(H))])
    for f, sz in fs.items():
        if f not in decl: raise Bad('the generated class has no getter for %s' % f, robot=name)
        if f in ret and ret[f] != sz: raise Bad('getter of %s returns a %s matrix, the model has %s' % (f, ret[f], sz))
    if py:
        cm = rd('CMakeLists.txt')
        if cm != open(build.TEMPLATE + '/CMakeLists.txt').read().replace('robot', name): raise Bad('CMakeLists.txt of robot %r is not the template with the name replaced' % name)
        for f in fs:
            if '.def("get_%s", &thunder_%s::get_%s' % (f, name, f) not in Cc: raise Bad('no python binding for get_%s' % f)
        for want in ('PYBIND11_MODULE(thunder_%s_py, m)' % name, 'py::class_<thunder_%s>(m, "thunder_%s")' % (name, name), '#include <pybind11/pybind11.h>'):
            if want not in Cc: raise Bad('python binding of %r lacks %s' % (name, want))
def gen_case(pid, seed, over=None):
    g = random.Random('%s/gen/%s' % (pid, seed)); o = dict(over or {})
    kw = dict(n=g.choice([1, 2, 2, 3]), symb=g.choice(['random', 'mix', 'random', 'all', 'none']), elastic=True if seed % 3 == 1 else None)
    kw.update(o); r = gen.robot(g, **kw)
    if seed % 4 == 2: r['surplus'] = 2; r['linknames'] = ['link%d' % (i + 1) for i in range(r['n'] + 2)]
    if seed % 4 == 3: r['linknames'] = g.sample(['zeta', 'alpha', 'mid', 'link10', 'link2', 'base', 'a1', 'Z', 'link1'], r['n'] + r['surplus'])
    name = NAMES[seed % len(NAMES)] if seed % 2 else g.choice(NAMES); py = seed % 5 == 4
    base = os.path.join(sdir(), 'g%d' % seed); shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    try:
        flagn = seed % 3 == 0; yname = (name if not flagn else g.choice(['other', 'conf.v2', 'x'])) + '.yaml'
        sub = g.choice(['', 'in/']); os.makedirs(os.path.join(base, sub), exist_ok=True)
        f = os.path.join(base, sub, yname); txt = gen.yaml_text(r); open(f, 'w').write(txt)
        pr = build.run_cli(f if g.random() < .5 else sub + yname, base, name if flagn else None, ['-p'] if py else [])
        d = os.path.join(base, name + '_generatedFiles')
        missing = [x for x in ('thunder_%s.h', 'thunder_%s.cpp', '%s_gen.h', '%s_gen.cpp', '%s_conf.yaml', '%s_par_REG.yaml') if not os.path.exists(os.path.join(d, x % name))]
        if missing: raise Bad('thunder gen %s%s does not write %s' % (yname, ' -n ' + name if flagn else '', [m % name for m in missing]), output=pr.stdout[-1500:], yaml=txt)
        P = proc(); load(P, r, name)
        fs = {}
        for l in P.ask('funs')[1:]: t = l.split(); fs[t[1]] = '%s,%s' % (t[2], t[3])
        if pid in ('C16', 'C18'): gen_text_checks(name, d, py, None, fs, P)
        if py:  # no pybind11 here: compile the class without the binding block
            c = os.path.join(d, 'thunder_%s.cpp' % name); t = open(c).read(); t = re.sub(r'#include <pybind11/[^\n]*\n', '', t); k = t.find('// ----- Python bindings'); open(c, 'w').write(t[:k] if k >= 0 else t)
        try: exe, getters = build.build_gen(d, name)
        except build.BuildError as e: raise Bad(str(e)[:1500], yaml=txt)
        Q = build.Proc(exe)
        try: gen_checks(pid, g, r, f, name, d, P, Q, getters, fs)
        finally: Q.close()
    finally: shutil.rmtree(base, ignore_errors=True)
    return dict(n=r['n'], types=r['types'], nontrivial=True)
def gen_slots(r):
    """values the generated class holds after loading the configuration: kinematic vectors compacted, the others full"""
    rr = eff(r); out = {}
    for p in GEN_PARS:
        v = rr[KEYS[p]]
        if p == 'par_gravity' and r['no_gravity']: continue
        out[p] = [x for x, s in zip(v, r['symb'][p]) if s] if p in gen.KIN else list(v)
    return out
def gen_set_state(Q, r, st):
    for k in STATE + (ELSTATE if r['elastic'] else ()): Q.ask('set %s %s' % (k, vec(st[k])))
def gen_checks(pid, g, r, f, name, d, P, Q, getters, fs):
    n = r['n']; ne = len(r['el']); A = lambda k: gvec(Q.ask('gp ' + k)[0])
    if pid == 'C16':
        t = Q.ask('info')[0].split(); want = [n, ne, int(r['elastic']), r['K_order'], r['D_order'], r['Dl_order'], r['Dm_order'], 10 * n, 10 * n] + [1 if i in r['el'] else 0 for i in range(n)] + [n, 10 * n, 10 * n]
        if t != [str(x) for x in want]: raise Bad('constants of the generated class are %s, the configuration says %s' % (t, want))
        m = re.search(r'std::string\s+\w*Name\s*=\s*"([^"]*)"', open(os.path.join(d, 'thunder_%s.h' % name)).read())
        if not m or m.group(1) != name: raise Bad('robotName of the generated class is %r, expected %r' % (m and m.group(1), name))
    def check_slots(what, want=None, skip=()):
        for p, v in (want or gen_slots(r)).items():
            if p in skip: continue
            if differs(A(p), v): raise Bad('generated class, %s: %s is %s, expected %s' % (what, p, A(p).tolist(), v))
    Q.ask('conf %s 1' % f)
    if pid == 'C14':
        check_slots('load_conf')
        if differs(A('par_REG'), oracle.dyn2reg(r['dyn'])): raise Bad('generated class, load_conf: par_REG is not the regressor form of the loaded values')
        Q.ask('new b'); Q.ask('conf %s 0' % f); check_slots('load_conf(file, false)')
        if np.any(A('par_REG')): raise Bad('generated class, load_conf(file, false) changes par_REG')
        Q.ask('conf %s 1' % f); check_slots('load_conf twice')
        conf = os.path.join(d, name + '_conf.yaml'); Q.ask('new c'); Q.ask('conf %s 1' % conf); check_slots('loading the generated configuration file')
    if pid in ('C12', 'C16'):
        st = gen.state(g, r); set_state(P, r, st); gen_set_state(Q, r, st)
        def cmp(what, rr):
            V = vals(P.ask('getall')); G = vals(Q.ask('getall'))
            for k, v in V.items():
                if k not in G: raise Bad('the generated class has no getter for %s' % k)
                if differs(G[k], v, 1e-9, 0 if v is None or not v.size else 1e-3 * np.abs(v).max()): raise Bad('%s: get_%s() of the generated class differs from the in-process model' % (what, k), got=None if G[k] is None else G[k].tolist(), want=v.tolist(), yaml=gen.yaml_text(r))
            if pid == 'C12': compare('C12', {k: v for k, v in G.items() if k in V}, expected('C12', rr, st), rr, 'generated class, ' + what)
        cmp('configured values', r)
        for rep in range(2):
            if any(any(r['symb'][k]) for k in live_pars(r)):
                r2 = perturb_symbolic(g, P, r)
                for k in live_pars(r):
                    s = r['symb'][k]; v = r2[KEYS[k]]
                    if k in gen.KIN: Q.ask('set %s %s' % (k, vec([x for x, y in zip(v, s) if y])))
                    else: Q.ask('set %s %s' % (k, vec([x if y else gen.rnd(g) + 3 for x, y in zip(v, s)])))  # values of non-symbolic entries must not matter
                cmp('symbolic parameters changed', r2)
            st = spice_state(g, gen.state(g, r)); set_state(P, r, st); gen_set_state(Q, r, st); cmp('another state', r2 if any(any(r['symb'][k]) for k in live_pars(r)) else r)
        a, b, c_, e = [[gen.rnd(g) for _ in range(n)] for _ in range(4)]
        Q.ask('setargs %s %s %s %s' % (vec(a), vec(b), vec(c_), vec(e)))
        for k, v in (('q', a), ('dq', b), ('dqr', c_), ('ddqr', e)): P.ask('set %s %s' % (k, vec(v)))
        V = vals(P.ask('getall')); G = vals(Q.ask('getall'))
        if differs(G.get('Yr'), V['Yr']): raise Bad('setArguments then get_Yr() differs from the in-process model')
    if pid == 'C13': gen_c13(g, r, Q, A)
    if pid == 'C11':
        for rep in range(3):
            dyn = psd_dyn(g, n); reg = oracle.dyn2reg(dyn)
            Q.ask('set par_DYN ' + vec(dyn))
            if differs(A('par_REG'), reg): raise Bad('generated set_par_DYN leaves par_REG inconsistent', dyn=dyn, got=A('par_REG').tolist(), want=reg.tolist())
            dyn2 = psd_dyn(g, n); Q.ask('set par_REG ' + vec(oracle.dyn2reg(dyn2)))
            if differs(A('par_DYN'), dyn2, 1e-8): raise Bad('generated set_par_REG leaves par_DYN inconsistent', got=A('par_DYN').tolist(), want=dyn2)
            keep = A('par_REG'); Q.ask('set0 par_DYN ' + vec(dyn))
            if differs(A('par_REG'), keep) or differs(A('par_DYN'), dyn): raise Bad('generated set_par_DYN(v, false): wrong vector touched')
            Q.ask('set0 par_REG ' + vec(reg))
            if differs(A('par_DYN'), dyn) or differs(A('par_REG'), reg): raise Bad('generated set_par_REG(v, false): wrong vector touched')
    if pid == 'C15':
        dyn = psd_dyn(g, n); Dl = [gen.rnd(g) for _ in r['Dl']]
        reg = oracle.dyn2reg(dyn); Q.ask('set par_DYN ' + vec(dyn)); Q.ask('set par_Dl ' + vec(Dl)); s = os.path.join(d, 's_reg.yaml'); Q.ask('savereg ' + s); s2 = os.path.join(d, 's_dyn.yaml'); Q.ask('savedyn ' + s2)
        Q.ask('new z'); Q.ask('set par_DYN ' + vec([1.] * (10 * n))); Q.ask('loadreg %s 1' % s)
        if differs(A('par_REG'), reg): raise Bad('generated save_par_REG then load_par_REG does not restore par_REG', got=A('par_REG').tolist(), want=reg.tolist())
        if differs(A('par_DYN'), dyn, 1e-8): raise Bad('generated load_par_REG leaves par_DYN inconsistent', got=A('par_DYN').tolist(), want=dyn)
        if differs(A('par_Dl'), Dl): raise Bad('generated save_par_REG then load_par_REG does not restore the friction parameters', got=A('par_Dl').tolist(), want=Dl)
        Q.ask('new y'); Q.ask('conf %s 1' % s2)
        if differs(A('par_DYN'), dyn) or differs(A('par_Dl'), Dl) or differs(A('par_REG'), reg): raise Bad('generated save_par_DYN then load_conf does not restore the parameters', got=[A('par_DYN').tolist(), A('par_Dl').tolist()], want=[dyn, Dl])
        Q.ask('new x'); Q.ask('set par_DYN ' + vec([1.] * (10 * n))); keep = A('par_DYN'); Q.ask('loadreg %s 0' % s)
        if differs(A('par_REG'), reg) or differs(A('par_DYN'), keep): raise Bad('generated load_par_REG(file, false): wrong vector touched')
        # the parameter file written next to the class, and the library's saver
        Q.ask('new w'); Q.ask('loadreg %s 1' % os.path.join(d, name + '_par_REG.yaml'))
        if differs(A('par_REG'), oracle.dyn2reg(r['dyn'])): raise Bad('the generated _par_REG file does not load into the generated class', got=A('par_REG').tolist(), want=oracle.dyn2reg(r['dyn']).tolist())
        P.ask('newrobot pl ' + f); P.ask('loadreg %s 1' % s)
        if differs(pvec(P.ask('arg par_REG')[0]), reg) or (r['Dl_order'] and differs(pvec(P.ask('arg par_Dl')[0]), Dl)): raise Bad('parameters saved by the generated class do not load into the library robot')
        # save_par of the generated class: every vector under its own key
        Q.ask('sel r'); vals_ = {}
        for p in GEN_PARS: v = [gen.rnd(g, -4, 4) for _ in A(p)]; vals_[p] = v; Q.ask('set0 %s %s' % (p, vec(v)))
        sp = os.path.join(d, 's_par.yaml')
        if Q.ask('savepar ' + sp) != ['1']: raise Bad('generated save_par fails')
        got = {m.group(1): [float(x) for x in m.group(2).replace('\n', ' ').split(',') if x.strip()] for m in re.finditer(r'(\w+):\s*\[([^\]]*)\]', open(sp).read())}
        for p, v in vals_.items():
            k = p if p in got else p[4:]
            if k not in got or differs(got[k], v): raise Bad('generated save_par does not write %s' % p, got=got.get(k), want=v)
    if pid == 'C17':
        for rep in range(12):
            a = [g.choice(SPECIAL_ANG) if g.random() < .25 else gen.rnd(g, -7, 7) for _ in range(3)]; R = Rzyx(a[2], a[1], a[0]); I = [gen.rnd(g) for _ in range(6)]; w = [gen.rnd(g) for _ in range(3)]
            for cmd, want in (('rpyRot ' + vec(a), R), ('createI ' + vec(I), sym(I)), ('hatE ' + vec(w), oracle.skew(w))):
                got = Q.ask(cmd)[0]
                if got.strip() != '?' and differs(pmat(got), want): raise Bad('generated class: %s is wrong' % cmd, got=pmat(got).tolist(), want=np.asarray(want).tolist())
def gen_c13(g, r, Q, A):
    n = r['n']; ne = len(r['el'])
    sizes = {k: n for k in STATE}; sizes['w'] = 6; sizes.update({k: ne for k in ELSTATE})
    for p in GEN_PARS + ('par_REG',): sizes[p] = len(A(p))
    ks = list(sizes); g.shuffle(ks)
    for k in ks:
        sz = sizes[k]; before = gargs(Q); v = [gen.rnd(g, 0.2, 5) for _ in range(sz)]; Q.ask('set %s %s' % (k, vec(v))); after = gargs(Q)
        if differs(gvec(after['A ' + k]), v): raise Bad('generated set_%s does not store the vector' % k, got=after['A ' + k], want=v)
        if k.startswith('par_') and differs(A(k), v): raise Bad('generated get_%s does not return the stored vector' % k)
        ok = {k} | ({'par_REG'} if k == 'par_DYN' else {'par_DYN'} if k == 'par_REG' else set())
        ch = [x[2:] for x in before if before[x] != after[x] and x[2:] not in ok]
        if ch: raise Bad('generated set_%s also changes %s' % (k, ch))
        for wrong in {sz + 1, max(sz - 1, 0), sz + 4, 0} - {sz}:
            Q.ask('set %s %s' % (k, vec([9.5] * wrong)))
            if gargs(Q) != after: raise Bad('generated set_%s with a vector of size %d (stored size %d) changes %s' % (k, wrong, sz, [x for x in after if gargs(Q)[x] != after[x]]))
    dyn = psd_dyn(g, n)
    for k, d, v, w in (('par_DYN', 'par_REG', dyn, oracle.dyn2reg(dyn)), ('par_REG', 'par_DYN', list(oracle.dyn2reg(dyn)), dyn)):
        Q.ask('set %s %s' % (d, vec([1.] * (10 * n)))); again(lambda v: Q.ask('set0 %s %s' % (k, vec(v))), lambda v: Q.ask('set %s %s' % (k, vec(v))), lambda: A(d), v, lambda v: w, 'generated set_' + k)
    before = gargs(Q); S = [[9.25] * n for _ in range(4)]; i = g.randrange(4); S[i] = S[i] + [1.]
    Q.ask('setargs ' + ' '.join(vec(x) for x in S))
    if gargs(Q) != before: raise Bad('generated setArguments with a wrong size changes stored vectors')
    S = [[gen.rnd(g) for _ in range(n)] for _ in range(4)]; Q.ask('setargs ' + ' '.join(vec(x) for x in S)); after = gargs(Q)
    for k, v in zip(('q', 'dq', 'dqr', 'ddqr'), S):
        if differs(gvec(after['A ' + k]), v): raise Bad('generated setArguments does not store %s' % k)
    if [x for x in before if before[x] != after[x] and x[2:] not in ('q', 'dq', 'dqr', 'ddqr')]: raise Bad('generated setArguments changes other vectors')
