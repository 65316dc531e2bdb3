"""Random robot descriptions and their yaml text."""
import random, math
KIN = ('par_DHtable', 'par_world2L0', 'par_Ln2EE', 'par_gravity')
def rnd(g, a=-1.5, b=1.5): return round(g.uniform(a, b), 3)
def psd(g):
    import numpy as np
    A = np.array([[g.uniform(-1, 1) for _ in range(3)] for _ in range(3)]); I = A @ A.T + 0.1 * np.eye(3)
    I = np.round(I, 4); return [I[0, 0], I[0, 1], I[0, 2], I[1, 1], I[1, 2], I[2, 2]]
def robot(g, n=None, types=None, elastic=None, symb='random', orders=None, simple=False, world=True, surplus=0):
    n = n or g.choice([1, 2, 2, 3, 3, 4])
    if types is None:
        kinds = ['R', 'R', 'P', 'R_SEA', 'P_SEA'] if elastic is not False else ['R', 'P']
        types = [g.choice(kinds) for _ in range(n)]
    el = [i for i, t in enumerate(types) if t.endswith('_SEA')]
    if elastic is None: elastic = bool(el)
    ne = len(el)
    o = orders or {}
    r = dict(n=n, types=types, elastic=elastic, el=el,
             DH=[rnd(g) for _ in range(4 * n)], world=[rnd(g) for _ in range(6)], ee=[rnd(g) for _ in range(6)],
             g=[rnd(g, -10, 10) for _ in range(3)], dyn=[],
             Dl_order=o.get('Dl', g.choice([0, 1, 2, 3])), K_order=0, D_order=0, Dm_order=0, K=[], D=[], Dm=[], Mm=[], Dl=[])
    for i in range(n):
        if g.random() < 0.4: r['DH'][4 * i + 1] = g.choice([0.0, math.pi / 2, -math.pi / 2, math.pi])
        r['dyn'] += [rnd(g, 0.2, 3)] + [rnd(g, -0.5, 0.5) for _ in range(3)] + psd(g)
    r['Dl'] = [rnd(g, 0.05, 1) for _ in range(n * r['Dl_order'])]
    if elastic:
        r['K_order'] = o.get('K', g.choice([0, 1, 2, 3])); r['D_order'] = o.get('D', g.choice([0, 1, 2, 3])); r['Dm_order'] = o.get('Dm', g.choice([0, 1, 2, 3]))
        r['K'] = [rnd(g, 0.05, 1) for _ in range(ne * r['K_order'])]; r['D'] = [rnd(g, 0.05, 1) for _ in range(ne * r['D_order'])]
        r['Dm'] = [rnd(g, 0.05, 1) for _ in range(ne * r['Dm_order'])]; r['Mm'] = [rnd(g, 0.05, 1) for _ in range(ne)]
    sizes = dict(par_DHtable=4 * n, par_world2L0=6, par_Ln2EE=6, par_gravity=3, par_DYN=10 * n, par_Dl=len(r['Dl']),
                 par_K=len(r['K']), par_D=len(r['D']), par_Dm=len(r['Dm']), par_Mm=len(r['Mm']))
    def pat(k, m):
        mode = symb if isinstance(symb, str) else symb.get(k, 'none')
        if mode == 'random': mode = g.choice(['none', 'none', 'all', 'mix', 'mix'])
        if mode == 'none': return [0] * m
        if mode == 'all': return [1] * m
        p = [g.choice([0, 1]) for _ in range(m)]
        if m and g.random() < 0.3:        # all or none but the first or last entry
            k = g.choice([0, 1]); p = [k] * m; p[g.choice([0, -1, -1])] = 1 - k
        if m and not any(p): p[g.randrange(m)] = 1
        return p
    r['symb'] = {k: pat(k, m) for k, m in sizes.items()}
    r['surplus'] = surplus
    r['omit_symb'] = set()   # sections whose (all-zero) symb entry is left out
    for k in KIN + ('par_DYN', 'par_Dl', 'par_K', 'par_D', 'par_Dm', 'par_Mm'):
        if not any(r['symb'][k]) and g.random() < 0.5: r['omit_symb'].add(k)
    r['no_gravity'] = False
    r['linknames'] = ['link%d' % (i + 1) for i in range(n + surplus)]
    return r
F = lambda v: '[' + ', '.join(repr(float(x)) for x in v) + ']'
I_ = lambda v: '[' + ', '.join(str(int(x)) for x in v) + ']'
def par_values(r):
    return dict(par_DHtable=r['DH'], par_world2L0=r['world'], par_Ln2EE=r['ee'], par_gravity=r['g'] if not r['no_gravity'] else [0., 0., 0.],
                par_DYN=r['dyn'], par_Dl=r['Dl'], par_K=r['K'], par_D=r['D'], par_Dm=r['Dm'], par_Mm=r['Mm'])
def yaml_text(r, g=None):
    L = []; n = r['n']; S = r['symb']; om = r['omit_symb']
    L += ['num_joints: %d' % n, 'type_joints: [%s]' % ', '.join("'%s'" % t for t in r['types'])]
    if r['Dl_order'] or not r.get('omit_Dl_order'): L += ['Dl_order: %d' % r['Dl_order']]
    if r['elastic'] or not r.get('omit_flag', True): L += ['ELASTIC_MODEL: %s' % ('true' if r['elastic'] else 'false')]
    L += ['kinematics:'] + ([] if 'par_DHtable' in om else ['  symb: ' + I_(S['par_DHtable'])]) + ['  DH: ' + F(r['DH'])]
    if not r['no_gravity']:
        L += ['gravity:'] + ([] if 'par_gravity' in om else ['  symb: ' + I_(S['par_gravity'])]) + ['  value: ' + F(r['g'])]
    for k, key, v in (('Base_to_L0', 'par_world2L0', r['world']), ('Ln_to_EE', 'par_Ln2EE', r['ee'])):
        L += [k + ':'] + ([] if key in om else ['  symb: ' + I_(S[key])]) + ['  tr: ' + F(v[:3]), '  ypr: ' + F(v[3:])]
    L += ['dynamics:']
    ks = ['mass', 'CoM_x', 'CoM_y', 'CoM_z', 'Ixx', 'Ixy', 'Ixz', 'Iyy', 'Iyz', 'Izz']
    o = r['Dl_order']
    for i in range(n + r['surplus']):
        j = i if i < n else 0
        L += ['  %s:' % r['linknames'][i], '    inertial:']
        if 'par_DYN' not in om: L += ['      symb: ' + I_(S['par_DYN'][10 * j:10 * j + 10] if i < n else [1] * 10)]
        idx = list(range(10))
        if r.get('shuffle'): random.Random(i).shuffle(idx)
        for k in idx: L += ['      %s: %r' % (ks[k], float(r['dyn'][10 * j + k]) + (0 if i < n else 7.5))]
        if o:
            L += ['    friction:'] + ([] if 'par_Dl' in om else ['      symb: ' + I_(S['par_Dl'][o * j:o * j + o])]) + ['      Dl: ' + F([x + (0 if i < n else 3.25) for x in r['Dl'][o * j:o * j + o]])]
    if r['elastic']:
        L += ['elastic:', '  K_order: %d' % r['K_order'], '  D_order: %d' % r['D_order'], '  Dm_order: %d' % r['Dm_order'], '  joints:']
        ne = len(r['el'])
        for a in range(ne + r['surplus']):
            b = a if a < ne else 0
            if ne == 0: break
            L += ['    joint%d:' % (a + 1)]
            for k in ('K', 'D', 'Dm'):
                oo = r[k + '_order']; L += ['      %s: %s' % (k, F(r[k][oo * b:oo * b + oo]))]
                if 'par_' + k not in om: L += ['      %s_symb: %s' % (k, I_(S['par_' + k][oo * b:oo * b + oo]))]
            L += ['      Mm: %r' % r['Mm'][b]] + ([] if 'par_Mm' in om else ['      Mm_symb: %d' % S['par_Mm'][b]])
    return '\n'.join(L) + '\n'
def state(g, r):
    n = r['n']; ne = len(r['el']); v = lambda k: [rnd(g, -2, 2) for _ in range(k)]
    return dict(q=v(n), dq=v(n), ddq=v(n), d3q=v(n), d4q=v(n), dqr=v(n), ddqr=v(n), x=v(ne), dx=v(ne), ddx=v(ne), ddxr=v(ne), w=v(6))
