"""The program of src/genYAML: link parameters in URDF frames -> inertial files in the Denavit-Hartenberg frames of its table."""
import re, math
from fractions import Fraction
from .prove import *
from . import texts as X, exec as E
from .sp_kin import *
from .sp_c17 import run, rpy, add, sym6, scale, skew
from .sp_conf import emitted, DYNK, REGK
from .sp_conv import to_reg
_u = None
def unit():
    global _u
    if _u is None:
        g = A.build.REPO + '/src/genYAML/main_YAML.cpp'; t = re.sub(r'//[^\n]*|/\*.*?\*/', '', open(g).read(), flags=re.S)
        ns = sorted(set(re.findall(r'^[A-Za-z_][\w:<>&*\t ]*[\s&*](\w+)\s*\([^;{}()]*\)\s*\{', t, re.M))); vs = re.findall(r'^(?:const\s+)?(?:bool|int|double|std::string)\s+(\w+)\s*=', t, re.M)
        incs = [A.build.REPO + '/src/genYAML', A.build.REPO + '/src/genYAML/library']
        with A.ThreadPoolExecutor(8) as ex: list(ex.map(lambda n: A.dump(g, incs, n), ns + vs))
        _u = A.Unit(); _u.add(A.build.REPO + '/src/genYAML/src/urdf2dh_inertial.cpp', incs, 'thunder_ns')
        for n in ns + vs: _u.add(g, incs, n)
    return _u
def props(n, i, nm=None):
    return Obj('LinkProp', {'name': nm or Str((('sym', 'ln', (toI(i),)),)), 'mass': rvar(n + 'm', i), 'xyz': Vec([('i', rvar(n + 'x', i, toI(k))) for k in range(3)]), 'parI': Vec([('i', rvar(n + 'I', i, toI(k))) for k in range(6)]), 'rpy': Vec([('i', rvar(n + 'r', i, toI(k))) for k in range(3)])})
KEYS = {'DYN': ('mass', 'CoM_', 'I'), 'REG': ('mass', 'm_CoM_', 'I')}
@ob(('C11', 'C15'), 'genYAML: fillInertialYaml', replay=[('genyaml_case', None)])
def o_fill(p):
    u = unit(); f = U.find(u, 'fillInertialYaml', 'main_YAML.cpp')
    for q, ks in (('DYN', DYNK), ('REG', REGK)):
        keys = Vec([('i', S(x)) for x in KEYS[q] + (q, 'comment')]); nl = ivar('nl', 7, None)
        with assume(ge(nl, 7)): v, st = run(p, u, f, [toI(7), Obj('Emitter', {'out': Vec([])}), dense(nl, lambda i: props('L', i)), keys])
        o = st.v['arg1'].f['out'].items(); p.goal('%s: nodes' % q, len(o), 14)
        for i in range(7):
            p.goal('%s: name of link %d' % (q, i), o[2 * i], Str((('sym', 'ln', (toI(i),)),))); d = o[2 * i + 1]; l = props('L', toI(i)).f
            p.has('%s: link %d: exactly its own keys' % (q, i), isinstance(d, Map) and set(d.base) | {e[2].lit() for e in d.log} == set(ks))
            p.goal('%s: values of link %d, key by key' % (q, i), Vec([('i', d.get(S(k))) for k in ks]), Vec([('i', l['mass'])] + list(l['xyz'].s) + list(l['parI'].s)))
def c_dist(ex, st, this, as_, n): k = st.v.get('$z', 0); st.v['$z'] = k + 1; return rvar('z', toI(k))
@ob('C11', 'genYAML: perturbateLinkProp', replay=[('genyaml_case', None)])
def o_pert(p):
    u = unit(); f = U.find(u, 'perturbateLinkProp', 'main_YAML.cpp')
    v, st = run(p, u, f, [props('L', K0), props('B', K0), toP(0)]); a, b = st.v['arg1'].f, props('L', K0).f
    for k in ('name', 'mass', 'xyz', 'parI'): p.goal('no perturbation: %s' % k, a[k], b[k])
AL = ('rpy', 'xyz')
DH7 = [(0, -1, 0), (0, 1, 0), ('0.0825', 1, 0), ('-0.0825', -1, 0), (0, 1, 0), ('0.088', 1, 0), (0, 0, '0.107')]   # a, alpha/(pi/2), offset of the flange: the table in the program's header
def moved(d, r, b, **kw):
    """body b in the frame moved by (d, r) (what C17 proves of transformBodyInertial)"""
    R_ = rpy(r); Q_ = mul(R_, rpy(b.f['rpy'])); c = add(col(d.items()), mul(R_, col(b.f['xyz'].items()))); J = mul(mul(Q_, sym6(b.f['parI'])), Q_.T())
    return Obj('LinkProp', {'name': b.f['name'], 'mass': b.f['mass'], 'xyz': Vec([('i', c.get(k, 0)) for k in range(3)]), 'parI': Vec([('i', J.get(i, j)) for i, j in ((0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2))]), 'rpy': Vec([('i', ZERO)] * 3), **kw})
def read_(i):
    """link i of the description"""
    nm = Str((('sym', 'Yk:*/', (toI(i),)),)); y = lambda s: ynum_('*/%s/' % s, i)
    w = lambda s, k: rvar('num:Ys:*/origin/%s/' % s, toI(i), toI(k))
    return Obj('LinkProp', {'name': nm, 'mass': y('mass'), 'xyz': Vec([('i', w('xyz', k)) for k in range(3)]), 'rpy': Vec([('i', w('rpy', k)) for k in range(3)]), 'parI': Vec([('i', y('inertia/' + k)) for k in ('xx', 'xy', 'xz', 'yy', 'yz', 'zz')])})
from .sp_conf import filled, ynum as ynum_, ylen_, yhas
from .sp_cli import globs
def c_move(ex, st, lv, an, n):
    a = [ex.ev(x, st) for x in an[:3]]; o = ex.lv(an[3], st); old = ex.read(st, o)
    ex.write(st, o, moved(*a)); return None
def c_pert(ex, st, lv, an, n):
    a, q = ex.ev(an[0], st), toP(ex.ev(an[2], st)); o = ex.lv(an[1], st); b = ex.read(st, o); ex.perts = getattr(ex, 'perts', 0) + 1
    z = lambda v, k: v * (ONE + q * rvar('$n', toI(ex.perts), toI(k))); f = a.f
    for k, v in (('name', f['name']), ('mass', z(toP(f['mass']), 0)), ('xyz', Vec([('i', z(toP(f['xyz'].get(j)), 1 + j)) for j in range(3)])), ('parI', Vec([('i', z(toP(f['parI'].get(j)), 4 + j)) for j in range(6)]))): b = b.put(k, v)
    ex.write(st, o, b); return None
@ob(('C11', 'C17', 'C15'), 'genYAML: the program', replay=[('genyaml_case', None)])
def o_main(p):
    p.assume_note('yaml/inertial.yaml is there, every link in it has mass, inertia and origin, the origin texts are three numbers; a normal distribution of deviation 0 gives its mean')
    u = unit(); f = [x for x in u.funs['main']][0]; E.YPRESENT.update({'*/origin/', '*/origin/xyz/', '*/origin/rpy/', '*/mass/', '*/inertia/', *('*/inertia/%s/' % k for k in ('xx', 'xy', 'xz', 'yy', 'yz', 'zz'))}); gl = {}
    for g in u.funs['main'] + u.funs['fillInertialYaml']: globs(g, gl)
    with assume(ge(ylen_(''), 8)):
        ex = p.exec(u, {'transformBodyInertial': c_move, 'perturbateLinkProp': c_pert, 'fillInertialYaml': filled}); st = State()
        for k, (nm, t) in gl.items():
            if nm in u.vars and u.vars[nm].c: st.v[k] = ex.ev(u.vars[nm].c[-1], st)
        v, al = ex.call(f, st, [], None)
        if not decide(al): raise Unsupported('main may not return normally')
        ev = {}
        for e in ex.events:
            p.has('the file %s is written once' % e[1].lit(), e[1].lit() not in ev); ev[e[1].lit()] = e[2]
        D = '../generatedFiles/inertial_DH'; names = [D + x + '.yaml' for x in ('', '_DYN', '_REG', '_REG_p2', '_REG_p5', '_REG_p10', '_REG_p20')]
        p.has('the files', set(ev) == set(names));
        num = lambda q: toP(Fraction(repr(float(q))))
        want = [moved(Vec([('i', num(-float(a))), ('i', ZERO), ('i', num(-float(d)))]), Vec([('i', num(-al * math.pi / 2)), ('i', ZERO), ('i', ZERO)]), read_(toI(i + 1))) for i, (a, al, d) in enumerate(DH7)]
        for nm in names[:3]:
            e = ev[nm].f; r = 'REG' in nm; p.goal('%s: keys' % nm, Vec(e['keys'].s[:4]), Vec([('i', S(x)) for x in KEYS['REG' if r else 'DYN'] + ('REG' if r else 'DYN',)])); p.goal('%s: links' % nm, e['links'].size(), toI(7)); p.goal('%s: count' % nm, toI(e['n']), toI(7))
            for i, w in enumerate(want):
                l = e['links'].get(toI(i)).f; x = [w.f['mass']] + list(w.f['xyz'].items()) + list(w.f['parI'].items()); x = to_reg(x) if r else x
                p.goal('%s: name of link %d' % (nm, i + 1), l['name'], w.f['name']); p.goal('%s: parameters of link %d' % (nm, i + 1), Vec([('i', l['mass'])] + [('i', y) for y in l['xyz'].items()] + [('i', y) for y in l['parI'].items()]), Vec([('i', y) for y in x]))
