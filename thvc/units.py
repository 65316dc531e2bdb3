"""Other pieces of real source: the generated-robot template (its placeholders filled in mechanically) and genYAML."""
import os, hashlib
from . import ast as A
from vlib import build
_t = None; _g = None; _y = None
FILL = [('/*#-ROBOT_NAME-#*/', 'NAME'), ('isElasticJoint[/*#-n_joints-#*/] = /*#-isElasticJoint-#*/', 'isElasticJoint[64] = {}'),
        ('/*#-FUNCTIONS_H-#*/', ''), ('/*#-FUNCTIONS_CPP-#*/', ''), ('/*#-OPTIONAL SPACE FOR PYTHON BINDINGS-#*/', '')] + \
       [('/*#-%s-#*/' % k, 'SYM_' + k) for k in ('n_joints', 'ELASTIC', 'numElasticJoints', 'K_order', 'D_order', 'Dl_order', 'Dm_order')]
def template():
    global _t
    if _t is None:
        fs = {}
        for f in ('thunder_robot.h', 'thunder_robot.cpp'):
            x = open(build.TEMPLATE + '/' + f).read()
            for a, b in FILL: x = x.replace(a, b)
            fs[f] = x
        fs['thunder_robot.h'] = ''.join('extern const int SYM_%s; ' % k for k in ('n_joints', 'ELASTIC', 'numElasticJoints', 'K_order', 'D_order', 'Dl_order', 'Dm_order')) + '\n' + fs['thunder_robot.h']
        d = os.path.join(build.CACHE, 'tmpl', hashlib.sha256(repr(sorted(fs.items())).encode()).hexdigest()[:16]); os.makedirs(d, exist_ok=True)
        fs['robot_gen.h'] = ''
        for f, x in fs.items():
            if not os.path.exists(d + '/' + f):
                open(d + '/' + f + '.%d' % os.getpid(), 'w').write(x); os.replace(d + '/' + f + '.%d' % os.getpid(), d + '/' + f)
        u = A.Unit(); u.add(d + '/thunder_robot.cpp', [d], 'thunder_robot')
        for l in u.funs.values():
            for n in l: n.file = 'src/thunder/thunder_robot_template/thunder_robot.cpp'
        _t = u
    return _t
def genyaml():
    global _y
    if _y is None:
        u = A.Unit(); u.add(build.REPO + '/src/genYAML/src/urdf2dh_inertial.cpp', [build.REPO + '/src/genYAML/library'], 'thunder_ns'); _y = u
    return _y
_i = None
def geninertial():
    global _i
    if _i is None:
        incs = [build.CAS + '/include', build.SRC + '/library']; u = A.Unit()
        for f in ('utils', 'genYaml'): u.add(build.SRC + '/src/%s.cpp' % f, incs, 'thunder_ns')
        _i = u
    return _i
def find(u, name, file=None, ptypes=None, cls=None):
    """the function of that name defined in that file; ptypes: list of substrings of its parameter types"""
    l = u.funs.get(name, [])
    if file: l = [f for f in l if f.file and f.file.endswith(file)]
    if ptypes is not None: l = [f for f in l if len(A.params(f)) >= len(ptypes) and all(t in p.t for t, p in zip(ptypes, A.params(f)))]
    if len(l) != 1: raise A_unsup('%d functions %s in %s' % (len(l), name, file))
    return l[0]
def A_unsup(m):
    from .terms import Unsupported
    return Unsupported(m)
