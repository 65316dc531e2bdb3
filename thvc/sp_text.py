"""C18: text substitution and the rewriting of the template."""
from .prove import *
from . import units as U, texts as TX
from .sp_c17 import run
from .texts import *
sy = lambda n: Str((('sym', n, ()),))
class Rest:
    """invariant of the substitution loop: what is written so far, followed by the substitution of the rest, is the substitution of the whole text"""
    def __init__(s, t, p, r): s.t, s.p, s.r = t, p, r; s.acc = sy('written')
    def __call__(s, *a): return None
    def whiles(s, ex, fn, init, mods):
        L = length(s.t); ss = [l for l in mods if isinstance(init.v[l], Str)]; ps = [l for l in mods if isinstance(init.v[l], I)]
        for a in ss:
            for b in ps:
                pos = s.pos = ivar('pos', 0, None); hav = {a: (s.acc, []), b: (pos, [ge(pos, 0), le(pos, L)])}
                for l in mods:
                    if l not in hav: hav[l] = (fresh(init.v[l]), [])
                def holds(st, a=a, b=b, pos=pos):
                    v, p = st.v[a], st.v[b]
                    if not decide(And(ge(p, 0), le(p, L))): return False, L - p
                    got = Str(v.p + (('subst', s.t, s.p, s.r, toI(p)),))
                    want = Str(s.acc.p + (('subst', s.t, s.p, s.r, pos),)) if v.p[:1] == s.acc.p else Str((('subst', s.t, s.p, s.r, toI(0)),))
                    return equal(got, want), L - p
                yield hav, holds
@ob('C18', 'replace_all')
def o_rep(p):
    u = A.library(); f = U.find(u, 'replace_all', 'utils.cpp'); t, q, r = sy('text'), sy('pattern'), sy('replacement'); h = Rest(t, q, r)
    with assume(ge(length(q), 1), le(length(t), 2 ** 40), le(length(q), 2 ** 40)):
        ex = p.exec(u, hints=[h]); v, st = run(p, u, f, [t, q, r], ex=ex); got = st.v['arg0']
        with assume(*ex.after):
            pos = h.pos
            p.has('the result is the left-to-right substitution of every non-overlapping occurrence', bool(got.p) and got.p[0] == h.acc.p[0] and equal(got, Str(h.acc.p + (('subst', t, q, r, pos),))))
        p.goal('the pattern is unchanged', st.v['arg1'], q); p.goal('the replacement is unchanged', st.v['arg2'], r)

# ---------------------------------------------------------------- the generated sources
STORED = ['par_DYN', 'par_Dl', 'par_K', 'par_D', 'par_Dm', 'par_Mm']
def flags(nm): return dense(ifun('Ly:' + nm), lambda k: ifun('fl:' + nm, k))
def gathered(arg, n, flag):
    """text of the entries arg(i) with flag(i), in order, separated by ', '"""
    i, j = ivar('i', 0, n), ivar('j', 0, n); on = lambda k: Not(eq(flag(k), 0))
    before = exists(j, toI(0), i, on(j))
    body = Str((('alt', on(i), Str((('alt', before, S(', '), S('')),) + arg.p + ('(', ('int', i), ')')), S('')),))
    return Str((('fam', i, toI(0), n, body),))
@ob('C16', 'get_fun_input', internal=True)
def o_inp(p):
    u = A.library(); f = U.find(u, 'get_fun_input', 'utils.cpp')
    for nm in STORED:
        r = Obj('Robot', {'symb': Map({nm: flags(nm)})}); arg = S(nm); n = ifun('Ly:' + nm); k = ivar('k', 0, None); flag = lambda q: ifun('fl:' + nm, q)
        with assume(ge(n, 0), le(n, 2 ** 30)):
            part = exists(k, toI(0), n, eq(flag(k), 0))
            for c, tag in ((Not(part), 'all symbolic'), (part, 'some numeric')):
                with assume(c):
                    v, st = run(p, u, f, [r, arg, sy('code')])
                    if c is part:
                        p.goal('%s, %s: an array of its symbolic entries' % (nm, tag), v, Str(arg.p + ('_symb',)))
                        p.goal('%s, %s: the entries, in order' % (nm, tag), st.v['arg2'], Str((('sym', 'code', ()), '\tconst double ') + arg.p + ('_symb[] = {',) + gathered(arg, n, flag).p + ('};\n',)))
                    else:
                        p.goal('%s, %s: its storage' % (nm, tag), v, Str(arg.p + ('.data()',))); p.goal('%s, %s: no other text' % (nm, tag), st.v['arg2'], sy('code'))
                    p.goal('%s, %s: the robot is unchanged' % (nm, tag), st.v['arg0'], r)
    r = Obj('Robot', {'symb': Map({})}); arg = sy('arg')
    with assume(*[Not(str_eq(arg, S(nm))) for nm in STORED]):
        v, st = run(p, u, f, [r, arg, sy('code')])
        p.goal('any other argument: its storage', v, Str(arg.p + ('.data()',))); p.goal('any other argument: no other text', st.v['arg2'], sy('code')); p.goal('any other argument: the robot is unchanged', st.v['arg0'], r)
@ob(('C16', 'C18'), 'get_ret_type', internal=True)
def o_ret(p):
    u = A.library(); f = U.find(u, 'get_ret_type', 'utils.cpp'); a, b = ivar('a', 0, None), ivar('b', 0, None)
    v, st = run(p, u, f, [Obj('fun_obj', {'out_size': items([a, b])})])
    p.goal('the matrix type of the size of the function', v, Str(('Eigen::Matrix<double,', ('int', a), ',', ('int', b), '>')))
import os, re
def template(name): return open(os.path.join(A.build.TEMPLATE, name)).read()
NF = ivar('nfun', 0, None, fresh=False); NJ = ivar('n', 1, None, fresh=False)
def fname(k): return Str((('sym', 'fname', (k,)),))
def fdescr(k): return Str((('sym', 'fdescr', (k,)),))
def farg(k, j): return Str((('sym', 'farg', (k, j)),))
def nargs(k): return ifun('nargs', k)
def osz(k, j): return ifun('osz%d' % j, k)
def fun_at(k): return Obj('fun_obj', {'name': fname(k), 'description': fdescr(k), 'args': dense(nargs(k), lambda j: farg(k, j)), 'out_size': items([osz(k, 0), osz(k, 1)])})
def h_functions(s, st, this, as_, n):
    return dense(NF, fun_at)
def h_replace(s, st, this, as_, n):
    lv = s.lv(as_[0], st); s.write(st, lv, replaced(join(s.read(st, lv)), join(s.ev(as_[1], st)), join(s.ev(as_[2], st))))
def h_input(s, st, this, as_, n):
    """contract of get_fun_input: pointer expression of an argument, and the statements it needs, as functions of the argument's name"""
    a = join(s.ev(as_[1], st)); lv = s.lv(as_[2], st)
    s.write(st, lv, join(s.read(st, lv)) + Str((('app', 'gather', a),))); return Str((('app', 'inp', a),))
def fam(lo, hi, body):
    v = ivar('v', lo, hi)
    with assume(ge(v, lo), lt(v, hi)): b = body(v)
    return Str((('fam', v, toI(lo), toI(hi), b),))
def cat(*xs): return Str(tuple(y for x in xs for y in (x.p if isinstance(x, Str) else (x,) if isinstance(x, str) else (('int', toI(x)),))))
def rtype(k): return cat('Eigen::Matrix<double,', osz(k, 0), ',', osz(k, 1), '>')
NAME, RNAME = sy('to_robot'), sy('robotName')
CONST = ['n_joints', 'ELASTIC', 'numElasticJoints', 'K_order', 'D_order', 'Dl_order', 'Dm_order']
def trobot():
    f = {'robotName': RNAME, 'numJoints': NJ, 'ELASTIC': toC(patom('elastic')), 'isElasticJoint': dense(NJ, lambda k: ifun('isE', k)), 'symb': Map({})}
    for k in ('numElasticJoints', 'K_order', 'D_order', 'Dl_order', 'Dm_order'): f[k] = ivar(k, fresh=False)
    return Obj('Robot', f)
def rewritten(text, r, more):
    """the template with every marker replaced, in one pass from left to right"""
    val = {'/*#-ROBOT_NAME-#*/': RNAME, '/*#-isElasticJoint-#*/': cat('{', r.f['isElasticJoint'].get(0), fam(1, NJ, lambda i: cat(', ', ifun('isE', i))), '}'), 'robot': NAME, 'THUNDERROBOT': cat('THUNDER_', NAME)}
    for k in CONST: val['/*#-%s-#*/' % k] = cat(r.f['numJoints'] if k == 'n_joints' else ind(r.f[k]) if k == 'ELASTIC' else r.f[k])
    val.update(more)
    out = []
    for x in re.split('(%s)' % '|'.join(map(re.escape, sorted(val, key=len, reverse=True))), text): out.append(val.get(x, x))
    return cat(*out)
def h_text(): return cat('\n', fam(0, NF, lambda i: cat('\t\t// - ', fdescr(i), ' - //\n\t\t', rtype(i), ' get_', fname(i), '();\n\n')))
def cpp_text():
    def one(i):
        a = lambda j: farg(i, j); g = cat(RNAME, '_', fname(i), '_fun')
        ins = Str((('alt', eq(nargs(i), 0), S('\tconst double** input_ = nullptr;\n'), cat(fam(0, nargs(i), lambda j: Str((('app', 'gather', a(j)),))), '\tconst double* input_[] = {', Str((('app', 'inp', a(toI(0))),)), fam(1, nargs(i), lambda j: cat(', ', Str((('app', 'inp', a(j)),)))), '};\n')),))
        return cat('// - ', fdescr(i), ' - //\n', rtype(i), ' thunder_', NAME, '::get_', fname(i), '(){\n\tthread_local double buffer[', osz(i, 0) * osz(i, 1), '];\n\tthread_local long long p3[', g, '_SZ_IW];\n\tthread_local double p4[', g, '_SZ_W];\n', ins,
                   '\tdouble* output_[] = {buffer};\n\tint check = ', g, '(input_, output_, p3, p4, 0);\n\treturn Eigen::Map<', rtype(i), '>(buffer);\n}\n\n')
    return cat('\n', fam(0, NF, one))
FUN_FACTS['nargs'] = lambda a, v: [ge(v, 0)]
for _j in (0, 1): FUN_FACTS['osz%d' % _j] = lambda a, v: [ge(v, 0)]
FUN_FACTS['isE'] = lambda a, v: [ge(v, 0), le(v, 1)]
def runfs(p, u, f, args, files, contracts):
    ex = p.exec(u, contracts); st = State(); st.v['$fs'] = Map(dict(files)); ls = []
    for i, a in enumerate(args): st.v['arg%d' % i] = a; ls.append(LV('arg%d' % i))
    v, al = ex.call(f, st, ls, None)
    if not decide(al): raise Unsupported('%s may not return normally' % f.name)
    return v, st
TC = {'get_functions': h_functions, 'replace_all': h_replace, 'get_fun_input': h_input}
NOTE_TXT = 'names, arguments and descriptions of functions contain no placeholder; robot names are identifiers without THUNDERROBOT'
@ob(('C16', 'C18'), 'change_to_robot', internal=True)
def o_change(p):
    u = A.library(); f = U.find(u, 'change_to_robot', 'utils.cpp'); r = trobot(); h, c = template('thunder_robot.h'), template('thunder_robot.cpp'); p.assume_note(NOTE_TXT)
    with assume(ge(NF, 0), ge(NJ, 1)):
        v, st = runfs(p, u, f, [S('robot'), NAME, r, sy('path_h'), sy('path_cpp'), FALSE], {'path_h': S(h), 'path_cpp': S(c)}, TC); fs = st.v['$fs'].base
        p.goal('reports success', v, toI(1))
        p.goal('the header: every marker replaced by the value of the robot, one declaration per function', fs['path_h'], rewritten(h, r, {'/*#-FUNCTIONS_H-#*/': h_text()}))
        p.goal('the source: the name replaced, one getter per function, of its size, with its arguments in order', fs['path_cpp'], rewritten(c, r, {'/*#-FUNCTIONS_CPP-#*/': cpp_text()}))
        p.goal('the robot is unchanged', st.v['arg2'], r)

        for miss in ('path_h', 'path_cpp'):
            files = {'path_h': S(h), 'path_cpp': S(c)}; del files[miss]
            v, st = runfs(p, u, f, [S('robot'), NAME, r, sy('path_h'), sy('path_cpp'), FALSE], files, TC)
            p.goal('no %s: failure is reported' % miss, v, toI(0)); p.goal('no %s: it is not created, the source is left alone' % miss, st.v['$fs'].base.get('path_cpp', Str(())), S(c) if miss == 'path_h' else Str(()))
@ob(('C16', 'C18'), 'change_to_robot with Python bindings', internal=True)
def o_changep(p):
    u = A.library(); f = U.find(u, 'change_to_robot', 'utils.cpp'); g = U.find(u, 'add_bindings_template', 'utils.cpp'); r = trobot(); h, c = template('thunder_robot.h'), template('thunder_robot.cpp'); p.assume_note(NOTE_TXT)
    M1, M2, M3 = '/*#-OPTIONAL SPACE FOR PYTHON BINDINGS-#*/', '/*OPTIONAL PYBIND11 INCLUDE POINT*/', '/*#-GENERATED_PYTHON_BINDINGS-#*/'
    v, st = runfs(p, u, g, [sy('path_cpp')], {'path_cpp': S(c)}, {'replace_all': h_replace}); b = st.v['$fs'].base['path_cpp'].lit(); p.goal('bindings: success', v, toI(1))
    v, st = runfs(p, u, g, [sy('path_cpp')], {}, {'replace_all': h_replace}); p.goal('bindings: failure is reported', Tup([v, st.v['$fs'].base.get('path_cpp', Str(()))]), Tup([toI(0), Str(())]))
    a1, m1 = c.split(M1); i1, a2 = a1.split(M2); p.has('the template has one place for the includes and one for the bindings', True)
    p.has('bindings: the rest of the source is kept', b is not None and b.startswith(i1) and b.endswith(m1) and a2 in b)
    inc = b[len(i1):b.index(a2, len(i1))]; mod = b[len(i1) + len(inc) + len(a2):len(b) - len(m1)]
    p.has('bindings: the headers of pybind11', inc.split() == ['#include', '<pybind11/pybind11.h>', '#include', '<pybind11/eigen.h>'])
    p.has('bindings: one module of the class, with one place for the getters', mod.count(M3) == 1 and mod.count('PYBIND11_MODULE(thunder_robot_py, m)') == 1 and 'py::class_<thunder_robot>(m, "thunder_robot")' in mod)
    defs = re.findall(r'\.def\("(\w+)", &thunder_robot::(\w+)', mod)
    p.has('bindings: every method under its own name, once', len(defs) > 0 and all(x == y for x, y in defs) and len({x for x, _ in defs}) == len(defs))
    p.has('bindings: only methods of the class', all(re.search(r'\b%s\(' % x, h) for x, _ in defs))
    hd = re.sub(r'//[^\n]*|/\*.*?\*/', '', h, flags=re.S); val = lambda x: {'1': 'true', '0': 'false'}.get(x.strip(), x.strip())
    for m in re.finditer(r'\.def\("(\w+)", &thunder_robot::\w+([^\n]*)\)', mod):
        d = re.search(r'\b%s\(([^)]*)\)' % m.group(1), hd); ps = [x for x in d.group(1).split(',') if x.strip()] if d else []
        bs = re.findall(r'py::arg\("\w+"\)\s*(?:=\s*(\w+))?', m.group(2))
        if not bs: continue
        p.add('bindings: %s: one name per parameter' % m.group(1), len(bs) == len(ps), '%d names for %d parameters' % (len(bs), len(ps)), True)
        for x, y in zip(bs, ps):
            if x: p.add('bindings: %s: the default of C++' % m.group(1), '=' in y and val(y.split('=')[1]) == val(x), '%s, C++: %s' % (x, y.strip()), True)
    with assume(ge(NF, 1), ge(NJ, 1)):
        v, st = runfs(p, u, f, [S('robot'), NAME, r, sy('path_h'), sy('path_cpp'), TRUE], {'path_h': S(h), 'path_cpp': S(c)}, TC); fs = st.v['$fs'].base
        p.goal('reports success', v, toI(1))
        p.goal('the header', fs['path_h'], rewritten(h, r, {'/*#-FUNCTIONS_H-#*/': h_text()}))
        def d(i): return cat('\t\t.def("get_', fname(i), '", &thunder_', NAME, '::get_', fname(i), ', "', fdescr(i), '")')
        py = cat(fam(0, NF - 1, lambda i: cat(d(i), '\n')), d(NF - 1), ';\n')
        p.goal('the source, with one binding per getter', fs['path_cpp'], rewritten(b, r, {'/*#-FUNCTIONS_CPP-#*/': cpp_text(), M3: py}))
@ob('C18', 'update_cmake', internal=True)
def o_cmake(p):
    u = A.library(); f = U.find(u, 'update_cmake', 'utils.cpp'); t = template('CMakeLists.txt')
    v, st = runfs(p, u, f, [S('robot'), NAME, sy('path')], {'path': S(t)}, {'replace_all': h_replace}); p.goal('reports success', v, toI(1))
    p.goal('every occurrence of the name is replaced, nothing else', st.v['$fs'].base['path'], cat(*[y for i, q in enumerate(t.split('robot')) for y in ((q,) if i == 0 else (NAME, q))]))
    v, st = runfs(p, u, f, [S('robot'), NAME, sy('path')], {}, {'replace_all': h_replace}); p.goal('no file: failure is reported and none is made', Tup([v, toI(len(st.v['$fs'].base))]), Tup([toI(0), toI(0)]))

@ob('C16', 'generate_library')
def o_gen(p):
    u = A.library(); f = U.find(u, 'generate_library', 'robot.cpp'); k = ivar('fn', 0, NF); fu = lambda i: Obj('Function', {'name': Str((('app', 'fun', toI(i)),))})
    m = Map({}, [('f', k, toI(0), NF, TRUE, fname(k), fu(k))]); m.enum = True
    def h_add(s, st, this, as_, n):
        b = s.read(st, this)
        if not isinstance(b, Obj) or b.cls != 'CodeGenerator': return NotImplemented
        s.write(st, this, b.put('funs', b.f['funs'].push(s.ev(as_[0], st)))); return None
    def h_generate(s, st, this, as_, n): s.events.append(('generate', s.read(st, this), s.ev(as_[0], st))); return Str(())
    def h_save(s, st, this, as_, n): st.v['$saved'] = st.v['$saved'].put(s.ev(as_[0], st), s.read(st, this)); return None
    p.assume_note('casadi::CodeGenerator writes one C function per added function, under its name, that evaluates it')
    for save in (True, False):
        with assume(ge(NF, 0)):
            ex = p.exec(u, {'add': h_add, 'generate': h_generate, 'save': h_save}); r = Obj('Robot', {'casadi_fun': m})
            st = State(); st.v.update(obj=r, arg0=sy('dir'), arg1=sy('file'), arg2=toC(save), **{'$saved': Map({})}); v, al = ex.call(f, st, [LV('arg%d' % i) for i in range(3)], LV('obj'))
            g = [e for e in ex.events if e[0] == 'generate']
            p.goal('the code is written once', toI(len(g)), toI(1))
            p.goal('to the given place, under the given name', Tup([g[0][1].f['name'], g[0][2]]), Tup([sy('file'), sy('dir')]))
            p.goal('every function, once', g[0][1].f['funs'], dense(NF, fu))
            p.goal('C++ with a header', Tup([g[0][1].f['opts'].get(S('cpp')), g[0][1].f['opts'].get(S('with_header'))]), Tup([TRUE, TRUE]))
            p.goal('every function is saved under its name exactly when asked', st.v['$saved'], Map({}, [('f', k, toI(0), NF, TRUE, cat(sy('dir'), '/', fname(k), '.casadi'), fu(k))]) if save else Map({}))
            p.goal('the robot is unchanged', st.v['obj'].f['casadi_fun'], m)
