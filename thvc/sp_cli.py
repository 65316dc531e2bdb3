"""The command line tool (thunder_main.cpp): which files `thunder gen` writes, from which robot, under which names.
argparse, std::filesystem and the clock are contracts; the library functions it calls are the contracts of their own obligations."""
import re
from .prove import *
from . import texts as X
from .sp_kin import *
from .sp_text import sy, cat, h_text
DIR, BASE, OPT, CWD, HOME = sy('cfg_dir'), sy('cfg_base'), sy('name_option'), sy('cwd'), sy('home')
PY, CAS_, CPY, NAMED, TDIR = [toC(patom(x)) for x in ('-p', '-f', '-c', '-n', 'templates installed')]; BUILD = str_eq(sy('filename:%r' % CWD), S('build'))
_u = None
def unit():
    global _u
    if _u is None:
        p = A.build.SRC + '/thunder_main.cpp'; t = re.sub(r'//[^\n]*|/\*.*?\*/', '', open(p).read(), flags=re.S)
        ns = sorted(set(re.findall(r'^[A-Za-z_][\w:<>&*\t ]*[\s&*](\w+)\s*\([^;{}()]*\)\s*\{', t, re.M)))
        incs = [A.build.CAS + '/include', A.build.SRC + '/library', A.build.find_argparse() or '/usr/include']
        with A.ThreadPoolExecutor(8) as ex: list(ex.map(lambda n: A.dump(p, incs, n), ns))
        _u = A.Unit()
        for n in ns: _u.add(p, incs, n)
        _u.globs = {}
        for n in ns:
            for f in _u.funs.get(n, []): globs(f, _u.globs)
        base = A.library(); _u.recs.setdefault('Robot', base.recs['Robot'])
    return _u
def globs(f, out):
    """variables of the file: they go by name in every function"""
    loc = set()
    def decl(n):
        if n is None: return
        if n.k in ('VarDecl', 'ParmVarDecl'): loc.add(n.id)
        for c in n.c: decl(c)
    decl(f)
    def go(n):
        if n is None: return
        if n.k == 'DeclRefExpr' and n.rk == 'VarDecl' and n.rid not in loc and n.ref not in ('cout', 'cerr', 'npos'): n.rid = 'glob:' + n.ref; out[n.rid] = (n.ref, n.t)
        for c in n.c: go(c)
    go(f)
def key(t):
    if isinstance(t, VIte): raise Unsupported('a path that depends on %r' % (t.c,))
    return repr(X.norm(t))
class Disk:
    """ghost state: the contents of every file written and the directories made; ins: what can be read"""
    def __init__(s, p, ins): s.p, s.ins = p, ins
    def get(s, st, k): return st.v['$disk'].base.get(k, s.ins.get(k))
    def put(s, st, k, v): m = dict(st.v['$disk'].base); m[k] = v; st.v['$disk'] = Map(m)
TPATH = '/usr/local/share/thunder_dynamics/thunder_robot_template/'
TFILES = ('thunder_robot.h', 'thunder_robot.cpp', 'CMakeLists.txt')
def contracts(p, d, cfg, name, fails=()):
    def ev(ex, st, a): return ex.ev(a, st)
    def args_(ex, st, a): return [ev(ex, st, x) for x in a]
    K = {}
    def c_get(ex, st, this, as_, n):
        o = ev(ex, st, as_[0]).lit() if as_ else None
        r = {'config_file': cfg, '--name': OPT, '-n': OPT, '--python': PY, '-p': PY, '--casadifunc': CAS_, '-f': CAS_, '--copy': CPY, '-c': CPY}.get(o)
        if r is None: raise Unsupported('option %s' % o)
        return r
    def c_used(ex, st, this, as_, n):
        o = ev(ex, st, as_[0]).lit(); return {'--name': NAMED, '-n': NAMED, '--python': PY, '-p': PY, '--casadifunc': CAS_, '-f': CAS_, '--copy': CPY, '-c': CPY}[o]
    K['get'] = c_get; K['is_used'] = c_used; K['parse_args'] = lambda ex, st, this, as_, n: None
    K['add_description'] = lambda ex, st, this, as_, n: None
    def c_sub(ex, st, this, as_, n): ex.events.append(('sub', ex.read(st, ex.lv(as_[0], st)))); return None
    K['add_subparser'] = c_sub
    def c_arg(ex, st, this, as_, n):
        v = [x.lit() for x in args_(ex, st, as_)]; a = Obj('Argument', {'names': Tup([S(x) for x in v])}); ex.events.append(('option', a)); return a
    K['add_argument'] = c_arg
    def c_more(f):
        def g(ex, st, this, as_, n):
            a = ex.read(st, this); a = a.put(f, ev(ex, st, as_[0]) if as_ and f != 'help' else TRUE); ex.events.append(('option', a)); return a
        return g
    for k in ('help', 'default_value', 'implicit_value', 'nargs', 'required', 'metavar'): K[k] = c_more(k)
    K['now'] = lambda ex, st, this, as_, n: Obj('time', {}); K['count'] = lambda ex, st, this, as_, n: toP(0)
    K['duration_cast'] = lambda ex, st, this, as_, n: Obj('time', {})
    K['getenv'] = lambda ex, st, this, as_, n: HOME
    K['current_path'] = lambda ex, st, this, as_, n: CWD
    def c_isdir(ex, st, this, as_, n): return TDIR if key(ev(ex, st, as_[0])) == key(S(TPATH)) else toC(patom('dir:' + key(ev(ex, st, as_[0]))))
    K['is_directory'] = K['exists'] = c_isdir
    def c_mkdir(ex, st, this, as_, n):
        d.put(st, key(ev(ex, st, as_[0])), S('directory')); return TRUE
    K['create_directory'] = K['create_directories'] = c_mkdir
    def c_copy(ex, st, this, as_, n):
        a, b = key(ev(ex, st, as_[0])), key(ev(ex, st, as_[1])); v = d.get(st, a)
        p.cond('an earlier file of the same name is overwritten', toC(len(as_) > 2 and 'overwrite_existing' in repr(flat(as_[2]))))
        if v is None: p.add('the copied file exists', False, '%s is copied before it is written' % a, True); return FALSE
        d.put(st, b, v); return TRUE
    K['copy_file'] = c_copy
    def c_rff(ex, st, this, as_, n):
        v = args_(ex, st, as_); p.goal('the robot is read from the given file, with its name', Tup(v[:2]), Tup([name, cfg]))
        p.cond('the model is computed', Not(eq(toI(v[2]) if not isinstance(v[2], C) else ind(v[2]), 0)) if len(v) > 2 else TRUE); return Obj('Robot', {'made': S('the robot')})
    K['robot_from_file'] = c_rff
    K['get_numJoints'] = lambda ex, st, this, as_, n: N
    def c_gen(ex, st, this, as_, n):
        v = args_(ex, st, as_); dr = v[0]; r = ex.read(st, this)
        p.cond('casadi functions are saved exactly when asked', eq(ind(asc(v[2])), ind(CAS_)) if len(v) > 2 else Not(CAS_))
        p.add('the directory exists before the library is generated', d.get(st, key(dr)) is not None, key(dr), True)
        for e in ('.cpp', '.h'): d.put(st, key(cat(dr, v[1], e)), Tup([S('functions' + e), r])); 
        return toI(1)
    K['generate_library'] = c_gen
    def c_change(ex, st, this, as_, n):
        v = args_(ex, st, as_); r = ex.read(st, ex.lv(as_[2], st)); h, c = key(v[3]), key(v[4]); ok = status_('change_to_robot', fails)
        for k, e in ((h, 'h'), (c, 'cpp')):
            d.put(st, k, Tup([S('rewritten'), d.get(st, k) or S('missing'), v[0], v[1], r, ind(asc(v[5]) if len(v) > 5 else FALSE), S(h), S(c)]))
        return ok
    K['change_to_robot'] = c_change
    def c_cmake(ex, st, this, as_, n):
        v = args_(ex, st, as_); k = key(v[2]); d.put(st, k, Tup([S('renamed'), d.get(st, k) or S('missing'), v[0], v[1]])); return status_('update_cmake', fails)
    K['update_cmake'] = c_cmake
    for f in ('save_conf', 'save_par_REG'):
        def c_save(ex, st, this, as_, n, f=f): d.put(st, key(ev(ex, st, as_[0])), Tup([S(f), ex.read(st, this)])); return toI(1)
        K[f] = c_save
    return K
def status_(nm, fails): return toI(0 if nm in fails else 1)
def asc(v): return v if isinstance(v, C) else Not(eq(toI(v), 0))
def flat(n):
    if n is None: return []
    return [n] + [y for c in n.c for y in flat(c)]
def files(name, dr, cpy, py, build_):
    """what `thunder gen` leaves behind"""
    r = Obj('Robot', {'made': S('the robot')}); g = cat(dr, name); h, c = cat(dr, 'thunder_', name, '.h'), cat(dr, 'thunder_', name, '.cpp'); o = {}
    def w(k, v): o[key(k)] = v
    w(dr, S('directory'))
    w(cat(g, '_gen.cpp'), Tup([S('functions.cpp'), r])); w(cat(g, '_gen.h'), Tup([S('functions.h'), r]))
    for k, t in ((h, 'thunder_robot.h'), (c, 'thunder_robot.cpp')): w(k, Tup([S('rewritten'), S('template ' + t), S('robot'), name, r, toI(1 if py else 0), S(key(h)), S(key(c))]))
    if py: w(cat(dr, 'CMakeLists.txt'), Tup([S('renamed'), S('template CMakeLists.txt'), S('robot'), name]))
    w(cat(g, '_conf.yaml'), Tup([S('save_conf'), r])); w(cat(g, '_par_REG.yaml'), Tup([S('save_par_REG'), r]))
    if cpy:
        pre = cat(CWD, '/../../../') if build_ else S('/home/thunder_dev/thunder_dynamics/')
        for q in ('src/thunder_robot/', 'src/thunder_robot_chrono/'): o.update(copied(o, name, dr, cat(pre, q, 'robots/'), cat(pre, q, 'robots/'), cat(pre, q, 'library/'), cat(pre, q, 'src/')))
    return o
def copied(o, name, dr, conf, par, h, c):
    n = {}
    for a, to in ((cat(name, '_gen.h'), h), (cat(name, '_gen.cpp'), c), (cat(name, '_par_REG.yaml'), par), (cat(name, '_conf.yaml'), conf), (cat('thunder_', name, '.h'), h), (cat('thunder_', name, '.cpp'), c)): n[key(cat(to, a))] = o[key(cat(dr, a))]
    return n
def written(p, what, got, want):
    for k in want:
        if k not in got: p.missing('%s: %s is written' % (what, show(k))); continue
        a, b = leaves(got[k]), leaves(want[k])
        if [type(x) for x in a] != [type(x) for x in b]: p.add('%s: %s' % (what, show(k)), False, '%r instead of %r' % (got[k], want[k]), True); continue
        for i, (x, y) in enumerate(zip(a, b)): p.goal('%s: %s%s' % (what, show(k), ', part %d' % i if i else ''), x, y)
    x = [k for k in got if k not in want]; p.add('%s: nothing else is written' % what, not x, ', '.join(map(show, x)), True)
def leaves(v): return [y for x in v.x for y in leaves(x)] if isinstance(v, Tup) else [v]
def show(k): return re.sub(r"\('sym', '(\w+)', \(\)\)|', |, '|'|Str\(|,?\)$", r'\1', k)[:120]
def run_main(p, cfg, name, fails=()):
    u = unit(); f = [x for x in u.funs['main']][0]; d = Disk(p, {key(S(TPATH + t)): S('template ' + t) for t in TFILES})
    ex = p.exec(u, contracts(p, d, cfg, name, fails)); ex.structs = dict(ex.structs, ArgumentParser=lambda s: Obj('ArgumentParser', {}), Argument=lambda s: Obj('Argument', {})); st = State(); st.v['$disk'] = Map({})
    for k, (nm, t) in u.globs.items(): st.v[k] = sy('glob_' + nm) if 'string' in t else toC(patom('glob_' + nm)) if t == 'bool' else ifun('glob_' + nm)
    ls = []
    for i, a in enumerate(A.params(f)): st.v['arg%d' % i] = ifun('argc') if i == 0 else Obj('argv', {}); ls.append(LV('arg%d' % i))
    v, al = ex.call(f, st, ls, None)
    if not decide(al): raise Unsupported('main may not return normally')
    opts = {}
    for e in ex.events:
        if e[0] == 'option':
            for x in e[1].f['names'].x: opts[x.lit()] = e[1]
    for o in ('config_file', '-n', '--name'): p.add('option %s is declared, without a default' % o, o in opts and 'default_value' not in opts[o].f, repr(opts.get(o)), True)
    for o in ('-p', '--python', '-f', '--casadifunc', '-c', '--copy'):
        a = opts.get(o); p.add('option %s is declared' % o, a is not None, '', True)
        if a is not None: p.cond('%s is off when not given, on when given' % o, And(Not(asc(a.f.get('default_value', TRUE))), asc(a.f.get('implicit_value', FALSE))))
    return v, st.v['$disk'].base
X.WORDS |= {'cfg_base', 'name_option'}; X.NOSLASH |= {'cfg_base'}
@ob(('C16', 'C18'), 'thunder gen')
def o_main(p):
    p.assume_note('argparse returns what the command line says; the configuration file is called <name>.yaml, in a directory or not')
    for where, cfg in (('a file in a directory', cat(DIR, '/', BASE, '.yaml')), ('a file here', cat(BASE, '.yaml'))):
        for named in (False, True):
            for py in (False, True):
                for cpy in (None, False, True):
                    if cpy is not None and (py or named): continue
                    bd = bool(cpy); name = OPT if named else BASE; dr = cat(CWD, '/', name, '_generatedFiles/')
                    w = '%s%s%s%s' % (where, ', --name' if named else '', ', --python' if py else '', '' if cpy is None else ', --copy (%s)' % ('in build' if bd else 'elsewhere'))
                    with assume(TDIR, NAMED if named else Not(NAMED), PY if py else Not(PY), CPY if cpy is not None else Not(CPY), BUILD if bd else Not(BUILD)):
                        v, fs = run_main(p, cfg, name); written(p, w, fs, files(name, dr, cpy is not None, py, bd))
    seen = set(); p.goals[:] = [g for g in p.goals if g[1] != 'discharged' or not (g[0] in seen or seen.add(g[0]))]
