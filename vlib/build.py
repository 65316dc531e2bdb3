"""Builds the harnesses against /repo's current working tree (never a copy of the sources:
g++ is given /repo's own files) and talks to them.  Object files are cached by the hash of
everything they are made from, under /verif/.cache (git-ignored, recreated when missing)."""
import threading, hashlib, os, subprocess, glob, shutil, sys, tempfile, re, time
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('THVC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CAS = '/opt/thunder_deps/py/casadi'
CACHE = os.path.join(VERIF, '.cache')
SRC = REPO + '/src/thunder'
TEMPLATE = SRC + '/thunder_robot_template'
ARGP = None
for p in ('/usr/include/argparse/argparse.hpp',):
    if os.path.exists(p): ARGP = '/usr/include'

class BuildError(Exception): pass
class Dead(Exception):
    def __init__(self, what, proc): self.what = what; self.proc = proc; Exception.__init__(self, what)

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def _hash(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def scratch(tag):
    base = os.path.join(CACHE, 'scratch'); os.makedirs(base, exist_ok=True)
    return tempfile.mkdtemp(prefix=tag + '_', dir=base)

def _atomic(dst, produce):
    """produce(tmp) creates tmp; rename into place"""
    if os.path.exists(dst): return dst
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    tmp = dst + '.%d.tmp' % os.getpid()
    produce(tmp)
    os.replace(tmp, dst)
    return dst

def _compile(src, flags, dst):
    def go(tmp):
        r = sh(['g++', '-std=c++17', '-w'] + flags + ['-c', src, '-o', tmp])
        if r.returncode != 0: raise BuildError('g++ %s\n%s' % (src, r.stdout[-4000:]))
    return _atomic(dst, go)

def prune(maxn=400):
    """keep the cache bounded"""
    fs = sorted(glob.glob(CACHE + '/obj/*'), key=os.path.getmtime)
    for f in fs[:-maxn]:
        try: os.remove(f)
        except OSError: pass

def _objs(srcs, flags, headers, tag):
    hh = _hash(headers, ' '.join(flags))
    jobs = []
    for s in srcs:
        k = _hash([s], hh + tag)
        jobs.append((s, os.path.join(CACHE, 'obj', os.path.basename(s) + '.' + k + '.o')))
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: _compile(j[0], flags, j[1]), jobs))

def _link(objs, dst, libs):
    def go(tmp):
        r = sh(['g++', '-o', tmp] + objs + libs)
        if r.returncode != 0: raise BuildError('link\n' + r.stdout[-4000:])
    return _atomic(dst, go)

LIBS = ['-L' + CAS, '-lcasadi', '-lyaml-cpp', '-Wl,-rpath,' + CAS]
HDRS = lambda: glob.glob(SRC + '/library/*.h') + glob.glob(SRC + '/src/*.h')
def lib_srcs(): return sorted(glob.glob(SRC + '/src/*.cpp'))
INC = ['-O0', '-I' + CAS + '/include', '-I' + SRC + '/library']

FEATURES = ('INT', 'CMP', 'UPD', 'UTL', 'FRM', 'TXT')
def _harness_obj(flags, tag):
    """the interpreter, with every group of commands that compiles against the working tree"""
    hs = VERIF + '/harness/h_lib.cpp'
    D = lambda fs: flags + ['-DH_' + f for f in fs]
    try: return _objs([hs], D(FEATURES), HDRS(), tag)
    except BuildError: pass
    def ok(f):
        try: _objs([hs], D([f]), HDRS(), tag); return f
        except BuildError: return None
    with ThreadPoolExecutor(6) as ex: fs = [f for f in ex.map(ok, FEATURES) if f]
    return _objs([hs], D(fs), HDRS(), tag)

def _build_lib(flags, tag, out, libs):
    with ThreadPoolExecutor(2) as ex:
        h = ex.submit(_harness_obj, flags, tag); o = ex.submit(_objs, lib_srcs(), flags, HDRS(), tag)
        objs = o.result() + h.result()
    return _link(objs, os.path.join(CACHE, 'bin', out + '.' + _hash(objs)), libs)

def build_lib():
    """harness linked with the library of the working tree"""
    return _build_lib(INC, 'lib', 'h_lib', LIBS)

def build_asan():
    return _build_lib(INC + ['-g', '-fsanitize=address', '-fno-omit-frame-pointer'], 'asan', 'h_asan', LIBS + ['-fsanitize=address'])

def build_cli():
    """the thunder command of the working tree, its template path redirected to the working tree's template"""
    main = SRC + '/thunder_main.cpp'
    t = open(main).read()
    t2 = t.replace('/usr/local/share/thunder_dynamics/thunder_robot_template/', TEMPLATE + '/')
    k = hashlib.sha256(t2.encode()).hexdigest()[:16]
    os.makedirs(CACHE + '/gen', exist_ok=True)
    f = CACHE + '/gen/thunder_main_%s.cpp' % k
    if not os.path.exists(f):
        open(f + '.tmp%d' % os.getpid(), 'w').write(t2); os.replace(f + '.tmp%d' % os.getpid(), f)
    inc = INC + ['-I' + SRC]
    a = find_argparse()
    if a: inc = inc + ['-I' + a]
    objs = _objs(lib_srcs(), INC, HDRS(), 'lib') + _objs([f], inc, HDRS(), 'cli')
    return _link(objs, os.path.join(CACHE, 'bin', 'thunder.' + _hash(objs)), LIBS + ['-lstdc++fs'])

def find_argparse():
    for d in ('/opt/vp/cmake/argparse', '/opt/thunder_deps', '/usr/include', '/usr/local/include'):
        for c in (d, d + '/include'):
            if os.path.exists(c + '/argparse/argparse.hpp'): return c
    t = ''
    try: t = open('/opt/vp/cmake/argparse/CMakeLists.txt').read()
    except OSError: pass
    for m in re.findall(r'(/[\w./-]+)', t):
        for c in (m, m + '/include'):
            if os.path.exists(c + '/argparse/argparse.hpp'): return c
    return None

def build_gyaml():
    g = REPO + '/src/genYAML'
    fl = ['-O0', '-I' + g + '/library']
    objs = _objs([g + '/src/urdf2dh_inertial.cpp', VERIF + '/harness/h_gyaml.cpp'], fl, glob.glob(g + '/library/*.h'), 'gy')
    return _link(objs, os.path.join(CACHE, 'bin', 'h_gyaml.' + _hash(objs)), [])

def build_genyaml_main():
    """the program of src/genYAML (reads yaml/inertial.yaml, writes ../generatedFiles/inertial_DH*.yaml)"""
    g = REPO + '/src/genYAML'
    objs = _objs([g + '/src/urdf2dh_inertial.cpp', g + '/main_YAML.cpp'], ['-O0', '-I' + g, '-I' + g + '/library'], glob.glob(g + '/library/*.h'), 'gym')
    return _link(objs, os.path.join(CACHE, 'bin', 'genyaml.' + _hash(objs)), LIBS + ['-lstdc++fs'])

def run_cli(yaml_path, workdir, name=None, extra=()):
    cli = build_cli()
    cmd = [cli, 'gen'] + list(extra) + (['-n', name] if name else []) + [yaml_path]
    r = subprocess.run(cmd, cwd=workdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=240)
    return r

GEN_GETTER = re.compile(r'\bget_(\w+)\s*\(\s*\)\s*;')
def build_gen(gdir, name):
    """compile a generated class together with a command interpreter over its public (and private) interface"""
    h = os.path.join(gdir, 'thunder_%s.h' % name)
    txt = open(h).read()
    txt_nc = re.sub(r'//[^\n]*|/\*.*?\*/', '', txt, flags=re.S)
    fixed = {'par_REG', 'par_DYN', 'par_K', 'par_D', 'par_Dm', 'par_Mm', 'par_Dl', 'par_DHtable', 'par_gravity',
             'par_world2L0', 'par_Ln2EE', 'numJoints', 'numParDYN', 'numParREG'}
    getters = [g for g in GEN_GETTER.findall(txt_nc) if g not in fixed]
    with open(os.path.join(gdir, 'getters.inc'), 'w') as f:
        for g in getters:
            f.write('else if(n=="%s") pmat(r->get_%s());\n' % (g, g))
    with open(os.path.join(gdir, 'getlist.inc'), 'w') as f:
        for g in getters: f.write('fprintf(OUT,"V %s"); pmat(r->get_%s());\n' % (g, g))
    gen = os.path.join(gdir, name + '_gen.cpp')
    cpp = os.path.join(gdir, 'thunder_%s.cpp' % name)
    fl = ['-O0', '-I' + gdir, '-DCLS=thunder_' + name, '-DHDR="thunder_%s.h"' % name]
    hs = VERIF + '/harness/h_gen.cpp'
    objs = [os.path.join(gdir, x) for x in ('a.o', 'b.o', 'c.o')]
    def one(p):
        r = sh(['g++', '-std=c++17', '-w'] + fl + ['-c', p[0], '-o', p[1]])
        if r.returncode: raise BuildError('generated class of robot %s does not compile\n' % name + r.stdout[-3000:])
    with ThreadPoolExecutor(3) as ex: list(ex.map(one, zip((gen, cpp, hs), objs)))
    out = os.path.join(gdir, 'h_gen')
    r = sh(['g++', '-o', out] + objs + ['-lyaml-cpp'])
    if r.returncode: raise BuildError(r.stdout[-3000:])
    return out, getters

class Proc:
    """one interpreter process; ask() sends a command and returns its output lines"""
    def __init__(self, exe, cwd=None, env=None):
        self.exe = exe; self.cwd = cwd; self.env = env; self.n = 0; self.log = []
        self.start()
    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, text=True, cwd=self.cwd, env=self.env)
    def ask(self, cmd, timeout=60):
        """the output lines of one command; Dead when the process ends or does not answer"""
        self.n += 1; self.log.append(cmd); self.last = ''
        try:
            self.p.stdin.write('%d %s\n' % (self.n, cmd)); self.p.stdin.flush()
        except BrokenPipeError:
            self.p.wait(); raise Dead('the program ended (exit status %s) before: %s' % (self.p.returncode, cmd[:200]), self)
        t = threading.Timer(timeout, self._kill); t.daemon = True; self.hung = False; t.start()
        try:
            out = []; first = True
            while True:
                l = self.p.stdout.readline()
                if l == '':
                    self.p.wait()
                    raise Dead(('no answer within %d s to: %s' % (timeout, cmd[:200])) if self.hung else 'the program ended (exit status %s) on: %s' % (self.p.returncode, cmd[:200]), self)
                l = l.rstrip('\n')
                if first:
                    l = l.split(' ', 2); l = l[2] if len(l) > 2 else ''
                    first = False; self.last = l
                elif l == 'E': return out
                out.append(l)
        finally: t.cancel()
    def _kill(self):
        self.hung = True
        try: self.p.kill()
        except OSError: pass
    def stderr(self):
        self.err.seek(0); return self.err.read().decode(errors='replace')[-3000:]
    def close(self):
        try: self.p.stdin.close(); self.p.wait(timeout=5)
        except Exception: self.p.kill()
