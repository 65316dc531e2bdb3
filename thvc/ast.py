"""The C++ sources as clang sees them: every run dumps the AST of /repo's own files and reads it here.
What the reading drops: types' qualifiers, comments, and nodes that do not change values (parentheses, implicit
lvalue-to-rvalue, copy and base-class casts, temporaries)."""
import json, os, subprocess, hashlib
from concurrent.futures import ThreadPoolExecutor
from vlib import build
CLANG = 'clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
SKIP = {'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr'}
class Node:
    __slots__ = ('k', 't', 'name', 'op', 'val', 'ref', 'rid', 'rk', 'rt', 'c', 'line', 'id', 'x', 'file')
    def __repr__(s): return '%s %s' % (s.k, s.name or s.ref or s.op or s.val or '')
NARROW = ('short', 'unsigned short', 'unsigned char', 'signed char')
class Cur: line = 0; file = ''
def conv(o):
    if not o: return None
    k = o.get('kind')
    if not k: return None
    loc = o.get('range', {}).get('begin', {}) or {}
    loc = loc.get('expansionLoc', loc)
    if 'line' in loc: Cur.line = loc['line']
    line = Cur.line
    if k in SKIP and o.get('inner'): return conv(o['inner'][0])
    if k == 'ImplicitCastExpr':
        ck = o.get('castKind')
        ty = o.get('type', {}).get('desugaredQualType') or o.get('type', {}).get('qualType', '')
        if ck not in ('FloatingToIntegral',) and not (ck == 'FloatingCast' and ty.replace('const ', '') == 'float') and not (ck == 'IntegralCast' and ty.replace('const ', '') in NARROW): return conv(o['inner'][0])
    n = Node(); n.k = k; n.t = o.get('type', {}).get('qualType', ''); n.name = o.get('name'); n.op = o.get('opcode'); n.val = o.get('value')
    if o.get('type', {}).get('desugaredQualType'): n.x = o['type']['desugaredQualType']
    else: n.x = n.t
    r = o.get('referencedDecl') or {}
    n.ref = r.get('name'); n.rid = r.get('id'); n.rk = r.get('kind'); n.rt = r.get('type', {}).get('qualType')
    if k == 'CXXCtorInitializer': n.name = (o.get('anyInit') or {}).get('name')
    if k == 'MemberExpr': n.rid = o.get('referencedMemberDecl')
    if k in ('UnaryOperator',): n.val = 'post' if o.get('isPostfix') else 'pre'
    n.id = o.get('id'); n.line = line; n.file = None
    n.c = [conv(c) for c in o.get('inner', [])] if k != 'CXXRecordDecl' else [conv(c) for c in o.get('inner', [])]
    if k in ('VarDecl', 'FieldDecl', 'ParmVarDecl'): n.val = o.get('init'); n.op = 'static' if o.get('storageClass') == 'static' or o.get('tls') else 'mutable' if o.get('mutable') else None
    return n
def dump(path, incs, filt):
    incs = sorted(set(incs))
    pre = subprocess.run([CLANG, '-std=c++17', '-w', '-MM'] + ['-I' + i for i in incs] + [path], stdout=subprocess.PIPE, text=True).stdout
    deps = [d for d in pre.replace('\\\n', ' ').split()[1:] if d.startswith(build.REPO) or not d.startswith('/')]
    key = build._hash([d for d in deps if os.path.exists(d)] + [path], filt + ' '.join(incs) + '1')
    dst = os.path.join(build.CACHE, 'ast', os.path.basename(path) + '.' + key + '.json')
    def go(tmp):
        with open(tmp, 'w') as f:
            r = subprocess.run([CLANG, '-std=c++17', '-w', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + filt] + ['-I' + i for i in incs] + [path], stdout=f, stderr=subprocess.PIPE, text=True)
        if r.returncode: raise build.BuildError('clang %s\n%s' % (path, r.stderr[-2000:]))
    build._atomic(dst, go)
    return dst
def objs(f):
    s = open(f).read(); d = json.JSONDecoder(); i = 0
    while i < len(s):
        while i < len(s) and s[i].isspace(): i += 1
        if i >= len(s): break
        o, i = d.raw_decode(s, i); yield o
class Unit:
    """functions, records and constants of a set of files"""
    def __init__(s): s.funs = {}; s.recs = {}; s.vars = {}; s.byid = {}; s.protos = {}
    def written(s):
        """names of the variables some function of the unit may write (conservative; variables outside functions matter)"""
        if getattr(s, '_wr', None) is None or s._wrn != len(s.byid): s._wr = set(); s._wrn = len(s.byid)
        else: return s._wr
        MUT = {'push_back', 'emplace_back', 'clear', 'resize', 'insert', 'erase', 'swap', 'append', 'assign', 'emplace', 'pop_back', 'setZero', 'reserve', 'str', 'at', 'begin', 'data'}
        def root(n):
            while n is not None and n.k in ('MemberExpr', 'ArraySubscriptExpr', 'ParenExpr', 'ImplicitCastExpr', 'UnaryOperator', 'CXXOperatorCallExpr', 'CXXMemberCallExpr'):
                if not n.c: break
                n = n.c[1] if n.k == 'CXXOperatorCallExpr' and len(n.c) > 1 else n.c[0]
            return n
        def mark(n):
            r = root(n)
            if r is not None and r.k == 'DeclRefExpr' and r.rk == 'VarDecl': s._wr.add(r.ref)
        def go(n):
            if n is None: return
            if n.k in ('BinaryOperator', 'CompoundAssignOperator') and (n.op or '').endswith('=') and n.op not in ('==', '!=', '<=', '>='): mark(n.c[0])
            elif n.k == 'UnaryOperator' and n.op in ('++', '--', '&'): mark(n.c[0])
            elif n.k == 'CXXOperatorCallExpr' and n.c and n.c[0].ref in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator++', 'operator--', 'operator<<', 'operator>>', 'operator[]') and len(n.c) > 1:
                if not (n.c[0].ref == 'operator[]' and 'const' in (n.c[0].rt or '')): mark(n.c[1])
            elif n.k == 'CXXMemberCallExpr' and n.c and n.c[0].k == 'MemberExpr' and n.c[0].name in MUT and n.c[0].c: mark(n.c[0].c[0])
            elif n.k == 'CallExpr':
                for a in n.c[1:]:
                    if a is not None and a.k == 'DeclRefExpr': mark(a)
            for c in n.c: go(c)
        for l in s.funs.values():
            for f in l: go(f)
        return s._wr
    def add(s, path, incs, filt):
        f = dump(path, incs, filt); Cur.line = 0; s.cur = os.path.relpath(path, build.REPO)
        for o in objs(f): s.scan(conv(o), '')
    def scan(s, n, cls):
        if n is None: return
        if n.k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
            n.file = s.cur
            if n.id: s.byid[n.id] = n
            body = [c for c in n.c if c and c.k in ('CompoundStmt', 'CXXTryStmt')]
            if body:
                l = s.funs.setdefault(n.name, [])
                if not any(sig(x) == sig(n) and x.k == n.k for x in l): l.append(n)
            s.protos.setdefault(n.name, []).append(n)
            return
        if n.k == 'CXXRecordDecl':
            fs = [c for c in n.c if c and c.k == 'FieldDecl']
            if fs or n.name not in s.recs: s.recs.setdefault(n.name, []).append(n)
            for c in n.c: s.scan(c, n.name)
            return
        if n.k == 'VarDecl':
            if n.id: s.byid[n.id] = n
            if n.name: s.vars[n.name] = n
            return
        for c in n.c: s.scan(c, cls)
def sig(n): return n.t.replace('const ', '').replace('std::', '').replace(' &', '').replace('&', '')
def params(n): return [c for c in n.c if c and c.k == 'ParmVarDecl']
def body(n): return [c for c in n.c if c and c.k in ('CompoundStmt', 'CXXTryStmt')][-1]
LIBFILES = ['utils', 'FrameOffset', 'kinematics', 'dynamics', 'regressors', 'robot', 'userDefined']
_lib = None
def library():
    global _lib
    if _lib is None:
        incs = [build.CAS + '/include', build.SRC + '/library']
        paths = [build.SRC + '/src/%s.cpp' % f for f in LIBFILES]
        with ThreadPoolExecutor(8) as ex: list(ex.map(lambda p: dump(p, incs, 'thunder_ns'), paths))
        u = Unit()
        for p in paths: u.add(p, incs, 'thunder_ns')
        _lib = u
    return _lib
def show(n, ind=0, maxd=30):
    if n is None: print(' ' * ind + 'null'); return
    print(' ' * ind + ' '.join(str(x) for x in (n.k, n.name or '', n.op or '', 'val=%r' % n.val if n.val else '', 'ref=%s:%s' % (n.rk, n.ref) if n.ref else '', '[' + n.t[:60] + ']', n.line)))
    if ind < maxd * 2:
        for c in n.c: show(c, ind + 2, maxd)
if __name__ == '__main__':
    import sys
    u = library(); 
    if len(sys.argv) > 1: show(u.funs[sys.argv[1]][int(sys.argv[2]) if len(sys.argv) > 2 else 0])
    else: print(sorted(u.funs))
