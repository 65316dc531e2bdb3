"""Symbolic execution of the functions read by ast.py.  Callees with a contract are replaced by it, the others are entered.
Loops whose number of iterations is not a small constant are replaced by an invariant in closed form (loops.py) that is
checked here: it holds on entry and is preserved by the body."""
import re, sys
from .values import *
from . import ast as A
UNROLL = 16

class LV:
    """a place: root variable and path of ('f',field) ('x',index) ('m',key) ('e',i,j) ('l',k) ('b',i0,ni,j0,nj) ('t',k)"""
    __slots__ = ('root', 'path')
    def __init__(s, root, path=()): s.root = root; s.path = tuple(path)
    def __add__(s, p): return LV(s.root, s.path + (p,))
    def __repr__(s): return 'LV(%s%r)' % (s.root, s.path)
class State:
    def __init__(s, v=None): s.v = dict(v or {})
    def copy(s): return State(s.v)
class Iter:
    """position in a sequence"""
    __slots__ = ('seq', 'off', 'lv')
    def __init__(s, seq, off, lv=None): s.seq = seq; s.off = toI(off); s.lv = lv
class MapIt:
    """position in a map: of a key, or the end"""
    __slots__ = ('m', 'key', 'lv')
    def __init__(s, m, key, lv): s.m = m; s.key = key; s.lv = lv
class Lam:
    def __init__(s, n): s.n = n
class Stream:
    def __init__(s, name): s.name = name
class CommaInit:
    def __init__(s, lv, vals): s.lv = lv; s.vals = vals
class Ret(tuple): pass
class Frame:
    def __init__(s): s.base = len(Ctx.stack); s.rets = []; s.throws = []; s.brk = []; s.cnt = []

TC = {}
def tclean(t):
    r = TC.get(t)
    if r is None:
        r = re.sub(r'\b(const|class|struct|volatile)\b', '', t).replace('&', '').strip()
        r = re.sub(r'\s+', ' ', r); TC[t] = r
    return r
def isvec(t): return t.startswith(('std::vector', 'vector', 'casadi::SXVector', 'SXVector', 'std::initializer_list'))
def issx(t): return t in ('casadi::SX', 'SX', 'Matrix<SXElem>', 'casadi::Matrix<SXElem>', 'casadi::Matrix<casadi::SXElem>') or t.startswith(('SubMatrix', 'casadi::SubMatrix', 'SubIndex'))
def isstr(t): return t in ('std::string', 'string', 'key_type', 'std::filesystem::path', 'filesystem::path', 'fs::path', 'path', '__detail::_Path<basic_string<char>>') or t.startswith(('std::basic_string', 'basic_string', 'std::__cxx11::basic_string'))
def iseig(t): return 'Eigen::' in t or re.match(r'(Matrix|CwiseBinaryOp|Block|Transpose|VectorBlock|Product|PlainObject)\b', t) is not None and 'SXElem' not in t
CORNERS = ('block', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows', 'middleCols')
def fixedsize(n):
    """the sizes of a fixed-size Eigen block, from its type"""
    m = re.search(r'(?:VectorBlock<.*?,\s*(\d+)|Block<.*,\s*(\d+),\s*(\d+)(?:,\s*(?:true|false))?)\s*>$', n.x or '') or re.search(r'FixedSegmentReturnType<(\d+)>|FixedBlockXpr<(\d+),\s*(\d+)>', n.t or '')
    if not m: raise Unsupported('fixed-size block of type %s' % n.x)
    return [toI(int(x)) for x in m.groups() if x]
def corner(m, b, a, n):
    """first row, rows, first column, columns of an Eigen block"""
    z = toI(0)
    if m == 'block':
        f = [] if len(a) == 4 else fixedsize(n); return (a[0], (a[2:] or f)[0], a[1], (a[2:] or f)[1])
    if m.endswith('Corner'):
        r, c = a or fixedsize(n); return (z if m.startswith('top') else b.r - r, r, z if 'Left' in m else b.c - c, c)
    if m in ('middleRows', 'middleCols'):
        if len(a) != 2: raise Unsupported('fixed-size ' + m)
        return (a[0], a[1], z, b.c) if 'Rows' in m else (z, b.r, a[0], a[1])
    if not a: raise Unsupported('fixed-size ' + m)
    return {'topRows': (z, a[0], z, b.c), 'bottomRows': (b.r - a[0], a[0], z, b.c), 'leftCols': (z, b.r, z, a[0]), 'rightCols': (z, b.r, b.c - a[0], a[0])}[m]
def isint(t): return t in ('int', 'long', 'size_t', 'unsigned int', 'unsigned long', 'long long', 'casadi_int', 'std::size_t', 'casadi::casadi_int', 'Eigen::Index', 'Index', 'size_type', 'std::vector::size_type', 'std::string::size_type', 'uint', 'unsigned')
SMALL = ('short', 'unsigned short', 'unsigned char', 'signed char', 'uint8_t', 'int8_t', 'uint16_t', 'int16_t', 'std::uint8_t', 'std::int8_t', 'std::uint16_t', 'std::int16_t')
def single(v):
    """a real stored with single precision"""
    v = toP(v.scalar() if isinstance(v, Mat) else v)
    return v if v.const() is not None and v.const() == Q(int(v.const())) and abs(v.const()) < 2 ** 24 else fn('f32', v)
def narrow(v, t):
    """the elements of a range copied into a vector of t"""
    t = t.replace('const ', '').strip()
    if t in SMALL: raise Unsupported('values stored in %s' % t)
    if t == 'float': return dense(v.size(), lambda i: single(v.get(i)))
    if isint(t):
        w = ivar('e', 0, None)
        with assume(ge(w, 0), lt(w, v.size())):
            if isinstance(v.get(w), Poly): toI(v.get(w))
    return v
def isreal(t): return t in ('double', 'float', 'Scalar')
def eigshape(t):
    """fixed shape of an Eigen type, None where dynamic"""
    m = re.search(r'(Vector|RowVector|Matrix)(\d|X)d\b', t)
    if m:
        k = None if m.group(2) == 'X' else int(m.group(2))
        return {'Vector': (k, 1), 'RowVector': (1, k), 'Matrix': (k, k)}[m.group(1)]
    m = re.search(r'Matrix<\s*(?:double|float)\s*,\s*(-?\w+)\s*,\s*(-?\w+)', t)
    if m:
        f = lambda x: int(x) if x.isdigit() else None
        return f(m.group(1)), f(m.group(2))
    return None
_fresh = itertools.count(1)
def opaque_mat(r, c, name=None):
    name = name or 'undef%d' % next(_fresh)
    return Mat.gen(r, c, lambda i, j: rvar(name, i, j))

def toIdx(x):
    if isinstance(x, (I, int)): return toI(x)
    if isinstance(x, Poly) or isinstance(x, Mat): return toI(toP(x))
    if isinstance(x, C): return ind(x)
    raise Unsupported('index %r' % (x,))
def asC(v):
    if isinstance(v, C): return v
    if isinstance(v, bool): return toC(v)
    if isinstance(v, (I, int)): return Not(eq(v, 0))
    if isinstance(v, YNode): return yexists(v)
    if isinstance(v, Map): return TRUE
    if isinstance(v, Poly):
        k = v.const()
        if k is not None: return TRUE if k else FALSE
        return patom('rnz', v)
    if isinstance(v, VIte): return Or(And(v.c, asC(v.a)), And(Not(v.c), asC(v.b)))
    raise Unsupported('condition %r' % (v,))
# ---------------------------------------------------------------- YAML places
def ykey(n):
    """name of the place and its indices"""
    nm = []; ix = []
    for x in n.p:
        if isinstance(x, Str):
            for q in x.p:
                if isinstance(q, str): nm.append(q)
                elif q[0] == 'sym': nm.append('<%s>' % q[1]); ix += list(q[2])
                else: nm.append('#'); ix.append(q[1] if q[0] == 'int' else None)
            nm.append('/')
        else: nm.append('*/'); ix.append(x[1])
    if any(i is None for i in ix): raise Unsupported('YAML place %r' % n)
    return ''.join(nm), tuple(ix)
def kmap(nm, v):
    """a map with one entry per index, at pairwise different keys: the text nm of the index"""
    return Obj('KMap', {'v': v, 'key': Str((nm,))})
def kmap_at(o, k):
    if not isinstance(k, Str) or len(k.p) != 1 or isinstance(k.p[0], str) or k.p[0][0] != 'sym' or k.p[0][1] != o.f['key'].lit() or len(k.p[0][2]) != 1: raise Unsupported('key %r' % (k,))
    return k.p[0][2][0]
YIMPLIED = {}          # places a well-formed file has exactly when the condition holds
YPRESENT = set()       # places a well-formed file always has (filled by the specifications)
YDOC = {}              # text of the path -> the document written there earlier in the obligation
def ydoc(n):
    """(condition that the place exists, what the written document holds there); None when the document is not a written one"""
    if '' not in YDOC: return None
    v, c = YDOC[''], TRUE
    for x in n.p:
        if isinstance(x, Str):
            if not isinstance(v, Map): return FALSE, None
            r = v.find(x)
            if not r: return FALSE, None
            if len(r) != 1: raise Unsupported('ambiguous place %r of a written document' % n)
            c = And(c, r[0][0]); v = r[0][1]
        else: v = yentry(v, x[1])[1]
    return c, v
def yentry(d, i):
    """the i-th (key, value) of a written map"""
    if not isinstance(d, Map) or d.base or len(d.log) != 1 or d.log[0][0] != 'f' or d.log[0][4] is not TRUE or not decide(eq(d.log[0][2], 0)): raise Unsupported('order of %r' % d)
    e = d.log[0]; return Str(tuple(vsubst(e[5], {e[1]: toI(i)}).p)), vsubst(e[6], {e[1]: toI(i)})
def yexists(n):
    d = ydoc(n)
    if d is not None: return d[0]
    k, ix = ykey(n)
    if k in YPRESENT: return TRUE
    if k in YIMPLIED: return YIMPLIED[k](*ix)
    return patom('yex', k, *ix)
def ylen(n):
    d = ydoc(n)
    if d is not None:
        if isinstance(d[1], Vec): return d[1].size()
        if not isinstance(d[1], Map): raise Unsupported('size of %r' % (d[1],))
        if d[1].base and not d[1].log: return toI(len(d[1].base))
        yentry(d[1], 0); return d[1].log[0][3]
    k, ix = ykey(n); return ifun('Ylen:' + k, *ix)
def yas(n, t):
    t = tclean(t); k, ix = ykey(n)
    if not decide(yexists(n)): raise Unsupported('reads %s, which a well-formed file may lack' % k)
    d = ydoc(n)
    if d is not None:
        if t == 'float' or 'float' in t: raise Unsupported('single precision')
        if isreal(t): return toP(d[1])
        if 'vector' in t and isinstance(d[1], Vec) and isreal(re.match(r'(?:std::)?vector<(.*?)>?$', t).group(1).split(',')[0].strip().rstrip('>').strip()): return d[1]
        raise Unsupported('YAML as<%s> of a written document' % t)
    if t == 'float': return single(rvar('Y:' + k, *ix))
    if isreal(t): return rvar('Y:' + k, *ix)
    if isint(t): return ifun('Yi:' + k, *ix)
    if t == 'bool': return patom('Yb', k, *ix)
    if isstr(t): return Str((('sym', 'Ys:' + k, ix),))
    m = re.match(r'(?:std::)?vector<(.*?)>?$', t)
    if m:
        e = m.group(1).split(',')[0].strip().rstrip('>').strip()
        L = ylen(n)
        if e == 'float': return dense(L, lambda q: single(rvar('Yv:' + k, *ix, q)))
        if isreal(e): return dense(L, lambda q: rvar('Yv:' + k, *ix, q))
        if isint(e): return dense(L, lambda q: ifun('Yvi:' + k, *ix, q))
        if 'string' in e:
            if k == 'type_joints/': return dense(L, lambda q: Str((('sym', 'jt', ix + (q,)),)))
            return dense(L, lambda q: Str((('sym', 'Yvs:' + k, ix + (q,)),)))
    raise Unsupported('YAML as<%s>' % t)

class Exec:
    def __init__(s, unit, contracts=None, hints=(), structs=None):
        s.u = unit; s.contracts = dict(CONTRACTS); s.contracts.update(contracts or {}); s.hints = list(hints); s.hint_sel = None
        s.unroll = UNROLL; s.check = True; s.obs = []; s.derefs = set(); s.entered = set(); s.used = set(); s.depth = 0; s.frames = []; s.structs = structs or {}; s.prints = []; s.nloops = 0; s.names = {}; s.verbose = 0; s.events = []; s.cur = []; s.wlog = None; s.consts = {}
    # ------------------------------------------------------------ places
    def read(s, st, lv):
        if lv.root not in st.v: raise Unsupported('unknown variable %s' % lv.root)
        v = st.v[lv.root]
        for p in lv.path: v = s.step(v, p)
        return v
    def step(s, v, p):
        if isinstance(v, VIte):
            v2 = None
            if decide(v.c): v2 = v.a
            elif decide(Not(v.c)): v2 = v.b
            if v2 is not None: return s.step(v2, p)
            with assume(v.c): a = s.step(v.a, p)
            with assume(Not(v.c)): b = s.step(v.b, p)
            return vite(v.c, a, b)
        k = p[0]
        if k == 'f':
            if isinstance(v, Obj): return v.f.get(p[1], UNDEF)
            raise Unsupported('field %s of %r' % (p[1], v))
        if k == 'x':
            if isinstance(v, Vec):
                s.inrange(p[1], v.size(), 'vector'); return v.get(p[1])
            if isinstance(v, Mat): return s.step(v, ('l', p[1]))
            raise Unsupported('element of %r' % (v,))
        if k == 'm':
            if isinstance(v, Map): return v.get(p[1])
            raise Unsupported('key of %r' % (v,))
        if k == 't': return v.x[p[1]]
        if isinstance(v, (Poly, I)): v = toM(toP(v))
        if k == 'e':
            s.inrange(p[1], v.r, 'row'); s.inrange(p[2], v.c, 'column'); return v.get(p[1], p[2])
        if k == 'l': s.inrange(p[1], v.numel(), 'entry'); return v.lin(p[1])
        if k == 'b':
            i0, ni, j0, nj = s.blk(v, p)
            return v.block(i0, ni, j0, nj)
        raise Unsupported('step %r' % (p,))
    def blk(s, v, p):
        i0, ni, j0, nj = p[1:]
        if i0 is None: i0, ni = toI(0), v.r
        if j0 is None: j0, nj = toI(0), v.c
        if s.check and not (decide(ge(i0, 0)) and decide(le(i0 + ni, v.r)) and decide(ge(j0, 0)) and decide(le(j0 + nj, v.c))): raise Unsupported('block %r of %r may be out of range' % (p, v))
        return i0, ni, j0, nj
    def inrange(s, i, n, what):
        i = toI(i)
        if not s.check: return      # a trial: the check comes later
        if not decide(And(ge(i, 0), lt(i, n))): raise Unsupported('%s %r may be outside [0,%r)' % (what, i, n))
    def write(s, st, lv, val):
        if lv.root not in st.v: raise Unsupported('unknown variable %s' % lv.root)
        if val is UNDEF: raise Unsupported('use of an undefined value')
        if s.wlog is not None: s.wlog.append((lv.root, lv.path))
        st.v[lv.root] = s.upd(st.v[lv.root], lv.path, val)
    def upd(s, v, path, val):
        if not path: return s.fit(v, val)
        p, rest = path[0], path[1:]
        if isinstance(v, VIte):
            if decide(v.c): return s.upd(v.a, path, val)
            if decide(Not(v.c)): return s.upd(v.b, path, val)
            with assume(v.c): a = s.upd(v.a, path, val)
            with assume(Not(v.c)): b = s.upd(v.b, path, val)
            return vite(v.c, a, b)
        k = p[0]
        if k == 'f': return v.put(p[1], s.upd(v.f.get(p[1], UNDEF), rest, val))
        if k == 'x':
            if isinstance(v, Mat): return s.upd(v, (('l', p[1]),), val)
            s.inrange(p[1], v.size(), 'vector')
            return v.set(p[1], s.upd(v.get(p[1]) if rest else UNDEF, rest, val))
        if k == 'm':
            if not isinstance(v, Map): raise Unsupported('key write to %r' % (v,))
            return v.put(p[1], s.upd(v.get(p[1]), rest, val) if rest else val)
        if k == 't': return Tup([s.upd(x, rest, val) if i == p[1] else x for i, x in enumerate(v.x)])
        if rest: raise Unsupported('nested matrix place %r' % (path,))
        v = toM(v)
        if k == 'l':
            i = toI(p[1]); s.inrange(i, v.numel(), 'entry')
            if v.c.const() == 1: p = ('e', i, toI(0))
            elif v.r.const() == 1: p = ('e', toI(0), i)
            else: p = ('e', imod(i, v.r), idiv(i, v.r))
            k = 'e'
        if k == 'e':
            s.inrange(p[1], v.r, 'row'); s.inrange(p[2], v.c, 'column'); x = toP(s.num(val))
            return v.setblock(p[1], 1, p[2], 1, lambda a, b: x)
        if k == 'b':
            i0, ni, j0, nj = s.blk(v, p)
            if scalarish(val) and not (ni.const() == 1 and nj.const() == 1): x = toP(val); return v.setblock(i0, ni, j0, nj, lambda a, b: x)
            m = toM(val)
            if not (same(m.r, ni) and same(m.c, nj)):
                if same(m.r, nj) and same(m.c, ni) and (m.r.const() == 1 or m.c.const() == 1): m = m.T()
                else: raise Unsupported('block %rx%r assigned from %r' % (ni, nj, m))
            return v.setblock(i0, ni, j0, nj, lambda a, b: m.get(a, b))
        raise Unsupported('place %r' % (p,))
    def fit(s, old, val):
        if isinstance(old, I) and isinstance(val, C): return ind(val)
        return val
    def num(s, v):
        v = force(v)
        if isinstance(v, Mat): return v.scalar()
        return v
    # ------------------------------------------------------------ functions
    def call(s, fun, st, args, this=None):
        """fun: function node; args: list of LV (by reference) or values; -> value"""
        ps = A.params(fun); key = '%s:%s' % (fun.file, fun.name); s.entered.add((fun.file, fun.name, fun.line))
        if s.depth > 20: raise Unsupported('call depth')
        before = set(st.v); saved = {}
        for i, p in enumerate(ps):
            s.names[p.id] = p.name
            if i < len(args): a = args[i]
            else: a = s.default(fun, i, st)
            if p.id in st.v: saved[p.id] = st.v[p.id]
            t = p.t
            if isinstance(a, LV) and t.rstrip().endswith('&'): st.v[p.id] = a
            else:
                v = s.read(st, a) if isinstance(a, LV) else a
                st.v[p.id] = s.conv(v, tclean(t))
        oldthis = st.v.get('this')
        if this is not None: st.v['this'] = this
        fr = Frame(); s.frames.append(fr); s.depth += 1; s.cur.append(key)
        n0 = len(Ctx.stack)
        try:
            alive = s.stmt_ctor_inits(fun, st)
            alive = s.block([A.body(fun)], st)
        finally:
            s.frames.pop(); s.depth -= 1; s.cur.pop(); del Ctx.stack[n0:]
        outs = list(fr.rets)
        if alive is not FALSE: outs.append((alive, None, st.copy()))
        if not outs:
            s.out_throws(fr); return None, FALSE
        # merge
        c, v, z = outs[-1]
        for c2, v2, z2 in reversed(outs[:-1]):
            v = s.merge_val(c2, v2, v); z = s.merge(c2, z2, z)
        st.v.clear()
        for k, x in z.v.items():
            if k in before: st.v[k] = x
        for k, x in saved.items(): st.v[k] = x
        if this is not None:
            if oldthis is None: st.v.pop('this', None)
            else: st.v['this'] = oldthis
        alive = Or(*[o[0] for o in outs])
        s.out_throws(fr)
        return v, alive
    def out_throws(s, fr):
        if s.frames: s.frames[-1].throws += fr.throws
        else: s.top_throws = fr.throws
    def stmt_ctor_inits(s, fun, st):
        for c in fun.c:
            if not c or c.k != 'CXXCtorInitializer': continue
            if not c.name or len(c.c) != 1: raise Unsupported('constructor initialiser of %s' % fun.name)
            if c.c[0].k == 'CXXDefaultInitExpr':
                fd = [d for rs in s.u.recs.values() for r in rs for d in r.c if d and d.k == 'FieldDecl' and d.name == c.name and d.c and d.c[0] and not d.c[0].k.endswith(('Attr', 'Comment'))]
                if len({(d.line, d.name) for d in fd}) != 1: raise Unsupported('default initialiser of %s' % c.name)
                c.c[0] = fd[0].c[0]
            x = st.v['this']; w = s.ev(c.c[0], st)
            if w is not UNDEF: s.write(st, (x if isinstance(x, LV) else LV('this')) + ('f', c.name), w)
        return TRUE
    def default(s, fun, i, st):
        for p in s.u.protos.get(fun.name, []):
            ps = A.params(p)
            if len(ps) > i and ps[i].val and ps[i].c: return s.ev(ps[i].c[0], st)
        raise Unsupported('missing argument %d of %s' % (i, fun.name))
    def merge_val(s, c, a, b):
        if a is None and b is None: return None
        if decide(c): return a
        return vite(c, a, b)
    def merge(s, c, a, b):
        """a when c else b"""
        r = State()
        for k, x in a.v.items():
            if k in b.v:
                y = b.v[k]
                r.v[k] = x if x is y or (isinstance(x, LV) and isinstance(y, LV) and x.root == y.root and x.path == y.path) or vsame(x, y) else vite(c, x, y)
        return r
    # ------------------------------------------------------------ statements
    def block(s, ss, st):
        """-> condition under which control reaches the end"""
        n = len(Ctx.stack); alive = TRUE
        try:
            for x in ss:
                if x is None: continue
                a = s.stmt(x, st)
                if a is FALSE: return FALSE
                if a is not TRUE and a is not None:
                    Ctx.stack.append(a); alive = And(alive, a)
                    if infeasible(): return FALSE
            return alive
        finally: del Ctx.stack[n:]
    def pathcond(s): return And(*Ctx.stack[s.frames[-1].base:])
    def stmt(s, n, st):
        try: return s.stmt0(n, st)
        except Unsupported as e:
            if getattr(s, "verbose", 0) > 1 and not getattr(e, "at", None): import traceback; traceback.print_exc()
            if not getattr(e, 'at', None): e.at = n.line; e.args = ('%s (line %s of %s)' % (e.args[0], n.line, s.cur[-1] if s.cur else '?'),)
            raise
    def stmt0(s, n, st):
        f = getattr(s, 's_' + n.k, None)
        if f: return f(n, st)
        s._alive = TRUE
        return s.full(n, st)[1]
    def full(s, n, st):
        """expression statement -> (value, alive)"""
        old = getattr(s, '_al', None); s._al = TRUE
        try:
            v = s.ev(n, st); return v, s._al
        finally: s._al = old
    def died(s, alive):
        if alive is not TRUE: s._al = And(s._al, alive)
    def s_CompoundStmt(s, n, st):
        return s.block(n.c, st)
    def s_NullStmt(s, n, st): return TRUE
    def s_AttributedStmt(s, n, st): return s.stmt([c for c in n.c if c][-1], st)
    def s_DeclStmt(s, n, st):
        old = getattr(s, '_al', None); s._al = TRUE
        try:
            for d in n.c:
                if d is None: continue
                if d.k == 'VarDecl': s.decl(d, st)
                elif d.k in ('UsingDecl', 'TypeAliasDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'TypedefDecl', 'CXXRecordDecl'): pass
                else: raise Unsupported('declaration %s' % d.k)
            return s._al
        finally: s._al = old
    def decl(s, d, st):
        t = tclean(d.t); s.names[d.id] = d.name
        if d.op == 'static' and 'const' not in d.t: raise Unsupported('static variable %s, line %s' % (d.name, d.line))
        init = [c for c in d.c if c and not c.k.endswith('Attr')]
        if d.t.rstrip().endswith('&') and init:
            lv = s.lv(init[0], st)
            if lv is not None: st.v[d.id] = lv; return
            st.v[d.id] = s.ev(init[0], st); return
        if not init: st.v[d.id] = s.defval(t); return
        v = s.ev(init[0], st)
        st.v[d.id] = s.conv(v, t)
    def defval(s, t):
        if isstr(t): return Str(())
        if t in ('std::stringstream', 'stringstream', 'std::ostringstream', 'ostringstream', 'std::basic_stringstream<char>', 'std::basic_ostringstream<char>'): return Obj('stringstream', {'out': Str(())})
        if isvec(t): return Vec([])
        if issx(t): return zeros(0, 0)
        if iseig(t):
            sh = eigshape(t)
            if sh and None not in sh: return opaque_mat(*sh)
            return zeros(0 if not sh or sh[0] is None else sh[0], 0 if not sh or sh[1] is None else sh[1])
        if t.startswith(('YAML::Node',)): return Map({})
        if t in ('YAML::Emitter', 'Emitter'): return Obj('Emitter', {'out': Vec([])})
        if 'map<' in t or t in ('casadi::Dict', 'Dict'): return Map({})
        b = t.split('::')[-1]
        if b in s.structs: return s.structs[b](s)
        if b in s.u.recs: return s.newobj(b)
        return UNDEF
    def newobj(s, b):
        f = {}
        for r in s.u.recs[b]:
            for c in r.c:
                if c and c.k == 'FieldDecl':
                    f[c.name] = s.ev(c.c[0], State()) if c.c and c.c[0] and not c.c[0].k.endswith(('Attr', 'Comment')) else s.defval(tclean(c.x or c.t))
        return Obj(b, f)
    def conv(s, v, t):
        """value stored in a variable of type t"""
        if isinstance(v, VIte): return v
        if t in ('char', 'const char') and isI(v): return char(v)
        if isint(t) and isinstance(v, Str): return code(v)
        if issx(t):
            if isinstance(v, (Poly, I, int, float)): return toM(toP(v))
            return v
        if isint(t):
            if isinstance(v, C): return ind(v)
            if isinstance(v, Poly): return toI(v)
            if isinstance(v, Mat): return toI(v.scalar())
            if t == 'int' and isinstance(v, I) and v.const() == 2 ** 64 - 1: return toI(-1)
            return v
        if t in ('float', 'const float') and isinstance(v, (Poly, Mat)): return single(v)
        if isreal(t):
            if isinstance(v, (I, int)): return toP(v)
            if isinstance(v, Mat): return v.scalar()
            return v
        if t in SMALL: raise Unsupported('value stored in %s' % t)
        if t == 'bool' and not isinstance(v, C) and v is not UNDEF: return asC(v)
        if iseig(t):
            if isinstance(v, (Poly, I)): return toM(toP(v))
            if isinstance(v, Vec): return col([toP(x) for x in v.items()])
            sh = eigshape(t)
            if isinstance(v, Mat) and sh:
                if (sh[0] is not None and not same(v.r, toI(sh[0]))) or (sh[1] is not None and not same(v.c, toI(sh[1]))):
                    raise Unsupported('%r stored in %s' % (v, t))
            return v
        if isstr(t) and isinstance(v, YNode): return yas(v, 'string')
        if isvec(t) and isinstance(v, Mat): raise Unsupported('vector from a matrix')
        return v
    def s_ReturnStmt(s, n, st):
        fr = s.frames[-1]; v = None; al = TRUE
        if n.c and n.c[0] is not None:
            v, al = s.full(n.c[0], st)
        pc = And(s.pathcond(), al)
        if v is not None and isinstance(v, LV): v = s.read(st, v)
        if v is UNDEF: raise Unsupported('an undefined value is returned, line %s' % n.line)
        r = Ret((pc, v, st.copy())); r.stk = list(Ctx.stack) + [al]; fr.rets.append(r); return FALSE
    def s_CXXThrowExpr(s, n, st):
        s.frames[-1].throws.append((And(*Ctx.stack), n.line)); return FALSE
    def s_BreakStmt(s, n, st): s.frames[-1].brk.append((And(*Ctx.stack[s.loopbase:]), st.copy())); return FALSE
    def s_ContinueStmt(s, n, st): s.frames[-1].cnt.append((And(*Ctx.stack[s.loopbase:]), st.copy())); return FALSE
    loopbase = 0
    def s_CXXTryStmt(s, n, st): return s.stmt(n.c[0], st)
    def s_IfStmt(s, n, st):
        cs = list(n.c)
        if cs and cs[0] is not None and cs[0].k == 'DeclStmt': s.stmt(cs[0], st); cs = cs[1:]
        cv, al = s.full(cs[0], st); c = asC(cv)
        then = cs[1]; els = cs[2] if len(cs) > 2 else None
        if decide(c): return And(al, s.scoped(then, st))
        if decide(Not(c)): return And(al, s.scoped(els, st)) if els is not None else al
        a = st.copy(); b = st.copy()
        with assume(c): la = s.scoped(then, a)
        with assume(Not(c)): lb = s.scoped(els, b) if els is not None else TRUE
        if la is FALSE and lb is FALSE: return FALSE
        if la is FALSE: st.v = b.v; return And(al, Not(c), lb)
        if lb is FALSE: st.v = a.v; return And(al, c, la)
        st.v = s.merge(c, a, b).v
        if la is TRUE and lb is TRUE: return al
        return And(al, Or(And(c, la), And(Not(c), lb)))
    def scoped(s, n, st): return s.block([n], st)
    # ------------------------------------------------------------ loops
    def s_ForStmt(s, n, st):
        from . import loops
        return loops.for_stmt(s, n, st)
    def s_CXXForRangeStmt(s, n, st):
        from . import loops
        return loops.range_stmt(s, n, st)
    def s_WhileStmt(s, n, st):
        from . import loops
        return loops.while_stmt(s, n, st)
    # ------------------------------------------------------------ expressions
    def ev(s, n, st):
        f = getattr(s, 'e_' + n.k, None)
        if f is None:
            raise Unsupported('%s, line %s' % (n.k, n.line))
        v = f(n, st)
        if isinstance(v, LV): v = s.read(st, v)
        return v
    def lv(s, n, st):
        """place of an expression, or None"""
        if n.k == 'DeclRefExpr':
            if n.rid in st.v:
                x = st.v[n.rid]
                return x if isinstance(x, LV) else LV(n.rid)
            return None
        if n.k == 'MemberExpr':
            if n.name == 'second' and n.c[0].k == 'CXXOperatorCallExpr' and n.c[0].c[0].ref in ('operator->', 'operator*'):
                it = s.ev(n.c[0].c[1], st) if not (n.c[0].c[1].k == 'DeclRefExpr' and n.c[0].c[1].rid in s.derefs) else None
                if isinstance(it, MapIt): return it.lv + ('m', it.key) if it.lv is not None and it.key is not None else None
            o = s.lv(n.c[0], st)
            if o is not None:
                if n.name == 'second' and isinstance(s.read(st, o), Tup): return o + ('t', 1)
                if n.name == 'first' and isinstance(s.read(st, o), Tup): return o + ('t', 0)
                if isinstance(s.read(st, o), YNode): return None
                return o + ('f', n.name)
            return None
        if n.k == 'CXXOperatorCallExpr' and len(n.c) == 2 and (n.c[0].ref or '') in ('operator*', 'operator->') and n.c[1].k == 'DeclRefExpr' and n.c[1].rid in s.derefs: return s.lv(n.c[1], st)
        if n.k == 'CXXThisExpr':
            x = st.v.get('this')
            return x if isinstance(x, LV) else LV('this') if x is not None else None
        if n.k == 'UnaryOperator' and n.op == '*': return s.lv(n.c[0], st)
        if n.k == 'UnaryOperator' and n.op in ('++', '--') and n.val == 'pre':
            s.e_UnaryOperator(n, st); return s.lv(n.c[0], st)
        if n.k == 'ArraySubscriptExpr':
            o = s.lv(n.c[0], st)
            return o + ('x', toIdx(s.ev(n.c[1], st))) if o is not None else None
        if n.k == 'CXXOperatorCallExpr':
            op = n.c[0].ref
            if op == 'operator[]':
                o = s.lv(n.c[1], st)
                if o is None: return None
                base = s.read(st, o); k = s.ev(n.c[2], st)
                if isinstance(base, YNode): return None
                if isinstance(base, Obj) and base.cls == 'KMap': return o + ('f', 'v') + ('x', kmap_at(base, k))
                if isinstance(base, Str): raise Unsupported('character of a string')
                if isinstance(base, Map):
                    if isinstance(k, (I, Poly)): raise Unsupported('map with integer keys')
                    mt = re.match(r'(?:std::)?map<(?:std::)?(?:basic_)?string(?:<char>)?, *(.*?)>$', tclean(n.c[1].t))
                    if isinstance(k, Str) and k.lit() is not None and base.dflt is None and mt and not base.find(k):
                        d = s.defval(tclean(mt.group(1)))
                        if isinstance(d, (Mat, Vec)): s.write(st, o + ('m', k), d)
                    return o + ('m', k)
                if isinstance(base, VIte) and isinstance(base.a, (Map, YNode)): return o + ('m', k)
                return o + ('x', toIdx(k))
            if op == 'operator()':
                o = s.lv(n.c[1], st)
                if o is None: return None
                base = s.read(st, o)
                if isinstance(base, Lam): return None
                return o + s.sub(base, [s.ev(a, st) for a in n.c[2:] if a.k != 'CXXDefaultArgExpr'])
            if op in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator++'):
                s.e_CXXOperatorCallExpr(n, st); return s.lv(n.c[1], st)
            if op == 'operator<<' or op == 'operator,': return None
            if op in ('operator*', 'operator->'):
                return None
        if n.k == 'CXXMemberCallExpr':
            m = n.c[0].name
            if m in CORNERS or m in ('segment', 'head', 'tail', 'row', 'col', 'at', 'back', 'front', 'data'):
                o = s.lv(n.c[0].c[0], st)
                if o is None: return None
                base = force(s.read(st, o)); a = [toIdx(s.ev(x, st)) for x in n.c[1:] if x.k != 'CXXDefaultArgExpr'] if not (m == 'at' and isinstance(base, Map)) else None
                if m == 'at':
                    return o + ('m', s.ev(n.c[1], st)) if a is None else o + ('x', a[0])
                if m == 'back': return o + ('x', base.size() - 1)
                if m == 'front': return o + ('x', toI(0))
                if m == 'data': return None
                if m in CORNERS: i, ni, j, nj = corner(m, base, a, n); return o + ('b', i, ni, j, nj)
                if m in ('segment', 'head', 'tail') :
                    if len(a) == (m == 'segment'): a = a + list(fixedsize(n)[-1:])
                    if m == 'segment' and len(a) == 2: lo, k = a
                    elif m == 'head' and len(a) == 1: lo, k = toI(0), a[0]
                    elif m == 'tail' and len(a) == 1: lo, k = base.numel() - a[0], a[0]
                    else: raise Unsupported('fixed-size segment')
                    return o + (('b', lo, k, toI(0), toI(1)) if base.c.const() == 1 else ('b', toI(0), toI(1), lo, k))
                if m == 'row': return o + ('b', a[0], toI(1), None, None)
                if m == 'col': return o + ('b', None, None, a[0], toI(1))
        if n.k in ('ImplicitCastExpr', 'CXXConstCastExpr') and n.c: return s.lv(n.c[0], st)
        return None
    def sub(s, base, ks):
        base = force(base)
        if isinstance(base, (Poly, I)): base = toM(toP(base))
        if not isinstance(base, Mat): raise Unsupported('entry of %r' % (base,))
        def rng(k, n):
            if isinstance(k, Slice): return (None, None) if k.lo is None else (k.lo, k.hi - k.lo)
            return toIdx(k), None
        if len(ks) == 1:
            k = ks[0]
            if isinstance(k, Slice):
                if k.lo is None: return ('b', None, None, None, None) if base.c.const() == 1 else _uns('flattened matrix')
                if base.c.const() == 1: return ('b', k.lo, k.hi - k.lo, toI(0), toI(1))
                if base.r.const() == 1: return ('b', toI(0), toI(1), k.lo, k.hi - k.lo)
                raise Unsupported('range of entries of a matrix')
            return ('l', toIdx(k))
        (a, na), (b, nb) = rng(ks[0], base.r), rng(ks[1], base.c)
        if na is None and nb is None and a is not None and b is not None: return ('e', a, b)
        if a is not None and na is None: na = toI(1)
        if b is not None and nb is None: nb = toI(1)
        return ('b', a, na, b, nb)
    def e_DeclRefExpr(s, n, st):
        if n.rid in st.v: return st.v[n.rid]
        if n.ref in ('cout', 'cerr', 'endl'): return Stream(n.ref)
        if n.rk == 'VarDecl':
            d = s.u.byid.get(n.rid) or s.u.vars.get(n.ref)
            if d is not None and 'const' not in d.t and n.ref in s.u.written(): raise Unsupported('the variable %s outlives the call and is written somewhere, line %s' % (n.ref, n.line))
            if d is not None and d.c: return s.conv(s.ev([c for c in d.c if c][0], State()), tclean(d.t))
            if n.ref == 'npos': return toI(2 ** 64 - 1)
            if n.ref in s.consts: return s.consts[n.ref]
        if n.rk in ('FunctionDecl', 'CXXMethodDecl'): return Fun(S(n.ref), None, None)
        if n.rk == 'EnumConstantDecl': return ('enum', n.ref)
        raise Unsupported('name %s (%s), line %s' % (n.ref, n.rk, n.line))
    def e_IntegerLiteral(s, n, st): return toI(int(n.val))
    def e_FloatingLiteral(s, n, st): return toP(Q(repr(float(n.val))))   # the decimal written in the source
    def e_CXXBoolLiteralExpr(s, n, st): return TRUE if n.val in (True, 'true') else FALSE
    def e_StringLiteral(s, n, st): 
        import json as _j
        try: return S(_j.loads(n.val))
        except ValueError: return S(n.val[1:-1].encode().decode('unicode_escape'))
    def e_CharacterLiteral(s, n, st): return S(chr(int(n.val)))
    def e_CXXThisExpr(s, n, st): return st.v.get('this')
    def e_CXXNullPtrLiteralExpr(s, n, st): return toI(0)
    def e_ImplicitCastExpr(s, n, st):
        v = s.ev(n.c[0], st); t = tclean(n.x or n.t)
        if t == 'float': return single(s.num(v))
        if t in SMALL: raise Unsupported('conversion to %s, line %s' % (t, n.line))
        if isint(t): return code(v) if isinstance(v, Str) else toI(s.num(v))
        if t == 'char' and isI(v): return char(v)
        return v
    def e_CXXStdInitializerListExpr(s, n, st): return s.ev(n.c[0], st)
    def e_InitListExpr(s, n, st):
        t = tclean(n.x or n.t)
        xs = [s.ev(c, st) for c in n.c if c]
        b = t.split('::')[-1]
        if b in s.u.recs and not isvec(t):
            o = s.newobj(b); fs = [c.name for r in s.u.recs[b] for c in r.c if c and c.k == 'FieldDecl']
            for k, x in zip(fs, xs): o = o.put(k, x)
            return o
        return items(xs)
    def e_LambdaExpr(s, n, st): return Lam(n)
    def e_CXXDefaultArgExpr(s, n, st): raise Unsupported('default argument')
    def e_MemberExpr(s, n, st):
        lv = s.lv(n, st)
        if lv is not None: return s.read(st, lv)
        if n.c and n.c[0]:
            o = s.ev(n.c[0], st)
            if isinstance(o, YNode):
                if n.name == 'second': return o
                if n.name == 'first' and '' in YDOC: return yentry(ydoc(YNode(o.p[:-1]))[1], o.p[-1][1])[0]
                if n.name == 'first': return Str((('sym', 'Yk:' + ykey(o)[0], ykey(o)[1]),))
            if isinstance(o, Tup): return o.x[{'first': 0, 'second': 1}[n.name]]
            if isinstance(o, Obj): return o.f[n.name]
            if isinstance(o, VIte): return s.step(o, ('f', n.name))
        if n.name in s.u.vars:
            d = s.u.vars[n.name]
            if 'const' not in d.t and n.name in s.u.written(): raise Unsupported('the variable %s outlives the call and is written somewhere, line %s' % (n.name, n.line))
            return s.ev([c for c in d.c if c][0], State())
        raise Unsupported('member %s, line %s' % (n.name, n.line))
    def e_ArraySubscriptExpr(s, n, st):
        lv = s.lv(n, st)
        if lv is None: raise Unsupported('subscript, line %s' % n.line)
        return s.read(st, lv)
    def e_ConditionalOperator(s, n, st):
        c = asC(s.ev(n.c[0], st))
        if decide(c): return s.ev(n.c[1], st)
        if decide(Not(c)): return s.ev(n.c[2], st)
        with assume(c): a = s.ev(n.c[1], st)
        with assume(Not(c)): b = s.ev(n.c[2], st)
        if issx(tclean(n.t)): a = s.conv(a, 'SX'); b = s.conv(b, 'SX')
        return vite(c, a, b)
    def e_UnaryOperator(s, n, st):
        o = n.op
        if o in ('++', '--'):
            lv = s.lv(n.c[0], st); v = s.read(st, lv)
            if isinstance(v, VIte): v = force(v)
            w = v + 1 if o == '++' else v - 1
            s.write(st, lv, w); return v if n.val == 'post' else w
        v = s.ev(n.c[0], st)
        if o == '!': return Not(asC(v))
        if o == '-':
            v = force(v)
            return -v if isinstance(v, (I, Poly)) else neg(v)
        if o == '+': return v
        if o == '*': return v
        if o == '&': return v
        raise Unsupported('unary %s' % o)
    def e_BinaryOperator(s, n, st):
        o = n.op
        if o == '=':
            v = s.ev(n.c[1], st); lv = s.lv(n.c[0], st)
            v = s.conv(v, tclean(n.c[0].t)); s.write(st, lv, v); return v
        if o in ('&&', '||'):
            a = asC(s.ev(n.c[0], st))
            if o == '&&':
                if decide(Not(a)): return FALSE
                with assume(a): b = asC(s.ev(n.c[1], st))
                return And(a, b)
            if decide(a): return TRUE
            with assume(Not(a)): b = asC(s.ev(n.c[1], st))
            return Or(a, b)
        if o == ',': s.ev(n.c[0], st); return s.ev(n.c[1], st)
        return s.arith(o, s.ev(n.c[0], st), s.ev(n.c[1], st), n)
    def e_CompoundAssignOperator(s, n, st):
        lv = s.lv(n.c[0], st); v = s.arith(n.op[:-1], s.read(st, lv), s.ev(n.c[1], st), n)
        s.write(st, lv, s.conv(v, tclean(n.c[0].t))); return v
    def arith(s, o, a, b, n=None):
        for x, y, f in ((a, b, 0), (b, a, 1)):
            if isinstance(x, VIte):
                if decide(x.c): return s.arith(o, *((x.a, y) if not f else (y, x.a)), n)
                if decide(Not(x.c)): return s.arith(o, *((x.b, y) if not f else (y, x.b)), n)
                with assume(x.c): p = s.arith(o, *((x.a, y) if not f else (y, x.a)), n)
                with assume(Not(x.c)): q = s.arith(o, *((x.b, y) if not f else (y, x.b)), n)
                return vite(x.c, p, q)
        if isinstance(a, Iter):
            if isinstance(b, (I, int)): return Iter(a.seq, a.off + b if o == '+' else a.off - b, a.lv)
            if o == '-' and isinstance(b, Iter): return a.off - b.off
            if o in ('==', '!='): c = eq(a.off, b.off); return c if o == '==' else Not(c)
        if isinstance(a, MapIt) and isinstance(b, MapIt) and o in ('==', '!='):
            if a.key is not None and b.key is not None: raise Unsupported('comparison of map positions')
            c = Not(a.m.has(a.key)) if a.key is not None else Not(b.m.has(b.key)) if b.key is not None else TRUE
            return c if o == '==' else Not(c)
        if n is not None and n.k in ('BinaryOperator', 'CompoundAssignOperator') and o not in ('==', '!=') or isI(a) or isI(b):      # characters are numbers
            if isinstance(a, Str) and (n is None or n.k != 'CXXOperatorCallExpr'): a = code(a)
            if isinstance(b, Str) and (n is None or n.k != 'CXXOperatorCallExpr'): b = code(b)
        if isinstance(a, Str) or isinstance(b, Str):
            if o == '+': return a + b if isinstance(a, Str) else char(a) + b
            if o == '==': return str_eq(a, b)
            if o == '!=': return Not(str_eq(a, b))
            if o == '/': return a + S('/') + b          # paths; the right one is relative, the left one does not end in /
            raise Unsupported('string %s' % o)
        if isinstance(a, C) and isinstance(b, C) and o in ('==', '!='):
            e = Or(And(a, b), And(Not(a), Not(b))); return e if o == '==' else Not(e)
        if isinstance(a, C): a = ind(a)
        if isinstance(b, C): b = ind(b)
        if isinstance(a, int): a = toI(a)
        if isinstance(b, int): b = toI(b)
        if isinstance(a, I) and isinstance(b, I):
            if o == '+': return a + b
            if o == '-': return a - b
            if o == '*': return a * b
            if o in ('/', '%'):
                if a.const() is not None and b.const():
                    q = abs(a.const()) // abs(b.const()); q = q if (a.const() >= 0) == (b.const() >= 0) else -q
                    return toI(q) if o == '/' else toI(a.const() - q * b.const())
                if not decide(And(ge(a, 0), ge(b, 1))): raise Unsupported('integer division %r / %r' % (a, b))
                return idiv(a, b) if o == '/' else imod(a, b)
            if o in ('==', '!=') and {a.const(), b.const()} == {-1, 2 ** 64 - 1}: return toC(o == '==')          # -1 converted to size_t
            f = {'<': lt, '<=': le, '>': gt, '>=': ge, '==': eq}.get(o)
            if f: return f(a, b)
            if o == '!=': return Not(eq(a, b))
        if isinstance(a, (I, Poly, Mat)) and isinstance(b, (I, Poly, Mat)):
            if o == '+': return ew(lambda x, y: x + y, a, b)
            if o == '-': return ew(lambda x, y: x - y, a, b)
            if o == '*':
                if isinstance(a, Mat) and isinstance(b, Mat) and n is not None and not iseig(tclean(n.c[-1].t)) and not iseig(tclean(n.t)): return ew(lambda x, y: x * y, a, b)
                return mul(a, b) if isinstance(a, Mat) and isinstance(b, Mat) else ew(lambda x, y: x * y, a, b)
            if o == '/':
                if not scalarish(b): return ew(lambda x, y: x * inv(y), a, b)
                return ew(lambda x, y: x * inv(y), a, toP(b))
            a, b = toP(a), toP(b); ka, kb = a.const(), b.const()
            if ka is not None and kb is not None: return toC({'<': ka < kb, '<=': ka <= kb, '>': ka > kb, '>=': ka >= kb, '==': ka == kb, '!=': ka != kb}[o])
            if o == '<': return patom('rlt', a, b)
            if o == '>': return patom('rlt', b, a)
            if o == '<=': return Not(patom('rlt', b, a))
            if o == '>=': return Not(patom('rlt', a, b))
            if o == '==': return patom('req', a - b)
            if o == '!=': return Not(patom('req', a - b))
        raise Unsupported('operator %s on %r, %r' % (o, a, b))
    # ------------------------------------------------------------ calls
    def args(s, ns, st): return [s.ev(a, st) for a in ns if a.k != 'CXXDefaultArgExpr']
    def e_CXXStaticCastExpr(s, n, st): return s.castto(s.ev(n.c[0], st), n)
    def e_CStyleCastExpr(s, n, st): return s.castto(s.ev(n.c[0], st), n)
    def e_CXXFunctionalCastExpr(s, n, st): return s.castto(s.ev(n.c[0], st), n)
    def e_CXXConstCastExpr(s, n, st): return s.ev(n.c[0], st)
    def castto(s, v, n):
        t = tclean(n.t); v = force(v)
        if t == 'float': return single(s.num(v))
        if t in SMALL: raise Unsupported('conversion to %s, line %s' % (t, n.line))
        if isreal(t): return toP(s.num(v))
        if t == 'char' and isI(v): return char(v)
        if isint(t): return code(v) if isinstance(v, Str) else toI(s.num(v)) if not isinstance(v, C) else ind(v)
        if t == 'bool': return asC(v)
        if t == 'void': return v
        return s.conv(v, t)
    def e_CXXConstructExpr(s, n, st): return s.construct(n, st)
    def e_CXXTemporaryObjectExpr(s, n, st): return s.construct(n, st)
    def e_CXXScalarValueInitExpr(s, n, st): return toI(0) if isint(tclean(n.t)) else ZERO
    def construct(s, n, st):
        t = tclean(n.x or n.t)
        if t in ('mapped_type', 'value_type', 'key_type', 'const_reference', 'reference') : t = ''
        as_ = [a for a in n.c if a is not None and a.k != 'CXXDefaultArgExpr']
        t0 = tclean(n.t)
        for tt in (t0, t):
            if isvec(tt): return s.newvec(as_, st, tt)
        if issx(t0) or issx(t):
            if not as_: return zeros(0, 0)
            xs = [s.ev(a, st) for a in as_]
            if len(xs) == 1:
                x = xs[0]
                if isinstance(x, Vec):
                    ys = x.items(); return col([toP(y) for y in ys])
                if isinstance(x, (Poly, I, int, Q)): return toM(toP(x))
                return x
            if all(isinstance(x, I) for x in xs): return zeros(xs[0], xs[1])
            raise Unsupported('SX(...), line %s' % n.line)
        if t0.endswith('Slice'):
            xs = [s.ev(a, st) for a in as_]
            if not xs: return Slice()
            if len(xs) == 1 and isinstance(xs[0], Slice): return xs[0]
            if len(xs) == 1: return Slice(toIdx(xs[0]), toIdx(xs[0]) + 1)
            return Slice(toIdx(xs[0]), toIdx(xs[1]))
        if iseig(t0) or iseig(t): return s.neweig(t0 if iseig(t0) else t, as_, st)
        if isstr(t0):
            if not as_: return Str(())
            v = s.ev(as_[0], st)
            if isI(v) and len(as_) == 2 and toI(v).const() is not None:
                w = s.ev(as_[1], st); return Str(w.p * max(toI(v).const(), 0))
            if isI(v) or len(as_) > 1 and isinstance(v, Str) and not isinstance(as_[1], str) and isint(tclean(as_[1].t)): raise Unsupported('a text from %d arguments' % len(as_))
            return v
        if t0.startswith(('std::tuple', 'tuple', 'std::pair', 'pair')):
            xs = [s.ev(a, st) for a in as_]
            if len(xs) == 1 and isinstance(xs[0], Tup): return xs[0]
            return Tup(xs)
        if t0.startswith(('std::normal_distribution', 'normal_distribution')) and len(as_) == 2: return Obj('normal', {'mean': toP(s.ev(as_[0], st)), 'sd': toP(s.ev(as_[1], st))})
        if t0 in ('std::istringstream', 'istringstream', 'std::basic_istringstream<char>') and as_: return Obj('istringstream', {'text': s.ev(as_[0], st), 'k': 0})
        if t0 in ('std::ofstream', 'ofstream', 'std::basic_ofstream<char>') and as_ and '$fs' in st.v:
            k = s.ev(as_[0], st); fs = st.v['$fs']
            if fskey(k) not in fs.base: raise Unsupported('file %r' % (k,))
            st.v['$fs'] = Map(dict(fs.base, **{fskey(k): Str(())}), fs.log, fs.dflt)
            return Obj('ofstream', {'path': k, 'out': Vec([])})
        if t0 in ('std::ifstream', 'ifstream', 'std::basic_ifstream<char>') and as_ and '$fs' in st.v:
            k = s.ev(as_[0], st); return Obj('ifstream', {'path': k, 'text': st.v['$fs'].base.get(fskey(k), UNDEF)})
        if t0 in ('std::ofstream', 'ofstream', 'std::basic_ofstream<char>'): return Obj('ofstream', {'path': s.ev(as_[0], st), 'out': Vec([])})
        if t0 in ('YAML::Emitter', 'Emitter') and not as_: return s.defval('YAML::Emitter')
        b = t0.split('::')[-1]
        if len(as_) == 1:
            v = s.ev(as_[0], st)
            if t0.startswith('YAML::Node') or not (b in s.u.funs): return v
            if isinstance(v, Obj) and v.cls == b: return v
        if b in s.structs: return s.structs[b](s)
        ctors = [f for f in s.u.funs.get(b, []) if f.k == 'CXXConstructorDecl']
        if ctors:
            return s.ctor(b, ctors, as_, st)
        if not as_: return s.defval(t0)
        if t0 in ('casadi::CodeGenerator', 'CodeGenerator') and len(as_) == 2:
            a = [s.ev(x, st) for x in as_]; return Obj('CodeGenerator', {'name': a[0], 'opts': a[1], 'funs': Vec([])})
        if t0 in ('casadi::Dict', 'Dict') and not as_: return Map({})
        if t0 in ('casadi::Function', 'Function') and len(as_) == 3:
            a = [s.ev(x, st) for x in as_]; return Obj('Function', {'name': a[0], 'ins': a[1], 'outs': a[2]})
        if t0 == 'value_type' and len(as_) == 2:
            a = [s.ev(x, st) for x in as_]
            if isinstance(a[0], Str): return Tup(a)
        raise Unsupported('construction of %s, line %s' % (t0, n.line))
    def ctor(s, b, ctors, as_, st):
        vals = [s.ev(a, st) for a in as_]
        fs = [f for f in ctors if len(A.params(f)) == len(vals)]
        if len(fs) > 1:
            kinds = lambda v: {Str: 'string', YNode: 'YAML::Node', Vec: 'vector', I: 'int', Poly: 'double', Mat: 'Matrix'}.get(type(v), '?')
            fs = [f for f in fs if all(kinds(v) in A.params(f)[k].t for k, v in enumerate(vals))]
        if len(fs) != 1: raise Unsupported('constructor of %s' % b)
        key = 'tmp%d' % next(_fresh); st.v[key] = s.newobj(b)
        v, al = s.call(fs[0], st, vals, LV(key)); s.died(al)
        return st.v.pop(key)
    def newvec(s, as_, st, t):
        if not as_: return Vec([])
        xs = [s.ev(a, st) for a in as_]
        if len(xs) == 1:
            if isinstance(xs[0], Vec): return xs[0]
            if isinstance(xs[0], VIte): return xs[0]
            if isinstance(xs[0], I):
                e = s.elem0(t); return dense(xs[0], lambda k: e)
            raise Unsupported('vector(%r)' % (xs[0],))
        if len(xs) == 2 and isinstance(xs[0], I): return dense(xs[0], lambda k: s.conv(xs[1], s.elemt(t)))
        if len(xs) == 2 and isinstance(xs[0], Iter): return narrow(s.range_of(xs[0], xs[1]), s.elemt(t))
        raise Unsupported('vector constructor')
    def elemt(s, t):
        if 'SXVector' in t: return 'casadi::SX'
        m = re.match(r'(?:std::)?vector<(.*)>$', t)
        if not m: return ''
        e = m.group(1)
        if e.startswith('std::basic_string') or e.startswith('basic_string'): return 'std::string'
        return e.split(', std::allocator')[0].strip()
    def elem0(s, t):
        e = s.elemt(t)
        if isint(e): return toI(0)
        if isreal(e): return ZERO
        if e == 'bool': return FALSE
        return s.defval(e)
    def range_of(s, a, b):
        seq = a.seq; lo, hi = a.off, b.off
        if isinstance(seq, Mat):
            m = seq; 
            return dense(hi - lo, lambda k: m.lin(lo + k))
        if decide(eq(lo, 0)) and decide(eq(hi, seq.size())): return seq
        return dense(hi - lo, lambda k: seq.get(lo + k))
    def neweig(s, t, as_, st):
        sh = eigshape(t) or (None, None)
        xs = [s.ev(a, st) for a in as_]
        if not xs: return s.defval(t)
        if len(xs) == 1:
            x = force(xs[0])
            if isinstance(x, Mat): return s.conv(x, t)
            if isinstance(x, CommaInit): raise Unsupported('comma initialiser value')
            if isinstance(x, I) and sh[0] is None: return opaque_mat(x, 1) if sh[1] == 1 else opaque_mat(1, x)
            if isinstance(x, Vec): return col([toP(y) for y in x.items()])
            return toM(toP(x))
        if len(xs) == 2 and sh[0] is None and isinstance(xs[0], I): return opaque_mat(xs[0], xs[1])
        if len(xs) == 2 and None not in sh and isinstance(xs[0], I) and xs[0] == toI(sh[0]) and xs[1] == toI(sh[1]) and sh[1] > 1: return opaque_mat(*sh)
        if sh[0] == len(xs): return col([toP(s.num(x)) for x in xs])
        raise Unsupported('Eigen constructor %s' % t)
    def e_CallExpr(s, n, st):
        f = n.c[0]; name = f.ref or f.name
        as_ = [a for a in n.c[1:] if a.k != 'CXXDefaultArgExpr']
        return s.invoke(name, f.rid, as_, st, None, n)
    def invoke(s, name, rid, as_, st, this, n):
        c = s.contracts.get(name)
        if c is not None:
            r = c(s, st, this, as_, n)
            if r is not NotImplemented: s.used.add(name); return r
        funs = s.u.funs.get(name)
        if funs:
            fun = s.pick(funs, rid, as_, n)
            args = []
            for a, p in zip(as_, A.params(fun)):
                l = s.lv(a, st) if p.t.rstrip().endswith('&') else None
                args.append(l if l is not None else s.ev(a, st))
            v, al = s.call(fun, st, args, this); s.died(al)
            return v
        b = LIB.get(name)
        if b is None: raise Unsupported('call of %s, line %s' % (name, n.line))
        return s.libcall(name, b, [s.ev(a, st) for a in as_], n, st)
    def libcall(s, name, b, vs, n, st):
        if name in PURELIB:
            for k, v in enumerate(vs):
                if isinstance(v, VIte):
                    if decide(v.c): return s.libcall(name, b, vs[:k] + [v.a] + vs[k + 1:], n, st)
                    if decide(Not(v.c)): return s.libcall(name, b, vs[:k] + [v.b] + vs[k + 1:], n, st)
                    with assume(v.c): x = s.libcall(name, b, vs[:k] + [v.a] + vs[k + 1:], n, st)
                    with assume(Not(v.c)): y = s.libcall(name, b, vs[:k] + [v.b] + vs[k + 1:], n, st)
                    return vite(v.c, x, y)
        return b(s, vs, n, st)
    def pick(s, funs, rid, as_, n):
        if len(funs) == 1: return funs[0]
        d = s.u.byid.get(rid)
        if d is not None:
            for f in funs:
                if A.sig(f) == A.sig(d): return f
        t = n.c[0].rt or n.c[0].t
        for f in funs:
            if A.sig(f) == t.replace('const ', '').replace('std::', '').replace(' &', '').replace('&', ''): return f
        fs = [f for f in funs if len(A.params(f)) == len(as_)]
        if len(fs) == 1: return fs[0]
        raise Unsupported('overload of %s, line %s' % (funs[0].name, n.line))
    def e_CXXMemberCallExpr(s, n, st):
        m = n.c[0]; name = m.name; on = m.c[0] if m.c else None
        as_ = [a for a in n.c[1:] if a.k != 'CXXDefaultArgExpr']
        lv = s.lv(on, st) if on is not None else None
        base = s.read(st, lv) if lv is not None else s.ev(on, st)
        if isinstance(base, LV): lv = base; base = s.read(st, base)
        if isinstance(base, VIte):
            if decide(base.c): base = base.a
            elif decide(Not(base.c)): base = base.b
        if isinstance(base, VIte) and lv is not None and name in STR and name not in PURE: base = _tx().join(base)
        if isinstance(base, Obj) and (name in s.u.funs or name in s.contracts):
            if lv is None:
                key = 'tmp%d' % next(_fresh); st.v[key] = base; lv = LV(key)
            return s.invoke(name, m.rid, as_, st, lv, n)
        for cls, tab in ((Mat, MAT), (Poly, MAT), (I, MAT), (Vec, VEC), (Map, MAP), (Str, STR), (YNode, YML), (Obj, OBJ), (Stream, OBJ), (SegMat, SEG), (Fun, OBJ)):
            if isinstance(base, cls):
                f = tab.get(name)
                if f is None and name.startswith('operator '): return s.castto(base, n)
                if f is None: raise Unsupported('method %s of %r, line %s' % (name, base, n.line))
                return f(s, base, lv, [s.ev(a, st) for a in as_], n, st)
        if isinstance(base, VIte):
            f = {Mat: MAT, Vec: VEC, Str: STR}.get(type(base.a))
            if f and name in f and name in PURE:
                av = [s.ev(a, st) for a in as_]
                def go(b):
                    if isinstance(b, VIte):
                        with assume(b.c): x = go(b.a)
                        with assume(Not(b.c)): y = go(b.b)
                        return vite(b.c, x, y)
                    return f[name](s, b, None, av, n, st)
                return go(base)
        raise Unsupported('method %s of %r, line %s' % (name, base, n.line))
    def e_CXXOperatorCallExpr(s, n, st):
        op = n.c[0].ref; a = n.c[1:]
        if op == 'operator()' and 'random_device' in (a[0].t + (a[0].x or '')): return UNDEF
        if op == 'operator()' and 'normal_distribution' in (a[0].t + (a[0].x or '')):
            d = s.ev(a[0], st).f; s.variates = getattr(s, 'variates', 0) + 1
            return d['mean'] + d['sd'] * rvar('$z', toI(s.variates))
        if op in ('operator()', 'operator[]'):
            lv = s.lv(n, st)
            if lv is not None: return s.read(st, lv)
            base = s.ev(a[0], st)
            ks = [s.ev(x, st) for x in a[1:] if x.k != 'CXXDefaultArgExpr']
            if isinstance(base, Lam): return s.lam(base, a[1:], st)
            if op == 'operator[]':
                if isinstance(base, YNode): return YNode(base.p + (ks[0] if isinstance(ks[0], Str) else ('it', toI(ks[0])),))
                if isinstance(base, Map): return base.get(ks[0])
                if isinstance(base, Obj) and base.cls == 'KMap': return s.step(base.f['v'], ('x', kmap_at(base, ks[0])))
                return s.step(base, ('x', toIdx(ks[0])))
            return s.step(force(base), s.sub(base, ks))
        if op == 'operator=':
            if a[1].k == 'CXXStdInitializerListExpr' or (a[1].k == 'InitListExpr'):
                pass
            v = s.ev(a[1], st); lv = s.lv(a[0], st)
            if lv is None: raise Unsupported('assignment to %r, line %s' % (a[0], n.line))
            if isinstance(v, LV): v = s.read(st, v)
            if isinstance(v, Vec) and isinstance(s.read(st, lv), Map) and all(x[0] == 'i' and isinstance(x[1], Tup) and len(x[1].x) == 2 for x in v.s):
                w = Map({})
                for x in v.s:
                    if w.has(x[1].x[0]) is not FALSE: raise Unsupported('repeated key, line %s' % n.line)
                    w = w.put(x[1].x[0], x[1].x[1])
                v = w
            if not lv.path or lv.path[-1][0] in ('f', 'x', 'm', 't'): v = s.conv(v, tclean(a[0].x if issx(tclean(a[0].x)) or iseig(tclean(a[0].x)) else a[0].t))
            if isinstance(v, Map) and lv.path and 'YAML::' in a[1].t + (a[1].x or ''): v.frozen = True
            s.write(st, lv, v); return v
        if op in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
            lv = s.lv(a[0], st); old = s.read(st, lv); v = s.arith(op[8], old, s.ev(a[1], st), n)
            s.write(st, lv, v); return v
        if op == 'operator>>':
            root = a[0]
            while root.k == 'CXXOperatorCallExpr' and root.c[0].ref == 'operator>>': root = root.c[1]
            s.ev(a[0], st) if root is not a[0] else None; lv = s.lv(root, st); l = s.read(st, lv); ty = tclean(a[1].x or a[1].t)
            if not isinstance(l, Obj) or l.cls != 'istringstream' or ty not in ('double', 'float'): raise Unsupported('operator>> of %r into %s, line %s' % (l, ty, n.line))
            q = l.f['text'].p
            if len(q) != 1 or q[0][0] != 'sym': raise Unsupported('numbers of the text %r' % (l.f['text'],))
            s.write(st, s.lv(a[1], st), rvar('num:' + q[0][1], *(tuple(q[0][2]) + (toI(l.f['k']),)))); s.write(st, lv, l.put('k', l.f['k'] + 1))
            return s.read(st, lv)
        if op == 'operator<<':
            root = a[0]
            while root.k == 'CXXOperatorCallExpr' and root.c[0].ref == 'operator<<': root = root.c[1]
            l = s.ev(a[0], st)
            if isinstance(l, Obj) and root is not a[0]:
                lv = s.lv(root, st)
                if lv is None: raise Unsupported('operator<<, line %s' % n.line)
                l = s.read(st, lv)
            if isinstance(l, Stream):
                for x in a[1:]:
                    try: s.ev(x, st)
                    except Unsupported: pass
                return l
            lv = s.lv(root, st)
            if isinstance(l, Obj):
                if lv is None and not _noise(a[1]): raise Unsupported('operator<<, line %s' % n.line)
                v = s.ev(a[1], st) if not _noise(a[1]) else None
                if v is not None and l.cls == 'stringstream':
                    if isinstance(v, VIte): v = force(v)
                    if isinstance(v, (I, int)): v = S(v)
                    if not isinstance(v, Str): raise Unsupported('text of %r' % (v,))
                    s.write(st, lv, l.put('out', l.f['out'] + v))
                elif lv is not None and v is not None:
                    s.write(st, lv, l.put('out', l.f.get('out', Vec([])).push(v)))
                    if l.cls == 'ofstream' and '$fs' in st.v:
                        fs = st.v['$fs']; k = fskey(l.f['path']); old = fs.base[k]
                        if not isinstance(v, Str) or not isinstance(old, Str): raise Unsupported('write of %r' % (v,))
                        st.v['$fs'] = Map(dict(fs.base, **{k: old + v}), fs.log, fs.dflt)
                    elif l.cls == 'ofstream': s.events.append(('write', l.f['path'], v))
                return l
            if isinstance(l, Mat) and lv is not None: return s.comma(lv, [s.ev(a[1], st)], st)
            raise Unsupported('operator<< of %r, line %s' % (l, n.line))
        if op == 'operator,':
            l = s.ev(a[0], st)
            if isinstance(l, CommaInit): return s.comma(l.lv, l.vals + [s.ev(a[1], st)], st)
        if op == 'operator!': return Not(asC(s.ev(a[0], st)))
        if op == 'operator-' and len(a) == 1:
            v = force(s.ev(a[0], st)); return neg(v)
        if op == 'operator*' and len(a) == 1 and not (a[0].k == 'DeclRefExpr' and a[0].rid in s.derefs):
            v = s.ev(a[0], st)
            if isinstance(v, Iter): return v.seq.get(v.off) if isinstance(v.seq, Vec) else v.seq.lin(v.off)
        if op in ('operator*', 'operator->') and len(a) == 1:
            if a[0].k == 'DeclRefExpr' and a[0].rid in s.derefs: return s.ev(a[0], st)
            v = s.ev(a[0], st)
            if isinstance(v, MapIt) and v.key is not None: return Tup([v.key, (s.read(st, v.lv) if v.lv is not None else v.m).get(v.key)])
        if op in ('operator++', 'operator->') or len(a) == 1: raise Unsupported('iterator, line %s' % n.line)
        o = op[8:].strip()
        x, y = s.ev(a[0], st), s.ev(a[1], st)
        if o in ('==', '!=') and isinstance(x, Mat) and isinstance(y, Mat) and iseig(tclean(a[0].t)) and same(x.r, y.r) and same(x.c, y.c): return _meq(x, y) if o == '==' else Not(_meq(x, y))
        if o == '==' and (isinstance(x, Mat) or isinstance(y, Mat)): raise Unsupported('matrix comparison, line %s' % n.line)
        return s.arith(o, x, y, n)
    def comma(s, lv, vals, st):
        """Eigen's v << a, b, ...: written when the last value has arrived"""
        m = force(s.read(st, lv)); xs = []
        if m.c.const() == 1 or m.r.const() == 1:
            for v in vals:
                v = force(v)
                if isinstance(v, Mat):
                    if v.numel().const() is None: raise Unsupported('comma initialiser')
                    xs += [v.lin(k) for k in range(v.numel().const())]
                else: xs.append(toP(s.num(v)))
            if len(xs) == m.numel().const(): s.write(st, lv, Mat(m.r, m.c, {((k, 0) if m.c.const() == 1 else (0, k)): x for k, x in enumerate(xs)}))
            return CommaInit(lv, vals)
        r, c = m.r.const(), m.c.const()
        if r is None or c is None or any(isinstance(force(v), Mat) and force(v).numel().const() != 1 for v in vals): raise Unsupported('comma initialiser of blocks')
        xs = [toP(s.num(v)) for v in vals]
        if len(xs) == r * c: s.write(st, lv, mat([[xs[i * c + j] for j in range(c)] for i in range(r)]))
        return CommaInit(lv, vals)
    def lam(s, l, as_, st):
        rec = l.n.c[0]; m = [c for c in rec.c if c and c.k == 'CXXMethodDecl' and c.name == 'operator()'][0]
        m.file = m.file or 'lambda'
        args = []
        for a, p in zip(as_, A.params(m)):
            q = s.lv(a, st) if p.t.rstrip().endswith('&') else None
            args.append(q if q is not None else s.ev(a, st))
        v, al = s.call(m, st, args); s.died(al); return v
def fskey(k):
    if isinstance(k, Str) and len(k.p) == 1 and not isinstance(k.p[0], str) and k.p[0][0] == 'sym' and not k.p[0][2]: return k.p[0][1]
    if isinstance(k, Str) and k.lit() is not None: return k.lit()
    return None
def _noise(n):
    x = n
    while x and x.c and x.k in ('CXXConstructExpr', 'ImplicitCastExpr', 'CallExpr'):
        if x.k == 'CallExpr' and x.c[0].ref == 'Comment': return True
        x = x.c[0]
    return n.k == 'DeclRefExpr' and n.rk in ('EnumConstantDecl', 'FunctionDecl')
def _uns(m): raise Unsupported(m)

# ---------------------------------------------------------------- library calls
def _mt(s, a, n, st):
    if len(a) == 1 and isinstance(a[0], Vec): a = a[0].items()
    r = a[0]
    for x in a[1:]: r = mul(r, x)
    return toM(r)
def _dims(a):
    return [toIdx(x) for x in a]
def _zeros(s, a, n, st):
    d = _dims(a); return zeros(d[0], d[1] if len(d) > 1 else 1)
def _cat(f):
    def g(s, a, n, st):
        if len(a) == 1 and isinstance(a[0], Vec):
            v = a[0]
            if not all(x[0] == 'i' for x in v.s):
                m = seg_col(v, False) if f is vcat else None
                return m if m is not None else SegMat(v)
            a = v.items()
            if not a: return zeros(0, 1) if f is vcat else zeros(1, 0)
        return f(a)
    return g
def indep(x):
    """entries of a vector of independent inputs: function index -> atom"""
    x = toM(x)
    if x.c.const() != 1: raise Unsupported('derivative by a matrix')
    def at(k):
        p = x.get(k, 0)
        if len(p.d) == 1:
            (m, c), = p.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'var': return m[0][0]
        raise Unsupported('derivative by %r' % p)
    return x.r, at
def jacobian(f, x):
    f = toM(f)
    if isinstance(x, SegMat): return jac_seg(f, x)
    n, at = indep(x)
    if f.numel().const() is None or f.c.const() == 1 or f.r.const() == 1:
        return Mat.gen(f.numel(), n, lambda i, j: diff(f.lin(i), at(j)))
    return Mat.gen(f.numel(), n, lambda i, j: diff(f.lin(i), at(j)))
def jac_seg(f, x):
    """one column per entry of a filtered vector"""
    if f.c.const() != 1: raise Unsupported('jacobian of a matrix by a filtered vector')
    segs = []
    for g in x.v.s:
        if g[0] == 'i': segs.append(('i', f.map(lambda p: diff(p, _atom(g[1])))))
        elif g[0] == 'c':
            with assume(g[1]): segs.append(('c', g[1], f.map(lambda p: diff(p, _atom(g[2])))))
        elif g[0] == 'f':
            out = []
            for c, v in g[4]:
                with assume(c): out.append((c, f.map(lambda p: diff(p, _atom(v)))))
            segs.append(('f', g[1], g[2], g[3], tuple(out)))
        else: raise Unsupported('jacobian by %r' % (g,))
    return SegMat(Vec(segs), f.r)
def _atom(p):
    p = toP(p)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'var': return m[0][0]
    raise Unsupported('derivative by %r' % p)
def jtimes(f, x, v):
    f = toM(f); v = toM(v); n, at = indep(x)
    return f.map(lambda p: sumn(n, lambda k: diff(p, at(k)) * v.get(k, 0)))
INV = []     # (matrix, opaque inverse)
def minv(a):
    for b, r in INV:
        if same(a.r, b.r) and veq(a, b): return r
    r = opaque_mat(a.r, a.c, 'minv%d' % next(_fresh)); INV.append((a, r)); return r
def _pow(s, a, n, st):
    x, k = a; x = force(x); k = s.num(k)
    if isinstance(k, Poly): k = toI(k)
    if isinstance(x, Mat) and not scalarish(x): return x.map(lambda p: power(p, k))
    return power(toP(x), k)
def _map(name):
    def g(s, a, n, st):
        x = force(a[0])
        if isinstance(x, Mat) and not scalarish(x): return x.map(lambda p: fn(name, p))
        return fn(name, toP(x))
    return g
def _transform(s, a, n, st):
    src = s.range_of(a[0], a[1]); dst = a[2]
    if not isinstance(dst, Iter) or dst.lv is None: raise Unsupported('std::transform, line %s' % n.line)
    return _copyto(s, src, dst, st, toP)
def _copyto(s, src, dst, st, f=lambda x: x):
    old = s.read(st, dst.lv)
    k = src.size()
    if isinstance(old, Mat):
        if not decide(le(dst.off + k, old.numel())): raise Unsupported('copy past the end')
        if decide(eq(dst.off, 0)) and same(k, old.numel()):
            s.write(st, dst.lv, Mat.gen(old.r, old.c, lambda i, j: toP(src.get(i + j * old.r)))); return Iter(None, 0)
        raise Unsupported('partial copy into a matrix')
    if not isinstance(old, Vec): raise Unsupported('copy into %r' % (old,))
    tot = old.size()
    if s.check and not decide(And(ge(dst.off, 0), le(dst.off + k, tot))): raise Unsupported('copy past the end')
    if tot.const() is not None and all(x[0] == 'i' for x in old.s):
        new = items([(src.get(i - dst.off) if decide(And(ge(toI(i), dst.off), lt(toI(i), dst.off + k))) else old.get(i)) for i in range(tot.const())])
    else:
        def g(q):
            c = And(ge(q, dst.off), lt(q, dst.off + k))
            if decide(c): return src.get(q - dst.off)
            with assume(c): x = src.get(q - dst.off)
            return vite(c, x, old.get(q))
        new = dense(tot, g)
    s.write(st, dst.lv, new); return Iter(None, 0)
def _copy(s, a, n, st):
    if not isinstance(a[2], Iter) or a[2].lv is None: raise Unsupported('std::copy, line %s' % n.line)
    return _copyto(s, s.range_of(a[0], a[1]), a[2], st)
def _tostr(s, a, n, st):
    x = s.num(a[0])
    if isinstance(x, C): x = ind(x)
    if isinstance(x, I): return S(x)
    raise Unsupported('to_string(%r)' % (x,))
def _elemcond(s, a, st, test):
    """(length, condition of the element at w, w) of a range"""
    if not isinstance(a[0], Iter) or not isinstance(a[1], Iter): raise Unsupported('range')
    v = s.range_of(a[0], a[1]); n = v.size(); w = ivar('e', 0, None)
    with assume(ge(w, 0), lt(w, n)): c = test(v.get(w))
    return n, asC(c), w
def _find(s, a, n, st):
    if not isinstance(a[0], Iter): raise Unsupported('std::find')
    v = s.range_of(a[0], a[1])
    if all(x[0] == 'i' for x in v.s):
        r = v.size()
        for k in reversed(range(len(v.s))): r = iite(asC(s.arith('==', v.s[k][1], a[2])), toI(k), r)
        return Iter(a[0].seq, a[0].off + r, a[0].lv)
    k, c, w = _elemcond(s, a, st, lambda x: s.arith('==', x, a[2]))
    return Iter(a[0].seq, a[0].off + iite(exists(w, toI(0), k, c), k - 1 - ivar('found', 0, None), k), a[0].lv)
def _count(s, a, n, st):
    k, c, w = _elemcond(s, a, st, lambda x: s.arith('==', x, a[2])); return count(w, toI(0), k, c)
def _anyof(kind):
    def g(s, a, n, st):
        if not isinstance(a[2], Lam): raise Unsupported('std::%s_of' % kind)
        m = [c for c in a[2].n.c[0].c if c and c.k == 'CXXMethodDecl' and c.name == 'operator()'][0]; m.file = m.file or 'lambda'
        def t(x):
            v, al = s.call(m, st.copy(), [x])
            if al is not TRUE: raise Unsupported('lambda')
            return v
        k, c, w = _elemcond(s, a, st, t)
        return count(w, toI(0), k, c) if kind == 'count' else exists(w, toI(0), k, c) if kind == 'any' else Not(exists(w, toI(0), k, c if kind == 'none' else Not(c)))
    return g
def _get(s, a, n, st):
    m = re.search(r'get<(\d+)', n.c[0].rt or '')
    raise Unsupported('std::get')
LIB = {
 'mtimes': _mt, 'zeros': _zeros, 'eye': lambda s, a, n, st: eye(toIdx(a[0])),
 'ones': lambda s, a, n, st: Mat.gen(toIdx(a[0]), toIdx(a[1]) if len(a) > 1 else 1, lambda i, j: ONE),
 'vertcat': _cat(vcat), 'horzcat': _cat(hcat), 'reshape': lambda s, a, n, st: reshape(a[0], toIdx(a[1]), toIdx(a[2])),
 'jacobian': lambda s, a, n, st: jacobian(a[0], a[1]), 'jtimes': lambda s, a, n, st: jtimes(a[0], a[1], a[2]),
 'inv': lambda s, a, n, st: minv(toM(a[0])), 'densify': lambda s, a, n, st: a[0],
 'pow': _pow, 'sqrt': _map('sqrt'), 'sin': _map('sin'), 'cos': _map('cos'), 'abs': _map('abs'), 'fabs': _map('abs'),
 **{x: _map(x) for x in ('tan', 'tanh', 'exp', 'log', 'atan', 'asin', 'acos')}, 'if_else': lambda s, a, n, st: _if_else(a[0], a[1], a[2]),
 'cross': lambda s, a, n, st: _cross(toM(a[0]), toM(a[1])), 'dot': lambda s, a, n, st: sumn(toM(a[0]).numel(), lambda k: toM(a[0]).lin(k) * toM(a[1]).lin(k)),
 'sumsqr': lambda s, a, n, st: _sq(toM(a[0])), 'norm_2': lambda s, a, n, st: fn('sqrt', _sq(toM(a[0]))), 'norm_F': lambda s, a, n, st: fn('sqrt', _sq(toM(a[0]))),
 'trace': lambda s, a, n, st: sumn(toM(a[0]).r, lambda i: toM(a[0]).get(i, i)), 'vec': lambda s, a, n, st: reshape(a[0], toM(a[0]).numel(), 1), 'blockcat': lambda s, a, n, st: vcat([hcat([a[0], a[1]]), hcat([a[2], a[3]])]),
 'skew': lambda s, a, n, st: (lambda x: mat([[0, -x[2], x[1]], [x[2], 0, -x[0]], [-x[1], x[0], 0]]))([toM(a[0]).lin(k) for k in range(3)]),
 'sum1': lambda s, a, n, st: Mat.gen(1, toM(a[0]).c, lambda i, j: sumn(toM(a[0]).r, lambda k: toM(a[0]).get(k, j))), 'sum2': lambda s, a, n, st: Mat.gen(toM(a[0]).r, 1, lambda i, j: sumn(toM(a[0]).c, lambda k: toM(a[0]).get(i, k))),
 'sign': lambda s, a, n, st: _sign(toP(a[0])), 'fmin': lambda s, a, n, st: _pick(toP(a[0]), toP(a[1]), True), 'fmax': lambda s, a, n, st: _pick(toP(a[0]), toP(a[1]), False),
 'transform': _transform, 'copy': _copy, 'to_string': _tostr,
 'make_tuple': lambda s, a, n, st: Tup(a), 'make_pair': lambda s, a, n, st: Tup(a),
 'sym': lambda s, a, n, st: Mat.gen(toIdx(a[1]), toIdx(a[2]) if len(a) > 2 else 1, lambda i, j: rvar(a[0].lit(), i)),
 'Zero': lambda s, a, n, st: zeros(*(([toIdx(x) for x in a] + [toI(1)])[:2] if a else eigshape(tclean(n.t)) or _retshape(n))), 'Identity': lambda s, a, n, st: eye(([toIdx(x) for x in a] or eigshape(tclean(n.t)) or _retshape(n))[0]),
 'move': lambda s, a, n, st: a[0],
 'max': lambda s, a, n, st: _pick(a[0], a[1], False), 'min': lambda s, a, n, st: _pick(a[0], a[1], True),
 'is_equal': lambda s, a, n, st: _is_equal(s, a, n, st), 'find': _find, 'count': _count, 'any_of': _anyof('any'), 'all_of': _anyof('all'), 'none_of': _anyof('none'), 'count_if': _anyof('count'),
 'LoadFile': lambda s, a, n, st: YNode(()),
}
def _rc(f, x, y): return toC(f(x.const(), y.const())) if x.const() is not None and y.const() is not None else patom('rlt', x, y)
def _sign(x): return ite(_rc(lambda p, q: p < q, ZERO, x), ONE, ite(_rc(lambda p, q: p < q, x, ZERO), -ONE, ZERO))
def _if_else(c, a, b):
    c = force(c)
    if not isinstance(c, C): c = Not(patom('req', toP(c)))
    return ew(lambda x, y: ite(c, x, y), a, b)
def _pick(a, b, low):
    if isinstance(a, I) and isinstance(b, I): return iite(le(a, b) if low else ge(a, b), a, b)
    a, b = toP(a), toP(b); x, y = (b, a) if low else (a, b)       # std::max(a, b) is a < b ? b : a, std::min(a, b) is b < a ? b : a
    kx, ky = x.const(), y.const(); c = toC(kx < ky) if kx is not None and ky is not None else patom('rlt', x, y)
    return ite(c, b, a)
def _diag(s, a, n, st):
    m = toM(a[0])
    if m.c.const() == 1 and m.r.const() != 1: return Mat.gen(m.r, m.r, lambda i, j: ite(eq(i, j), m.get(i, 0), ZERO))
    if same(m.r, m.c): return Mat.gen(m.r, 1, lambda i, j: m.get(i, i))
    raise Unsupported('diag of %r' % m)
LIB['diag'] = _diag
PURELIB = {'mtimes', 'vertcat', 'horzcat', 'reshape', 'jacobian', 'jtimes', 'inv', 'densify', 'pow', 'sqrt', 'sin', 'cos', 'abs', 'fabs', 'to_string', 'diag'}
def _retshape(n):
    for t in (n.x, n.t, n.c[0].rt or ''):
        z = eigshape(t)
        if z: return z
    raise Unsupported('shape of %s' % n.t)
PURE = {'size', 'is_zero', 'is_one', 'is_minus_one', 'size1', 'size2', 'rows', 'columns', 'cols', 'T', 'transpose', 'items', 'is_constant', 'get_elements', 'empty', 'count', 'str'}
def _m_resize(s, b, lv, a, n, st):
    b = toM(b); r = toIdx(a[0]); c = toIdx(a[1]) if len(a) > 1 else toI(1)
    if same(b.r, r) and same(b.c, c): return b
    if iseig(tclean(n.c[0].c[0].t)): m = opaque_mat(r, c)
    elif b.r.const() == 0 or b.c.const() == 0: m = zeros(r, c)
    elif decide(And(le(r, b.r), le(c, b.c))): m = b.block(0, r, 0, c)
    elif decide(And(ge(r, b.r), ge(c, b.c))): m = zeros(r, c).setblock(0, b.r, 0, b.c, lambda i, j: b.get(i, j))
    else: raise Unsupported('resize of %r' % b)
    s.write(st, lv, m); return m
def _m_cons(s, b, lv, a, n, st):
    b = toM(b); r = toIdx(a[0]); c = toIdx(a[1]) if len(a) > 1 else toI(1)
    if same(b.r, r) and same(b.c, c): return b
    if decide(And(le(r, b.r), le(c, b.c))): m = b.block(0, r, 0, c)
    else:
        x = opaque_mat(r, c)
        def g(i, j):
            w = And(lt(i, b.r), lt(j, b.c))
            if decide(w): return b.get(i, j)
            if decide(Not(w)): return x.get(i, j)
            with assume(w): y = b.get(i, j)
            return ite_d(w, y, x.get(i, j))
        m = Mat.gen(r, c, g)
    s.write(st, lv, m); return m
def _asM(f): return lambda s, b, lv, a, n, st: f(toM(b))
def _line(b, i, n): return b.block(i, n, 0, 1) if b.c.const() == 1 else b.block(0, 1, i, n)
def _cross(x, y):
    if x.numel().const() != 3 or y.numel().const() != 3: raise Unsupported('cross product of %r and %r' % (x, y))
    a, b = [x.lin(k) for k in range(3)], [y.lin(k) for k in range(3)]; c = [a[(k + 1) % 3] * b[(k + 2) % 3] - a[(k + 2) % 3] * b[(k + 1) % 3] for k in range(3)]
    return col(c) if x.c.const() == 1 else col(c).T()
def _meq(x, y):
    i, j = ivar('i', 0, x.r), ivar('j', 0, x.c); z = lambda p, q: TRUE if p == q else toC(p.const() == q.const()) if p.const() is not None and q.const() is not None else patom('req', p - q)
    with assume(ge(i, 0), lt(i, x.r), ge(j, 0), lt(j, x.c)): k = toI(0) if x.c.const() == 1 else j; d = Not(z(x.get(i, k), y.get(i, k)))
    return Not(exists(i, 0, x.r, d) if x.c.const() == 1 else exists(i, 0, x.r, exists(j, 0, x.c, d)))
def _is_equal(s, a, n, st):
    """SX::is_equal compares expressions: when it holds the values are equal; it may also fail where they are"""
    x, y = toM(a[0]), toM(a[1])
    if not (same(x.r, y.r) and same(x.c, y.c)):
        if decide(And(eq(x.r, y.r), eq(x.c, y.c))) is False: return FALSE
        raise Unsupported('comparison of %r and %r' % (x, y))
    return And(patom('sxeq', ivar('q')), _meq(x, y))
def _is_value(b, k):
    """SX::is_zero and the like look at the expression: when they hold every entry has the value, they may also fail where it has"""
    m = toM(b); return And(patom('sxeq', ivar('q')), _meq(m, Mat.gen(m.r, m.c, lambda i, j: toP(k))))
def _sq(m): return sumn(m.r, lambda i: sumn(m.c, lambda j: m.get(i, j) * m.get(i, j)))
def _approx(x, y, e):
    if not (same(x.r, y.r) and same(x.c, y.c)): raise Unsupported('comparison of %r and %r' % (x, y))
    p, q = _sq(x), _sq(y); return Not(patom('rlt', e * e * ite(patom('rlt', q, p), q, p), _sq(ew(lambda u, v: u - v, x, y))))
MAT = {
 'T': _asM(lambda m: m.T()), 'transpose': _asM(lambda m: m.T()), 'size1': _asM(lambda m: m.r), 'size2': _asM(lambda m: m.c), 'rows': _asM(lambda m: m.r),
 'columns': _asM(lambda m: m.c), 'cols': _asM(lambda m: m.c), 'numel': _asM(lambda m: m.numel()),
 'size': lambda s, b, lv, a, n, st: toM(b).numel() if isint(tclean(n.t)) or 'pair' not in (n.x + n.t) else Tup((toM(b).r, toM(b).c)),
 'resize': _m_resize, 'conservativeResize': _m_cons, 'get_elements': _asM(lambda m: dense(m.numel(), lambda k: m.lin(k))), 'nonzeros': _asM(lambda m: _uns('nonzeros')),
 'data': lambda s, b, lv, a, n, st: Iter(toM(b), 0, lv), 'is_empty': _asM(lambda m: Or(eq(m.r, 0), eq(m.c, 0))),
 'is_constant': lambda s, b, lv, a, n, st: patom('isconst', toP(b)), 'is_zero': lambda s, b, lv, a, n, st: _is_value(b, 0), 'is_one': lambda s, b, lv, a, n, st: _is_value(b, 1), 'is_minus_one': lambda s, b, lv, a, n, st: _is_value(b, -1), 'eval': _asM(lambda m: m), 'scalar': _asM(lambda m: m.scalar()),
 'setZero': lambda s, b, lv, a, n, st: s.write(st, lv, zeros(b.r, b.c)), 'norm': _asM(lambda m: _map('sqrt')(None, [_sq(m)], None, None)),
 'squaredNorm': _asM(lambda m: _sq(m)), 'sum': _asM(lambda m: sumn(m.r, lambda i: sumn(m.c, lambda j: m.get(i, j)))),
 'isApprox': lambda s, b, lv, a, n, st: _approx(toM(b), toM(a[0]), toP(a[1]) if len(a) > 1 else ONE * Q('1e-12')),
 'dot': lambda s, b, lv, a, n, st: mul(toM(b).T(), a[0]).scalar(),
 'segment': lambda s, b, lv, a, n, st: _line(b, a[0], a[1] if len(a) > 1 else fixedsize(n)[-1]),
 **{m: (lambda m: lambda s, b, lv, a, n, st: b.block(*corner(m, b, [toIdx(x) for x in a], n)))(m) for m in CORNERS},
 'head': lambda s, b, lv, a, n, st: _line(b, 0, a[0] if a else fixedsize(n)[-1]), 'tail': lambda s, b, lv, a, n, st: (lambda k: _line(b, b.numel() - k, k))(toI(a[0] if a else fixedsize(n)[-1])),
 'trace': _asM(lambda m: sumn(m.r, lambda i: m.get(i, i))), 'cross': lambda s, b, lv, a, n, st: _cross(toM(b), toM(a[0])),
 'cwiseProduct': lambda s, b, lv, a, n, st: ew(lambda x, y: x * y, toM(b), toM(a[0])), 'cwiseAbs': _asM(lambda m: m.map(lambda x: fn('abs', x))), 'noalias': lambda s, b, lv, a, n, st: b,
}
def _v_resize(s, b, lv, a, n, st):
    k = toIdx(a[0]); old = b.size(); t = tclean(n.c[0].c[0].x if isvec(tclean(n.c[0].c[0].x)) else n.c[0].c[0].t)
    e = a[1] if len(a) > 1 else s.elem0(t)
    if same(k, old): return None
    if old.const() == 0: s.write(st, lv, dense(k, lambda i: e)); return None
    def g(i):
        if decide(lt(i, old)): return b.get(i)
        if decide(ge(i, old)): return e
        with assume(lt(i, old)): x = b.get(i)
        return vite(lt(i, old), x, e)
    s.write(st, lv, dense(k, g))
def vect(s, n):
    t = tclean(n.c[0].c[0].x if isvec(tclean(n.c[0].c[0].x)) else n.c[0].c[0].t); return s.elemt(t)
def _v_assign(s, b, lv, a, n, st):
    t = vect(s, n)
    if isinstance(a[0], Iter): s.write(st, lv, narrow(s.range_of(a[0], a[1]), t)); return None
    s.write(st, lv, narrow(dense(toIdx(a[0]), lambda i: a[1]), t))
def _v_push(s, b, lv, a, n, st):
    t = tclean(n.c[0].c[0].x if isvec(tclean(n.c[0].c[0].x)) else n.c[0].c[0].t)
    v = a[0]
    if s.elemt(t) == 'float' and isinstance(v, Poly): v = single(v)
    if isinstance(v, Poly) and (issx(s.elemt(t))): v = toP(v)
    if isinstance(v, Mat) and scalarish(v): v = v.scalar()
    s.write(st, lv, b.push(v))
def _v_insert(s, b, lv, a, n, st):
    if isinstance(a[0], Iter) and decide(eq(a[0].off, b.size())) and len(a) == 3:
        s.write(st, lv, Vec(b.s + narrow(s.range_of(a[1], a[2]), vect(s, n)).s)); return None
    raise Unsupported('insert, line %s' % n.line)
VEC = {
 'size': lambda s, b, lv, a, n, st: b.size(), 'resize': _v_resize, 'assign': _v_assign, 'push_back': _v_push, 'emplace_back': _v_push, 'insert': _v_insert,
 'begin': lambda s, b, lv, a, n, st: Iter(b, 0, lv), 'end': lambda s, b, lv, a, n, st: Iter(b, b.size(), lv), 'empty': lambda s, b, lv, a, n, st: eq(b.size(), 0),
 'cbegin': lambda s, b, lv, a, n, st: Iter(b, 0, lv), 'cend': lambda s, b, lv, a, n, st: Iter(b, b.size(), lv),
 'clear': lambda s, b, lv, a, n, st: s.write(st, lv, Vec([])), 'reserve': lambda s, b, lv, a, n, st: None, 'data': lambda s, b, lv, a, n, st: Iter(b, 0, lv),
 'at': lambda s, b, lv, a, n, st: s.step(b, ('x', a[0])), 'back': lambda s, b, lv, a, n, st: b.get(b.size() - 1), 'front': lambda s, b, lv, a, n, st: b.get(0),
}
def _mp_insert(s, b, lv, a, n, st):
    kv = a[0]
    if isinstance(kv, Vec): kv = Tup(kv.items())
    c = b.has(kv.x[0])
    s.write(st, lv, b.put(kv.x[0], kv.x[1], Not(c)) if not decide(Not(c)) else b.put(kv.x[0], kv.x[1]))
def _mp_emplace(s, b, lv, a, n, st):
    if len(a) != 2: raise Unsupported('emplace')
    _mp_insert(s, b, lv, [Tup(a)], n, st)
def _mp_assign(s, b, lv, a, n, st): s.write(st, lv + ('m', a[0]), a[1])
def _mp_find(s, b, lv, a, n, st):
    if b.dflt is not None and not b.base and not b.log and type(b) is Map: raise Unsupported('find in a map of defaults')
    return MapIt(b, a[0], lv)
def _mp_size(s, b, lv, a, n, st):
    if b.enum and not b.base and len(b.log) == 1: return b.log[0][3] - b.log[0][2]
    if b.log: raise Unsupported('size of a map with computed keys')
    return toI(len(b.base))
MAP = {'count': lambda s, b, lv, a, n, st: ind(b.has(a[0])), 'insert': _mp_insert, 'at': lambda s, b, lv, a, n, st: b.get(a[0]), 'size': _mp_size, 'contains': lambda s, b, lv, a, n, st: b.has(a[0]), 'find': _mp_find, 'end': lambda s, b, lv, a, n, st: MapIt(b, None, lv), 'cend': lambda s, b, lv, a, n, st: MapIt(b, None, lv),
       'emplace': _mp_emplace, 'try_emplace': _mp_emplace, 'insert_or_assign': _mp_assign}
def _s_size(s, b, lv, a, n, st): return _tx().length(b)
def _tx():
    from . import texts
    return texts
def _s_part(t, a):
    """t, or its part from position a[0] (of at most a[1] characters)"""
    if not a: return t
    L = _tx().length(t); lo = toIdx(a[0])
    if not decide(And(ge(lo, 0), le(lo, L))): raise Unsupported('substring past the end')
    if len(a) < 2 or a[1] is None or toI(a[1]).const() == 2 ** 64 - 1: return _tx().sub(t, lo, L)
    k = toIdx(a[1])
    if not decide(ge(k, 0)): raise Unsupported('substring of negative length')
    return _tx().sub(t, lo, lo + k if decide(le(lo + k, L)) else L if decide(ge(lo + k, L)) else iite(le(lo + k, L), lo + k, L))
def _s_swap(s, b, lv, a, n, st):
    o = s.lv(n.c[1], st); x = s.read(st, o); s.write(st, o, b); s.write(st, lv, x)
def _s_replace(s, b, lv, a, n, st):
    if len(a) != 3: raise Unsupported('replace')
    L = _tx().length(b); lo = toIdx(a[0]); k = toIdx(a[1])
    if not decide(And(ge(lo, 0), ge(k, 0), le(lo + k, L))): raise Unsupported('replace past the end')
    s.write(st, lv, _tx().sub(b, 0, lo) + a[2] + _tx().sub(b, lo + k, L))
def _s_pop(s, b, lv, a, n, st):
    def pop(p):
        if not p: raise Unsupported('pop_back of %r' % (b,))
        x = p[-1]
        if isinstance(x, str): return p[:-1] + (x[:-1],)
        if x[0] == 'fam' and decide(lt(x[2], x[3])): return p[:-1] + (('fam', x[1], x[2], x[3] - 1, x[4]),) + pop(vsubst(x[4], {x[1]: x[3] - 1}).p)
        if x[0] == 'alt': return p[:-1] + (('alt', x[1], Str(pop(x[2].p)), Str(pop(x[3].p))),)
        raise Unsupported('pop_back of %r' % (b,))
    s.write(st, lv, Str(pop(b.p)))
def _s_compare(s, b, lv, a, n, st):
    if len(a) != 1: raise Unsupported('compare of a part')
    e = str_eq(b, a[0])
    if e is TRUE: return toI(0)
    u = ivar('cmp', None, None, True); T_ = ind(ge(u, 0)) * 2 - 1
    return T_ if e is FALSE else iite(e, toI(0), T_)
STR = {'compare': _s_compare, 'as': lambda s, b, lv, a, n, st: b, 'size': _s_size, 'length': _s_size, 'empty': lambda s, b, lv, a, n, st: str_eq(b, Str(())), 'c_str': lambda s, b, lv, a, n, st: b,
       'append': lambda s, b, lv, a, n, st: s.write(st, lv, b + _s_part(a[0], a[1:])), 'assign': lambda s, b, lv, a, n, st: s.write(st, lv, _s_part(a[0], a[1:])), 'substr': lambda s, b, lv, a, n, st: _s_part(b, a),
       'find': lambda s, b, lv, a, n, st: _tx().find(b, a[0], a[1] if len(a) > 1 else 0), 'reserve': lambda s, b, lv, a, n, st: None, 'clear': lambda s, b, lv, a, n, st: s.write(st, lv, Str(())),
       'find_last_of': lambda s, b, lv, a, n, st: _tx().find_last(b, a[0], True), 'rfind': lambda s, b, lv, a, n, st: _tx().find_last(b, a[0], False), 'string': lambda s, b, lv, a, n, st: b, 'filename': lambda s, b, lv, a, n, st: Str((('sym', 'filename:%r' % b, ()),)),
       'push_back': lambda s, b, lv, a, n, st: s.write(st, lv, b + a[0]), 'swap': _s_swap, 'replace': _s_replace, 'pop_back': _s_pop, 'str': lambda s, b, lv, a, n, st: b}
YML = {'as': lambda s, b, lv, a, n, st: yas(b, n.x if 'vector' in n.x or 'string' in n.x else n.t), 'size': lambda s, b, lv, a, n, st: ylen(b), 'operator bool': lambda s, b, lv, a, n, st: yexists(b), 'IsDefined': lambda s, b, lv, a, n, st: yexists(b)}
OBJ = {k: (lambda s, b, lv, a, n, st: b) for k in ('SetIndent', 'SetSeqFormat', 'SetMapFormat', 'close', 'open', 'what')}
OBJ['c_str'] = lambda s, b, lv, a, n, st: b
OBJ['is_open'] = lambda s, b, lv, a, n, st: toC(b.f['text'] is not UNDEF) if b.cls == 'ifstream' else TRUE
def _rdbuf(s, b, lv, a, n, st):
    if b.cls == 'stringstream': return _sstr(s, b, lv, a, n, st)
    if b.f.get('text', UNDEF) is UNDEF: raise Unsupported('rdbuf')
    s.write(st, lv, b.put('text', Str(()))) if lv is not None else None; return b.f['text']
def _sstr(s, b, lv, a, n, st):
    if a: raise Unsupported('str(text)')
    return b.f['out']
OBJ['rdbuf'] = _rdbuf; OBJ['str'] = _sstr
SEG = {'size1': lambda s, b, lv, a, n, st: b.rows if b.rows is not None else b.v.size(), 'size2': lambda s, b, lv, a, n, st: b.v.size() if b.rows is not None else toI(1)}
def _c_get(s, st, this, as_, n):
    m = re.search(r'_Nth_type<(\d+)|tuple_element(?:_t)?<(\d+)|get<(\d+)', ' '.join([n.t, n.x, n.c[0].rt or '', n.c[0].t or '']))
    v = force(s.ev(as_[0], st))
    if not isinstance(v, Tup): return NotImplemented
    if m: return v.x[int(m.group(1) or m.group(2) or m.group(3))]
    raise Unsupported('std::get: %s | %s' % (n.t, n.c[0].rt))
CONTRACTS = {'get': _c_get}
