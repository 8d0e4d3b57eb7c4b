"""Symbolic execution of the C++ functions in the JSON dump of the real sources.

Values are terms; states map storage roots to terms; branches are merged; loops are summarised by inferred closed
forms, whose initiation and preservation are emitted as obligations."""
import re
import json
from . import terms as t
from .terms import T, TRUE, FALSE, ZERO, ONE, tm, num
from . import prover
from .prover import Ctx


class Unsupported(Exception):
    pass


def bare(fn):
    """qualified name without template arguments"""
    out, d = [], 0
    s = fn.replace('operator<<', 'operator%%').replace('operator<=', 'operator%=').replace('operator<', 'operator%') \
          .replace('operator->', 'operator-#').replace('operator>=', 'operator#=').replace('operator>', 'operator#')
    for c in s:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out).replace('%', '<').replace('#', '>')


# ---------------------------------------------------------------------------------------------- python-side values
_objs = {}


def wrap(o):
    k = t._mk('obj', (id(o), getattr(o, 'label', type(o).__name__)), 'O')
    _objs[k] = o
    fvs = getattr(o, 'fv', None)
    return k


def unwrap(x):
    return _objs.get(x)


class LV:
    """storage location: root and access path"""
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, tuple(path)

    def __add__(self, p):
        return LV(self.root, self.path + (p,))

    def __repr__(self):
        return 'LV(%s%s)' % (self.root, self.path)


class Closure:
    def __init__(self, params, body, frame, fn=None, label='closure'):
        self.params, self.body, self.frame, self.fn, self.label = params, body, frame, fn, label


class Iter:
    """position in a container (an LV) ; stride -1 for reverse iterators"""

    def __init__(self, cont, pos, stride=1):
        self.cont, self.pos, self.stride = cont, pos, stride


class SpIter:
    def __init__(self, cont, col, pos):
        self.cont, self.col, self.pos = cont, col, pos


class Ptr:
    def __init__(self, lv):
        self.lv = lv


class Diag:
    def __init__(self, v):
        self.v = v


class QR:
    def __init__(self, m):
        self.m = m


class Eig:
    def __init__(self, m):
        self.m = m


class Comma:
    def __init__(self, lv, n):
        self.lv, self.n = lv, n


class TriView:
    def __init__(self, m, lower):
        self.m, self.lower = m, lower


class Inserter:
    def __init__(self, lv):
        self.lv = lv


class State:
    __slots__ = ('env', 'pc', 'alias')

    def __init__(self, env=None, pc=TRUE):
        self.env = dict(env or {})
        self.pc = pc

    def copy(self):
        return State(self.env, self.pc)


class Frame:
    def __init__(self, this=None, cls=None):
        self.vars = {}
        self.this = this
        self.cls = cls
        self.returns = []
        self.loops = []       # stack of dicts {'break': [], 'continue': []}

    def child(self):
        f = Frame(self.this, self.cls)
        f.vars = self.vars
        return f


class Ob:
    def __init__(self, kind, ctx, goal, where, text):
        self.kind, self.ctx, self.goal, self.where, self.text = kind, ctx, goal, where, text


def esort(ty):
    k = ty['k']
    if k == 'int':
        return 'I'
    if k == 'bool':
        return 'B'
    if k == 'real':
        return 'R'
    if k == 'rec':
        if ty.get('eigen'):
            s = eshape(ty)
            return {'S': 'R', 'V': 'V', 'W': 'V', 'M': 'M'}.get(s, 'O')
        if ty['n'] == 'std::vector':
            return 'V'
        if ty['n'] == 'std::basic_string':
            return 'S'
        return 'O'
    return 'O'


def eshape(ty):
    """S scalar, V column, W row, M matrix, P sparse, D diagonal, X other (for Eigen types)"""
    if not ty.get('eigen'):
        return 'S'
    n = ty['n']
    if 'Diagonal' in n and 'ek' not in ty:
        return 'D'
    if ty.get('ek') == 'sparse':
        return 'P'
    if 'rows' not in ty:
        return 'X'
    r, c = ty['rows'], ty['cols']
    if r == 1 and c == 1:
        return 'S'
    if c == 1:
        return 'V'
    if r == 1:
        return 'W'
    return 'M'


def is_sparse(x):
    return isinstance(x, T) and x.op == 'rec' and x.a[0] == '%sparse'


def sparse_dense(x):
    f = dict(x.a[1])
    return t.mlam(f['rows'], f['cols'], lambda i, j: t.SUM(f['nnz'], lambda e: t.mul(
        t.iv(t.eq(t.at(f['ri'], e), i)), t.iv(t.eq(t.at(f['ci'], e), j)), t.at(f['va'], e))))


def dense(x):
    return sparse_dense(x) if is_sparse(x) else x


# matrix helpers ------------------------------------------------------------------------------
def matmul(a, b):
    """M*M, M*V"""
    if b.sort == 'V':
        return t.lam(t.rows(a), lambda i: t.SUM(t.cols(a), lambda k: t.mul(t.at2(a, i, k), t.at(b, k))))
    return t.mlam(t.rows(a), t.cols(b), lambda i, j: t.SUM(t.cols(a), lambda k: t.mul(t.at2(a, i, k), t.at2(b, k, j))))


def vecmat(a, b):
    return t.lam(t.cols(b), lambda j: t.SUM(t.rows(b), lambda k: t.mul(t.at(a, k), t.at2(b, k, j))))


def transpose(m):
    return t.mlam(t.cols(m), t.rows(m), lambda i, j: t.at2(m, j, i))


def emap(f, *xs):
    """elementwise; scalars broadcast"""
    vs = [x for x in xs if x.sort == 'V']
    ms = [x for x in xs if x.sort == 'M']
    if ms:
        m = ms[0]
        return t.mlam(t.rows(m), t.cols(m), lambda i, j: f(*[t.at2(x, i, j) if x.sort == 'M' else x for x in xs]))
    if vs:
        return t.lam(t.length(vs[0]), lambda i: f(*[t.at(x, i) if x.sort == 'V' else x for x in xs]))
    return f(*xs)


def size_of(x):
    if x.sort == 'V':
        return t.length(x)
    if x.sort == 'M':
        return t.mul(t.rows(x), t.cols(x))
    if is_sparse(x):
        f = dict(x.a[1])
        return t.mul(f['rows'], f['cols'])
    return ONE


from fractions import Fraction as _F
KNOWN_CONSTANTS = (('%sqrt(pi)', _F('1.77245385090551602729816748334')), ('%log(sqrt(2*pi))', _F('0.918938533204672741780329736406')),
                   ('%pi', _F('3.14159265358979323846264338328')))


def inverse(m):
    r = t.app('inv', m, sort='M')
    t.setshape(r, t.rows(m), t.rows(m))
    return r


def det(m):
    return t.app('det', m)


def power(x, p):
    p = tm(p)
    if t.is_num(p):
        v = t.numval(p)
        if v.denominator == 1 and abs(v) <= 64:
            return t.powi(x, int(v))
        if v.denominator == 2 and v.numerator == 1:
            return t.sqrt(x)
    if p.sort == 'I':
        return t.app('pown', x, p)
    return t.app('pow', x, p)


# ---------------------------------------------------------------------------------------------- program
class Program:
    def __init__(self, js):
        d = js if isinstance(js, dict) else json.load(open(js))
        self.funs = {}
        self.byname = {}
        for f in d['functions']:
            self.funs[f['fid']] = f
            self.byname.setdefault(f['name'], []).append(f)
        self.recs = {r['name']: r for r in d['records']}
        self.derived = {}
        for r in d['records']:
            for b in r.get('bases', []):
                self.derived.setdefault(b, []).append(r['name'])

    def fields(self, cls):
        r = self.recs.get(cls)
        if r is None:
            return []
        out = []
        for b in r.get('bases', []):
            out += self.fields(b)
        return out + [(f['n'], f['t']) for f in r.get('fields', [])]

    def isa(self, cls, base):
        if cls == base:
            return True
        r = self.recs.get(cls)
        return bool(r) and any(self.isa(b, base) for b in r.get('bases', []))

    def find(self, name, nparams=None, pred=None):
        c = [f for f in self.byname.get(name, []) if f.get('body')]
        if nparams is not None:
            c = [f for f in c if len(f['params']) == nparams]
        if pred:
            c = [f for f in c if pred(f)]
        if len(c) != 1:
            raise Unsupported('function %s/%s: %d candidates' % (name, nparams, len(c)))
        return c[0]

    def method(self, cls, name, nargs):
        """resolve a (virtual) method in the dynamic class"""
        seen = [cls]
        while seen:
            c = seen.pop(0)
            for f in self.byname.get(c + '::' + name, []):
                if f.get('body') and len(f['params']) == nargs:
                    return f
            r = self.recs.get(c)
            if r:
                seen += r.get('bases', [])
        return None


class Exec:
    def __init__(self, prog, facts=(), contracts=None, inline_depth=40):
        self.readonly = set()
        self.p = prog
        self.facts = list(facts)
        self.obs = []
        self.throws = []         # (cond, type)
        self.contracts = contracts or {}
        self.depth = 0
        self.max_depth = inline_depth
        self.nroot = 0
        self.called = set()
        self.used_contracts = set()
        self.assumed = set()
        self.safety = True
        self.silent = 0
        self.where = ''
        self.statics = {}
        self.invariants = []

    # ---------------------------------------------------------------- misc
    def ctx(self, st, *more):
        return Ctx(self.facts).plus(*(list(st.pc.a) if st.pc.op == 'and' else [st.pc]), *more)

    def oblige(self, kind, st, goal, text, line=None):
        if self.silent or goal is TRUE:
            if goal is TRUE and not self.silent:
                self.obs.append(Ob(kind, Ctx(), TRUE, (self.where, line), text))
            return
        self.obs.append(Ob(kind, self.ctx(st), goal, (self.where, line), text))

    def root(self, name):
        self.nroot += 1
        return '%s@%d' % (name, self.nroot)

    def alloc(self, st, v, name='tmp'):
        r = self.root(name)
        st.env[r] = v
        return LV(r)

    def decide(self, st, c):
        return prover.decide(self.ctx(st), c)

    # ---------------------------------------------------------------- storage
    def get(self, st, lv):
        v = st.env[lv.root]
        for p in lv.path:
            v = self.step(v, p)
        return v

    def step(self, v, p):
        k = p[0]
        if k == 'f':
            return self.fld(v, p[1])
        if k == 'i':
            return t.at(v, p[1])
        if k == 'ij':
            return t.at2(v, p[1], p[2])
        if k == 'seg':     # vector segment start, n
            return t.lam(p[2], lambda i: t.at(v, t.add(i, p[1])))
        if k == 'blk':     # r0, c0, nr, nc
            return t.mlam(p[3], p[4], lambda i, j: t.at2(v, t.add(i, p[1]), t.add(j, p[2])))
        if k == 'row':
            return t.lam(t.cols(v), lambda j: t.at2(v, p[1], j))
        if k == 'col':
            return t.lam(t.rows(v), lambda i: t.at2(v, i, p[1]))
        if k == 'spval':
            return t.at(t.fld(v, 'va'), p[1])
        if k == 'diag':
            return t.lam(t.rows(v), lambda i: t.at2(v, i, i))
        raise Unsupported('step %s' % (p,))

    def fld(self, v, n):
        if v.op == 'rec':
            for k, x in v.a[1]:
                if k == n:
                    return x
            raise Unsupported('no field %s in %s' % (n, v.a[0]))
        if v.op == 'ite':
            return t.ite(v.a[0], self.fld(v.a[1], n), self.fld(v.a[2], n))
        raise Unsupported('field %s of opaque %s' % (n, t.show(v)[:80]))

    def unwrap(self, x):
        return unwrap(x)

    def put(self, st, lv, val):
        if lv.root in self.readonly:
            raise Unsupported('write to an object behind an unknown pointer')
        st.env[lv.root] = self.upd(st.env.get(lv.root), lv.path, val)

    def upd(self, v, path, val):
        if not path:
            return val
        p, rest = path[0], path[1:]
        k = p[0]
        if rest:
            val = self.upd(self.step(v, p), rest, val)
        if k == 'f':
            if v.op == 'ite':
                return t.ite(v.a[0], self.upd(v.a[1], (p,), val), self.upd(v.a[2], (p,), val))
            if v.op != 'rec':
                raise Unsupported('write to field of opaque value')
            return t.withf(v, p[1], val)
        if k == 'i':
            return t.lam(t.length(v), lambda j: t.ite(t.eq(j, p[1]), val, t.at(v, j)))
        if k == 'ij':
            return t.mlam(t.rows(v), t.cols(v), lambda i, j: t.ite(t.land(t.eq(i, p[1]), t.eq(j, p[2])), val,
                                                                    t.at2(v, i, j)))
        if k == 'seg':
            return t.lam(t.length(v), lambda j: t.ite(t.land(t.le(p[1], j), t.lt(j, t.add(p[1], p[2]))),
                                                      t.at(val, t.sub(j, p[1])), t.at(v, j)))
        if k == 'blk':
            _, r0, c0, nr, nc = p
            return t.mlam(t.rows(v), t.cols(v), lambda i, j: t.ite(
                t.land(t.le(r0, i), t.lt(i, t.add(r0, nr)), t.le(c0, j), t.lt(j, t.add(c0, nc))),
                t.at2(val, t.sub(i, r0), t.sub(j, c0)), t.at2(v, i, j)))
        if k == 'row':
            return t.mlam(t.rows(v), t.cols(v), lambda i, j: t.ite(t.eq(i, p[1]), t.at(val, j), t.at2(v, i, j)))
        if k == 'col':
            return t.mlam(t.rows(v), t.cols(v), lambda i, j: t.ite(t.eq(j, p[1]), t.at(val, i), t.at2(v, i, j)))
        if k == 'diag':
            return t.mlam(t.rows(v), t.cols(v), lambda i, j: t.ite(t.eq(i, j), t.at(val, i), t.at2(v, i, j)))
        if k == 'spval':
            va = t.fld(v, 'va')
            return t.withf(v, 'va', t.lam(t.length(va), lambda e: t.ite(t.eq(e, p[1]), val, t.at(va, e))))
        raise Unsupported('upd %s' % (p,))

    # ---------------------------------------------------------------- symbolic values by type
    def default(self, ty):
        """default-constructed value"""
        k = ty['k']
        if k == 'int':
            return t.fresh('uninit', 'I')
        if k == 'real':
            return t.fresh('uninit', 'R')
        if k == 'bool':
            return t.fresh('uninit', 'B')
        if k == 'rec':
            if ty.get('eigen'):
                s = eshape(ty)
                if s in 'VW':
                    return t.setshape(t.var('emptyV', 'V'), ZERO) if ty['rows'] == -1 or ty['cols'] == -1 else \
                        t.setshape(t.fresh('uninitV', 'V'), max(ty['rows'], ty['cols']))
                if s == 'M':
                    return t.setshape(t.var('emptyM', 'M'), ZERO, ZERO)
                if s == 'P':
                    return self.sparse('emptyP', ZERO, ZERO, ZERO)
            if ty['n'] == 'std::vector':
                return t.set_elem_sort(t.setshape(t.var('empty_' + esort(ty['args'][0]), 'V'), ZERO), esort(ty['args'][0]))
            if ty['n'] == 'std::basic_string':
                return t.strc('')
            if ty['n'].startswith('boost::math::normal'):
                return t.rec('%normal', {'m': ZERO, 's': ONE})
            if ty['n'] in ('std::shared_ptr', 'std::function', 'std::map') or ty['n'].startswith('boost::'):
                return t.var('null:' + ty['n'], 'O')
            if ty.get('repo'):
                f = [g for g in self.p.byname.get(ty['n'] + '::' + ty['n'].split('::')[-1], [])
                     if not g['params'] and g.get('body')]
                if f:
                    st = State()
                    return self.construct_with(st, ty['n'], f[0], [])
                return t.rec(ty['n'], {n: self.default(x) for n, x in self.p.fields(ty['n'])})
        if k == 'ptr':
            return t.var('null', 'O')
        raise Unsupported('default value of %s' % ty)

    def sparse(self, name, r, c, n):
        return t.rec('%sparse', {'rows': tm(r), 'cols': tm(c), 'nnz': tm(n), 'ri': t.vecvar(name + '.ri', n, 'I'),
                                 'ci': t.vecvar(name + '.ci', n, 'I'), 'va': t.vecvar(name + '.va', n, 'R')})

    def symbolic(self, ty, name):
        k = ty['k']
        if k in ('int', 'real', 'bool'):
            return t.var(name, esort(ty))
        if k == 'rec':
            if ty.get('eigen'):
                s = eshape(ty)
                if s in 'VW':
                    n = t.var(name + '.n', 'I')
                    self.facts.append(t.le(0, n))
                    return t.vecvar(name, n, esort(ty['sc']) if 'sc' in ty else 'R')
                if s == 'M':
                    r, c = t.var(name + '.r', 'I'), t.var(name + '.c', 'I')
                    self.facts += [t.le(0, r), t.le(0, c)]
                    return t.matvar(name, r, c)
                if s == 'P':
                    r, c, n = (t.var(name + x, 'I') for x in ('.r', '.c', '.nnz'))
                    self.facts += [t.le(0, r), t.le(0, c), t.le(0, n)]
                    v = self.sparse(name, r, c, n)
                    self.facts += [t.forall(n, lambda e: t.land(t.le(0, t.at(t.fld(v, 'ri'), e)),
                                                                t.lt(t.at(t.fld(v, 'ri'), e), r))),
                                   t.forall(n, lambda e: t.land(t.le(0, t.at(t.fld(v, 'ci'), e)),
                                                                t.lt(t.at(t.fld(v, 'ci'), e), c)))]
                    return v
            if ty['n'] == 'std::vector':
                n = t.var(name + '.n', 'I')
                self.facts.append(t.le(0, n))
                return t.vecvar(name, n, esort(ty['args'][0]))
            if ty['n'] == 'std::basic_string':
                return t.var(name, 'S')
            if ty['n'] in ('std::function', 'std::shared_ptr'):
                return t.var(name, 'O')
            if ty.get('repo') and ty['n'] in self.p.recs:
                return t.rec(ty['n'], {n: self.symbolic(x, name + '.' + n) for n, x in self.p.fields(ty['n'])})
            if ty['n'].startswith('boost::math::normal'):
                return t.rec('%normal', {'m': t.var(name + '.m', 'R'), 's': t.var(name + '.s', 'R')})
        return t.var(name, 'O')

    # ---------------------------------------------------------------- functions
    def call_function(self, st, f, args, this=None, line=None):
        """args: list of LV (refs) or T; inlines the body or uses a contract"""
        if f.get('virt') and this is not None:
            v = self.get(st, this)
            if v.op == 'rec' and v.a[0] != f.get('cls'):
                g = self.p.method(v.a[0], f['name'].split('::')[-1], len(f['params']))
                if g is not None and g is not f:
                    return self.call_function(st, g, args, this, line)
        con = self.contracts.get(f['name'])
        if con is not None:
            r = con(self, st, f, args, this)
            if r is not NotImplemented:
                self.used_contracts.add(f['name'])
                return r
        if not f.get('body') and f['name'].endswith('::operator=') and this is not None and len(args) == 1 and \
                f['params'][0]['t'].get('n') == f.get('cls', f['name'][:-11]):
            self.put(st, this, self.get(st, args[0]) if isinstance(args[0], LV) else args[0])     # implicitly defined: memberwise
            return this
        if not f.get('body'):
            raise Unsupported('no body for ' + f['name'])
        self.called.add(f['name'])
        if self.depth > self.max_depth:
            raise Unsupported('inlining too deep')
        self.depth += 1
        ow = self.where
        self.where = f['name']
        try:
            fr = Frame(this, f.get('cls'))
            self.bind(st, fr, f['params'], args)
            return self.run_body(st, fr, f['body'], f['ret'])
        finally:
            self.depth -= 1
            self.where = ow

    def bind(self, st, fr, params, args):
        for p, a in zip(params, args):
            if p['t'].get('ref'):
                if isinstance(a, LV):
                    fr.vars[p['id']] = a
                else:
                    fr.vars[p['id']] = self.alloc(st, self.conv(st, a, p['t']), p['n'])
            else:
                v = self.get(st, a) if isinstance(a, LV) else a
                fr.vars[p['id']] = self.alloc(st, self.conv(st, v, p['t']), p['n'])

    def conv(self, st, v, ty):
        """implicit conversion of a value to a declared type"""
        if isinstance(v, T):
            if ty['k'] == 'rec' and ty.get('eigen') and ty.get('plain'):
                s = eshape(ty)
                if s == 'M' and is_sparse(v):
                    return sparse_dense(v)
                if s in 'VW' and v.sort == 'M':
                    return t.lam(t.rows(v), lambda i: t.at2(v, i, 0))
                if s == 'M' and v.sort == 'V':
                    return t.mlam(t.length(v), ONE, lambda i, j: t.at(v, i))
                if s in 'VW' and v.sort in 'RI':
                    return t.lam(ONE, lambda i: v)
                if s == 'M' and v.sort in 'RI':
                    return t.mlam(ONE, ONE, lambda i, j: v)
            return v
        return wrap(v)

    def run_body(self, st, fr, body, ret):
        nthrow = len(self.throws)
        pc0 = st.pc
        live = self.exec(body, fr, st)
        rets = fr.returns
        if live is not None:
            rets = rets + [(live, None)]
        if not rets:
            # every path throws
            st.pc = FALSE
            return t.fresh('unreachable', esort(ret)) if ret['k'] != 'void' else None
        # merge
        v, s = rets[-1][1], rets[-1][0]
        env = dict(s.env)
        for s2, v2 in reversed(rets[:-1]):
            c = self.relpc(pc0, s2.pc)
            env = self.merge_env(c, s2.env, env)
            if v2 is not None:
                v = v2 if v is None else self.ite(c, v2, v)
        st.env = env
        thr = [c for c, _ in self.throws[nthrow:]]
        if len(rets) == 1 and not thr:
            st.pc = pc0
        elif thr:
            st.pc = t.land(pc0, *[t.lnot(self.relpc(pc0, c)) for c in thr])
        else:
            st.pc = pc0
        return v

    def relpc(self, base, pc):
        b = set(base.a if base.op == 'and' else (base,))
        return t.land(*[x for x in (pc.a if pc.op == 'and' else (pc,)) if x not in b])

    def ite(self, c, a, b):
        if isinstance(a, T) and isinstance(b, T):
            return t.ite(c, a, b)
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, Iter) and isinstance(b, Iter) and repr(a.cont) == repr(b.cont):
            return Iter(a.cont, t.ite(c, a.pos, b.pos), a.stride)
        raise Unsupported('merge of %s and %s' % (a, b))

    def merge_env(self, c, e1, e2):
        """c ? e1 : e2"""
        out = {}
        for k in e1.keys() | e2.keys():
            a, b = e1.get(k), e2.get(k)
            if a is b:
                out[k] = a
            elif a is None:
                out[k] = b
            elif b is None:
                out[k] = a
            else:
                oa, ob = unwrap(a), unwrap(b)
                if isinstance(oa, Iter) and isinstance(ob, Iter):
                    out[k] = wrap(self.ite(c, oa, ob))
                else:
                    out[k] = t.ite(c, a, b)
        return out

    # ---------------------------------------------------------------- statements
    def exec(self, s, fr, st):
        """returns the state that falls through (possibly the same object) or None"""
        if s is None or st is None:
            return st
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported('statement ' + k)
        return m(s, fr, st)

    def s_block(self, s, fr, st):
        for x in s['s']:
            st = self.exec(x, fr, st)
            if st is None:
                return None
        return st

    def s_null(self, s, fr, st):
        return st

    def s_expr(self, s, fr, st):
        e = s['e']
        if e['k'] == 'throw':
            self.throws.append((st.pc, e.get('e', {}).get('t', {}).get('n', '?')))
            return None
        self.ev(e, fr, st)
        if st.pc is FALSE:
            return None
        return st

    def s_return(self, s, fr, st):
        v = None
        if s.get('e') is not None:
            v = self.ev(s['e'], fr, st)
            if isinstance(v, LV):
                v = self.get(st, v)
            if isinstance(v, (Closure, Diag, Eig, QR, Ptr)):
                v = wrap(v)
        if st.pc is FALSE:
            return None
        fr.returns.append((st, v))
        return None

    def s_decl(self, s, fr, st):
        for d in s['d']:
            self.declare(d, fr, st)
        return st

    def declare(self, d, fr, st):
        ty = d['t']
        init = d.get('init')
        if ty.get('ref'):
            a = self.lvalue_or_temp(init, fr, st)
            fr.vars[d['id']] = a
            return
        if init is None:
            v = self.default(ty)
        elif init['k'] == 'construct' and not init['args'] and init.get('default'):
            v = self.ev_construct(init, fr, st)
        else:
            v = self.val(init, fr, st)
        if not isinstance(v, T):
            if isinstance(v, Iter):
                fr.vars[d['id']] = self.alloc(st, wrap(v), d['n'])
                return
            v = wrap(v)
        v = self.conv(st, v, ty)
        fr.vars[d['id']] = self.alloc(st, v, d['n'])

    def s_if(self, s, fr, st):
        if s.get('init'):
            st = self.exec(s['init'], fr, st)
        if s.get('cv'):
            st = self.exec(s['cv'], fr, st)
        c = self.val(s['c'], fr, st)
        c = self.tobool(c)
        d = self.decide(st, c) if c not in (TRUE, FALSE) else c
        if d is TRUE:
            return self.exec(s['t'], fr, st)
        if d is FALSE:
            return self.exec(s['e'], fr, st) if s['e'] else st
        pc0 = st.pc
        s1, s2 = st.copy(), st.copy()
        s1.pc = t.land(pc0, c)
        s2.pc = t.land(pc0, t.lnot(c))
        pa, pb = s1.pc, s2.pc
        s1 = self.exec(s['t'], fr, s1)
        s2 = self.exec(s['e'], fr, s2) if s['e'] else s2
        return self.join(c, pc0, pa, pb, s1, s2)

    def join(self, c, pc0, pa, pb, s1, s2):
        if s1 is None and s2 is None:
            return None
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        env = self.merge_env(c, s1.env, s2.env)
        if s1.pc is pa and s2.pc is pb:
            pc = pc0
        else:
            pc = t.land(pc0, t.lor(self.relpc(pc0, s1.pc), self.relpc(pc0, s2.pc)))
        return State(env, pc)

    def tobool(self, v):
        if isinstance(v, T):
            if v.sort == 'B':
                return v
            if v.sort in 'IR':
                return t.lnot(t.eq0(v))
        raise Unsupported('condition %s' % (v,))

    def s_break(self, s, fr, st):
        fr.loops[-1]['break'].append(st)
        return None

    def s_continue(self, s, fr, st):
        fr.loops[-1]['continue'].append(st)
        return None

    def s_for(self, s, fr, st):
        if s['init'] is not None:
            st = self.exec(s['init'], fr, st)
        return self.loop(s, s['c'], s['inc'], s['b'], fr, st)

    def s_while(self, s, fr, st):
        return self.loop(s, s['c'], None, s['b'], fr, st)

    def s_rangefor(self, s, fr, st):
        cont = self.lvalue_or_temp(s['range'], fr, st)
        # desugar: hidden position variable
        pos = self.alloc(st, ZERO, 'rpos')
        var = s['var']

        def cond(st2):
            return t.lt(self.get(st2, pos), t.length(self.get(st2, cont)))

        def body(fr2, st2):
            el = cont + ('i', self.get(st2, pos))
            if var['t'].get('ref'):
                fr2.vars[var['id']] = el
            else:
                fr2.vars[var['id']] = self.alloc(st2, self.get(st2, el), var['n'])
            return self.exec(s['b'], fr2, st2)

        def inc(fr2, st2):
            self.put(st2, pos, t.add(self.get(st2, pos), 1))
        return self.loop_py(s, cond, inc, body, fr, st)

    def loop(self, s, c, inc, b, fr, st):
        return self.loop_py(
            s,
            (lambda st2: self.tobool(self.val(c, fr, st2))) if c is not None else (lambda st2: TRUE),
            (lambda fr2, st2: self.ev(inc, fr2, st2)) if inc is not None else (lambda fr2, st2: None),
            lambda fr2, st2: self.exec(b, fr2, st2), fr, st, c=c, b=b)

    # ---------------------------------------------------------------- loops
    def loop_py(self, s, cond, inc, body, fr, st, c=None, b=None):
        # sparse iteration idiom
        sp = self.sparse_loop(s, fr, st)
        if sp is not None:
            return sp
        # unrolling when the conditions are decided
        st0 = st.copy()
        nob, nth, nret = len(self.obs), len(self.throws), len(fr.returns)
        cur = st
        ok = True
        for it in range(34):
            cc = cond(cur)
            d = self.decide(cur, cc)
            if d is FALSE:
                return cur
            if d is not TRUE or it == 33:
                ok = False
                break
            fr.loops.append({'break': [], 'continue': []})
            cur2 = body(fr, cur)
            lp = fr.loops.pop()
            if lp['break'] or lp['continue'] or cur2 is None:
                ok = False
                break
            inc(fr, cur2)
            cur = cur2
        if not ok:
            del self.obs[nob:]
            del self.throws[nth:]
            del fr.returns[nret:]
        return self.summarise(s, cond, inc, body, fr, st0)

    def summarise(self, s, cond, inc, body, fr, st):
        from .loops import summarise
        return summarise(self, s, cond, inc, body, fr, st)

    def sparse_loop(self, s, fr, st):
        """for(j < outerSize) for(InnerIterator ...) body : one pass over the stored entries in order"""
        if s['k'] != 'for' or not s.get('b'):
            return None
        inner = s['b']
        while inner['k'] == 'block' and len(inner['s']) == 1:
            inner = inner['s'][0]
        if inner['k'] != 'for' or not inner.get('init') or inner['init']['k'] != 'decl' or not inner['init'].get('d'):
            return None
        d = inner['init']['d'][0]
        if 'InnerIterator' not in d['t'].get('n', ''):
            return None
        mat = self.lvalue_or_temp(d['init']['args'][0], fr, st)
        outer_ref = d['init']['args'][1]
        while outer_ref['k'] == 'cast':
            outer_ref = outer_ref['e']
        jd = s['init']['d'][0]
        if outer_ref.get('id') != jd['id']:
            return None
        f = self.get(st, mat)
        j0 = self.val(jd['init'], fr, st)
        c = self.tobool(self.val(s['c'], fr, st))
        want = t.lt(self.get(st, fr.vars[jd['id']]), t.fld(f, 'cols'))
        if j0 is not ZERO or c is not want:
            return None
        pos = self.alloc(st, ZERO, 'sppos')

        def cond(st2):
            return t.lt(self.get(st2, pos), t.fld(self.get(st2, mat), 'nnz'))

        def bd(fr2, st2):
            k = self.get(st2, pos)
            fr2.vars[d['id']] = self.alloc(st2, wrap(SpIter(mat, None, k)), d['n'])
            fr2.vars[jd['id']] = self.alloc(st2, t.at(t.fld(self.get(st2, mat), 'ci'), k), jd['n'])
            return self.exec(inner['b'], fr2, st2)

        def inc(fr2, st2):
            self.put(st2, pos, t.add(self.get(st2, pos), 1))
        return self.loop_py({'k': 'sp', 'l': s['l']}, cond, inc, bd, fr, st)

    # ---------------------------------------------------------------- expressions
    def val(self, e, fr, st):
        v = self.ev(e, fr, st)
        if isinstance(v, LV):
            x = self.get(st, v)
            o = unwrap(x)
            if o is not None and not isinstance(o, Closure):
                return o
            return x
        return v

    def term(self, e, fr, st):
        v = self.val(e, fr, st)
        if isinstance(v, T):
            return v
        return wrap(v)

    def lvalue_or_temp(self, e, fr, st):
        v = self.ev(e, fr, st)
        if isinstance(v, LV):
            return v
        if not isinstance(v, T):
            v = wrap(v)
        return self.alloc(st, v)

    def ev(self, e, fr, st):
        m = getattr(self, 'ev_' + e['k'], None)
        if m is None:
            raise Unsupported('expression ' + e['k'] + ' ' + str(e.get('cls', '')))
        return m(e, fr, st)

    def ev_int(self, e, fr, st):
        return num(int(e['v']))

    def ev_real(self, e, fr, st):
        from fractions import Fraction
        try:
            v = Fraction(e['v'].replace('E+', 'E'))
        except Exception:
            v = Fraction(e['d'])
        for n, c in KNOWN_CONSTANTS:
            if abs(v - c) < Fraction(1, 10 ** 9):
                self.assumed.add('the literal %s stands for %s (difference below 1e-9)' % (e['v'], n[1:]))
                return t.var(n, 'R')
        return num(v)

    def ev_bool(self, e, fr, st):
        return TRUE if e['v'] else FALSE

    def ev_str(self, e, fr, st):
        return t.strc(e['v'])

    def ev_this(self, e, fr, st):
        return Ptr(fr.this)

    def ev_ref(self, e, fr, st):
        if e['id'] in fr.vars:
            return fr.vars[e['id']]
        if 'ginit' in e:
            return self.val(e['ginit'], fr, st)
        if 'global' in e:
            raise Unsupported('global ' + e['global'])
        raise Unsupported('unbound ' + e['n'])

    def ev_member(self, e, fr, st):
        b = self.ev(e['b'], fr, st)
        if isinstance(b, LV):
            o = unwrap(self.get(st, b)) if e.get('arrow') else None
            if isinstance(o, Ptr):
                b = o
        if isinstance(b, Ptr):
            b = b.lv
        if isinstance(b, LV):
            return b + ('f', e['n'])
        return self.fld(b, e['n'])

    def ev_cast(self, e, fr, st):
        v = self.val(e['e'], fr, st)
        ck = e['ck']
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingCast', 'NoOp'):
            if ck == 'IntegralToFloating':
                return v
            if ck == 'IntegralCast' and isinstance(v, T) and v.sort == 'B':
                return t.iv(v)
            if ck == 'IntegralCast' and isinstance(v, T):
                self.range_ob(v, e['t'], e['e'].get('t', {}), st, e['l'])
            return v
        if ck == 'IntegralToBoolean' or ck == 'FloatingToBoolean':
            return self.tobool(v)
        if ck == 'FloatingToIntegral':
            return self.trunc(v)
        if ck in ('ConstructorConversion', 'UserDefinedConversion', 'ToVoid', 'LValueToRValue'):
            return v
        raise Unsupported('cast ' + ck)

    def range_ob(self, v, ty, frm, st, line):
        pass

    def trunc(self, v):
        if v.sort == 'I':
            return v
        return t.app('trunc', v, sort='I')

    def ev_cond(self, e, fr, st):
        c = self.tobool(self.val(e['c'], fr, st))
        d = self.decide(st, c)
        if d is TRUE:
            return self.ev(e['a'], fr, st)
        if d is FALSE:
            return self.ev(e['b'], fr, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = t.land(st.pc, c), t.land(st.pc, t.lnot(c))
        a, b = self.val(e['a'], fr, s1), self.val(e['b'], fr, s2)
        st.env = self.merge_env(c, s1.env, s2.env)
        return self.ite(c, a, b)

    def ev_un(self, e, fr, st):
        op = e['op']
        if op in ('++', '--'):
            lv = self.ev(e['a'], fr, st)
            old = self.get(st, lv)
            o = unwrap(old)
            if isinstance(o, Iter):
                raise Unsupported('pointer ++')
            new = t.add(old, 1 if op == '++' else -1)
            self.put(st, lv, new)
            return old if e.get('post') else lv
        if op == '*':
            v = self.val(e['a'], fr, st)
            if isinstance(v, Ptr):
                return v.lv
            raise Unsupported('deref')
        if op == '&':
            return Ptr(self.lvalue_or_temp(e['a'], fr, st))
        v = self.val(e['a'], fr, st)
        if op == '-':
            return t.neg(v)
        if op == '+':
            return v
        if op == '!':
            return t.lnot(self.tobool(v))
        raise Unsupported('unary ' + op)

    def ev_bin(self, e, fr, st):
        op = e['op']
        if op in ('&&', '||'):
            a = self.tobool(self.val(e['a'], fr, st))
            s2 = st.copy()
            s2.pc = t.land(st.pc, a if op == '&&' else t.lnot(a))
            b = self.tobool(self.val(e['b'], fr, s2)) if s2.pc is not FALSE else TRUE
            st.env.update({k: v for k, v in s2.env.items() if k not in st.env})
            for k in st.env:
                if s2.env[k] is not st.env[k]:
                    raise Unsupported('side effect in short-circuit')
            return t.land(a, b) if op == '&&' else t.lor(a, b)
        if op == ',':
            self.ev(e['a'], fr, st)
            return self.ev(e['b'], fr, st)
        a, b = self.val(e['a'], fr, st), self.val(e['b'], fr, st)
        return self.binop(op, a, b, e['t'], st, e)

    def binop(self, op, a, b, ty, st, e=None):
        if not (isinstance(a, T) and isinstance(b, T)):
            raise Unsupported('operator %s on %s' % (op, type(a).__name__))
        if op in ('==', '!='):
            r = t.eq(a, b)
            return r if op == '==' else t.lnot(r)
        if a.sort == 'B' and b.sort == 'B' and op in ('&', '|'):
            return t.land(a, b) if op == '&' else t.lor(a, b)
        if op in ('&', '|') and e is not None:
            # conditions combined without short circuit arrive as 0/1 integers
            ca, cb = self.as_cond(a), self.as_cond(b)
            if ca is not None and cb is not None:
                return t.iv(t.land(ca, cb) if op == '&' else t.lor(ca, cb))
            raise Unsupported('bit operator')
        if a.sort == 'B':
            a = t.iv(a)
        if b.sort == 'B':
            b = t.iv(b)
        if op == '+':
            return t.add(a, b)
        if op == '-':
            return t.sub(a, b)
        if op == '*':
            return t.mul(a, b)
        if op == '/':
            if ty['k'] == 'int':
                return self.idiv(a, b, st)
            return t.div(a, b)
        if op == '%':
            return self.imod(a, b, st)
        if op == '<':
            return t.lt(a, b)
        if op == '>':
            return t.lt(b, a)
        if op == '<=':
            return t.le(a, b)
        if op == '>=':
            return t.le(b, a)
        if op == '<<':
            return t.mul(a, pow2(b))
        raise Unsupported('binary ' + op)

    def as_cond(self, v):
        if v.sort == 'B':
            return v
        if v is ZERO:
            return FALSE
        if v is ONE:
            return TRUE
        if v.op == 'iv':
            return v.a[0]
        if v.op == 'poly':
            d = t.pdict(v)
            if all(all(x.op == 'iv' for x, _ in m) for m in d):
                return t.eq(v, ONE)   # 0/1-valued combination of brackets
        return None

    def idiv(self, a, b, st):
        if t.is_num(a) and t.is_num(b):
            q = abs(t.numval(a)) // abs(t.numval(b))
            return num(q if (t.numval(a) >= 0) == (t.numval(b) >= 0) else -q)
        if t.is_num(b):
            q = t.mul(a, num(1 / t.numval(b)))
            if q.sort == 'I':
                return q
        return t.app('idiv', a, b, sort='I')

    def imod(self, a, b, st):
        return t.sub(a, t.mul(b, self.idiv(a, b, st)))

    def ev_assign(self, e, fr, st):
        v = self.val(e['b'], fr, st)
        lv = self.ev(e['a'], fr, st)
        if not isinstance(lv, LV):
            raise Unsupported('assignment target')
        if not isinstance(v, T):
            v = wrap(v)
        if v.sort == 'B' and e['a']['t']['k'] == 'int':
            v = t.iv(v)
        self.put(st, lv, v)
        return lv

    def ev_opassign(self, e, fr, st):
        v = self.val(e['b'], fr, st)
        lv = self.ev(e['a'], fr, st)
        op = e['op'][:-1]
        self.put(st, lv, self.binop(op, self.get(st, lv), v, e.get('ct', e['t']), st, e))
        return lv

    def ev_index(self, e, fr, st):
        raise Unsupported('array subscript')

    def ev_lambda(self, e, fr, st):
        # captures by value are frozen copies, by reference share the variable
        f2 = Frame(fr.this, fr.cls)
        for c in e['caps']:
            if 'id' in c:
                lv = fr.vars.get(c['id'])
                if lv is None:
                    continue
                if c.get('byref'):
                    f2.vars[c['id']] = lv
                else:
                    f2.vars[c['id']] = self.alloc(st, self.get(st, lv), c['n'])
        return Closure(e['params'], e['body'], f2, e.get('ret'))

    def call_closure(self, st, c, args, ret=None):
        fr = Frame(c.frame.this, c.frame.cls)
        fr.vars = dict(c.frame.vars)
        self.depth += 1
        if self.depth > self.max_depth:
            raise Unsupported('inlining too deep')
        try:
            self.bind(st, fr, c.params, args)
            return self.run_body(st, fr, c.body, c.fn or {'k': 'other'})
        finally:
            self.depth -= 1

    def apply_function(self, st, fv, args, rty):
        """call of a std::function value"""
        o = unwrap(fv)
        if isinstance(o, Closure):
            return self.call_closure(st, o, args)
        if fv.op == 'ite':
            s1, s2 = st.copy(), st.copy()
            a = self.apply_function(s1, fv.a[1], args, rty)
            b = self.apply_function(s2, fv.a[2], args, rty)
            return self.ite(fv.a[0], a, b)
        av = [self.get(st, a) if isinstance(a, LV) else a for a in args]
        h = self.contracts.get('std::function::operator()')
        if h is not None:
            r = h(self, st, fv, av, rty)
            if r is not NotImplemented:
                return r
        return symcall(fv, av, rty)

    def ev_initlist(self, e, fr, st):
        xs = [self.term(a, fr, st) for a in e['args']]
        es = xs[0].sort if xs else 'I'
        r = t.lam(len(xs), lambda i: select(i, xs)) if xs else t.set_elem_sort(
            t.setshape(t.var('empty_I', 'V'), ZERO), 'I')
        return r

    def ev_zero(self, e, fr, st):
        return ZERO if e['t']['k'] in ('int', 'real') else FALSE

    def ev_new(self, e, fr, st):
        v = self.val(e['e'], fr, st)
        lv = self.alloc(st, v, 'heap')
        return Ptr(lv)

    def ev_throw(self, e, fr, st):
        self.throws.append((st.pc, e.get('e', {}).get('t', {}).get('n', '?')))
        st.pc = FALSE
        return ZERO

    # ---------------------------------------------------------------- construction
    def ev_construct(self, e, fr, st):
        ty = e['t']
        args = e['args']
        if e.get('repo') and not (e.get('copy') and len(args) == 1):
            f = self.p.funs.get(e['fid'])
            if f is not None and f.get('body') is not None or (f is not None and f.get('inits')):
                return self.construct_with(st, ty['n'], f, self.args(e, fr, st))
            if not args:
                return self.default(ty)
            raise Unsupported('constructor ' + e['fn'])
        if e.get('copy') and len(args) == 1:
            return self.val(args[0], fr, st)
        n = ty.get('n', '')
        if n == 'std::vector':
            es = esort(ty['args'][0])
            if not args:
                return self.default(ty)
            if e.get('stdlist') or (len(args) == 1 and args[0]['k'] == 'initlist'):
                return self.ev_initlist(args[0], fr, st) if args[0]['k'] == 'initlist' else self.val(args[0], fr, st)
            vs = [self.val(a, fr, st) for a in args]
            if isinstance(vs[0], Iter):
                a, b = vs[0], vs[1]
                c = self.get(st, a.cont)
                return t.lam(t.sub(b.pos, a.pos), lambda i: t.at(c, t.add(i, a.pos)))
            if isinstance(vs[0], T) and vs[0].sort == 'V':
                return vs[0]
            if len(vs) >= 2 and isinstance(vs[1], T) and vs[1].sort != 'O':
                x = vs[1]
                if es == 'B' and x.sort == 'I':
                    x = t.lnot(t.eq0(x))
                return t.set_elem_sort(t.lam(vs[0], lambda i: x), es)
            if vs[0] is ZERO:
                return self.default(ty)
            x = {'I': ZERO, 'R': ZERO, 'B': FALSE}.get(es)
            if x is None:
                raise Unsupported('vector of default objects')
            return t.lam(vs[0], lambda i: x)
        if n == 'std::basic_string':
            return self.val(args[0], fr, st) if args else t.strc('')
        if n in ('std::shared_ptr', 'std::unique_ptr'):
            v = self.val(args[0], fr, st) if args else None
            if isinstance(v, Ptr):
                return wrap(v)
            return v if v is not None else t.var('null', 'O')
        if n == 'std::function':
            if not args:
                return t.var('null', 'O')
            v = self.val(args[0], fr, st)
            return wrap(v) if isinstance(v, Closure) else v
        if n.endswith('InnerIterator'):
            raise Unsupported('free InnerIterator')
        if ty.get('eigen'):
            return self.eigen_construct(e, ty, fr, st)
        if n.startswith('boost::math::normal'):
            return t.rec('%normal', dict(zip(('m', 's'), [self.val(a, fr, st) for a in args] +
                                             [ZERO, ONE][len(args):])))
        if n == '__gnu_cxx::__normal_iterator' or n.startswith('std::reverse_iterator'):
            return self.val(args[0], fr, st)
        if n.startswith('std::') and 'error' in n or n.startswith('std::') and 'exception' in n:
            return t.var('exc', 'O')
        if ty['k'] == 'lambda':
            return self.val(args[0], fr, st)
        if not args and ty['k'] == 'rec':
            return self.default(ty)
        raise Unsupported('construct ' + e['fn'])

    def eigen_construct(self, e, ty, fr, st):
        s = eshape(ty)
        args = e['args']
        if not args:
            if 'SelfAdjoint' in ty['n']:
                raise Unsupported('default eigen solver')
            return self.default(ty)
        if 'SelfAdjointEigenSolver' in ty['n']:
            from .externals import sav
            return Eig(sav(dense(self.val(args[0], fr, st)), True))
        vs = [self.val(a, fr, st) for a in args]
        vs = [v for v, a in zip(vs, args)]
        tys = [a['t'] for a in args]
        if s in 'VW':
            if len(vs) == 1 and tys[0]['k'] in ('int', 'real'):
                n = vs[0]
                if s == 'V' or True:
                    r = t.fresh('uninitV', 'V')
                    t.setshape(r, n)
                    t.set_elem_sort(r, esort(ty['sc']) if 'sc' in ty else 'R')
                    self.oblige('size', st, t.le(0, n), 'vector size is not negative', e['l'])
                    return r
            return self.conv(st, dense(vs[0]), ty)
        if s == 'M':
            if len(vs) == 2 and tys[0]['k'] == 'int':
                self.oblige('size', st, t.land(t.le(0, vs[0]), t.le(0, vs[1])), 'matrix size is not negative', e['l'])
                return t.setshape(t.fresh('uninitM', 'M'), vs[0], vs[1])
            v = vs[0]
            if isinstance(v, Diag):
                return diagm(v.v)
            return self.conv(st, dense(v), ty)
        if s == 'P':
            return vs[0]
        if s == 'S':
            return vs[0]
        raise Unsupported('eigen construct ' + ty['n'])

    def construct_with(self, st, cls, f, args):
        con = self.contracts.get(f['name'])
        if con is not None:
            r = con(self, st, f, args, None)
            if r is not NotImplemented:
                self.used_contracts.add(f['name'])
                return r
        self.called.add(f['name'])
        lv = self.alloc(st, t.rec(cls, {}), 'obj')
        self.init_object(st, lv, cls, f, args, cls)
        r = self.get(st, lv)
        return r

    def init_object(self, st, lv, cls, f, args, dyn):
        fr = Frame(lv, cls)
        self.bind(st, fr, f['params'], args)
        done = set()
        ow = self.where
        self.where = f['name']
        r = self.p.recs[cls]
        ftypes = {x['n']: x['t'] for x in r.get('fields', [])}
        for i in f.get('inits', []):
            if 'base' in i:
                e = i['e']
                g = self.p.funs.get(e.get('fid'))
                if g is not None:
                    self.called.add(g['name'])
                    self.init_object(st, lv, i['base'], g, self.args(e, fr, st), dyn)
            elif i.get('deleg'):
                raise Unsupported('delegating constructor')
            elif 'm' in i:
                v = self.val(i['e'], fr, st)
                if not isinstance(v, T):
                    v = wrap(v)
                v = self.conv(st, v, ftypes[i['m']])
                if ftypes[i['m']]['k'] == 'bool' and v.sort != 'B':
                    v = self.tobool(v)
                self.addfield(st, lv, i['m'], v)
                done.add(i['m'])
        for n, ty in ftypes.items():
            if n not in done:
                self.addfield(st, lv, n, self.default(ty))
        if f.get('body'):
            fr.returns = []
            self.depth += 1
            if self.depth > self.max_depth:
                raise Unsupported('inlining too deep')
            try:
                self.run_body(st, fr, f['body'], {'k': 'void'})
            finally:
                self.depth -= 1
        self.where = ow

    def addfield(self, st, lv, n, v):
        o = self.get(st, lv)
        d = dict(o.a[1])
        d[n] = v
        self.put(st, lv, t.rec(o.a[0], d))

    # ---------------------------------------------------------------- calls
    def args(self, e, fr, st, skip=0):
        """arguments after the object, as LV for references"""
        out = []
        a = e['args'][skip:]
        pr = e.get('pr', [])
        for i, x in enumerate(a):
            mode = pr[i] if i < len(pr) else 'val'
            if mode in ('ref', 'cref'):
                v = self.ev(x, fr, st)
                if isinstance(v, LV):
                    out.append(v)
                elif isinstance(v, T):
                    out.append(v)
                else:
                    out.append(wrap(v))
            else:
                v = self.val(x, fr, st)
                out.append(v if isinstance(v, T) else wrap(v))
        return out

    def ev_call(self, e, fr, st):
        if e.get('repo'):
            f = self.p.funs.get(e['fid'])
            if f is None:
                raise Unsupported('unknown function ' + e['fn'])
            isop = 'opc' in e and e.get('m')
            if f.get('cls') and not f.get('static') and e.get('m'):
                b = self.ev(e['args'][0], fr, st)
                if isinstance(b, LV):
                    o = unwrap(self.get(st, b))
                    if isinstance(o, Ptr):
                        b = o
                if isinstance(b, T) and isinstance(unwrap(b), Ptr):
                    b = unwrap(b)
                if isinstance(b, Ptr):
                    b = b.lv
                if not isinstance(b, LV):
                    if isinstance(b, T):
                        b = self.alloc(st, b)
                    else:
                        raise Unsupported('method on %s' % type(b).__name__)
                return self.call_function(st, f, self.args(e, fr, st, 1), b, e['l'])
            if f.get('cls') and not f.get('static') and not f.get('ctor') and 'callee' not in e and \
                    len(e['args']) == len(f['params']) + 1:
                b = self.lvalue_or_temp(e['args'][0], fr, st)
                return self.call_function(st, f, self.args(e, fr, st, 1), b, e['l'])
            return self.call_function(st, f, self.args(e, fr, st), None, e['l'])
        if 'callee' in e:
            raise Unsupported('call through pointer')
        from .externals import call_external
        return call_external(self, e, fr, st)


def pow2(k):
    k = tm(k)
    if t.is_num(k) and 0 <= t.numval(k) < 4096:
        return num(2 ** int(t.numval(k)))
    d = t.pdict(k)
    c = d.pop((), 0)
    if c:
        from fractions import Fraction
        return t.mul(num(Fraction(2) ** int(c)), pow2(t.mkpoly(d)))
    return t.app('pow2', k, sort='I')


def select(i, xs):
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1):
        r = t.ite(t.eq(i, k), xs[k], r)
    return r


def diagm(v):
    return t.mlam(t.length(v), t.length(v), lambda i, j: t.mul(t.iv(t.eq(i, j)), t.at(v, i)))


def symcall(fv, av, rty):
    """application of an unknown function"""
    s = esort(rty)
    return t.app('call', fv, *av, sort=s)
