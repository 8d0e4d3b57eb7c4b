"""Symbolic evaluation of the real R sources over the same terms as the C++ part.

Every path of a function is followed separately (a condition that the facts do not decide splits the path); functions applied to each
element of a collection of unknown size are evaluated once for an unknown element; `for` over a collection of unknown size needs an invariant.
Functions under contract are replaced by their contracts, other functions of the package are evaluated in place."""
import copy

from . import terms as t, prover
from .terms import T, TRUE, FALSE, ZERO, ONE, tm
from .cxx import Ob, Unsupported, transpose


class RStop(Exception):
    """an R error"""

    def __init__(self, msg):
        self.msg = msg


class RReturn(Exception):
    def __init__(self, v):
        self.v = v


class RBreak(Exception):
    pass


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------- values
class Null:
    pass


NULL = Null()


class Missing:
    pass


class Num:
    """numbers or truth values: scalar ('s'), vector ('v'), matrix ('m'), matrix read column by column ('f')"""

    def __init__(self, x, mode=None, names=None, attrs=None):
        self.x = tm(x)
        self.mode = mode or {'V': 'v', 'M': 'm'}.get(self.x.sort, 's')
        if self.mode == 'v' and t.length(self.x) is ONE:
            self.x, self.mode = t.at(self.x, ZERO), 's'
        if self.mode == 'f' and t.rows(self.x) is ONE:
            m = self.x
            self.x, self.mode = t.lam(t.cols(m), lambda k: t.at2(m, ZERO, k)), 'v'
        self.names = names
        self.attrs = attrs or {}

    @property
    def n(self):
        if self.mode == 's':
            return ONE
        if self.mode == 'v':
            return t.length(self.x)
        return t.mul(t.rows(self.x), t.cols(self.x))

    def el(self, k):
        if self.mode == 's':
            return self.x
        if self.mode == 'v':
            return t.at(self.x, k)
        raise Unsupported('element of a matrix')

    def vec(self):
        """as a term of sort V"""
        if self.mode == 's':
            return t.lam(ONE, lambda k: self.x)
        if self.mode == 'v':
            return self.x
        raise Unsupported('matrix used as a vector')

    def lgl(self):
        if self.mode == 's':
            return self.x.sort == 'B'
        if self.mode == 'v':
            return t.at(self.x, t.var('%probe', 'I')).sort == 'B'
        return t.at2(self.x, t.var('%probe', 'I'), t.var('%probe', 'I')).sort == 'B'


class Sparse:
    """a sparse matrix as the list of its stored entries; kind of list: 'T' triplets, 'C' by column"""

    def __init__(self, rec, rep='C', own=None, full=None):
        self.rec, self.rep, self.full = rec, rep, full
        self.own = own or Num(dict(rec.a[1])['va'], 'v')        # the vector it holds (for questions of sharing)

    def dense(self):
        from .cxx import sparse_dense
        if self.full is not None:
            return self.full
        return sparse_dense(self.rec)


class Chr:
    """strings, of concrete number (terms of sort S)"""

    def __init__(self, v, names=None):
        self.v = [t.strc(s) if isinstance(s, str) else s for s in v]
        self.names = names


class Lst:
    def __init__(self, names, vals, attrs=None):
        self.names, self.vals = list(names), list(vals)
        self.attrs = attrs or {}

    def get(self, n):
        if n in self.names:
            return self.vals[self.names.index(n)]
        hit = [i for i, m in enumerate(self.names) if m and m.startswith(n)]
        return self.vals[hit[0]] if len(hit) == 1 else NULL

    def put(self, n, v):
        r = Lst(self.names, self.vals, self.attrs)
        if n in r.names:
            i = r.names.index(n)
            if v is NULL:
                del r.names[i], r.vals[i]
            else:
                r.vals[i] = v
        elif v is not NULL:
            r.names.append(n)
            r.vals.append(v)
        return r


class SLst:
    """a list of n values, n not known"""

    def __init__(self, n, fn, names=None, attrs=None):
        self.n, self.fn, self.names, self.attrs = tm(n), fn, names, attrs or {}


class Obj:
    """an unknown list whose components are described by a table name -> value"""

    def __init__(self, name, fields, cls=None, attrs=None):
        self.name, self.fields, self.cls, self.attrs = name, fields, cls, attrs or {}

    def get(self, n):
        if n not in self.fields:
            return NULL
        v = self.fields[n]
        return v() if callable(v) and not isinstance(v, (PyFun, Clo)) else v

    def put(self, n, v):
        f = dict(self.fields)
        if v is NULL:
            f.pop(n, None)
        else:
            f[n] = v
        return Obj(self.name, f, self.cls, self.attrs)


class Clo:
    def __init__(self, params, body, env, name='<function>'):
        self.params, self.body, self.env, self.name = params, body, env, name


class PyFun:
    def __init__(self, fn, name='<external>'):
        self.fn, self.name = fn, name


class StopsInside(Unsupported):
    pass


class Inline(Exception):
    """a contract that does not apply here: the body of the function is used"""


class Lang:
    """an expression as a value: its parse tree (with holes {'k': 'hole', ..} for arbitrary subexpressions)"""

    def __init__(self, e):
        self.e = e

    def parts(self):
        """of a call: function, arguments"""
        if self.e['k'] != 'call':
            raise Unsupported('parts of an expression of kind %s' % self.e['k'])
        return [self.e['f']] + list(self.e['a'])

    def names(self):
        return [''] + list(self.e['n'])


def as_value(e):
    """a component of an expression, as R sees it"""
    if e['k'] in ('num', 'int', 'str', 'lgl', 'null', 'val'):
        return e['v'] if e['k'] == 'val' else literal(e)
    return Lang(e)


def literal(e):
    k, v = e['k'], e.get('v')
    if k == 'num':
        return sc(t.num(num_of(v)))
    if k == 'int':
        return sc(t.num(v))
    if k == 'str':
        return Chr([v])
    if k == 'lgl':
        return lgl(v)
    return NULL


def as_tree(v):
    if isinstance(v, Lang):
        return v.e
    return {'k': 'val', 'v': v}


def make_call(parts, names=None):
    return Lang({'k': 'call', 'f': parts[0], 'a': list(parts[1:]), 'n': list((names or [''] * len(parts))[1:])})


def same_tree(a, b):
    """whether two parse trees are the same; None if not known"""
    if a is b:
        return True
    if 'hole' in (a['k'], b['k']):
        if a['k'] == b['k']:
            return True if a == b else None
        h, o = (a, b) if a['k'] == 'hole' else (b, a)
        return None if o['k'] == 'call' or h.get('any', True) else False
    if a['k'] == 'val' or b['k'] == 'val' or a['k'] in ('num', 'int', 'str', 'lgl') and b['k'] in ('num', 'int', 'str', 'lgl'):
        if 'sym' in (a['k'], b['k']) or 'call' in (a['k'], b['k']):
            return False
        return same_value(as_value(a), as_value(b))
    if a['k'] != b['k']:
        return False
    if a['k'] == 'sym':
        return a['n'] == b['n']
    if a['k'] == 'call':
        if len(a['a']) != len(b['a']):
            return False
        rs = [same_tree(x, y) for x, y in zip([a['f']] + a['a'], [b['f']] + b['a'])]
        return False if False in rs else None if None in rs else True
    return a == b


class Opq:
    """a value of which nothing is known but which value it is"""

    def __init__(self, x, n=None):
        self.x, self.n = x, n


def opq(name, *args):
    return Opq(t.app(name, *[a if isinstance(a, T) else token(a) for a in args], sort='O'))


def token(v):
    """a term that stands for the value"""
    if isinstance(v, (Num, Opq)):
        return v.x
    if isinstance(v, Chr):
        return v.v[0] if len(v.v) == 1 else t.app('strings', *v.v, sort='O')
    if isinstance(v, Sparse):
        return v.rec
    if v is NULL:
        return t.var('%NULL', 'O')
    raise Unsupported('value of kind %s as an argument of an unknown function' % type(v).__name__)


class Env:
    def __init__(self, parent=None, vars=None):
        self.vars, self.parent = vars if vars is not None else {}, parent

    def find(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e
            e = e.parent
        return None


class Promise:
    def __init__(self, e, env):
        self.e, self.env, self.v = e, env, None


def sc(x):
    return Num(x, 's')


def lgl(b):
    return Num(tm(b), 's')


def elem(v):
    return v if isinstance(v, T) else v.x


# ---------------------------------------------------------------- interpreter
class Interp:
    def __init__(self, prog, contracts, choices=()):
        self.prog, self.contracts = prog, contracts
        self.choices, self.pos = list(choices), 0
        self.facts, self.pc = [], []
        self.obs, self.effects, self.calls, self.assumed = [], [], set(), set()
        self.state = {}
        self.globals = Env()
        self.depth = 0
        self.where = '?'
        self.invariants = []
        self.verifying = None
        self.externs = dict(BUILTINS)
        self.extern_assumed = {}
        self.steps = 0
        self.exp_args, self.extremes, self.overrides = [], [], {}
        self.hole_values = None

    # ---- logic
    def ctx(self):
        return prover.Ctx(list(self.facts) + list(self.pc))

    def oblige(self, kind, goal, text):
        if goal is TRUE:
            return
        self.obs.append(Ob(kind, self.ctx(), goal, (self.where, None), text))

    def decided(self, c):
        if c is TRUE or c is FALSE:
            return c is TRUE
        ctx = self.ctx()
        s = prover.simp(c, ctx)
        if s is TRUE or s is FALSE:
            return s is TRUE
        r = prover.decide(ctx, c)
        if r in (True, False):
            return r
        if r is TRUE or r is FALSE:
            return r is TRUE
        if prover.smt(ctx, c, 300)[0] == 'proved':
            return True
        if prover.smt(ctx, t.lnot(c), 300)[0] == 'proved':
            return False
        return None

    def truth(self, c):
        d = self.decided(c)
        if d is not None:
            return d
        if self.pos < len(self.choices):
            v = self.choices[self.pos]
        else:
            v = True
            self.choices.append(v)
        self.pos += 1
        self.pc.append(c if v else t.lnot(c))
        return v

    def explore(self, fn, envs):
        """every path of fn, from the present state: [(condition, value or RStop, state of envs)]"""
        ch, ps, pc, eff, stt = self.choices, self.pos, list(self.pc), list(self.effects), dict(self.state)
        snap = [(e, dict(e.vars)) for e in envs]
        todo, out = [[]], []
        while todo:
            self.choices, self.pos = todo.pop(), 0
            n0 = len(self.choices)
            self.pc, self.effects, self.state = list(pc), list(eff), dict(stt)
            for e, v in snap:
                e.vars.clear()
                e.vars.update(v)
            try:
                r = fn()
            except RStop as s:
                r = s
            out.append((t.land(*self.pc[len(pc):]), r, [dict(e.vars) for e, _ in snap], self.effects[len(eff):], dict(self.state)))
            for k in range(len(self.choices) - 1, n0 - 1, -1):
                if self.choices[k]:
                    todo.append(self.choices[:k] + [False])
            if len(out) > 64:
                raise Unsupported('too many paths')
        self.choices, self.pos, self.pc, self.effects, self.state = ch, ps, pc, eff, stt
        for e, v in snap:
            e.vars.clear()
            e.vars.update(v)
        return out

    def envs_of(self, env):
        out = []
        while env is not None and env is not self.globals:
            out.append(env)
            env = env.parent
        return out

    def one(self, fn, env, mergeable=True):
        """value of fn with its paths merged into one value; fn must leave the state alone and not stop"""
        r = self.explore(fn, self.envs_of(env))
        base = {id(e): dict(e.vars) for e in self.envs_of(env)}
        vals = []
        for pc, v, st, eff, _ in r:
            if isinstance(v, RStop):
                c = self.ctx().plus(pc)
                if prover.smt(c, FALSE, 500)[0] == 'proved':
                    continue
                raise StopsInside('error inside a function applied to each element: %s' % v.msg)
            if eff:
                self.effects += eff
            vals.append((pc, v))
        return merge(vals)

    # ---- evaluation
    def ev(self, e, env):
        self.steps += 1
        if self.steps > 60000:
            raise Unsupported('too many steps')
        k = e['k']
        if k == 'num':
            v = e['v']
            if v == 'Inf':
                return sc(t.app('%inf'))
            if v == '-Inf':
                return sc(t.neg(t.app('%inf')))
            if v is None:
                return sc(t.var('%NA', 'R'))
            return sc(t.num(num_of(v)))
        if k == 'int':
            return sc(t.num(e['v'])) if e['v'] is not None else sc(t.var('%NA', 'R'))
        if k == 'str':
            return Chr([e['v']])
        if k == 'lgl':
            return lgl(e['v']) if e['v'] is not None else sc(t.var('%NA', 'R'))
        if k == 'null':
            return NULL
        if k == 'sym':
            return self.lookup(e['n'], env)
        if k == 'fun':
            return Clo(e['p'], e['b'], env)
        if k == 'call':
            return self.call(e, env)
        if k == 'missing':
            return Missing()
        if k == 'val':
            return e['v']
        if k == 'hole':
            return self.holes(e)
        raise Unsupported(k)

    def holes(self, e):
        if self.hole_values is None:
            raise Unsupported('value of an arbitrary expression')
        return self.hole_values(e)

    def lookup(self, n, env, fun=False):
        en = env
        while en is not None:
            if n in en.vars:
                v = en.vars[n]
                if isinstance(v, Promise):
                    v = self.force(v)
                if not fun or isinstance(v, (Clo, PyFun)):
                    return v
            en = en.parent
        if n in self.overrides:
            return PyFun(self.overrides[n], n)
        if n in self.prog:
            f = self.prog[n]
            return Clo(f['p'], f['b'], self.globals, n)
        if n in self.externs:
            return PyFun(self.externs[n], n)
        if n == '.Machine':
            return Lst(['double.eps', 'integer.max'], [sc(t.powi(t.num(2), -52)), sc(t.num(2147483647))])
        if n == 'pi':
            return sc(t.app('%pi'))
        raise Unsupported('variable or function %s' % n)

    def force(self, p):
        if p.v is None:
            p.v = self.ev(p.e, p.env)
        return p.v

    def call(self, e, env):
        f = e['f']
        if f['k'] == 'sym':
            n = f['n']
            sp = SPECIAL.get(n)
            if sp is not None and env.find(n) is None:
                return sp(self, e, env)
            fn = self.lookup(n, env, fun=True)
        elif f['k'] == 'call' and f['f']['k'] == 'sym' and f['f']['n'] in ('::', ':::'):
            n = f['a'][1]['n']
            pk = f['a'][0]['n']
            if n in self.overrides:
                fn = PyFun(self.overrides[n], n)
            elif pk + '::' + n in self.externs:
                fn = PyFun(self.externs[pk + '::' + n], n)
            elif n in self.externs:
                fn = PyFun(self.externs[n], n)
            else:
                raise Unsupported('function %s::%s' % (pk, n))
        else:
            fn = self.ev(f, env)
            n = getattr(fn, 'name', '<function>')
        if isinstance(fn, PyFun):
            if getattr(fn.fn, 'lazy', False):
                return fn.fn(self, e, env)
            pos, kw = self.args(e, env)
            return fn.fn(self, pos, kw)
        if isinstance(fn, Clo):
            return self.apply_lazy(fn, [(nm, Promise(a, env)) for a, nm in self.spread(e, env) if a['k'] != 'missing' or True])
        raise Unsupported('call of %s' % type(fn).__name__)

    def spread(self, e, env):
        out = []
        for a, nm in zip(e['a'], e['n']):
            if a['k'] == 'sym' and a['n'] == '...':
                d = env.find('...')
                for nm2, p in (d.vars['...'] if d else []):
                    out.append(({'k': 'promise', 'p': p}, nm2))
            else:
                out.append((a, nm))
        return out

    def args(self, e, env):
        pos, kw = [], {}
        for a, nm in self.spread(e, env):
            v = self.force(a['p']) if a['k'] == 'promise' else self.ev(a, env)
            if nm:
                kw[nm] = v
            else:
                pos.append(v)
        return pos, kw

    def apply(self, fn, pos, kw=None):
        """call with values"""
        if isinstance(fn, PyFun):
            return fn.fn(self, list(pos), dict(kw or {}))
        if not isinstance(fn, Clo):
            raise Unsupported('not a function')
        pr = []
        for v in pos:
            p = Promise(None, None)
            p.v = v
            pr.append(('', p))
        for n, v in (kw or {}).items():
            p = Promise(None, None)
            p.v = v
            pr.append((n, p))
        return self.apply_lazy(fn, pr)

    def apply_lazy(self, fn, args):
        names = [p[0] for p in fn.params]
        bound, rest, used = {}, [], [False] * len(args)
        dots = names.index('...') if '...' in names else len(names)
        for k, (n, p) in enumerate(args):                      # exact
            if n and n in names and n != '...' and n not in bound:
                bound[n] = p
                used[k] = True
        for k, (n, p) in enumerate(args):                      # partial
            if n and not used[k]:
                c = [m for m in names[:dots] if m.startswith(n) and m not in bound]
                if len(c) == 1:
                    bound[c[0]] = p
                    used[k] = True
        free = [n for n in names if n not in bound]
        for k, (n, p) in enumerate(args):
            if used[k]:
                continue
            if not n and free and free[0] != '...':
                bound[free.pop(0)] = p
            elif '...' in names:
                rest.append((n, p))
            else:
                raise Unsupported('unused argument %s of %s' % (n, fn.name))
        env = Env(fn.env)
        for n, dflt in fn.params:
            if n == '...':
                env.vars['...'] = rest
            elif n in bound:
                env.vars[n] = bound[n]
            elif dflt['k'] != 'missing':
                env.vars[n] = Promise(dflt, env)
        env.vars['%missing'] = [n for n in names if n not in bound]
        con = self.contracts.get(fn.name) if fn.env is self.globals else None
        if con is not None and not (fn.name == self.verifying and self.depth == 0):
            self.calls.add(fn.name)
            try:
                return con(self, fn, env)
            except Inline:
                pass
        if fn.env is self.globals:
            self.calls.add(fn.name)
        if self.depth > 60:
            raise Unsupported('recursion')
        self.depth += 1
        w, self.where = self.where, fn.name if fn.env is self.globals else self.where
        try:
            return self.ev(fn.body, env)
        except RReturn as r:
            return r.v
        finally:
            self.depth -= 1
            self.where = w

    # ---- assignment
    def assign(self, tg, v, env):
        if tg['k'] == 'str':
            tg = {'k': 'sym', 'n': tg['v']}
        if tg['k'] == 'sym':
            env.vars[tg['n']] = v
            return
        if tg['k'] != 'call':
            raise Unsupported('assignment')
        f = tg['f']['n'] if tg['f']['k'] == 'sym' else None
        cur = self.ev(tg['a'][0], env) if self.exists_target(tg['a'][0], env) else NULL
        new = self.replace(f, cur, tg, v, env)
        self.assign(tg['a'][0], new, env)

    def exists_target(self, e, env):
        return e['k'] != 'sym' or env.find(e['n']) is not None

    def replace(self, f, cur, tg, v, env):
        if f in ('$', '@'):
            n = tg['a'][1]
            n = n['n'] if n['k'] == 'sym' else n['v']
            return setfield(self, cur, n, v)
        if f == '[[':
            i = self.ev(tg['a'][1], env)
            return setelem(self, cur, i, v)
        if f == '[':
            ix = [self.ev(a, env) for a in tg['a'][1:]]
            return setindex(self, cur, ix, v)
        if f == 'names':
            return with_names(self, cur, v)
        if f == 'attr':
            w = copy.copy(cur)
            w.attrs = dict(cur.attrs)
            w.attrs[strval(self.ev(tg['a'][1], env))] = v
            return w
        if f in ('rownames', 'colnames'):
            w = copy.copy(cur)
            w.attrs = dict(getattr(cur, 'attrs', {}))
            w.attrs[f] = v
            return w
        if f == 'dimnames' and isinstance(v, Lst) and len(v.vals) == 2:
            w = copy.copy(cur)
            w.attrs = dict(getattr(cur, 'attrs', {}))
            w.attrs['rownames'], w.attrs['colnames'] = v.vals
            return w
        if f == 'environment':
            return cur
        raise Unsupported('assignment to %s(...)' % f)


def num_of(v):
    from fractions import Fraction
    if isinstance(v, int):
        return v
    return Fraction(repr(v))


def strval(v):
    if isinstance(v, Chr) and len(v.v) == 1 and v.v[0].op == 'str':
        return v.v[0].a[0]
    raise Unsupported('string not known')


def same_value(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Num):
        return a.mode == b.mode and a.x is b.x
    if isinstance(a, Chr):
        return a.v == b.v
    if isinstance(a, Lst):
        return a.names == b.names and all(same_value(x, y) for x, y in zip(a.vals, b.vals))
    return False


def merge(vals):
    """one value from (condition, value) that exclude one another and cover everything"""
    if not vals:
        raise Infeasible()
    r = vals[-1][1]
    for c, v in reversed(vals[:-1]):
        r = ite_value(c, v, r)
    return r


def ite_value(c, a, b):
    if same_value(a, b) or c is TRUE:
        return a
    if isinstance(a, Num) and isinstance(b, Num):
        if a.mode == b.mode == 's':
            if (a.x.sort == 'B') != (b.x.sort == 'B'):
                raise Unsupported('values of two kinds')
            return Num(t.ite(c, a.x, b.x), 's')
        if a.mode == b.mode and a.mode in 'mv':
            return Num(t.ite(c, a.x, b.x), a.mode)
        if {a.mode, b.mode} == {'s', 'v'}:
            return Num(t.ite(c, a.vec(), b.vec()), 'v')
    if isinstance(a, Chr) and isinstance(b, Chr) and len(a.v) == len(b.v):
        return Chr([t.ite(c, x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, NFac) and isinstance(b, NFac):
        return NFac(t.ite(c, a.code, b.code), t.ite(c, a.nlev, b.nlev))
    if isinstance(a, Lst) and isinstance(b, Lst) and a.names == b.names:
        return Lst(a.names, [ite_value(c, x, y) for x, y in zip(a.vals, b.vals)], a.attrs)
    if isinstance(a, Opq) and isinstance(b, Opq) and a.n is b.n:
        return Opq(t.ite(c, a.x, b.x), a.n)
    raise Unsupported('values of two kinds on two paths')


# ---------------------------------------------------------------- special forms
def s_block(I, e, env):
    r = NULL
    for a in e['a']:
        r = I.ev(a, env)
    return r


def s_paren(I, e, env):
    return I.ev(e['a'][0], env)


def s_assign(I, e, env):
    v = I.ev(e['a'][1], env)
    I.assign(e['a'][0], v, env)
    return v


def s_super(I, e, env):
    v = I.ev(e['a'][1], env)
    tg = e['a'][0]
    if tg['k'] != 'sym':
        raise Unsupported('<<- to a part')
    d = env.parent.find(tg['n']) if env.parent else None
    if d is None:
        I.effects.append(('global', tg['n']))
        I.globals.vars[tg['n']] = v
    else:
        I.effects.append(('assign', id(d), tg['n']))
        d.vars[tg['n']] = v
    return v


def as_cond(I, v):
    if isinstance(v, Num) and v.mode == 's':
        x = v.x
        return x if x.sort == 'B' else t.lnot(t.eq(x, ZERO))
    if v is NULL:
        raise RStop('argument is of length zero')
    raise Unsupported('condition of unknown length')


def s_if(I, e, env):
    c = as_cond(I, I.ev(e['a'][0], env))
    if I.truth(c):
        return I.ev(e['a'][1], env)
    return I.ev(e['a'][2], env) if len(e['a']) > 2 else NULL


def s_and(I, e, env):
    a = as_cond(I, I.ev(e['a'][0], env))
    if not I.truth(a):
        return lgl(FALSE)
    return lgl(TRUE if I.truth(as_cond(I, I.ev(e['a'][1], env))) else FALSE)


def s_or(I, e, env):
    a = as_cond(I, I.ev(e['a'][0], env))
    if I.truth(a):
        return lgl(TRUE)
    return lgl(TRUE if I.truth(as_cond(I, I.ev(e['a'][1], env))) else FALSE)


def s_return(I, e, env):
    raise RReturn(I.ev(e['a'][0], env) if e['a'] else NULL)


def s_switch(I, e, env):
    v = I.ev(e['a'][0], env)
    alts = list(zip(e['n'][1:], e['a'][1:]))
    if isinstance(v, Num):
        I.effects.append(('switch on a number',))
        raise Unsupported('switch on a number')
    if not (isinstance(v, Chr) and len(v.v) == 1):
        raise Unsupported('switch')
    x = v.v[0]
    for k, (n, a) in enumerate(alts):
        if n and I.truth(t.eq(x, t.strc(n))):
            while a['k'] == 'missing':
                k += 1
                a = alts[k][1]
            return I.ev(a, env)
    for n, a in alts:
        if not n:
            return I.ev(a, env)
    return NULL


def s_trycatch(I, e, env):
    hs = {n: a for n, a in zip(e['n'], e['a']) if n}
    ex = [a for n, a in zip(e['n'], e['a']) if not n or n == 'expr']
    if 'finally' in hs or 'warning' in hs:
        raise Unsupported('tryCatch')
    try:
        return I.ev(ex[0], env)
    except RStop as s:
        if 'error' not in hs:
            raise
        return I.apply(I.ev(hs['error'], env), [Obj('condition', {'message': s.msg if isinstance(s.msg, Chr) else Chr(['error']), 'call': NULL})])


def s_quote(I, e, env):
    return Lang(e['a'][0])


def s_missing(I, e, env):
    d = env.find('%missing')
    return lgl(e['a'][0]['n'] in d.vars['%missing'])


def s_dollar(I, e, env):
    v = I.ev(e['a'][0], env)
    n = e['a'][1]
    n = n['n'] if n['k'] == 'sym' else n['v']
    return getfield(I, v, n)


def s_for(I, e, env):
    var, it, body = e['a'][0]['n'], I.ev(e['a'][1], env), e['a'][2]
    n, el = iterate(I, it)
    if t.is_num(n):
        for k in range(int(t.numval(n))):
            env.vars[var] = el(t.num(k))
            try:
                I.ev(body, env)
            except RBreak as b:
                if b.args and b.args[0] == 'next':
                    continue
                break
        return NULL
    inv = I.invariants.pop(0) if I.invariants else (lambda I, env, k: {})      # none: the loop may change no variable
    if I.decided(t.le(0, n)) is not True:
        raise Unsupported('size of the collection')

    def state(k):
        return inv(I, env, k)

    for name, want in state(ZERO).items():
        have = env.vars.get(name)
        if have is not None:
            same_obligation(I, 'loop-init', have, want, 'invariant of the loop over %s: %s at the start' % (var, name))
    k = t.fresh('k', 'I')

    def step():
        I.pc += [t.le(0, k), t.lt(k, n)]
        for name, v in state(k).items():
            env.vars[name] = v
        env.vars[var] = el(k)
        I.ev(body, env)
        for name, want in state(t.add(k, 1)).items():
            same_obligation(I, 'loop-step', env.vars.get(name), want, 'invariant of the loop over %s: %s kept' % (var, name))
        return NULL
    each, paths = [], 0
    for pc, r, st, ef, _ in I.explore(step, I.envs_of(env)):
        if isinstance(r, RStop):
            raise Unsupported('error in a loop: %s' % r.msg)
        paths += 1
        for x in ef:
            if x[0] == 'term':
                each.append(x)
            else:
                I.effects.append(x)
        ks = set(state(k)) | {var}
        for name, v in st[0].items():
            if name not in ks and name in env.vars and not same_value(env.vars[name], v) and not isinstance(v, Promise):
                raise Unsupported('loop changes %s, which its invariant does not describe' % name)
    for name, v in state(n).items():
        env.vars[name] = v
    if each:
        if paths != 1:
            raise Unsupported('terms passed on in some turns of a loop only')
        I.effects.append(('each', k, n, each))
    return NULL


def same_obligation(I, kind, have, want, text):
    for g, tx in equal_goals(I, have, want):
        I.oblige(kind, g, text + tx)


def equal_goals(I, a, b, path=''):
    """goals that together say a equals b"""
    from . import deduce
    if a is b:
        return [(TRUE, path)]
    if isinstance(a, Sparse):
        a = Num(a.dense())
    if isinstance(b, Sparse):
        b = Num(b.dense())
    if isinstance(a, Num) and isinstance(b, Num):
        if a.mode == b.mode == 'f' or a.mode == b.mode == 'm' or a.mode == b.mode == 's':
            return [(deduce.eqt(a.x, b.x), path)]
        if a.mode in 'sv' and b.mode in 'sv':
            return [(deduce.eqt(a.vec(), b.vec()), path)]
        return [(FALSE, path + ' shape')]
    if isinstance(a, Chr) and isinstance(b, Chr):
        if len(a.v) != len(b.v):
            return [(FALSE, path + ' number of strings')]
        return [(t.land(*[t.eq(x, y) for x, y in zip(a.v, b.v)]), path)]
    if isinstance(a, Lst) and isinstance(b, Lst):
        out = []
        if len(a.vals) != len(b.vals) or sorted(map(str, a.names)) != sorted(map(str, b.names)):
            return [(FALSE, path + ' components %s against %s' % (a.names, b.names))]
        if a.names != b.names and all(a.names) and all(b.names):
            b = Lst(a.names, [b.get(n) for n in a.names])
        for n, x, y in zip(a.names, a.vals, b.vals):
            out += equal_goals(I, x, y, path + '$' + str(n))
        return out
    if isinstance(a, Lst) and isinstance(b, SLst) or isinstance(b, Lst) and isinstance(a, SLst):
        l, s = (a, b) if isinstance(a, Lst) else (b, a)
        out = [(t.eq(s.n, t.num(len(l.vals))), path + ' length')]
        for k, v in enumerate(l.vals):
            out += equal_goals(I, v, s.fn(t.num(k)), path + '[[%d]]' % (k + 1))
        return out
    if isinstance(a, SLst) and isinstance(b, SLst):
        k = t.fresh('e', 'I')
        out = [(t.eq(a.n, b.n), path + ' length')]
        cond = t.land(t.le(0, k), t.lt(k, a.n))
        I.pc.append(cond)
        try:
            gs = equal_goals(I, a.fn(k), b.fn(k), path + '[[k]]')
        finally:
            I.pc.pop()
        return out + [(Under(cond, g), p) for g, p in gs]
    if isinstance(a, Obj) and isinstance(b, Obj):
        if set(a.fields) != set(b.fields):
            return [(FALSE, path + ' components %s against %s' % (sorted(a.fields), sorted(b.fields)))]
        out = []
        for n in a.fields:
            out += equal_goals(I, a.get(n), b.get(n), path + '$' + n)
        return out
    if a is NULL and b is NULL:
        return [(TRUE, path)]
    if isinstance(a, PyFun) and isinstance(b, PyFun) and a.fn is b.fn:
        return [(TRUE, path)]
    if isinstance(a, Lang) and isinstance(b, Lang):
        return [(TRUE if same_tree(a.e, b.e) else FALSE, path + ' ' + show_tree(a.e) + ' against ' + show_tree(b.e))]
    if isinstance(a, NFac) and isinstance(b, NFac):
        return [(deduce.eqt(a.code, b.code), path + ' codes'), (t.eq(a.nlev, b.nlev), path + ' number of levels')]
    if isinstance(a, Opq) and isinstance(b, Opq):
        return [(deduce.eqt(a.x, b.x), path)]
    return [(FALSE, path + ' (%s against %s)' % (type(a).__name__, type(b).__name__))]


def show_tree(e):
    k = e['k']
    if k == 'sym':
        return e['n']
    if k == 'call':
        return show_tree(e['f']) + '(' + ', '.join(show_tree(x) for x in e['a']) + ')'
    if k == 'hole':
        return ('mod' if e.get('mod') else '') + '<%s>' % e['h']
    if k == 'val':
        return t.show(e['v'].x) if isinstance(e['v'], Num) else type(e['v']).__name__
    return str(e.get('v'))


class Under:
    """goal under a further assumption"""

    def __init__(self, c, g):
        self.c, self.g = c, g


def iterate(I, it):
    if isinstance(it, Num):
        if it.mode == 'f' or it.mode == 'm':
            raise Unsupported('loop over a matrix')
        return it.n, lambda k: Num(it.el(k), 's')
    if isinstance(it, Lst):
        return t.num(len(it.vals)), lambda k: it.vals[int(t.numval(k))]
    if isinstance(it, SLst):
        return it.n, it.fn
    if isinstance(it, Chr):
        return t.num(len(it.v)), lambda k: Chr([it.v[int(t.numval(k))]])
    if it is NULL:
        return ZERO, None
    if isinstance(it, Lang):
        ps = it.parts()
        return t.num(len(ps)), lambda k: as_value(ps[int(t.numval(k))])
    raise Unsupported('loop over %s' % type(it).__name__)


def s_break(I, e, env):
    raise RBreak()


def s_next(I, e, env):
    raise RBreak('next')


SPECIAL = {'{': s_block, '(': s_paren, '<-': s_assign, '=': s_assign, '<<-': s_super, 'if': s_if, '&&': s_and, '||': s_or,
           'return': s_return, 'switch': s_switch, 'tryCatch': s_trycatch, 'quote': s_quote, 'missing': s_missing, '$': s_dollar,
           '@': s_dollar, 'for': s_for, 'break': s_break, 'next': s_next}


# ---------------------------------------------------------------- components
def getfield(I, v, n):
    if isinstance(v, (Lst, Obj)):
        return v.get(n)
    if isinstance(v, Env):
        return I.lookup(n, v)
    if isinstance(v, Sparse):
        f = dict(v.rec.a[1])
        if n == 'x':
            return v.own
        if v.rep == 'T' and n in 'ij':
            return Num(f['ri' if n == 'i' else 'ci'], 'v')
        raise Unsupported('slot %s' % n)
    if v is NULL:
        return NULL
    if isinstance(v, Opq):
        return opq('component ' + n, v)
    raise Unsupported('component %s of %s' % (n, type(v).__name__))


def setfield(I, v, n, x):
    if v is NULL:
        v = Lst([], [])
    if isinstance(v, (Lst, Obj)):
        return v.put(n, x)
    if isinstance(v, Sparse) and n == 'x' and isinstance(x, Num):
        f = dict(v.rec.a[1])
        I.oblige('size', t.eq(x.n, f['nnz']), 'one value for each stored entry')
        f['va'] = x.vec()
        return Sparse(t.rec('%sparse', f), v.rep, x)
    raise Unsupported('component %s of %s' % (n, type(v).__name__))


def index1(I, i):
    """position (0-based term) for a scalar index"""
    if isinstance(i, Num) and i.mode == 's' and i.x.sort in 'IR':
        return t.sub(i.x, 1)
    raise Unsupported('index')


def setelem(I, v, i, x):
    if isinstance(i, Chr):
        return setfield(I, v, strval(i), x)
    k = index1(I, i)
    if v is NULL:
        v = Lst([], [])
    if isinstance(v, Lang) and t.is_num(k):
        k, ps, ns = int(t.numval(k)), v.parts(), v.names()
        if k > len(ps):
            raise Unsupported('assignment beyond the end of a call')
        ps, ns = ps[:k] + [as_tree(x)] + ps[k + 1:], ns[:k] + [ns[k] if k < len(ns) else ''] + ns[k + 1:]
        return make_call(ps, ns)
    if isinstance(v, Lst) and t.is_num(k):
        k = int(t.numval(k))
        r = Lst(v.names, v.vals, v.attrs)
        while len(r.vals) <= k:
            r.names.append(None)
            r.vals.append(NULL)
        r.vals[k] = x
        return r
    if isinstance(v, Lst) and not v.vals:
        v = SLst(ZERO, lambda j: x)
    if isinstance(v, SLst):
        if I.decided(t.eq(k, v.n)):
            fn, n = v.fn, v.n
            return SLst(t.add(n, 1), lambda j: x if j is n else fn(j) if I.decided(t.lt(j, n)) else x if I.decided(t.eq(j, n)) else ite_value(t.lt(j, n), fn(j), x))
    raise Unsupported('assignment to an element')


def with_names(I, v, n):
    w = copy.copy(v)
    if isinstance(v, Lst):
        w = Lst([strval(Chr([s])) if s.op == 'str' else s for s in n.v] if isinstance(n, Chr) else [None] * len(v.vals), v.vals, v.attrs)
        if len(w.names) != len(w.vals):
            raise Unsupported('names of another length')
        return w
    if isinstance(v, (Num, Chr, SLst)):
        w.names = n
        return w
    raise Unsupported('names of %s' % type(v).__name__)


def setindex(I, v, ix, x):
    if (isinstance(v, Chr) or v is NULL) and isinstance(x, Chr) and len(x.v) == 1 and len(ix) == 1 and isinstance(ix[0], Num) and t.is_num(ix[0].n) and t.is_num(ix[0].x):
        k, vs = int(t.numval(ix[0].x)) - 1, list(v.v) if v is not NULL else []
        vs += [t.strc('')] * (k + 1 - len(vs))
        return Chr(vs[:k] + x.v + vs[k + 1:])
    if isinstance(v, Num) and v.mode == 'v' and len(ix) == 1:
        i = ix[0]
        if isinstance(i, Missing):
            I.oblige('size', t.lor(t.eq(x.n, v.n), t.eq(x.n, ONE)) if x.mode != 's' else TRUE, 'as many values as elements')
            return Num(t.lam(v.n, lambda k: x.el(k)), 'v')
        if isinstance(i, Num) and i.lgl() and isinstance(x, Num) and x.mode == 's':
            I.oblige('size', t.eq(i.n, v.n), 'one truth value for each element')
            return Num(t.lam(v.n, lambda k: t.ite(i.el(k), x.x, v.el(k))), 'v')
        rg = getattr(i, 'rng', None)
        if rg is not None and isinstance(x, Num):
            lo, n = rg
            I.oblige('bounds', t.land(t.le(1, lo), t.le(t.add(lo, n, -1), v.n)), 'positions exist')
            if x.mode != 's':
                I.oblige('size', t.eq(x.n, n), 'as many values as positions')
            return Num(t.lam(v.n, lambda k: t.ite(t.land(t.le(t.sub(lo, 1), k), t.lt(k, t.add(lo, n, -1))), x.el(t.sub(k, t.sub(lo, 1))), v.el(k))), 'v')
    if isinstance(v, Lst) and len(ix) == 1 and isinstance(ix[0], Chr):
        # by name: as [[<- for each in turn
        r = v
        n, el = iterate(I, x)
        if not t.is_num(n) or int(t.numval(n)) != len(ix[0].v):
            raise Unsupported('assignment by name')
        for k, s in enumerate(ix[0].v):
            nm = s.a[0] if s.op == 'str' else s
            val = el(t.num(k))
            r = Lst(r.names, r.vals, r.attrs)
            if nm in r.names:
                r.vals[r.names.index(nm)] = val
            else:
                r.names.append(nm)
                r.vals.append(val)
        return r
    if isinstance(v, Lst) and len(ix) == 1 and ix[0] is NULL:
        return v
    raise Unsupported('assignment to elements')


# ---------------------------------------------------------------- arithmetic
def numeric(x):
    return t.iv(x) if x.sort == 'B' else x


def asnum(v):
    if isinstance(v, Num):
        return v
    if isinstance(v, Sparse):
        return Num(v.dense(), 'm')
    if isinstance(v, NFac):
        return v.codes()
    raise Unsupported('arithmetic on %s' % type(v).__name__)


class NFac:
    """a factor: codes 1..nlev (term V) and a name for its levels"""

    def __init__(self, code, nlev, levels=None):
        self.code, self.nlev, self.levels = code, nlev, levels

    def codes(self):
        return Num(self.code, 'v')


def broadcast(I, a, b, f):
    """elementwise f with recycling"""
    a, b = asnum(a), asnum(b)
    if a.mode == 's' and b.mode == 's':
        return Num(f(a.x, b.x), 's')
    if a.mode == 's' or b.mode == 's':
        v = b if a.mode == 's' else a
        g = (lambda y: f(a.x, y)) if a.mode == 's' else (lambda y: f(y, b.x))
        return map1(I, v, g)
    if a.mode == b.mode == 'v':
        ones = [t.eq(z.n, ONE) for z in (a, b)]
        if t.length(a.x) is not t.length(b.x) and I.decided(t.eq(a.n, b.n)) is not True:
            for z, o, c in ((a, b, ones[0]), (b, a, ones[1])):
                if I.decided(c) is True:
                    zz = Num(z.el(ZERO), 's')
                    return broadcast(I, zz if z is a else a, zz if z is b else b, f)
            I.oblige('size', t.eq(a.n, b.n), 'elementwise operation on vectors of the same length')
        return Num(t.lam(a.n, lambda k: f(a.el(k), b.el(k))), 'v')
    if a.mode in 'mf' and b.mode in 'mf':
        I.oblige('size', t.land(t.eq(t.rows(a.x), t.rows(b.x)), t.eq(t.cols(a.x), t.cols(b.x))), 'elementwise operation on matrices of the same size')
        return Num(t.mlam(t.rows(a.x), t.cols(a.x), lambda i, j: f(t.at2(a.x, i, j), t.at2(b.x, i, j))), a.mode if a.mode == b.mode else 'm')
    m, v = (a, b) if a.mode in 'mf' else (b, a)
    if I.decided(t.eq(v.n, t.rows(m.x))) is not True:
        I.oblige('size', t.eq(v.n, t.rows(m.x)), 'one element for each row of the matrix')
    return Num(t.mlam(t.rows(m.x), t.cols(m.x), lambda i, j: f(t.at2(m.x, i, j), v.el(i)) if m is a else f(v.el(i), t.at2(m.x, i, j))), m.mode)


def map1(I, v, g):
    v = asnum(v)
    if v.mode == 's':
        return Num(g(v.x), 's')
    if v.mode == 'v':
        return Num(t.lam(v.n, lambda k: g(v.el(k))), 'v', names=v.names)
    return Num(t.mlam(t.rows(v.x), t.cols(v.x), lambda i, j: g(t.at2(v.x, i, j))), v.mode)


def mapn(I, vs, g):
    """elementwise g of several vectors of one length"""
    vs = [asnum(v) for v in vs]
    big = [v for v in vs if v.mode != 's']
    if not big:
        return Num(g(*[v.x for v in vs]), 's')
    m = big[0]
    for v in big[1:]:
        if v.mode != m.mode:
            raise Unsupported('elementwise function of values of two shapes')
        if m.mode == 'v':
            I.oblige('size', t.eq(v.n, m.n), 'vectors of the same length')
        else:
            I.oblige('size', t.land(t.eq(t.rows(v.x), t.rows(m.x)), t.eq(t.cols(v.x), t.cols(m.x))), 'matrices of the same size')
    if m.mode == 'v':
        return Num(t.lam(m.n, lambda k: g(*[v.x if v.mode == 's' else v.el(k) for v in vs])), 'v')
    return Num(t.mlam(t.rows(m.x), t.cols(m.x), lambda i, j: g(*[v.x if v.mode == 's' else t.at2(v.x, i, j) for v in vs])), m.mode)


def power(a, b):
    if t.is_num(b) and t.numval(b).denominator == 1:
        return t.powi(a, int(t.numval(b)))
    if t.is_num(b) and t.numval(b) * 2 == 1:
        return t.sqrt(a)
    if t.is_num(a) and t.numval(a) == 2 and b.sort == 'I':
        return t.app('pow2', b, sort='I')
    return t.app('rpow', a, b)


def operation(I, op, a, b):
    N = numeric
    f = {'+': lambda x, y: t.add(N(x), N(y)), '-': lambda x, y: t.sub(N(x), N(y)), '*': lambda x, y: t.mul(N(x), N(y)),
         '/': lambda x, y: t.div(N(x), N(y)), '^': lambda x, y: power(N(x), N(y)),
         '<': lambda x, y: t.lt(N(x), N(y)), '>': lambda x, y: t.lt(N(y), N(x)), '<=': lambda x, y: t.le(N(x), N(y)), '>=': lambda x, y: t.le(N(y), N(x)),
         '==': lambda x, y: t.eq(x, y) if x.sort == y.sort == 'B' else t.eq(N(x), N(y)),
         '!=': lambda x, y: t.lnot(t.eq(x, y) if x.sort == y.sort == 'B' else t.eq(N(x), N(y))),
         '&': lambda x, y: t.land(x, y), '|': lambda x, y: t.lor(x, y),
         '%%': lambda x, y: t.app('mod', x, y), '%/%': lambda x, y: t.app('idiv', x, y)}[op]
    if isinstance(a, Chr) and isinstance(b, Chr) and op in ('==', '!='):
        if len(a.v) == len(b.v) == 1:
            c = t.eq(a.v[0], b.v[0])
            return lgl(c if op == '==' else t.lnot(c))
        raise Unsupported('comparison of several strings')
    if a is NULL or b is NULL:
        return NULL
    if op in ('==', '!='):
        a, b = (labels_of(v) if isinstance(v, NFac) else v for v in (a, b))
    return broadcast(I, a, b, f)


def binop(op):
    def go(I, pos, kw):
        if len(pos) == 1:
            if op == '-':
                r = map1(I, pos[0], lambda x: t.neg(numeric(x)))
                rg = getattr(pos[0], 'rng', None)
                if rg:
                    r.drop = rg
                return r
            return pos[0]
        a, b = pos
        r = operation(I, op, a, b)
        if op == '+' and isinstance(r, Num) and r.mode == 'v':
            for x, y in ((a, b), (b, a)):
                rg = getattr(x, 'rng', None)
                if rg and isinstance(y, Num) and y.mode == 's':
                    r.rng = (t.add(rg[0], y.x), rg[1])
        return r
    return go


BUILTINS = {op: binop(op) for op in ('+', '-', '*', '/', '^', '<', '>', '<=', '>=', '==', '!=', '&', '|', '%%', '%/%')}


def builtin(*names):
    def deco(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return deco


def arg(pos, kw, i, n, d=None):
    if n in kw:
        return kw[n]
    return pos[i] if i < len(pos) else d


@builtin('!')
def _(I, pos, kw):
    return map1(I, pos[0], lambda x: t.lnot(x if x.sort == 'B' else t.lnot(t.eq(x, ZERO))))


def seq(lo, n):
    r = Num(t.lam(n, lambda k: t.add(lo, k)), 'v')
    r.rng = (lo, n)
    return r


@builtin(':')
def _(I, pos, kw):
    a, b = pos[0].x, pos[1].x
    if t.is_num(a) and t.is_num(b):
        a1, b1 = int(t.numval(a)), int(t.numval(b))
        if a1 > b1:
            raise Unsupported('descending range')
        return seq(a, t.num(b1 - a1 + 1))
    if not I.truth(t.le(a, b)):
        # counts down
        n = t.add(t.sub(a, b), 1)
        r = Num(t.lam(n, lambda k: t.sub(a, k)), 'v')
        return r
    return seq(a, t.add(t.sub(b, a), 1))


@builtin('seq_len')
def _(I, pos, kw):
    I.oblige('bounds', t.le(0, pos[0].x), 'length of a range is not negative')
    return seq(ONE, pos[0].x)


@builtin('seq_along')
def _(I, pos, kw):
    return seq(ONE, size(I, pos[0]))


def size(I, v):
    if getattr(v, 'members', False):
        raise Unsupported('number of different values')
    if isinstance(v, Num):
        return v.n
    if isinstance(v, (Lst,)):
        return t.num(len(v.vals))
    if isinstance(v, SLst):
        return v.n
    if isinstance(v, Chr):
        return t.num(len(v.v))
    if v is NULL:
        return ZERO
    if isinstance(v, NFac):
        return t.length(v.code)
    if isinstance(v, Lang):
        return t.num(len(v.parts())) if v.e['k'] == 'call' else ONE
    if isinstance(v, Obj) and 'length' in v.attrs:
        return v.attrs['length']
    if isinstance(v, Opq):
        n = v.n if v.n is not None else t.app('length of', v.x, sort='I')
        I.facts.append(t.le(0, n))
        return n
    raise Unsupported('length of %s' % type(v).__name__)


@builtin('length')
def _(I, pos, kw):
    return sc(size(I, pos[0]))


@builtin('nlevels')
def _(I, pos, kw):
    return sc(pos[0].nlev)


class Arr:
    """an array of three or more dimensions: of which only the sizes are known"""

    def __init__(self, dims):
        self.dims = dims


def dims(I, v):
    if isinstance(v, Arr):
        return tuple(v.dims)
    if isinstance(v, Sparse):
        f = dict(v.rec.a[1])
        return f['rows'], f['cols']
    if isinstance(v, Num) and v.mode == 'm':
        return t.rows(v.x), t.cols(v.x)
    return None


@builtin('nrow')
def _(I, pos, kw):
    d = dims(I, pos[0])
    return sc(d[0]) if d else NULL


@builtin('ncol')
def _(I, pos, kw):
    d = dims(I, pos[0])
    return sc(d[1]) if d else NULL


@builtin('NROW')
def _(I, pos, kw):
    d = dims(I, pos[0])
    return sc(d[0] if d else size(I, pos[0]))


@builtin('NCOL')
def _(I, pos, kw):
    d = dims(I, pos[0])
    return sc(d[1] if d else ONE)


@builtin('dim')
def _(I, pos, kw):
    d = dims(I, pos[0])
    if not d:
        return NULL
    return Num(vec_of(list(d)), 'v')


def vec_of(xs):
    xs = [tm(x) for x in xs]

    def f(k):
        if t.is_num(k):
            return xs[int(t.numval(k))]
        r = xs[-1]
        for j in range(len(xs) - 2, -1, -1):
            r = t.ite(t.eq(k, t.num(j)), xs[j], r)
        return r
    if not xs:
        return t.lam(ZERO, lambda k: ZERO)
    return t.lam(t.num(len(xs)), f)


@builtin('is.null')
def _(I, pos, kw):
    return lgl(pos[0] is NULL)


@builtin('is.matrix')
def _(I, pos, kw):
    return lgl(isinstance(pos[0], Num) and pos[0].mode == 'm')


@builtin('is.numeric')
def _(I, pos, kw):
    return lgl(isinstance(pos[0], Num) and not pos[0].lgl())


@builtin('is.list')
def _(I, pos, kw):
    return lgl(isinstance(pos[0], (Lst, SLst, Obj)))


@builtin('is.double')
def _(I, pos, kw):
    v = pos[0]
    return lgl(isinstance(v, Num) and not v.lgl() and (v.x if v.mode == 's' else t.at(v.x, t.var('%probe', 'I')) if v.mode == 'v' else
                                                       t.at2(v.x, t.var('%probe', 'I'), t.var('%probe', 'I'))).sort != 'I')


@builtin('which')
def _(I, pos, kw):
    v = asnum(pos[0])
    if t.is_num(v.n):
        return Num(vec_of([t.num(k + 1) for k in range(int(t.numval(v.n))) if I.truth(v.el(t.num(k)))]), 'v')
    i = t.fresh('p', 'I')
    return Num(t.filter_(v.n, i, v.el(i), t.add(i, 1)), 'v')


def kind(v):
    if isinstance(v, Lang):
        k = v.e['k']
        if k == 'hole' and not v.e.get('any', True):
            return 'name'
        if k == 'hole':
            raise Unsupported('kind of an arbitrary expression')
        return 'name' if k in ('sym', 'missing') else k
    return 'list' if isinstance(v, (Lst, SLst, Obj)) else 'function' if isinstance(v, (Clo, PyFun)) else 'atomic'


@builtin('is.atomic')
def _(I, pos, kw):
    return lgl(kind(pos[0]) == 'atomic')


@builtin('is.name', 'is.symbol')
def _(I, pos, kw):
    return lgl(kind(pos[0]) == 'name')


@builtin('is.call')
def _(I, pos, kw):
    return lgl(kind(pos[0]) == 'call')


@builtin('is.pairlist')
def _(I, pos, kw):
    return lgl(pos[0] is NULL)


@builtin('is.character')
def _(I, pos, kw):
    return lgl(isinstance(pos[0], Chr))


@builtin('is.function')
def _(I, pos, kw):
    return lgl(isinstance(pos[0], (Clo, PyFun)))


@builtin('as.call')
def _(I, pos, kw):
    v = pos[0]
    if isinstance(v, Lang):
        return v
    if not isinstance(v, Lst) or not v.vals:
        raise Unsupported('as.call')
    return make_call([as_tree(x) for x in v.vals], [n or '' for n in v.names])


@builtin('call')
def _(I, pos, kw):
    return make_call([{'k': 'sym', 'n': strval(pos[0])}] + [as_tree(x) for x in pos[1:]] + [as_tree(x) for x in kw.values()],
                     [''] * len(pos) + list(kw))


@builtin('as.name', 'as.symbol')
def _(I, pos, kw):
    return Lang({'k': 'sym', 'n': strval(pos[0])})


def deparsed(v):
    """strings of the parts of an expression, when they are names"""
    if isinstance(v, Chr):
        return list(v.v)
    if isinstance(v, Lang):
        ps = [v.e] if v.e['k'] != 'call' else v.parts()
    elif isinstance(v, Lst):
        ps = [as_tree(x) for x in v.vals]
    else:
        return None
    if all(p['k'] == 'sym' for p in ps):
        return [t.strc(p['n']) for p in ps]
    return None


@builtin('as.character')
def _(I, pos, kw):
    if isinstance(pos[0], Lang) and pos[0].e['k'] == 'call':
        d = [t.strc(x['n']) if x['k'] == 'sym' else t.strc(show_tree(x)) for x in pos[0].parts()]
        if any(x['k'] == 'hole' for x in pos[0].parts()):
            raise Unsupported('text of an arbitrary expression')
        return Chr(d)
    if isinstance(pos[0], Lang) and pos[0].e['k'] == 'hole' and 'not_name' in pos[0].e:
        v = t.var('text of ' + pos[0].e['h'], 'S')           # an expression other than that name
        I.facts.append(t.lnot(t.eq(v, t.strc(pos[0].e['not_name']))))
        return Chr([v])
    d = deparsed(pos[0])
    if d is None:
        raise Unsupported('as.character')
    return Chr(d)


@builtin('as.list')
def _(I, pos, kw):
    v = pos[0]
    if isinstance(v, Lang):
        return Lst([n or None for n in v.names()], [as_value(p) for p in v.parts()])
    if isinstance(v, (Lst, SLst, Obj)):
        return v
    if v is NULL:
        return Lst([], [])
    if isinstance(v, Num) and v.mode == 'v' and not t.is_num(v.n):
        return SLst(v.n, lambda k: Num(v.el(k), 's'))
    raise Unsupported('as.list')


@builtin('parse')
def _(I, pos, kw):
    s = strval(kw['text'])
    import re
    if not re.fullmatch(r'[A-Za-z.][A-Za-z0-9._]*', s):
        raise Unsupported('parse')
    return Lst([None], [Lang({'k': 'sym', 'n': s})])


@builtin('eval')
def _(I, pos, kw):
    e, where = pos[0], arg(pos, kw, 1, 'envir')
    if not isinstance(e, Lang):
        return e
    env = Env(I.globals)
    if isinstance(where, Lst):
        for n, v in reversed(list(zip(where.names, where.vals))):
            if n:
                env.vars[n] = v
    elif isinstance(where, Env):
        env = where
    elif where is not None:
        raise Unsupported('eval')
    return I.ev(e.e, env)


@builtin('is.factor')
def _(I, pos, kw):
    return lgl(isinstance(pos[0], NFac))


@builtin('as.numeric', 'as.double', 'as.vector')
def _(I, pos, kw):
    v = asnum(pos[0])
    if v.mode == 'm':
        if I.decided(t.eq(t.cols(v.x), ONE)) is True:
            m = v.x
            return Num(t.lam(t.rows(m), lambda k: t.at2(m, k, ZERO)), 'v')
        return Num(v.x, 'f')
    r = map1(I, v, numeric)
    r.names = None
    return r


@builtin('as.integer')
def _(I, pos, kw):
    v = BUILTINS['as.numeric'](I, pos, kw)
    # exact on whole numbers: obligation that they are
    v.whole = True
    return map1(I, v, lambda x: x if x.sort == 'I' else t.app('trunc', x, sort='I'))


@builtin('rownames')
def _(I, pos, kw):
    return names_of_dim(I, pos[0], 0)


@builtin('colnames')
def _(I, pos, kw):
    return names_of_dim(I, pos[0], 1)


def names_of_dim(I, v, k):
    a = getattr(v, 'attrs', {})
    if ('rownames', 'colnames')[k] in a:
        return a[('rownames', 'colnames')[k]]
    d = a.get('dimnames', NULL)
    return d.vals[k] if isinstance(d, Lst) else NULL


@builtin('as.matrix', 'invisible', 'unname', 'identity')
def _(I, pos, kw):
    v = pos[0]
    if isinstance(v, Sparse):
        return Num(v.dense(), 'm')
    if isinstance(v, Num) and (v.names is not None or v.attrs):
        v = Num(v.x, v.mode)
    if isinstance(v, Opq):
        return opq('unname', v)
    return v


@builtin('unlist')
def _(I, pos, kw):
    if isinstance(pos[0], Opq):
        x = pos[0]
        if 'use.names' in kw and kw['use.names'].x is FALSE:
            x = opq('unname', x)
        return opq('unlist', x)
    v = pos[0]
    if v is NULL:
        return NULL
    flat = 'recursive' in kw and kw['recursive'].x is FALSE
    if isinstance(v, Lst):
        vs = [x for x in v.vals if x is not NULL]
        if not vs:
            return NULL
        if all(isinstance(x, Chr) for x in vs):
            return Chr(sum((x.v for x in vs), []))
        if flat and all(isinstance(x, Lst) for x in vs):
            r = sum((x.vals for x in vs), [])
            return Lst([None] * len(r), r) if r else NULL
        if all(isinstance(x, Num) for x in vs):
            return concat(I, [asnum(x) for x in vs])
    raise Unsupported('unlist')


@builtin('unique')
def _(I, pos, kw):
    v = pos[0]
    if v is NULL:
        return NULL
    if isinstance(v, Chr) and all(x.op == 'str' for x in v.v):
        return Chr([x for k, x in enumerate(v.v) if x not in v.v[:k]])
    if isinstance(v, SLst):
        # some of the elements (which: for R to say), each element equal to one of them
        key = t.var('unique!%d' % len([x for x in I.assumed if x.startswith('unique(')]), 'I')
        m, U, W = t.app('unique.n', key, sort='I'), (lambda j: t.app('unique.first', key, j, sort='I')), (lambda o: t.app('unique.class', key, o, sort='I'))
        I.facts.append(t.le(0, m))
        I.facts.append(t.forall(m, lambda j: t.land(t.le(0, U(j)), t.lt(U(j), v.n))))
        I.facts.append(t.forall(v.n, lambda o: t.land(t.le(0, W(o)), t.lt(W(o), m))))
        a = lambda o: v.fn(o).vec()
        I.facts.append(t.forall(v.n, lambda o: t.eq(t.length(a(U(W(o)))), t.length(a(o)))))
        I.facts.append(t.forall(v.n, lambda o: t.forall(t.length(a(o)), lambda k: t.eq(t.at(a(U(W(o))), k), t.at(a(o), k)))))
        I.assumed.add('unique(list): some of its elements; each element is identical to one of them')
        r = SLst(m, lambda j: v.fn(U(j)))
        r.which = W
        return r
    if isinstance(v, Lst) and all(isinstance(x, Chr) and all(y.op == 'str' for y in x.v) for x in v.vals):
        ks = [k for k, x in enumerate(v.vals) if x.v not in [y.v for y in v.vals[:k]]]
        return Lst([None] * len(ks), [v.vals[k] for k in ks])
    if isinstance(v, Num) and v.mode in 'sv':
        r = Num(v.vec(), 'v')
        r.members = True                 # as a set of values: number and order not known
        return r
    raise Unsupported('unique')


@builtin('sort')
def _(I, pos, kw):
    v = pos[0]
    if isinstance(v, Num) and getattr(v, 'members', False) and not kw:
        return v
    raise Unsupported('sort')


@builtin('exists')
def _(I, pos, kw):
    n, e = strval(pos[0]), arg(pos, kw, 1, 'where')
    if not isinstance(e, Lst) or any(k is None for k in e.names):
        raise Unsupported('exists')
    return lgl(n in e.names)


@builtin('as.environment')
def _(I, pos, kw):
    if isinstance(pos[0], Lst):
        return pos[0]
    raise Unsupported('as.environment')


@builtin('mget')
def _(I, pos, kw):
    ns, e = [strval(Chr([s])) for s in pos[0].v], arg(pos, kw, 1, 'envir')
    for n in ns:
        if n not in e.names:
            raise RStop(Chr(['value for %s not found' % n]))
    return Lst(ns, [e.get(n) for n in ns])


def labels_of(v):
    """value of each element of a factor"""
    if v.levels is None:
        raise Unsupported('levels of a factor')
    return Num(t.lam(t.length(v.code), lambda k: t.at(v.levels, t.sub(t.at(v.code, k), 1))), 'v')


@builtin('factor')
def _(I, pos, kw):
    x, lv = pos[0], arg(pos, kw, 1, 'levels')
    if lv is None or set(kw) - {'levels'}:
        raise Unsupported('factor')
    if isinstance(lv, NFac):
        raise Unsupported('factor')
    lv = asnum(lv)
    if isinstance(x, Num) and x.vec() is lv.vec():
        return NFac(t.lam(lv.n, lambda k: t.add(k, 1)), lv.n, lv.vec())
    x = labels_of(x) if isinstance(x, NFac) else asnum(x)
    L = lv.vec()
    if L.op == 'lam' and t.sub(L.a[2], L.a[1]) is ONE:
        return NFac(t.lam(x.n, lambda k: t.ite(t.land(t.le(1, x.el(k)), t.le(x.el(k), lv.n)), x.el(k), 0)), lv.n, L)      # levels 1..n
    return NFac(t.lam(x.n, lambda k: t.app('match', x.el(k), L, sort='I')), lv.n, L)          # 0 when it is none of them (NA)


@builtin('tapply')
def _(I, pos, kw):
    x, g, f = pos[0], pos[1], arg(pos, kw, 2, 'FUN')
    if not isinstance(g, NFac) or 'simplify' not in kw or kw['simplify'].x is not FALSE or set(kw) - {'FUN', 'simplify'}:
        raise Unsupported('tapply')
    x = asnum(x)
    I.oblige('size', t.eq(x.n, t.length(g.code)), 'a group for each value')

    def at(k):
        p = t.fresh('p', 'I')
        return I.apply(f, [Num(t.filter_(x.n, p, t.eq(t.at(g.code, p), t.add(k, 1)), x.el(p)), 'v')])
    return SLst(g.nlev, at)


@builtin('levels')
def _(I, pos, kw):
    v = pos[0]
    if isinstance(v, NFac) and v.levels is not None:
        return Num(v.levels, 'v')
    raise Unsupported('levels')


@builtin('anyNA')
def _(I, pos, kw):
    v = pos[0]
    if isinstance(v, NFac):
        return lgl(t.lnot(t.forall(t.length(v.code), lambda k: t.lt(0, t.at(v.code, k)))))
    raise Unsupported('anyNA')


def triplets(M):
    """the list of stored entries of a matrix with entries M: which, is for the package Matrix to say"""
    n = t.app('stored', M, sort='I')
    v = lambda w, s: t.setshape(t.app('stored.' + w, M, sort='V'), n)
    r, c, x = v('i', 'I'), v('j', 'I'), v('x', 'R')
    t.set_elem_sort(r, 'I')
    t.set_elem_sort(c, 'I')
    return t.rec('%sparse', {'rows': t.rows(M), 'cols': t.cols(M), 'nnz': n, 'ri': r, 'ci': c, 'va': x})


def part_entries(L, i, j):
    """of the rows i and columns j of a sparse matrix: (number of stored entries, which entry of the whole each is, its row, its column)"""
    f = dict(L.a[1])
    k = (f['ri'], f['ci'], f['nnz'], i, j)
    n = t.app('part', *k, sort='I')
    out = [n]
    for w in ('entry', 'i', 'j'):
        v = t.setshape(t.app('part.' + w, *k, sort='V'), n)
        t.set_elem_sort(v, 'I')
        out.append(v)
    return out


def sparse_part(I, v, i, j):
    f = dict(v.rec.a[1])
    d = Num(v.dense(), 'm')
    full = index_matrix(I, d, [i, j], lgl(False)).x
    n, e, r, c = part_entries(v.rec, i.vec(), j.vec())
    I.facts.append(t.le(0, n))
    I.facts.append(t.forall(n, lambda k: t.land(t.le(0, t.at(e, k)), t.lt(t.at(e, k), f['nnz']), t.le(0, t.at(r, k)), t.lt(t.at(r, k), i.n), t.le(0, t.at(c, k)), t.lt(t.at(c, k), j.n))))
    I.assumed.add('m[i, j] of a sparse matrix: the stored entries of those rows and columns, in an order that depends on the positions only, with its values')
    return Sparse(t.rec('%sparse', {'rows': i.n, 'cols': j.n, 'nnz': n, 'ri': r, 'ci': c, 'va': t.lam(n, lambda k: t.at(f['va'], t.at(e, k)))}), v.rep, full=full)


@builtin('as')
def _(I, pos, kw):
    v, c = pos[0], strval(pos[1])
    if isinstance(v, Sparse):
        return Sparse(v.rec, 'T' if c == 'dgTMatrix' else 'C', full=v.full)
    if isinstance(v, Num) and v.mode == 'm':
        if c == 'dgTMatrix':
            r = triplets(v.x)
            f = dict(r.a[1])
            I.facts.append(t.le(0, f['nnz']))
            for n, m in (('ri', t.rows(v.x)), ('ci', t.cols(v.x))):
                I.facts.append(t.forall(f['nnz'], lambda e: t.land(t.le(0, t.at(f[n], e)), t.lt(t.at(f[n], e), m))))
            I.assumed.add('as(., "dgTMatrix"): every entry of the matrix that is not zero is listed, with its row and column')
            return Sparse(r, 'T', full=v.x)
        return v
    raise Unsupported('as')


@builtin('%*%')
def _(I, pos, kw):
    return product(I, pos[0], pos[1])


def column(v):
    """as a matrix"""
    v = asnum(v)
    if v.mode == 'm':
        return v.x
    return t.mlam(v.n, ONE, lambda i, j: v.el(i))


def product(I, a, b):
    a, b = asnum(a), asnum(b)
    A = a.x if a.mode == 'm' else None
    B = b.x if b.mode == 'm' else None
    if A is None and B is None:
        raise Unsupported('product of two vectors')
    if A is None:
        A = t.mlam(ONE, a.n, lambda i, j: a.el(j)) if I.decided(t.eq(a.n, t.rows(B))) else column(a)
    if B is None:
        B = column(b)
    I.oblige('size', t.eq(t.cols(A), t.rows(B)), 'matrix product of matching sizes')
    return Num(matmul(A, B), 'm')


def matmul(A, B):
    return t.mlam(t.rows(A), t.cols(B), lambda i, j: t.SUM(t.cols(A), lambda k: t.mul(t.at2(A, i, k), t.at2(B, k, j))))


@builtin('crossprod')
def _(I, pos, kw):
    A = column(pos[0])
    B = column(pos[1]) if len(pos) > 1 else A
    I.oblige('size', t.eq(t.rows(A), t.rows(B)), 'matrix product of matching sizes')
    return Num(matmul(transpose(A), B), 'm')


@builtin('tcrossprod')
def _(I, pos, kw):
    A = column(pos[0])
    B = column(pos[1]) if len(pos) > 1 else A
    I.oblige('size', t.eq(t.cols(A), t.cols(B)), 'matrix product of matching sizes')
    return Num(matmul(A, transpose(B)), 'm')


@builtin('t')
def _(I, pos, kw):
    v = pos[0]
    if isinstance(v, Sparse):
        f = dict(v.rec.a[1])
        return Num(transpose(v.dense()), 'm')
    v = asnum(v)
    if v.mode == 'm':
        return Num(transpose(v.x), 'm')
    return Num(t.mlam(ONE, v.n, lambda i, j: v.el(j)), 'm')


@builtin('solve')
def _(I, pos, kw):
    A = asnum(pos[0]).x
    I.oblige('size', t.eq(t.rows(A), t.cols(A)), 'square matrix')
    v = inverse(A)
    if len(pos) == 1:
        return Num(v, 'm')
    b = asnum(pos[1])
    r = product(I, Num(v, 'm'), b)
    if b.mode != 'm':
        return Num(t.lam(t.rows(A), lambda i: t.at2(r.x, i, ZERO)), 'v')
    return r


def inverse(A):
    if A.op == 'app' and A.a[0] == 'chol':
        return t.setshape(t.app('icholu', A.a[1], sort='M'), t.rows(A), t.cols(A))
    return t.setshape(t.app('inv', A, sort='M'), t.rows(A), t.cols(A))


@builtin('chol')
def _(I, pos, kw):
    A = asnum(pos[0]).x
    return Num(t.setshape(t.app('chol', A, sort='M'), t.rows(A), t.cols(A)), 'm')


@builtin('determinant')
def _(I, pos, kw):
    A = asnum(pos[0]).x
    lg = kw.get('logarithm', pos[1] if len(pos) > 1 else lgl(TRUE))
    if lg.x is not TRUE:
        raise Unsupported('determinant')
    return Lst(['modulus', 'sign'], [sc(t.log(t.app('det', A))), sc(ONE)])


@builtin('diag')
def _(I, pos, kw):
    v = asnum(pos[0])
    if v.mode == 'm':
        I.oblige('size', t.eq(t.rows(v.x), t.cols(v.x)), 'square matrix')
        return Num(t.lam(t.rows(v.x), lambda k: t.at2(v.x, k, k)), 'v')
    raise Unsupported('diag')


@builtin('row', 'col')
def _(I, pos, kw):
    raise Unsupported('row')


BUILTINS['row'] = lambda I, pos, kw: Num(t.mlam(t.rows(asnum(pos[0]).x), t.cols(asnum(pos[0]).x), lambda i, j: t.add(i, 1)), 'm')
BUILTINS['col'] = lambda I, pos, kw: Num(t.mlam(t.rows(asnum(pos[0]).x), t.cols(asnum(pos[0]).x), lambda i, j: t.add(j, 1)), 'm')


@builtin('sum')
def _(I, pos, kw):
    if len(pos) != 1:
        raise Unsupported('sum')
    v = asnum(pos[0])
    if v.mode == 's':
        return Num(numeric(v.x), 's')
    if v.mode == 'v':
        return sc(t.SUM(v.n, lambda k: numeric(v.el(k))))
    return sc(t.SUM(t.rows(v.x), lambda i: t.SUM(t.cols(v.x), lambda j: numeric(t.at2(v.x, i, j)))))


@builtin('mean')
def _(I, pos, kw):
    v = asnum(pos[0])
    return sc(t.div(BUILTINS['sum'](I, [v], {}).x, v.n))


@builtin('rowSums')
def _(I, pos, kw):
    m = asnum(pos[0]).x
    return Num(t.lam(t.rows(m), lambda i: t.SUM(t.cols(m), lambda j: t.at2(m, i, j))), 'v')


@builtin('colSums')
def _(I, pos, kw):
    m = asnum(pos[0]).x
    return Num(t.lam(t.cols(m), lambda j: t.SUM(t.rows(m), lambda i: t.at2(m, i, j))), 'v')


@builtin('cumprod')
def _(I, pos, kw):
    v = asnum(pos[0])
    return Num(t.lam(v.n, lambda k: t.PROD(t.add(k, 1), lambda m: v.el(m))), 'v')


@builtin('max', 'min')
def _mm(I, pos, kw):
    raise Unsupported('max')


def extreme(name):
    def go(I, pos, kw):
        v = [asnum(p) for p in pos]
        if len(v) == 1 and v[0].mode == 'v' and not getattr(v[0], 'members', False) and t.is_num(v[0].n) and 1 <= t.numval(v[0].n) <= 8:
            v = [sc(v[0].el(t.num(k))) for k in range(int(t.numval(v[0].n)))]
        if len(v) == 1 and v[0].mode == 'v':
            n = v[0].n
            r = t.app(name, v[0].x, sort='I' if v[0].el(t.fresh('k', 'I')).sort == 'I' else 'R')
            I.facts.append(t.forall(n, lambda k: t.le(v[0].el(k), r) if name == 'max' else t.le(r, v[0].el(k))))
            p = t.app('position of ' + name, v[0].x, sort='I')
            I.oblige('bounds', t.lt(0, n), name + ' of at least one value')
            I.facts.append(t.land(t.le(0, p), t.lt(p, n), t.eq(v[0].el(p), r)))
            I.extremes.append((v[0].x, r, p))
            return sc(r)
        if all(x.mode == 's' for x in v):
            r = v[0].x
            for x in v[1:]:
                r = t.ite(t.lt(r, x.x), x.x, r) if name == 'max' else t.ite(t.lt(x.x, r), x.x, r)
            return sc(r)
        raise Unsupported(name)
    return go


BUILTINS['max'], BUILTINS['min'] = extreme('max'), extreme('min')

for _n, _f in dict(exp=t.exp, log=t.log, sqrt=t.sqrt).items():
    def _go(I, pos, kw, f=_f):
        if len(pos) != 1 or kw:
            raise Unsupported('logarithm to a base')
        if f is t.exp:
            I.exp_args.append((pos[0], I.ctx()))
        return map1(I, pos[0], lambda x: f(numeric(x)))
    BUILTINS[_n] = _go


@builtin('abs')
def _(I, pos, kw):
    return map1(I, pos[0], lambda x: t.ite(t.lt(x, 0), t.neg(x), x))


@builtin('round')
def _(I, pos, kw):
    return map1(I, pos[0], lambda x: x if x.sort == 'I' else t.app('round', x, sort='I'))


@builtin('floor')
def _(I, pos, kw):
    return map1(I, pos[0], lambda x: x if x.sort == 'I' else t.app('floor', x, sort='I'))


def lognorm(x):
    return t.sub(t.mul(t.num(-1), t.div(t.powi(x, 2), 2)), t.app('%log(sqrt(2*pi))'))


@builtin('dnorm')
def _(I, pos, kw):
    if len(pos) != 1 or set(kw) - {'log'}:
        raise Unsupported('dnorm')
    lg = kw.get('log')
    if lg is None or lg.x is not TRUE:
        return map1(I, pos[0], lambda x: t.exp(lognorm(x)))
    return map1(I, pos[0], lognorm)


@builtin('pnorm')
def _(I, pos, kw):
    lt = kw.get('lower.tail')
    if len(pos) != 1 or set(kw) - {'lower.tail'}:
        raise Unsupported('pnorm')
    f = lambda x: t.app('Phi', x)
    if lt is not None and lt.x is FALSE:
        return map1(I, pos[0], lambda x: t.app('Phi', t.neg(x)))
    return map1(I, pos[0], f)


@builtin('rnorm')
def _(I, pos, kw):
    I.effects.append(('rng', 'rnorm'))
    k = sum(1 for e in I.effects if e[0] == 'rng')
    n = pos[0].x
    return Num(t.vecvar('%%draws%d' % k, n), 'v')


@builtin('matrix')
def _(I, pos, kw):
    v = arg(pos, kw, 0, 'data')
    nr, nc = arg(pos, kw, 1, 'nrow'), arg(pos, kw, 2, 'ncol')
    if set(kw) - {'data', 'nrow', 'ncol'}:
        raise Unsupported('matrix')
    v = asnum(v)
    if v.mode == 's' and nr is not None and nc is not None:
        return Num(t.mlam(nr.x, nc.x, lambda i, j: v.x), 'm')
    if v.mode == 'f' and nr is not None and nc is None:
        I.oblige('size', t.eq(t.rows(v.x), nr.x), 'matrix rebuilt with the same number of rows')
        return Num(v.x, 'm')
    if v.mode == 'v' and nc is not None and nr is None and t.is_num(nc.x) and t.numval(nc.x) == 1:
        return Num(column(v), 'm')
    if v.mode == 'v' and nr is not None and nc is None:
        if t.is_num(nr.x) and t.numval(nr.x) == 1:
            return Num(t.mlam(ONE, v.n, lambda i, j: v.el(j)), 'm')
        # n elements into nr rows
        d = getattr(v, 'cols', None)
        c = exact_div(v.n, nr.x)
        if c is not None:
            m = t.setshape(t.app('bycol', v.x, nr.x, sort='M'), nr.x, c)
            return Num(m, 'm')
    raise Unsupported('matrix')


def exact_div(n, r):
    d = t.pdict(n)
    rr = t.pdict(r)
    if len(rr) == 1:
        q = t.div(n, r)
        if not any(e < 0 for m in t.pdict(q) for _, e in m):
            if all(x.sort == 'I' for m in t.pdict(q) for x, _ in m):
                return t._mk(q.op, q.a, 'I') if q.op == 'poly' and q.sort != 'I' and all(c.denominator == 1 for c in t.pdict(q).values()) else q
    return None


@builtin('rep')
def _(I, pos, kw):
    v = asnum(pos[0])
    each = kw.get('each')
    times = kw.get('times', pos[1] if len(pos) > 1 else None)
    if each is not None:
        if each is NULL:
            raise RStop('invalid each')
        r = each.x
        if r is ONE:
            return v
        return Num(t.mlam(r, v.n, lambda i, j: v.el(j)), 'f')
    if times is not None and v.mode == 's':
        I.oblige('bounds', t.le(0, times.x), 'number of repetitions is not negative')
        return Num(t.lam(times.x, lambda k: v.x), 'v')
    raise Unsupported('rep')


@builtin('c')
def _(I, pos, kw):
    vs = [(None, p) for p in pos] + list(kw.items())
    vs = [(n, v) for n, v in vs if v is not NULL]
    if not vs:
        return NULL
    if any(isinstance(v, (Lst, SLst)) for _, v in vs):
        if all(isinstance(v, Lst) for _, v in vs):
            return Lst(sum((v.names for _, v in vs), []), sum((v.vals for _, v in vs), []))
        return concat_lists(I, [v for _, v in vs])
    if all(isinstance(v, Chr) for _, v in vs):
        return Chr(sum((v.v for _, v in vs), []))
    if all(isinstance(v, (Num, NFac)) for _, v in vs):
        r = concat(I, [asnum(v) for _, v in vs])
        if all(isinstance(v, Num) and v.names is not None for _, v in vs):
            r.names = Opq(t.app('joined', *[token(v.names) for _, v in vs], sort='O'))
        return r
    if any(isinstance(v, Chr) for _, v in vs):
        return Obj('strings', {})
    raise Unsupported('c')


def concat_lists(I, vs):
    parts = []
    for v in vs:
        if isinstance(v, Lst):
            parts.append((t.num(len(v.vals)), lambda k, v=v: v.vals[int(t.numval(k))]))
        elif isinstance(v, SLst):
            parts.append((v.n, v.fn))
        else:
            raise Unsupported('c of lists')
    if len(parts) == 2:
        (n1, f1), (n2, f2) = parts

        def fn(k):
            d = I.decided(t.lt(k, n1))
            if d is True:
                return f1(k)
            if d is False:
                return f2(t.sub(k, n1))
            return ite_value(t.lt(k, n1), f1(k), f2(t.sub(k, n1)))
        return SLst(t.add(n1, n2), fn)
    raise Unsupported('c of lists')


def concat(I, vs):
    flat = [(v.n, v.el) for v in vs]
    if all(t.is_num(n) for n, _ in flat):
        xs = [el(t.num(k)) for n, el in flat for k in range(int(t.numval(n)))]
        return Num(vec_of([numeric(x) for x in xs] if any(x.sort != 'B' for x in xs) else xs), 'v')
    tot = t.add(*[n for n, _ in flat])

    def f(k):
        off = ZERO
        offs = []
        for n, el in flat:
            offs.append(off)
            off = t.add(off, n)
        r = None
        for (n, el), o in reversed(list(zip(flat, offs))):
            x = numeric(el(t.sub(k, o)))
            r = x if r is None else t.ite(t.lt(k, t.add(o, n)), x, r)
        return r
    r = Num(t.lam(tot, f), 'v')
    return r


@builtin('list')
def _(I, pos, kw):
    # order of positional and named arguments is not kept apart here: all calls in the package use one kind
    if pos and kw:
        raise Unsupported('list with and without names')
    return Lst([None] * len(pos) + list(kw), pos + list(kw.values()))


@builtin('names')
def _(I, pos, kw):
    v = pos[0]
    if isinstance(v, Lst):
        if not v.vals or not any(v.names):
            return NULL
        return Chr([n if n is not None else '' for n in v.names])
    if isinstance(v, Obj):
        return Chr(sorted(v.fields))
    if isinstance(v, (Num, Chr, SLst)):
        return v.names if v.names is not None else NULL
    if v is NULL:
        return NULL
    if isinstance(v, Opq):
        return opq('names', v)
    raise Unsupported('names')


@builtin('%in%', 'is.element')
def _(I, pos, kw):
    a, b = pos
    if a is NULL:
        return Num(t.lam(ZERO, lambda k: FALSE), 'v')
    if b is NULL:
        b = Chr([])
    if isinstance(a, Chr) and isinstance(b, Chr):
        cs = [t.lor(*[t.eq(x, y) for y in b.v]) for x in a.v]
        if len(cs) == 1:
            return lgl(cs[0])
        return Num(vec_of(cs), 'v')
    if isinstance(a, Num) and isinstance(b, Num):
        return map1(I, a, lambda x: t.lnot(t.forall(b.n, lambda k: t.lnot(t.eq(b.el(k), x)))))
    raise Unsupported('%in%')


def distinct_values(v):
    """a list of values that are known to be distinct: read in increasing order"""
    if v.op == 'lam':
        n, b, e = v.a[0], v.a[1], v.a[2]
    elif v.op == 'filter':
        n, b, e = v.a[0], v.a[1], dict(v.a[2].a[1])['e']
    else:
        return False
    return t.sub(e, b) is ONE or t.sub(e, b) is ZERO or t.is_num(t.sub(e, b))


@builtin('setdiff')
def _(I, pos, kw):
    x, y = pos
    if x is NULL or y is NULL:
        return x
    x, y = asnum(x), asnum(y)
    if not distinct_values(x.vec()):
        raise Unsupported('setdiff')
    p = t.fresh('p', 'I')
    v = x.el(p)
    return Num(t.filter_(x.n, p, t.forall(y.n, lambda k: t.lnot(t.eq(y.el(k), v))), v), 'v')


@builtin('any')
def _(I, pos, kw):
    v = asnum(pos[0])
    if v.mode == 's':
        return v
    if v.mode == 'v' and t.is_num(v.n):
        return lgl(t.lor(*[v.el(t.num(k)) for k in range(int(t.numval(v.n)))]))
    if v.mode == 'v':
        return lgl(t.lnot(t.forall(v.n, lambda k: t.lnot(v.el(k)))))
    return lgl(t.lnot(t.forall(t.rows(v.x), lambda i: t.forall(t.cols(v.x), lambda j: t.lnot(t.at2(v.x, i, j))))))


@builtin('all')
def _(I, pos, kw):
    v = asnum(pos[0])
    if v.mode == 's':
        return v
    if v.mode == 'v' and t.is_num(v.n):
        return lgl(t.land(*[v.el(t.num(k)) for k in range(int(t.numval(v.n)))]))
    if v.mode == 'v':
        return lgl(t.forall(v.n, lambda k: v.el(k)))
    return lgl(t.forall(t.rows(v.x), lambda i: t.forall(t.cols(v.x), lambda j: t.at2(v.x, i, j))))


@builtin('ifelse')
def _(I, pos, kw):
    c, a, b = pos
    return mapn(I, [c, a, b], lambda x, y, z: t.ite(x, y, z))


@builtin('stop')
def _(I, pos, kw):
    raise RStop(pos[0] if pos else 'error')


@builtin('warning')
def _(I, pos, kw):
    I.effects.append(('warning', pos[0].v[0] if pos and isinstance(pos[0], Chr) else '?'))
    return NULL


@builtin('cat', 'print')
def _(I, pos, kw):
    I.effects.append(('output', pos))
    return NULL


def paste(default):
    def go(I, pos, kw):
        sep = kw.get('sep', Chr([default]))
        ds = [deparsed(p) for p in pos]
        if all(d is not None and all(x.op == 'str' for x in d) for d in ds) and ds and not set(kw) - {'sep', 'collapse'}:
            n = max(len(d) for d in ds)
            if all(len(d) in (1, n) for d in ds):
                out = [strval(sep).join(d[k if len(d) > 1 else 0].a[0] for d in ds) for k in range(n)]
                return Chr([strval(kw['collapse']).join(out)] if 'collapse' in kw and kw['collapse'] is not NULL else out)
        if any(isinstance(p, Opq) for p in pos):
            return opq('paste', *(pos + [sep]))
        if all(isinstance(p, Chr) and len(p.v) == 1 for p in pos) and not set(kw) - {'sep'} and all(p.v[0].op == 'str' for p in pos):
            return Chr([strval(sep).join(p.v[0].a[0] for p in pos)])
        return Chr([t.fresh('text', 'S')])
    return go


BUILTINS['paste'], BUILTINS['paste0'] = paste(' '), paste('')
BUILTINS['sprintf'] = lambda I, pos, kw: Chr([t.fresh('text', 'S')])


@builtin('identical')
def _(I, pos, kw):
    a, b = arg(pos, kw, 0, 'x'), arg(pos, kw, 1, 'y')
    if isinstance(a, Chr) and isinstance(b, Chr):
        return lgl(t.land(*[t.eq(x, y) for x, y in zip(a.v, b.v)]) if len(a.v) == len(b.v) else FALSE)
    if isinstance(a, Lang) or isinstance(b, Lang):
        if not (isinstance(a, Lang) and isinstance(b, Lang)):
            return lgl(False)
        r = same_tree(a.e, b.e)
        if r is None:
            raise Unsupported('comparison of an arbitrary expression')
        return lgl(r)
    if isinstance(a, Num) and isinstance(b, Num) and a.mode == b.mode == 'v':
        return lgl(t.land(t.eq(a.n, b.n), t.forall(a.n, lambda k: t.eq(a.el(k), b.el(k)))))
    raise Unsupported('identical')


@builtin('structure')
def _(I, pos, kw):
    v = copy.copy(pos[0])
    v.attrs = dict(getattr(v, 'attrs', {}))
    v.attrs.update(kw)
    return v


@builtin('attr')
def _(I, pos, kw):
    n = strval(pos[1])
    if n == 'dimnames' and n not in getattr(pos[0], 'attrs', {}):
        return BUILTINS['dimnames'](I, pos[:1], {})
    return getattr(pos[0], 'attrs', {}).get(n, NULL)


@builtin('dimnames')
def _(I, pos, kw):
    a = getattr(pos[0], 'attrs', {})
    if 'dimnames' in a:
        return a['dimnames']
    if 'rownames' in a or 'colnames' in a:
        return Lst([None, None], [a.get('rownames', NULL), a.get('colnames', NULL)])
    return NULL


@builtin('[[')
def _(I, pos, kw):
    v, i = pos[0], pos[1]
    if isinstance(i, Chr):
        return getfield(I, v, strval(i))
    k = index1(I, i)
    n = size(I, v)
    I.oblige('bounds', t.land(t.le(0, k), t.lt(k, n)), 'element exists')
    if isinstance(v, Lst):
        if t.is_num(k):
            j = int(t.numval(k))
            if j >= len(v.vals) or j < 0:
                raise RStop('subscript out of bounds')
            return v.vals[j]
        raise Unsupported('element of a list at an unknown position')
    if isinstance(v, SLst):
        return v.fn(k)
    if isinstance(v, Num):
        return Num(v.el(k), 's')
    if isinstance(v, Lang) and t.is_num(k):
        if not 0 <= int(t.numval(k)) < len(v.parts()):
            raise RStop('subscript out of bounds')
        return as_value(v.parts()[int(t.numval(k))])
    if isinstance(v, Chr) and t.is_num(k):
        return Chr([v.v[int(t.numval(k))]])
    raise Unsupported('element of %s' % type(v).__name__)


@builtin('[')
def _(I, pos, kw):
    v, ix = pos[0], pos[1:] + [kw[n] for n in ('i', 'j') if n in kw]
    drop = kw.get('drop')
    if isinstance(v, NFac) and len(ix) == 1:
        if drop is not None and drop.x is not FALSE:
            raise Unsupported('factor that loses levels')
        return NFac(index_vector(I, Num(v.code, 'v'), asnum(ix[0])).vec(), v.nlev, v.levels)
    if isinstance(v, (Lang, Lst, Chr)) and len(ix) == 1 and isinstance(ix[0], Num) and not ix[0].lgl():
        n = int(t.numval(size(I, v)))
        ks = positions(ix[0], n)
        if ks is None:
            raise Unsupported('part at unknown positions')
        if isinstance(v, Lang):
            return make_call([v.parts()[k] for k in ks], [v.names()[k] for k in ks])
        if isinstance(v, Chr):
            return Chr([v.v[k] for k in ks])
        return Lst([v.names[k] for k in ks], [v.vals[k] for k in ks])
    if isinstance(v, Lst):
        i = ix[0]
        if isinstance(i, Num) and i.lgl():
            keep = [k for k in range(len(v.vals)) if I.truth(i.el(t.num(k)))]
            return Lst([v.names[k] for k in keep], [v.vals[k] for k in keep])
        if isinstance(i, Chr):
            return Lst([strval(Chr([s])) for s in i.v], [v.get(strval(Chr([s]))) for s in i.v])
        raise Unsupported('part of a list')
    if isinstance(v, Chr):
        i = ix[0]
        if isinstance(i, Num) and i.lgl():
            if t.is_num(i.n) and int(t.numval(i.n)) == len(v.v):
                return Chr([s for k, s in enumerate(v.v) if I.truth(i.el(t.num(k)))])
        if isinstance(i, Num) and i.mode == 's' and t.is_num(i.x):
            return Chr([v.v[int(t.numval(i.x)) - 1]])
        raise Unsupported('part of a vector of strings')
    if v is NULL:
        return NULL
    if isinstance(v, Opq) and len(ix) == 1:
        return opq('part', v, ix[0])
    if isinstance(v, Sparse):
        if len(ix) == 2 and drop is not None and drop.x is FALSE and all(isinstance(i, Num) and i.mode == 'v' and not i.lgl() for i in ix):
            return sparse_part(I, v, *ix)
        return index_matrix(I, Num(v.dense(), 'm'), ix, drop)
    if isinstance(v, SLst):
        i = ix[0]
        if isinstance(i, Num) and not i.lgl():
            return SLst(i.n, lambda k: v.fn(t.sub(i.el(k), 1)))
        if isinstance(i, Num) and i.lgl():
            I.oblige('size', t.eq(i.n, v.n), 'one truth value for each element')
            kept = t.filter_n(v.n, lambda k: i.el(k)) if hasattr(t, 'filter_n') else keep_positions(v.n, i.el)
            return SLst(t.length(kept), lambda k: v.fn(t.at(kept, k)))
        raise Unsupported('part of a list')
    v = asnum(v)
    if v.mode == 'm':
        return index_matrix(I, v, ix, drop)
    if len(ix) != 1:
        raise Unsupported('index')
    i = ix[0]
    if isinstance(i, Missing):
        return v
    return index_vector(I, v, asnum(i))


def positions(i, n):
    """0-based positions (in order) picked by an index of known numbers from n elements, as R does; None if not known"""
    if not t.is_num(i.n):
        return None
    xs = [i.el(t.num(k)) for k in range(int(t.numval(i.n)))]
    if not all(t.is_num(x) for x in xs):
        return None
    xs = [int(t.numval(x)) for x in xs]
    if all(x <= 0 for x in xs) and xs and any(x < 0 for x in xs):
        return [k for k in range(n) if -(k + 1) not in xs]
    if any(x < 0 for x in xs) or any(x > n for x in xs):
        return None
    return [x - 1 for x in xs if x > 0]


def keep_positions(n, cond):
    i = t.fresh('p', 'I')
    return t.filter_(n, i, cond(i), i)


def index_vector(I, v, i):
    if i.lgl():
        if i.mode == 's':
            return v if I.truth(i.x) else Num(t.lam(ZERO, lambda k: ZERO), 'v')
        I.oblige('size', t.eq(i.n, v.n), 'one truth value for each element')
        j = t.fresh('p', 'I')
        return Num(t.filter_(v.n, j, i.el(j), v.el(j)), 'v')
    if t.is_num(v.n):
        ks = positions(i, int(t.numval(v.n)))
        if ks is not None:
            return Num(vec_of([v.el(t.num(k)) for k in ks]), 'v')
    dr = getattr(i, 'drop', None)
    if dr is not None:
        lo, n = dr
        # leaves out the positions lo .. lo+n-1
        I.oblige('bounds', t.le(1, lo), 'positions left out')
        if I.decided(t.le(n, v.n)) is not True:
            I.oblige('bounds', t.le(t.add(lo, n, -1), v.n), 'positions left out exist')
        return Num(t.lam(t.sub(v.n, n), lambda k: v.el(t.ite(t.lt(k, t.sub(lo, 1)), k, t.add(k, n))) if lo is not ONE else v.el(t.add(k, n))), 'v')
    if i.mode == 's':
        k = i.x
        if I.decided(t.lt(k, 0)) is True:
            p = t.sub(t.neg(k), 1)
            if I.decided(t.land(t.le(0, p), t.lt(p, v.n))) is True:
                return Num(t.lam(t.sub(v.n, 1), lambda q: v.el(q) if p is t.sub(v.n, 1) else v.el(t.ite(t.lt(q, p), q, t.add(q, 1)))), 'v')
            raise Unsupported('negative index')
        I.oblige('bounds', t.land(t.le(1, k), t.le(k, v.n)), 'element exists')
        return Num(v.el(t.sub(k, 1)), 's')
    if i.mode != 'v':
        raise Unsupported('index by a matrix')
    I.oblige('bounds', t.forall(i.n, lambda k: t.land(t.le(1, i.el(k)), t.le(i.el(k), v.n))), 'elements exist')
    return Num(t.lam(i.n, lambda k: v.el(t.sub(i.el(k), 1))), 'v')


def position(I, i, n):
    """(number of positions, position of the k-th) for one index of a matrix"""
    if isinstance(i, Missing):
        return n, lambda k: k
    i = asnum(i)
    if i.lgl():
        raise Unsupported('matrix indexed by truth values')
    I.oblige('bounds', t.forall(i.n, lambda k: t.land(t.le(1, i.el(k)), t.le(i.el(k), n))) if i.mode == 'v' else t.land(t.le(1, i.x), t.le(i.x, n)),
             'rows or columns exist')
    return i.n, lambda k: t.sub(i.el(k), 1)


def index_matrix(I, m, ix, drop):
    if len(ix) == 1 and isinstance(ix[0], Num) and ix[0].mode == 'm' and ix[0].lgl():
        i, j = t.fresh('i', 'I'), t.fresh('i', 'I')
        n = t.rows(m.x)
        if t.at2(ix[0].x, i, j) is t.eq(i, j):
            I.oblige('size', t.land(t.eq(n, t.cols(m.x)), t.eq(n, t.rows(ix[0].x))), 'square matrix')
            return Num(t.lam(n, lambda k: t.at2(m.x, k, k)), 'v')
        raise Unsupported('matrix indexed by a matrix')
    if len(ix) != 2:
        raise Unsupported('index of a matrix')
    r, pr = position(I, ix[0], t.rows(m.x))
    c, pc = position(I, ix[1], t.cols(m.x))
    if drop is None or drop.x is not FALSE:
        if r is ONE and not isinstance(ix[0], Missing):
            return Num(t.lam(c, lambda k: t.at2(m.x, pr(ZERO), pc(k))), 'v')
        if c is ONE and not isinstance(ix[1], Missing):
            return Num(t.lam(r, lambda k: t.at2(m.x, pr(k), pc(ZERO))), 'v')
        if I.decided(t.lor(t.eq(r, ONE), t.eq(c, ONE))) is not False:
            raise Unsupported('matrix that may lose a dimension')
    return Num(t.mlam(r, c, lambda i, j: t.at2(m.x, pr(i), pc(j))), 'm')


# ---------------------------------------------------------------- functions of functions
def as_function(I, f):
    if isinstance(f, Chr):
        n = strval(f)
        return I.lookup(n, I.globals, fun=True)
    return f


def per_element(I, f, it, extra, kw):
    """(n, value of f for the k-th element)"""
    f = as_function(I, f)
    n, el = iterate(I, it)
    env = getattr(f, 'env', None) or I.globals

    def at(k):
        try:
            return I.one(lambda: I.apply(f, [el(k)] + extra, kw), env)
        except StopsInside:
            if not t.is_num(k):
                raise
            return I.apply(f, [el(k)] + extra, kw)               # one element of a list of known length: follow the paths
    return n, at


@builtin('vapply', 'sapply')
def _(I, pos, kw):
    kw = dict(kw)
    x, f = arg(pos, kw, 0, 'X'), arg(pos, kw, 1, 'FUN')
    kw.pop('USE.NAMES', None)
    kw.pop('FUN.VALUE', None)
    n, at = per_element(I, f, x, pos[3:], kw)
    if t.is_num(n):
        vs = [at(t.num(k)) for k in range(int(t.numval(n)))]
        if all(isinstance(v, Chr) for v in vs) and vs:
            return Chr([v.v[0] for v in vs])
        return Num(vec_of([v.x for v in vs]), 'v')
    i = t.fresh('i', 'I')
    I.pc += [t.le(0, i), t.lt(i, n)]
    try:
        v = at(i)
    finally:
        del I.pc[-2:]
    if not (isinstance(v, Num) and v.mode == 's'):
        raise Unsupported('vapply')
    return Num(t.lam_(n, i, v.x), 'v')


@builtin('lapply')
def _(I, pos, kw):
    kw = dict(kw)
    x, f = arg(pos, kw, 0, 'X'), arg(pos, kw, 1, 'FUN')
    n, at = per_element(I, f, x, pos[2:], {k: v for k, v in kw.items() if k not in ('X', 'FUN')})
    if t.is_num(n):
        return Lst(x.names if isinstance(x, Lst) else [n2 or None for n2 in x.names()] if isinstance(x, Lang) else [None] * int(t.numval(n)), [at(t.num(k)) for k in range(int(t.numval(n)))])
    return SLst(n, at, getattr(x, 'names', None))


@builtin('mapply')
def _(I, pos, kw):
    f = as_function(I, pos[0])
    its = [iterate(I, p) for p in pos[1:]]
    n = its[0][0]
    for m, _ in its[1:]:
        I.oblige('size', t.eq(n, m), 'lists of the same length')
    return SLst(n, lambda k: I.apply(f, [el(k) for _, el in its]))


@builtin('Reduce')
def _(I, pos, kw):
    f, x = pos
    n, el = iterate(I, x)
    if not t.is_num(n):
        raise Unsupported('Reduce over a list of unknown length')
    k = int(t.numval(n))
    if k == 0:
        return NULL
    r = el(ZERO)
    for j in range(1, k):
        r = I.apply(f, [r, el(t.num(j))])
    return r


@builtin('cbind')
def _(I, pos, kw):
    ms = [asnum(p) for p in pos if p is not NULL]
    r = None
    for m in ms:
        x = column(m)
        if r is None:
            r = x
            continue
        I.oblige('size', t.eq(t.rows(r), t.rows(x)), 'same number of rows')
        a, b = r, x
        ca = t.cols(a)
        r = t.mlam(t.rows(a), t.add(ca, t.cols(b)), lambda i, j: t.ite(t.lt(j, ca), t.at2(a, i, j), t.at2(b, i, t.sub(j, ca))))
    return Num(r, 'm')


@builtin('rbind')
def _(I, pos, kw):
    ms = [asnum(p) for p in pos if p is not NULL]
    r = None
    for m in ms:
        x = m.x if m.mode == 'm' else transpose(column(m))
        if r is None:
            r = x
            continue
        I.oblige('size', t.eq(t.cols(r), t.cols(x)), 'same number of columns')
        a, b = r, x
        ra = t.rows(a)
        r = t.mlam(t.add(ra, t.rows(b)), t.cols(a), lambda i, j: t.ite(t.lt(i, ra), t.at2(a, i, j), t.at2(b, t.sub(i, ra), j)))
    return Num(r, 'm')


@builtin('data.frame')
def _(I, pos, kw):
    if pos:
        raise Unsupported('data.frame')
    for k in ('stringsAsFactors', 'check.names', 'row.names'):
        kw.pop(k, None)
    return Lst(list(kw), list(kw.values()))


@builtin('environment')
def _(I, pos, kw):
    v = pos[0] if pos else None
    if isinstance(v, PyFun) and hasattr(v, 'env'):
        return v.env
    if isinstance(v, Clo):
        return v.env
    return Obj('environment', {})


@builtin('get')
def _(I, pos, kw):
    n, e = strval(pos[0]), arg(pos, kw, 1, 'envir')
    return getfield(I, e, n)


@builtin('sparseMatrix')
def _(I, pos, kw):
    i, j, x, d = (arg(pos, kw, k, n) for k, n in enumerate(('i', 'j', 'x', 'dims')))
    if 'j' not in kw or set(kw) - {'i', 'j', 'x', 'dims'} or d is None:
        raise Unsupported('sparseMatrix')
    r, c = d.el(ZERO), d.el(ONE)
    I.oblige('size', t.land(t.eq(i.n, j.n), t.eq(i.n, x.n)), 'a row, a column and a value for each entry')
    for v, n in ((i, r), (j, c)):
        I.oblige('bounds', t.forall(i.n, lambda k: t.land(t.le(1, v.el(k)), t.le(v.el(k), n))), 'entries are inside the matrix')
    return Sparse(t.rec('%sparse', {'rows': r, 'cols': c, 'nnz': i.n, 'ri': t.lam(i.n, lambda k: t.sub(i.el(k), 1)), 'ci': t.lam(i.n, lambda k: t.sub(j.el(k), 1)),
                                    'va': x.vec()}))


@builtin('model.offset')
def _(I, pos, kw):
    return getfield(I, pos[0], '(offset)')


@builtin('model.response')
def _(I, pos, kw):
    return getfield(I, pos[0], '(response)')


@builtin('model.weights')
def _(I, pos, kw):
    return getfield(I, pos[0], '(weights)')
