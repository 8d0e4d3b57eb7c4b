"""Numeric evaluation of terms on small concrete models: refutes obligations the solvers leave open."""
import hashlib
import itertools
import random
from fractions import Fraction
import mpmath as mp
from . import terms as t
from .terms import T, ZERO

mp.mp.dps = 40
LIMIT = 400


class Undef(Exception):
    """no value (division by zero, index outside, opaque operation)"""


class Vec:
    def __init__(self, xs):
        self.xs = list(xs)

    def key(self):
        return ('V',) + tuple(hk(x) for x in self.xs)


class Mat:
    def __init__(self, r, c, xs):
        self.r, self.c, self.xs = r, c, xs

    def key(self):
        return ('M', self.r, self.c) + tuple(hk(x) for x in self.xs)

    def mp(self):
        m = mp.matrix(self.r, self.c)
        for i in range(self.r):
            for j in range(self.c):
                m[i, j] = self.xs[i * self.c + j]
        return m


class Obj:
    def __init__(self, k):
        self.k = k

    def key(self):
        return ('O', self.k)


class Rec:
    def __init__(self, cls, d):
        self.cls, self.d = cls, d

    def key(self):
        return ('rec', self.cls) + tuple((n, hk(v)) for n, v in sorted(self.d.items()))


def hk(x):
    if isinstance(x, (Vec, Mat, Obj, Rec)):
        return x.key()
    if isinstance(x, (mp.mpf, Fraction)):
        return mp.nstr(mp.mpf(x) if not isinstance(x, Fraction) else mp.mpf(x.numerator) / x.denominator, 25)
    if isinstance(x, int) and not isinstance(x, bool):
        return mp.nstr(mp.mpf(x), 25)
    return repr(x)


def h01(*k):
    return int(hashlib.sha256(repr(k).encode()).hexdigest()[:15], 16) / 16 ** 15


def frommp(m):
    return Mat(m.rows, m.cols, [m[i, j] for i in range(m.rows) for j in range(m.cols)])


CALLS_ = {'argmax': lambda m, v: max(range(len(v.xs)), key=lambda i: v.xs[i]) if v.xs else 0,
          'argmin': lambda m, v: min(range(len(v.xs)), key=lambda i: v.xs[i]) if v.xs else 0}
CALLS = dict(CALLS_)      # numeric meaning of function symbols: name -> python function of evaluated arguments


class Model:
    def __init__(self, env, seed=0):
        self.env = dict(env)
        self.seed = seed
        self.memo = {}
        self.work = 0
        self.local = {}

    # smooth pseudo-random function of numeric arguments
    def smooth(self, key, xs):
        r = mp.mpf(0)
        for q in range(3):
            ph = mp.mpf(6.28 * h01(self.seed, key, q))
            s = ph
            for i, x in enumerate(xs):
                s += (0.3 + h01(self.seed, key, q, i)) * x
            r += (0.4 + h01(self.seed, key, q, 'a')) * mp.sin(s)
        return r + mp.mpf(h01(self.seed, key, 'c')) * 2

    def leaf(self, key, sort):
        u = h01(self.seed, key)
        if sort == 'I':
            return int(u * 4)
        if sort == 'R':
            return mp.mpf(round(u * 400 - 200)) / 97
        if sort == 'B':
            return u < 0.5
        if sort == 'S':
            return 's%d' % int(u * 4)
        if sort == 'V':
            return Vec([self.leaf((key, i), 'R') for i in range(int(u * 4))])
        if sort == 'M':
            n = int(u * 4)
            return Mat(n, n, [self.leaf((key, i), 'R') for i in range(n * n)])
        return Obj(key)

    def ev(self, x):
        closed = not any(z.op == 'bv' for z in x.fv)
        memo = self.memo if closed else self.local
        if x in memo:
            return memo[x]
        self.work += 1
        if self.work > 300000:
            raise Undef('work')
        r = self.ev1(x)
        if closed or memo is self.local:
            memo[x] = r
        return r

    def rng(self, n, what=''):
        n = self.ev(n)
        if n > LIMIT:
            raise Undef('large')
        return range(max(0, int(n)))

    def under(self, bs, vals):
        return bs

    def ev1(self, x):
        op, a = x.op, x.a
        ev = self.ev
        if op == 'var' or op == 'bv':
            if x in self.env:
                return self.env[x]
            if op == 'bv':
                raise Undef('unbound')
            if x.a[0] == '%inf':
                return mp.inf
            if x.a[0] == '%sqrt(pi)':
                return mp.sqrt(mp.pi)
            if x.a[0] == '%log(sqrt(2*pi))':
                return mp.log(2 * mp.pi) / 2
            if x.a[0] == '%pi':
                return mp.pi
            v = self.var(x)
            self.env[x] = v
            return v
        if op == 'poly':
            s = 0 if x.sort == 'I' else mp.mpf(0)
            for m, c in a:
                p = mp.mpf(c.numerator) / c.denominator if c.denominator != 1 else int(c)
                # brackets first: a zero bracket hides undefined factors
                for b, e in m:
                    if b.op == 'iv':
                        if not ev(b.a[0]):
                            p = 0
                            break
                else:
                    for b, e in m:
                        if b.op == 'iv':
                            continue
                        y = ev(b)
                        if e < 0 and y == 0:
                            raise Undef('division by zero')
                        p = p * (mp.mpf(y) ** e if e < 0 else y ** e)
                s = s + p
            return s
        if op == 'pol':
            return ev(a[0])
        if op == 'iv':
            return 1 if ev(a[0]) else 0
        if op == 'true':
            return True
        if op == 'false':
            return False
        if op == 'not':
            return not ev(a[0])
        if op == 'and':
            return self.conj(a, False)
        if op == 'or':
            return self.conj(a, True)
        if op == 'lt0':
            v = ev(a[0])
            if x.a[0].sort == 'R' and v != 0 and abs(v) < mp.mpf(10) ** -25:
                raise Undef('tie')
            return v < 0
        if op == 'eq0':
            v = ev(a[0])
            return abs(v) < mp.mpf(10) ** -18
        if op == 'eqo':
            return same(ev(a[0]), ev(a[1]))
        if op == 'ite':
            return ev(a[1]) if ev(a[0]) else ev(a[2])
        if op == 'str':
            return a[0]
        if op == 'rec':
            return Rec(a[0], {n: ev(v) for n, v in a[1]})
        if op == 'fld':
            o = ev(a[0])
            if isinstance(o, Rec):
                return o.d[a[1]]
            return self.leaf((hk(o), a[1]), x.sort)
        if op == 'at':
            v, i = ev(a[0]), ev(a[1])
            if not isinstance(v, Vec) or not 0 <= i < len(v.xs):
                raise Undef('index')
            return v.xs[int(i)]
        if op == 'at2':
            v, i, j = ev(a[0]), ev(a[1]), ev(a[2])
            if not isinstance(v, Mat) or not (0 <= i < v.r and 0 <= j < v.c):
                raise Undef('index')
            return v.xs[int(i) * v.c + int(j)]
        if op == 'lam':
            return Vec([self.bind({a[1]: i}, a[2]) for i in self.rng(a[0])])
        if op == 'mlam':
            r, c = self.rng(a[0]), self.rng(a[1])
            return Mat(len(r), len(c), [self.bind({a[2]: i, a[3]: j}, a[4]) for i in r for j in c])
        if op == 'ms':
            rs, bs, b = a
            return self.msum(list(zip(bs, rs)), b)
        if op == 'prod':
            p = 1
            for i in self.rng(a[0]):
                p = p * self.bind({a[1]: i}, a[2])
            return p
        if op == 'forall':
            if a[0] is t.ALL:
                raise NotImplementedError('unbounded')
            return all(self.bind({a[1]: i}, a[2]) for i in self.rng(a[0]))
        if op == 'first':
            n = int(ev(a[0]))
            for i in self.rng(a[0]):
                if self.bind({a[1]: i}, a[2]):
                    return i
            return n
        if op == 'filter':
            out = []
            d = dict(a[2].a[1])
            for i in self.rng(a[0]):
                if self.bind({a[1]: i}, d['c']) == 1:
                    out.append(self.bind({a[1]: i}, d['e']))
            return Vec(out)
        if op == 'app':
            return self.app(x)
        return self.leaf(x.id if op == 'obj' else show_key(x), x.sort)

    def conj(self, a, stop):
        und = None
        for y in a:
            try:
                if self.ev(y) == stop:
                    return stop
            except Undef as e:
                und = e
        if und:
            raise und
        return not stop

    def bind(self, m, body):
        old = {b: self.env.get(b) for b in m}
        loc, self.local = self.local, {}
        self.env.update(m)
        try:
            return self.ev(body)
        finally:
            self.local = loc
            for b, v in old.items():
                if v is None:
                    self.env.pop(b, None)
                else:
                    self.env[b] = v

    def msum(self, bs, body):
        if not bs:
            return self.ev(body)
        (b, r), rest = bs[0], bs[1:]
        s = 0
        loc = self.local
        for i in self.rng(r):
            self.env[b] = i
            self.local = {}
            s = s + self.msum(rest, body)
        self.env.pop(b, None)
        self.local = loc
        return s

    def app(self, x):
        f = x.a[0]
        if f in ('len', 'rows', 'cols'):
            v = self.ev(x.a[1])
            if f == 'len':
                return len(v.xs)
            return v.r if f == 'rows' else v.c
        if f == 'call':
            return self.call(x)
        xs = [self.ev(y) for y in x.a[1:]]
        try:
            if f in CALLS:
                return CALLS[f](self, *xs)
            if f == 'exp':
                return mp.exp(xs[0])
            if f == 'log':
                if xs[0] <= 0:
                    raise Undef('log')
                return mp.log(xs[0])
            if f == 'sqrt':
                if xs[0] < 0:
                    raise Undef('sqrt')
                return mp.sqrt(xs[0])
            if f in ('pow', 'pown'):
                if xs[0] == 0 and xs[1] < 0 or xs[0] < 0 and xs[1] != int(xs[1]):
                    raise Undef('pow')
                return mp.mpf(xs[0]) ** xs[1]
            if f == 'pow2':
                return 2 ** int(xs[0]) if xs[0] >= 0 else mp.mpf(2) ** xs[0]
            if f == 'cdf':
                return mp.ncdf(xs[0]) if len(xs) == 1 else mp.ncdf(xs[-1], xs[0], xs[1])
            if f == 'pdf':
                return mp.npdf(xs[0]) if len(xs) == 1 else mp.npdf(xs[-1], xs[0], xs[1])
            if f == 'det':
                return mp.det(xs[0].mp()) if xs[0].r else mp.mpf(1)
            if f == 'inv':
                return frommp(inverse(xs[0]))
            if f in ('solve', 'solveM'):
                a = inverse(xs[0])
                if f == 'solve':
                    b = mp.matrix(xs[1].xs)
                    r = a * b
                    return Vec([r[i] for i in range(r.rows)])
                return frommp(a * xs[1].mp())
            if f == 'trunc':
                return int(xs[0])
            if f == 'idiv':
                if xs[1] == 0:
                    raise Undef('div')
                q = abs(int(xs[0])) // abs(int(xs[1]))
                return q if (xs[0] >= 0) == (xs[1] >= 0) else -q
            if f == 'imod':
                q = abs(int(xs[0])) % abs(int(xs[1]))
                return q if xs[0] >= 0 else -q
            if f == 'Phi':
                return mp.ncdf(xs[0])
            if f == 'floor':
                return int(mp.floor(xs[0]))
            if f == 'round':
                return int(mp.nint(xs[0]))
            if f == 'rpow':
                if xs[0] < 0 and xs[1] != int(xs[1]) or xs[0] == 0 and xs[1] < 0:
                    raise Undef('pow')
                return mp.mpf(xs[0]) ** xs[1]
            if f in ('chol', 'icholu'):
                a = xs[0].mp()
                if a != a.T:
                    raise Undef('chol')
                u = mp.cholesky(a).T
                return frommp(u if f == 'chol' else mp.inverse(u))
            if f == 'lgamma':
                return mp.loggamma(xs[0])
        except (ZeroDivisionError, ValueError, TypeError, OverflowError, mp.NoConvergence) as e:
            raise Undef(str(e))
        # an uninterpreted function
        nums = [y for y in xs if isinstance(y, (int, mp.mpf, float)) and not isinstance(y, bool)]
        key = (f,) + tuple(hk(y) for y in xs if not (isinstance(y, (int, mp.mpf, float)) and not isinstance(y, bool)))
        if x.sort == 'R':
            return self.smooth(key, nums)
        return self.leaf((f,) + tuple(hk(y) for y in xs), x.sort)

    def call(self, x):
        """an unknown function value: smooth, and its declared derivatives are those of the function"""
        if x.a[1].op == "ite":
            return self.call(t.app("call", x.a[1].a[1 if self.ev(x.a[1].a[0]) else 2], *x.a[2:], sort=x.sort))
        root, order = x.a[1], 0
        again = True
        while again:
            again = False
            if root.op == 'app' and root.a[0] in ('gradient', 'hessian'):
                root, order, again = root.a[1], order + (1 if root.a[0] == 'gradient' else 2), True
                continue
            for g, d in t._ufun.items():
                if d['grad'] is root:
                    root, order, again = g, order + 1, True
                    break
        xs = [self.ev(y) for y in x.a[2:]]
        if not t.ufun_entry(root) or len(xs) != 1 or not isinstance(xs[0], Vec):
            nums = [y for y in xs if isinstance(y, (int, mp.mpf, float)) and not isinstance(y, bool)]
            key = ('call', hk(self.ev(x.a[1]))) + tuple(hk(y) for y in xs if not (isinstance(y, (int, mp.mpf, float)) and not isinstance(y, bool)))
            if x.sort == 'R':
                return self.smooth(key, nums)
            if x.sort in 'VM' and t.ufun_entry(x.a[1]):
                n = int(self.ev(t.ufun_entry(x.a[1])['n']))
                if x.sort == 'V':
                    return Vec([self.smooth((key, i), nums) for i in range(n)])
                return Mat(n, n, [self.smooth((key, i, j), nums) for i in range(n) for j in range(n)])
            return self.leaf(key, x.sort)
        y = xs[0].xs
        key = ('call', hk(self.ev(root)))
        n = len(y)
        terms = []
        for q in range(3):
            c = [mp.mpf(0.3 + h01(self.seed, key, q, i)) for i in range(n)]
            s = mp.mpf(6.28 * h01(self.seed, key, q)) + sum(a * b for a, b in zip(c, y))
            terms.append((mp.mpf(0.4 + h01(self.seed, key, q, 'a')), c, s))
        if order == 0:
            return sum(a * mp.sin(s) for a, c, s in terms) + mp.mpf(h01(self.seed, key, 'c')) * 2
        if order == 1:
            return Vec([sum(a * c[i] * mp.cos(s) for a, c, s in terms) for i in range(n)])
        if order == 2:
            return Mat(n, n, [-sum(a * c[i] * c[j] * mp.sin(s) for a, c, s in terms) for i in range(n) for j in range(n)])
        raise Undef('order')

    def var(self, x):
        k = (x.a[0],)
        if x.sort == 'V':
            n = int(self.ev(t.length(x))) if x in t._shape else int(h01(self.seed, k, 'n') * 4)
            if n > LIMIT or n < 0:
                raise Undef('length')
            es = t.elem_sort(x)
            return Vec([self.leaf((k, i), es) for i in range(n)])
        if x.sort == 'M':
            if x in t._shape:
                r, c = int(self.ev(t.rows(x))), int(self.ev(t.cols(x)))
            else:
                r = c = int(h01(self.seed, k, 'n') * 4)
            if r < 0 or c < 0 or r * c > LIMIT:
                raise Undef('shape')
            xs = [self.leaf((k, i), 'R') for i in range(r * c)]
            if x in t._symm and r == c:
                for i in range(r):
                    for j in range(i):
                        xs[i * c + j] = xs[j * c + i]
                    xs[i * c + i] += 6
            return Mat(r, c, xs)
        return self.leaf(k, x.sort)


def inverse(m):
    if m.r != m.c:
        raise Undef('inverse')
    if m.r == 0:
        return mp.matrix(0, 0)
    return m.mp() ** -1


def show_key(x):
    return t.show(x)


def close(a, b):
    try:
        if a == b:
            return True
        return abs(a - b) <= mp.mpf(10) ** -15 * (1 + abs(a) + abs(b))
    except TypeError:
        return a == b


def same(a, b):
    if isinstance(a, Vec) and isinstance(b, Vec):
        return len(a.xs) == len(b.xs) and all(same(x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, Mat) and isinstance(b, Mat):
        return (a.r, a.c) == (b.r, b.c) and all(same(x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, Rec) and isinstance(b, Rec):
        return a.cls == b.cls and a.d.keys() == b.d.keys() and all(same(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.key() == b.key()
    if isinstance(a, (Vec, Mat, Rec, Obj)) or isinstance(b, (Vec, Mat, Rec, Obj)):
        return False
    return close(a, b)


def solve_lin(f):
    """x = e from an equality fact"""
    from .prover import solve_for
    if f.op == 'eq0':
        return solve_for(f.a[0])
    return None


def refute(ctx, goal, tries=400, seed=1, sampler=None, seconds=10):
    """a concrete small model of the assumptions in which the goal is false, or None"""
    import time
    t0 = time.time()
    facts = [f for f in ctx.facts]
    # variables fixed by equalities
    fixed = {}
    for f in facts:
        s = solve_lin(f)
        if s and s[0] not in fixed and not any(s[0] in v.fv for v in fixed.values()) and not (s[1].fv & set(fixed)):
            fixed[s[0]] = s[1]
    ok = 0
    for q in range(tries):
        if time.time() - t0 > seconds:
            break
        m = Model(sampler(random.Random(seed * 1000 + q)) if sampler else {}, (seed, q))
        try:
            for v, e in fixed.items():
                if v not in m.env:
                    m.env[v] = m.ev(e)
            if not all(m.ev(f) for f in facts):
                continue
            ok += 1
            if not m.ev(goal):
                vs = {v for f in facts + [goal] for v in f.fv if v.op == 'var'}
                return describe(m, vs)
        except Undef:
            continue
        except RecursionError:
            return None
    refute.models = ok
    return None


def describe(m, vs):
    out = []
    for v in sorted(vs, key=lambda v: v.a[0]):
        if v in m.env:
            out.append('%s = %s' % (v.a[0], showv(m.env[v])))
    return '; '.join(out[:60])


def showv(x):
    if isinstance(x, Vec):
        return '[' + ', '.join(showv(y) for y in x.xs) + ']'
    if isinstance(x, Mat):
        return '%dx%d[' % (x.r, x.c) + ', '.join(showv(y) for y in x.xs) + ']'
    if isinstance(x, Rec):
        return '{' + ', '.join('%s=%s' % (n, showv(v)) for n, v in x.d.items()) + '}'
    if isinstance(x, mp.mpf):
        return mp.nstr(x, 8)
    if isinstance(x, Obj):
        return 'obj'
    return str(x)
