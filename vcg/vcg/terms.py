"""Hash-consed terms with a canonical form for arithmetic (Laurent polynomials over atoms, finite sums with
binders, Iverson brackets), vectors, matrices and lists (bounded lambdas) and records.

Machine reals are mathematical reals here, integers are unbounded (ranges are separate obligations)."""
from fractions import Fraction as Fr
import itertools

_tab = {}
_cnt = itertools.count(1)


class T:
    __slots__ = ('op', 'a', 'sort', 'id', 'h', 'fv', '__weakref__')

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def _mk(op, a, sort):
    k = (op, a, sort)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.sort, t.id = op, a, sort, next(_cnt)
        h = 0
        fv = set()
        _walk_meta(op, a, fv)
        hh = [0]
        _height(a, hh)
        h = hh[0]
        if op in ('lam', 'mlam', 'ms', 'prod', 'forall', 'first', 'filter'):
            bvs = _bvs(op, a)
            for b in bvs:
                fv.discard(b)
                h = max(h, b.a[0])
        if op == 'var':
            fv = {t}
        if op == 'bv':
            fv = {t}
        t.h = h
        t.fv = frozenset(fv)
        _tab[k] = t
    return t


def _bvs(op, a):
    if op == 'lam':
        return (a[1],)
    if op == 'mlam':
        return (a[2], a[3])
    if op == 'ms':
        return a[1]
    if op in ('prod', 'forall', 'first', 'filter'):
        return (a[1],)
    return ()


def _walk_meta(op, a, fv):
    for x in a:
        if isinstance(x, T):
            fv |= x.fv
        elif isinstance(x, tuple):
            _walk_meta(op, x, fv)


def _height(a, hh):
    for x in a:
        if isinstance(x, T):
            if x.h > hh[0]:
                hh[0] = x.h
        elif isinstance(x, tuple):
            _height(x, hh)


# ---------------------------------------------------------------- basic constructors
_fresh = itertools.count(1)


def var(name, sort):
    return _mk('var', (name,), sort)


def fresh(prefix, sort):
    return _mk('var', ('%s!%d' % (prefix, next(_fresh)),), sort)


def bv(k, sort):
    return _mk('bv', (k,), sort)


TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')


def strc(s):
    return _mk('str', (s,), 'S')


def num(x):
    if isinstance(x, float):
        x = Fr(x)
    else:
        x = Fr(x)
    if x == 0:
        return _mk('poly', (), 'I')
    return _mk('poly', (((), x),), 'I' if x.denominator == 1 else 'R')


ZERO = num(0)
ONE = num(1)


def tm(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, (int, float, Fr)):
        return num(x)
    if isinstance(x, str):
        return strc(x)
    raise TypeError(x)


def is_num(t):
    return t.op == 'poly' and (t.a == () or (len(t.a) == 1 and t.a[0][0] == ()))


def numval(t):
    return t.a[0][1] if t.a else Fr(0)


# ---------------------------------------------------------------- polynomials
def pdict(t):
    """term -> dict mono -> coef"""
    if t.op == 'poly':
        return dict(t.a)
    if t.sort == 'B':
        return pdict(iv(t))
    return {((t, 1),): Fr(1)}


def _sortof(d):
    for m, c in d.items():
        if c.denominator != 1:
            return 'R'
        for at_, e in m:
            if at_.sort != 'I' or e < 0:
                return 'R'
    return 'I'


def mkpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if len(d) > 1:
        _trichotomy(d)
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: (len(mc[0]), tuple((a.id, e) for a, e in mc[0]))))
    return _mk('poly', items, _sortof(d))


def _trichotomy(d):
    """r*[p == 0] + r*[p < 0] + r*[-p < 0] is r; for integers r*[p < 0] + r*[-1-p < 0] is r"""
    again = any(f[0].op == 'iv' for m in d for f in m)
    while again:
        again = False
        for m in list(d):
            for f in m:
                g = f[0]
                if g.op != 'iv' or m not in d:
                    continue
                if g.a[0].op == 'eq0':
                    p = g.a[0].a[0]
                    qs = (p, neg(p))
                elif g.a[0].op == 'lt0' and g.a[0].a[0].sort == 'I':
                    qs = (sub(-1, g.a[0].a[0]),)
                else:
                    continue
                rest = tuple(x for x in m if x is not f)
                ms = [m]
                for q in qs:
                    h = _mk('iv', (_mk('lt0', (q,), 'B'),), 'I')
                    x = tuple(sorted(rest + ((h, 1),), key=lambda x: x[0].id))
                    if x not in d:
                        break
                    ms.append(x)
                if len(ms) != len(qs) + 1:
                    continue
                c = [d[x] for x in ms]
                if len(c) == 2:
                    k = c[0] if c[0] == c[1] else None
                else:
                    k = c[0] if c[0] in c[1:] else c[1] if c[1] == c[2] else None
                if k is None:
                    continue
                again = True
                for x in ms:
                    d[x] -= k
                    if d[x] == 0:
                        del d[x]
                d[rest] = d.get(rest, 0) + k
                if d[rest] == 0:
                    del d[rest]


def add(*ts):
    d = {}
    for t in ts:
        for m, c in pdict(tm(t)).items():
            d[m] = d.get(m, 0) + c
    return mkpoly(d)


def neg(t):
    return mkpoly({m: -c for m, c in pdict(tm(t)).items()})


def sub(a, b):
    return add(a, neg(b))


def _mulmono(m1, m2):
    """product of monomials -> (dict) because some products need expansion"""
    if not m1:
        return {m2: Fr(1)}
    if not m2:
        return {m1: Fr(1)}
    e = dict(m1)
    for at_, k in m2:
        e[at_] = e.get(at_, 0) + k
    return _normmono(e)


def _normmono(e):
    extra = []
    out = []
    for at_, k in e.items():
        if k == 0:
            continue
        if at_.op == 'iv':
            # brackets are idempotent
            if k < 0:
                out.append((at_, k))
            else:
                out.append((at_, 1))
        elif at_.op == 'app' and at_.a[0] == 'sqrt' and abs(k) >= 2:
            q, r = divmod(abs(k), 2)
            base = at_.a[1]
            extra.append(powi(base, q if k > 0 else -q))
            if r:
                out.append((at_, 1 if k > 0 else -1))
        elif at_.op == 'pol' and k > 0:
            extra.append(powi(at_.a[0], k))
        else:
            out.append((at_, k))
    # contradictory brackets: [p<0][-p<0] = 0 etc.
    if _distinct:
        r = _norm_distinct(out)
        if r is not None:
            return r
    ivs = [a for a, k in out if a.op == 'iv']
    if len(ivs) > 1:
        s = set(a.a[0] for a in ivs)
        for c in s:
            if c.op == 'lt0':
                o = lt0(neg(c.a[0]))
                if o in s or o is FALSE:
                    return {}
                if c.a[0].sort == 'I' and _mk('lt0', (sub(-1, c.a[0]),), 'B') in s:
                    return {}
                z = eq0(c.a[0])
                if z in s:
                    return {}
    m = tuple(sorted(out, key=lambda x: x[0].id))
    if not extra:
        return {m: Fr(1)}
    r = mkpoly({m: Fr(1)})
    for x in extra:
        r = mul(r, x)
    return pdict(r)


# vectors without repeated elements (registered by the contract whose precondition or callee says so);
# indices of their elements are in range wherever they are written
_distinct = set()


def _memb(c):
    """c says s_i == r for a vector s without repetitions -> [(s, i, r)]"""
    if c.op != 'eq0':
        return []
    out = []
    for m, k in pdict(c.a[0]).items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'at' and m[0][0].a[0] in _distinct and k in (1, -1):
            a = m[0][0]
            r = mul(num(-k), sub(c.a[0], mul(num(k), a)))
            out.append((a.a[0], a.a[1], r))
    return out


def hit_of(a):
    """a = SUM over k<n of [s_k == r] -> (s, n, r)"""
    if a.op != 'ms' or len(a.a[1]) != 1:
        return None
    b = a.a[1][0]
    m = list(pdict(a.a[2]))[0]
    if len(m) != 1 or m[0][0].op != 'iv' or m[0][1] != 1:
        return None
    for s, i, r in _memb(m[0][0].a[0]):
        if i is b and b not in r.fv:
            return s, a.a[0][0], r
    return None


def contains(y, x):
    """x occurs in y outside binders"""
    if not (x.fv <= y.fv) or y.op in ('var', 'bv'):
        return y is x
    if y is x:
        return True
    if y.op in ('lam', 'mlam', 'ms', 'prod', 'forall', 'first', 'filter'):
        return False

    def walk(a):
        for z in a:
            if isinstance(z, T):
                if contains(z, x):
                    return True
            elif isinstance(z, tuple) and walk(z):
                return True
        return False
    return walk(y.a)


def _norm_distinct(out):
    mem = {}
    for a, k in out:
        if a.op == 'iv' and k > 0:
            for s, i, r in _memb(a.a[0]):
                if r.op == 'at' or True:
                    mem.setdefault((s, r), []).append((i, a))
    for (s, r), l in mem.items():
        if len(l) > 1:
            (i, a), (j, b) = l[0], l[1]
            if i is j:
                continue
            rest = {x: k for x, k in out if x is not b}
            return pdict(mul(mkpoly(_normmono(rest)), iv(eq(i, j))))
    for (s, r), l in mem.items():
        i, a = l[0]
        x = _mk('at', (s, i), elem_sort(s))
        if x in r.fv or contains(r, x):
            continue
        for y, k in out:
            if y is not a and contains(y, x):
                p = ONE
                for z, e in out:
                    p = mul(p, powi(replace(z, {x: r}) if z is not a else z, e))
                return pdict(p)
    hits = [(x, k, hit_of(x)) for x, k in out if x.op == 'ms' and k > 0]
    for x, k, h in hits:
        if h is None:
            continue
        s, n, r = h
        if k > 1:
            return _normmono({y: (1 if y is x else e) for y, e in out})
        if n is length(s) and (s, r) in mem:
            return _normmono({y: e for y, e in out if y is not x})
        for y, e in out:
            if y is not x and y.op == 'ms' and e > 0:
                for b, rr in zip(y.a[1], y.a[0]):
                    if rr is n:
                        for z, ez in list(pdict(y.a[2]))[0]:
                            if z.op == 'iv' and any(s2 is s and i2 is b and r2 is r for s2, i2, r2 in _memb(z.a[0])):
                                return _normmono({q: f for q, f in out if q is not x})
    return None


def mul(*ts):
    d = {(): Fr(1)}
    for t in ts:
        d2 = pdict(tm(t))
        nd = {}
        for m1, c1 in d.items():
            for m2, c2 in d2.items():
                for m, c in _mulmono(m1, m2).items():
                    nd[m] = nd.get(m, 0) + c * c1 * c2
        d = {m: c for m, c in nd.items() if c != 0}
        if len(d) > 20000:
            raise Blowup('polynomial too large')
    return mkpoly(d)


class Blowup(Exception):
    pass


def powi(t, k):
    t = tm(t)
    if k == 0:
        return ONE
    if k > 0:
        r = ONE
        b = t
        while k:
            if k & 1:
                r = mul(r, b)
            k >>= 1
            if k:
                b = mul(b, b)
        return r
    d = pdict(t)
    if not d:
        return _mk('app', ('inv0',), 'R')  # 1/0: unspecified
    if len(d) == 1:
        (m, c), = d.items()
        e = {at_: ex * k for at_, ex in m}
        return mul(num(c ** k), mkpoly(_normmono(e)))
    # factor out common monomial and leading coefficient
    atoms = None
    for m in d:
        s = {a: e for a, e in m}
        if atoms is None:
            atoms = dict(s)
        else:
            for a in list(atoms):
                if a in s:
                    x, y = atoms[a], s[a]
                    atoms[a] = min(x, y)
                else:
                    atoms[a] = min(atoms[a], 0)
            for a in s:
                if a not in atoms:
                    atoms[a] = min(s[a], 0)
    atoms = {a: e for a, e in atoms.items() if e != 0 and a.op != 'iv'}
    fac = mkpoly(_normmono({a: e for a, e in atoms.items()})) if atoms else ONE
    if atoms:
        inv_ = mkpoly(_normmono({a: -e for a, e in atoms.items()}))
        t = mul(t, inv_)
        d = pdict(t)
        if len(d) == 1:
            return mul(powi(fac, k), powi(t, k))
    lead = t.a[-1][1]
    if lead != 1:
        t = mul(t, num(1 / lead))
    p = _mk('pol', (t,), 'R')
    return mul(num(lead ** k), powi(fac, k) if fac is not ONE else ONE, mkpoly({((p, k),): Fr(1)}))


def div(a, b):
    return mul(a, powi(b, -1))


# ---------------------------------------------------------------- booleans
def lnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.a[0]
    if c.op == 'and':
        return lor(*[lnot(x) for x in c.a])
    if c.op == 'or':
        return land(*[lnot(x) for x in c.a])
    if c.op == 'lt0' and c.a[0].sort == 'I':
        # not (p < 0)  <=>  -p-1 < 0 over the integers
        return lt0(sub(neg(c.a[0]), 1))
    return _mk('not', (c,), 'B')


def land(*cs):
    s = {}
    for c in cs:
        c = tm(c)
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for x in (c.a if c.op == 'and' else (c,)):
            s[x] = 1
    for x in list(s):
        if lnot(x) in s:
            return FALSE
    l = sorted(s, key=lambda t: t.id)
    if not l:
        return TRUE
    if len(l) == 1:
        return l[0]
    return _mk('and', tuple(l), 'B')


def lor(*cs):
    s = {}
    for c in cs:
        c = tm(c)
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        for x in (c.a if c.op == 'or' else (c,)):
            s[x] = 1
    for x in list(s):
        if lnot(x) in s:
            return TRUE
    l = sorted(s, key=lambda t: t.id)
    if not l:
        return FALSE
    if len(l) == 1:
        return l[0]
    return _mk('or', tuple(l), 'B')


def eqb(a, b):
    return land(implies(a, b), implies(b, a))


def implies(a, b):
    return lor(lnot(a), b)


def lt0(p):
    p = tm(p)
    if is_num(p):
        return TRUE if numval(p) < 0 else FALSE
    d = pdict(p)
    # scale
    if p.sort == 'I':
        import math
        g = 0
        for m, c in d.items():
            if m != ():
                g = math.gcd(g, int(c))
        if g > 1:
            c0 = d.get((), Fr(0))
            # g*q + c0 < 0  <=>  q < -c0/g  <=> q <= ceil(-c0/g)-1  <=> q - ceil(-c0/g) < 0
            q = {m: c / g for m, c in d.items() if m != ()}
            k = -((c0) // g)  # ceil(-c0/g) = -floor(c0/g)
            q[()] = -Fr(k)
            p = mkpoly(q)
    else:
        lead = abs(p.a[-1][1]) if p.op == 'poly' else 1
        if lead != 1:
            p = mul(p, num(Fr(1) / lead))
    return _mk('lt0', (p,), 'B')


def eq0(p):
    p = tm(p)
    if is_num(p):
        return TRUE if numval(p) == 0 else FALSE
    if p.op == 'app' and p.a[0] == 'len' and p.a[1].op == 'filter':
        F, j = p.a[1], fresh('p', 'I')
        return forall_(F.a[0], j, lnot(dict(subst(F.a[2], {F.a[1]: j}).a[1])['c']))
    # an affine function of one bracket
    if p.op == 'iv':
        return lnot(p.a[0])
    if p.op == 'poly' and len(p.a) <= 2:
        ms = [(m, c) for m, c in p.a if m]
        if len(ms) == 1 and len(ms[0][0]) == 1 and ms[0][0][0][0].op == 'iv':
            z = -dict(p.a).get((), Fr(0)) / ms[0][1]
            g = ms[0][0][0][0].a[0]
            return g if z == 1 else lnot(g) if z == 0 else FALSE
    lead = p.a[-1][1] if p.op == 'poly' else Fr(1)
    if p.sort == 'I':
        import math
        g = 0
        d = pdict(p)
        for m, c in d.items():
            if m != ():
                g = math.gcd(g, int(c))
        c0 = d.get((), Fr(0))
        if c0 % g != 0:
            return FALSE
        s = Fr(g) if lead > 0 else Fr(-g)
        if s != 1:
            p = mul(p, num(1 / s))
    elif lead != 1:
        p = mul(p, num(1 / lead))
    return _mk('eq0', (p,), 'B')


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    a, b = tm(a), tm(b)
    d = sub(a, b)
    if d.sort == 'I':
        return lt0(sub(d, 1))
    return lnot(lt0(neg(d)))


def eq(a, b):
    a, b = tm(a), tm(b)
    if a is b:
        return TRUE
    if a.sort in 'IR' and b.sort in 'IR':
        return eq0(sub(a, b))
    if a.sort == 'B' and b.sort == 'B':
        return lor(land(a, b), land(lnot(a), lnot(b)))
    if a.op == 'str' and b.op == 'str':
        return FALSE
    if a.op == 'rec' and b.op == 'rec' and a.a[0] == b.a[0]:
        fb = dict(b.a[1])
        return land(*[eq(x, fb[n]) for n, x in a.a[1]])
    if a.id > b.id:
        a, b = b, a
    return _mk('eqo', (a, b), 'B')


def iv(c):
    """Iverson bracket as a polynomial"""
    c = tm(c)
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == 'not':
        return sub(ONE, iv(c.a[0]))
    if c.op == 'and':
        return mul(*[iv(x) for x in c.a])
    if c.op == 'or':
        return sub(ONE, mul(*[sub(ONE, iv(x)) for x in c.a]))
    return _mk('iv', (c,), 'I')


def ite(c, a, b):
    a, b = tm(a), tm(b)
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a.sort in 'IR' and b.sort in 'IR':
        x = iv(c)
        return add(mul(x, a), mul(sub(ONE, x), b))
    if a.sort == 'B' and b.sort == 'B':
        return lor(land(c, a), land(lnot(c), b))
    if a.op == 'rec' and b.op == 'rec' and a.a[0] == b.a[0] and [n for n, _ in a.a[1]] == [n for n, _ in b.a[1]]:
        return rec(a.a[0], {n: ite(c, x, dict(b.a[1])[n]) for n, x in a.a[1]})
    if a.sort == 'V' and b.sort == 'V' and (a.op == 'lam' or b.op == 'lam'):
        return lam(ite(c, length(a), length(b)), lambda i: ite(c, at(a, i), at(b, i)))
    if a.sort == 'M' and b.sort == 'M' and (a.op == 'mlam' or b.op == 'mlam'):
        return mlam(ite(c, rows(a), rows(b)), ite(c, cols(a), cols(b)), lambda i, j: ite(c, at2(a, i, j), at2(b, i, j)))
    if c.op == 'not':
        return ite(c.a[0], b, a)
    return _mk('ite', (c, a, b), a.sort)


# ---------------------------------------------------------------- functions
RULES = {}       # function name -> simplification of its applications (None: none)


def app(f, *args, sort='R'):
    if f in RULES:
        r = RULES[f](*[tm(x) for x in args])
        if r is not None:
            return r
    if f in ('call', 'gradient', 'hessian', 'items') and args and isinstance(args[0], T) and args[0].op == 'ite':
        c, x, y = args[0].a
        return ite(c, app(f, x, *args[1:], sort=sort), app(f, y, *args[1:], sort=sort))
    return _mk('app', (f,) + tuple(tm(x) for x in args), sort)


def exp(p):
    p = tm(p)
    d = pdict(p)
    r = ONE
    for m, c in d.items():
        if m == ():
            r = mul(r, _mk('app', ('exp', num(c)), 'R'))
            continue
        base = mkpoly({m: Fr(1, c.denominator)})
        if c.denominator == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].a[0] == 'log':
            r = mul(r, powi(m[0][0].a[1], int(c)))
            continue
        r = mul(r, powi(_mk('app', ('exp', base), 'R'), c.numerator))
    return r


def log(p):
    p = tm(p)
    if p is ONE:
        return ZERO
    d = pdict(p)
    if len(d) == 1:
        (m, c), = d.items()
        if m and all(a.op == 'app' and a.a[0] == 'exp' for a, e in m):
            r = _mk('app', ('log', num(c)), 'R') if c != 1 else ZERO
            for a, e in m:
                r = add(r, mul(num(e), a.a[1]))
            return r
        ex = [(a, e) for a, e in m if a.op == 'app' and a.a[0] == 'exp']
        if ex:
            # log(exp(a) r) = a + log(r) (both sides undefined together)
            r = log(mkpoly({tuple(z for z in m if z not in ex): c}))
            for a, e in ex:
                r = add(r, mul(num(e), a.a[1]))
            return r
    return _mk('app', ('log', p), 'R')


def sqrt(p):
    p = tm(p)
    if is_num(p):
        import math
        v = numval(p)
        if v >= 0:
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator:
                return num(Fr(a, b))
    return _mk('app', ('sqrt', p), 'R')


# ---------------------------------------------------------------- records
def rec(cls, fields):
    return _mk('rec', (cls, tuple(sorted(fields.items()))), 'O')


def fld(x, name, sort=None):
    if x.op == 'rec':
        for n, v in x.a[1]:
            if n == name:
                return v
        raise KeyError(name)
    if x.op == 'ite':
        return ite(x.a[0], fld(x.a[1], name, sort), fld(x.a[2], name, sort))
    return _mk('fld', (x, name), sort or 'O')


def withf(x, name, v):
    assert x.op == 'rec'
    d = dict(x.a[1])
    d[name] = v
    return rec(x.a[0], d)


# ---------------------------------------------------------------- binders
def _close(fresh_, body, *more):
    """replace fresh variables by canonical bound variables above every binder inside"""
    h = body.h
    for m in more:
        h = max(h, m.h)
    out = []
    s = {}
    for f in fresh_:
        h += 1
        b = bv(h, f.sort)
        s[f] = b
        out.append(b)
    return out, subst(body, s), s


def lam(n, fn):
    """vector/list of length n with elements fn(i)"""
    n = tm(n)
    i = fresh('i', 'I')
    body = tm(fn(i))
    return lam_(n, i, body)


def lam_(n, i, body):
    # eta
    if body.op == 'at' and body.a[1] is i and i not in body.a[0].fv and length(body.a[0]) is n:
        return body.a[0]
    bs, b2, _ = _close([i], body)
    return _mk('lam', (n, bs[0], b2), 'V')


def mlam(r, c, fn):
    r, c = tm(r), tm(c)
    i, j = fresh('i', 'I'), fresh('j', 'I')
    body = tm(fn(i, j))
    return mlam_(r, c, i, j, body)


def mlam_(r, c, i, j, body):
    if body.op == 'at2' and body.a[1] is i and body.a[2] is j and i not in body.a[0].fv and j not in body.a[0].fv \
            and rows(body.a[0]) is r and cols(body.a[0]) is c:
        return body.a[0]
    bs, b2, _ = _close([i, j], body)
    return _mk('mlam', (r, c, bs[0], bs[1], b2), 'M')


_elem_sort = {}


def elem_sort(v):
    """sort of the elements of an opaque vector (default R)"""
    if v.op == 'lam':
        return v.a[2].sort
    if v.op == 'var':
        return _elem_sort.get(v, 'R')
    if v.op == 'ite':
        return elem_sort(v.a[1])
    if v.op in ('app', 'fld', 'at', 'filter'):
        return _elem_sort.get(v, 'R')
    return 'R'


def set_elem_sort(v, s):
    _elem_sort[v] = s
    return v


_shape = {}


def vecvar(name, n, es='R'):
    v = var(name, 'V')
    _shape[v] = tm(n)
    _elem_sort[v] = es
    return v


def matvar(name, r, c):
    v = var(name, 'M')
    _shape[v] = (tm(r), tm(c))
    return v


def setshape(v, *d):
    _shape[v] = tm(d[0]) if len(d) == 1 else (tm(d[0]), tm(d[1]))
    return v


def length(v):
    if v.op == 'lam':
        return v.a[0]
    if v in _shape:
        return _shape[v]
    if v.op == 'app' and v.a[0] == 'call' and ufun_entry(v.a[1]):
        return ufun_entry(v.a[1])['n']
    if v.op == 'ite':
        return ite(v.a[0], length(v.a[1]), length(v.a[2]))
    return _mk('app', ('len', v), 'I')


def rows(m):
    if m.op == 'mlam':
        return m.a[0]
    if m in _shape:
        return _shape[m][0]
    if m.op == 'app' and m.a[0] == 'call' and ufun_entry(m.a[1]):
        return ufun_entry(m.a[1])['n']
    if m.op == 'ite':
        return ite(m.a[0], rows(m.a[1]), rows(m.a[2]))
    return _mk('app', ('rows', m), 'I')


def cols(m):
    if m.op == 'mlam':
        return m.a[1]
    if m in _shape:
        return _shape[m][1]
    if m.op == 'app' and m.a[0] == 'call' and ufun_entry(m.a[1]):
        return ufun_entry(m.a[1])['n']
    if m.op == 'ite':
        return ite(m.a[0], cols(m.a[1]), cols(m.a[2]))
    return _mk('app', ('cols', m), 'I')


def at(v, i):
    i = tm(i)
    if v.op == 'lam':
        return subst(v.a[2], {v.a[1]: i})
    if v.op == 'ite':
        return ite(v.a[0], at(v.a[1], i), at(v.a[2], i))
    if _reading and i is _reading[-1][1] and v is _reading[-1][0]:
        return _reading[-1][2]
    return _mk('at', (v, i), elem_sort(v))


_reading = []


def over_kept(n, i, body):
    """for i over the positions of a filtered list that body only reads at i: (the filter's range, position in it, condition, body), else None"""
    if not (n.op == 'app' and n.a[0] == 'len' and n.a[1].op == 'filter'):
        return None
    F = n.a[1]
    j, pos = fresh('p', 'I'), fresh('p', 'I')
    pair = dict(subst(F.a[2], {F.a[1]: j}).a[1])
    _reading.append((F, pos, pair['e']))
    try:
        body = subst(body, {i: pos})
    finally:
        _reading.pop()
    if pos in body.fv:
        return None
    return F.a[0], j, pair['c'], body


def at2(m, i, j):
    i, j = tm(i), tm(j)
    if m.op == 'mlam':
        return subst(m.a[4], {m.a[2]: i, m.a[3]: j})
    if m.op == 'ite':
        return ite(m.a[0], at2(m.a[1], i, j), at2(m.a[2], i, j))
    if j.id < i.id and issym(m):
        i, j = j, i
    return _mk('at2', (m, i, j), 'R')


_symfun = set()   # names of matrix-valued functions known symmetric
_symm = set()     # matrices known symmetric
_sympres = {'inv'}


_ufun_always = []  # rules that hold in every verification
_ufun_rules = []  # functions f -> entry for unknown functions that are not single symbols


def ufun_entry(f):
    r = _ufun.get(f)
    if r is None:
        for g in _ufun_rules:
            r = g(f)
            if r is not None:
                break
    return r or {}


_ufun = {}        # unknown functions of a vector: size of the result, derivative, symmetry


def ufunction(f, n, grad=None, sym=False):
    """declares what is known of the function value f: its results have n elements (rows and columns),
    its derivative is the function grad"""
    _ufun[f] = {'n': tm(n), 'grad': grad, 'sym': sym}


def _call_diff(term, a, x):
    g = ufun_entry(a[0]).get('grad')
    if g is None or len(a) != 2:
        raise NotImplementedError('diff call')
    y = a[1]
    k = fresh('o', 'I')
    return sum_(length(y), k, mul(at(app('call', g, y, sort='V'), k), diff(at(y, k), x)))


def _callv_diff(term, x):
    """d/dx of element i of f(y)"""
    v, i = term.a
    g = ufun_entry(v.a[1]).get('grad')
    if x in i.fv or g is None or len(v.a) != 3:
        raise NotImplementedError('diff call')
    y = v.a[2]
    k = fresh('o', 'I')
    return sum_(length(y), k, mul(at2(app('call', g, y, sort='M'), i, k), diff(at(y, k), x)))


def issym(m):
    if m in _symm:
        return True
    if m.op == 'app':
        if m.a[0] in ('msqrt', 'misqrt') and issym(m.a[1]):
            return True
        if m.a[0] == 'call' and ufun_entry(m.a[1]).get('sym'):
            return True
        if m.a[0] in _symfun:
            return True
        if m.a[0] in _sympres:
            return issym(m.a[1])
    if m.op == 'mlam':
        i, j = fresh('y', 'I'), fresh('y', 'I')
        r = rows(m) is cols(m) and at2(m, i, j) is at2(m, j, i)
        if r:
            _symm.add(m)
        return r
    return False


def SUM(n, fn):
    n = tm(n)
    i = fresh('s', 'I')
    return sum_(n, i, tm(fn(i)))


def sum_(n, i, body):
    """sum of body for 0 <= i < n"""
    if n is ZERO:
        return ZERO
    if is_num(n) and 0 < numval(n) <= 8:
        return add(*[subst(body, {i: num(k)}) for k in range(int(numval(n)))])
    o = over_kept(n, i, body)
    if o:
        return sum_(o[0], o[1], mul(iv(o[2]), o[3]))
    out = []
    for m, c in pdict(body).items():
        dep, ind = [], []
        for a, e in m:
            (dep if i in a.fv else ind).append((a, e))
        indep = mkpoly({tuple(ind): c}) if ind else num(c)
        if not dep:
            out.append(mul(indep, n))
            continue
        out.append(mul(indep, _ms1(n, i, dep)))
    return add(*out)


def _coef_of(p, i):
    """p linear in atom i with coefficient +-1 -> (coef, rest) else None"""
    d = pdict(p)
    co = None
    rest = {}
    for m, c in d.items():
        if m == ((i, 1),):
            co = c
        else:
            for a, e in m:
                if i in a.fv:
                    return None
            rest[m] = c
    if co not in (1, -1):
        return None
    return co, mkpoly(rest)


def _ms1(n, i, dep):
    # Kronecker collapse: [i == t]
    for a, e in dep:
        if a.op == 'iv' and e == 1 and a.a[0].op == 'eq0':
            r = _coef_of(a.a[0].a[0], i)
            if r is not None:
                co, rest = r
                t = neg(rest) if co == 1 else rest
                others = mkpoly(_normmono({b: x for b, x in dep if b is not a}))
                val = subst(others, {i: t}) if others.op == 'poly' or True else others
                return mul(iv(le(0, t)), iv(lt(t, n)), val)
    # flatten inner sums depending on i; positive powers of sums become extra binders
    binders = [(i, n)]
    facs = {}
    for a, e in dep:
        if a.op == 'ms' and e > 0:
            for _ in range(e):
                rs, bs, b = a.a
                fr = [fresh('s', 'I') for _ in bs]
                s = dict(zip(bs, fr))
                for f, r in zip(fr, rs):
                    binders.append((f, subst(r, s)))
                for x, ex in _monoitems(subst(b, s)):
                    facs[x] = facs.get(x, 0) + ex
        else:
            facs[a] = facs.get(a, 0) + e
    nm = _normmono(facs)
    if len(nm) != 1 or (list(nm.values())[0] != 1):
        # needs expansion: rebuild by nested sums
        r = mkpoly(nm)
        for f, rr in reversed(binders):
            r = sum_(rr, f, r)
        return r
    return mkms(binders, list(nm)[0])


def _monoitems(t):
    d = pdict(t)
    assert len(d) == 1, t
    (m, c), = d.items()
    assert c == 1
    return m


def _contract(binders, mono):
    """SUM_b X[x,b] * inv(X)[b,y] = [x == y]"""
    if len(mono) < 2:
        return None
    cand = [(a, e) for a, e in mono if a.op == 'at2' and e == 1]
    r = _contract_root(binders, mono, cand)
    if r is not None:
        return r
    invs = [a for a, e in cand if a.a[0].op == 'app' and a.a[0].a[0] in ('inv', 'misqrt')]
    if not invs:
        return None
    for v in invs:
        X = v.a[0].a[1] if v.a[0].a[0] == 'inv' else app('msqrt', v.a[0].a[1], sort='M')
        for a, e in cand:
            if a is v or a.a[0] is not X:
                continue
            for b, r in binders:
                if r is not rows(X):
                    continue
                if any(b in z.fv for z, _ in mono if z is not a and z is not v) or any(b in rr.fv for bb, rr in binders if bb is not b):
                    continue
                sym = issym(X)
                xs = other(a, b, sym, v, True)
                ys = other(v, b, sym, a, False)
                if xs is None or ys is None:
                    continue
                if not sym and (a.a[2] is b) != (v.a[1] is b):
                    continue
                rest = [(z, f) for z, f in mono if z is not a and z is not v]
                body = mul(mkpoly({tuple(rest): Fr(1)}), iv(eq(xs, ys)))
                for b2, r2 in reversed(binders):
                    if b2 is not b:
                        body = sum_(r2, b2, body)
                return body
    return None


def _contract_root(binders, mono, cand):
    """SUM_ab R[x,a] * P[a,b] * R[b,y] = [x == y] for the inverse root R of P (both symmetric);
    SUM_ab C[a,x] * P[a,b] * C[b,y] = [x == y] for C the inverse of the upper Cholesky factor of P"""
    ch = [a for a, _ in cand if a.a[0].op == 'app' and a.a[0].a[0] == 'icholu' and issym(a.a[0].a[1])]
    for i, u in enumerate(ch):
        for v in ch[i + 1:]:
            P = u.a[0].a[1]
            if v.a[0] is not u.a[0]:
                continue
            p, q = u.a[1], v.a[1]
            bs = [b for b, r in binders if r is rows(P)]
            if p is q or p not in bs or q not in bs:
                continue
            for a, _ in cand:
                if a.a[0] is not P or {a.a[1], a.a[2]} != {p, q}:
                    continue
                if any((p in z.fv or q in z.fv) and z not in (u, v, a) for z, _ in mono) or any(p in rr.fv or q in rr.fv for _, rr in binders):
                    continue
                if {p, q} & (u.a[2].fv | v.a[2].fv):
                    continue
                body = mul(mkpoly({tuple((z, f) for z, f in mono if z not in (u, v, a)): Fr(1)}), iv(eq(u.a[2], v.a[2])))
                for b2, r2 in reversed(binders):
                    if b2 is not p and b2 is not q:
                        body = sum_(r2, b2, body)
                return body
    roots = [a for a, _ in cand if a.a[0].op == 'app' and a.a[0].a[0] == 'misqrt' and issym(a.a[0].a[1])]
    for i, u in enumerate(roots):
        for v in roots[i + 1:]:
            P = u.a[0].a[1]
            if v.a[0] is not u.a[0]:
                continue
            for a, _ in cand:
                if a.a[0] is not P:
                    continue
                p, q = a.a[1], a.a[2]
                bs = [b for b, r in binders if r is rows(P)]
                if p is q or p not in bs or q not in bs:
                    continue
                if any((p in z.fv or q in z.fv) and z not in (u, v, a) for z, _ in mono) or any(p in rr.fv or q in rr.fv for _, rr in binders):
                    continue
                x, y = other(u, p, True, a, True), other(v, q, True, a, True)
                if x is None or y is None:
                    x, y = other(u, q, True, a, True), other(v, p, True, a, True)
                if x is None or y is None or {p, q} & (x.fv | y.fv):
                    continue
                body = mul(mkpoly({tuple((z, f) for z, f in mono if z not in (u, v, a)): Fr(1)}), iv(eq(x, y)))
                for b2, r2 in reversed(binders):
                    if b2 is not p and b2 is not q:
                        body = sum_(r2, b2, body)
                return body
    return None


def other(a, b, sym, v, left):
    i, j = a.a[1], a.a[2]
    if j is b and b not in i.fv:
        return i
    if i is b and b not in j.fv:
        return j
    return None


def mkms(binders, mono):
    r = _contract(binders, mono)
    if r is not None:
        return r
    # connected components over binders
    comps = []
    items = list(mono)
    bl = [b for b, _ in binders]
    parent = {b: b for b in bl}

    def find(b):
        while parent[b] is not b:
            b = parent[b]
        return b
    free = []
    for a, e in items:
        bs = [b for b in bl if b in a.fv]
        for b in bs[1:]:
            parent[find(b)] = find(bs[0])
        if not bs:
            free.append((a, e))
    for b, r in binders:
        for b2 in bl:
            if b2 in r.fv:
                parent[find(b)] = find(b2)
    groups = {}
    for b, r in binders:
        groups.setdefault(find(b), []).append((b, r))
    res = [mkpoly({tuple(sorted(free, key=lambda x: x[0].id)): Fr(1)})] if free else []
    for root, bs in groups.items():
        g = set(b for b, _ in bs)
        its = [(a, e) for a, e in items if a.fv & g]
        if not its:
            r = ONE
            for b, rr in bs:
                r = mul(r, rr)
            res.append(r)
            continue
        res.append(_msnode(bs, its))
    return mul(*res) if res else ONE


def _msnode(bs, its):
    body = mkpoly({tuple(sorted(its, key=lambda x: x[0].id)): Fr(1)})
    best = None
    k = len(bs)
    perms = itertools.permutations(bs) if k <= 4 else [tuple(bs)]
    for pm in perms:
        # ranges may refer to earlier binders only
        ok = True
        seen = set()
        allb = set(b for b, _ in bs)
        for b, r in pm:
            if (r.fv & allb) - seen:
                ok = False
                break
            seen.add(b)
        if not ok:
            continue
        h = max([body.h] + [r.h for _, r in bs])
        s = {}
        bvs = []
        for b, r in pm:
            h += 1
            s[b] = bv(h, 'I')
            bvs.append(s[b])
        b2 = subst(body, s)
        rs = tuple(subst(r, s) for _, r in pm)
        key = (b2.id, tuple(r.id for r in rs))
        if best is None or key < best[0]:
            best = (key, rs, tuple(bvs), b2)
    _, rs, bvs, b2 = best
    if b2.op == 'poly' and not (len(b2.a) == 1 and b2.a[0][1] == 1):
        # substitution changed the shape (should not happen for renamings)
        raise Blowup('ms body')
    return _mk('ms', (rs, bvs, b2), 'I' if b2.sort == 'I' else 'R')


def PROD(n, fn):
    n = tm(n)
    i = fresh('p', 'I')
    return prod_(n, i, tm(fn(i)))


def prod_(n, i, body):
    if n is ZERO:
        return ONE
    if is_num(n) and 0 < numval(n) <= 8:
        return mul(*[subst(body, {i: num(k)}) for k in range(int(numval(n)))])
    d = pdict(body)
    if len(d) == 1:
        (m, c), = d.items()
        out = []
        if c != 1:
            out.append(_pown(num(c), n))
        for a, e in m:
            if i in a.fv:
                bs, b2, _ = _close([i], a)
                out.append(powi(_mk('prod', (n, bs[0], b2), 'R' if a.sort != 'I' else 'I'), e))
            else:
                out.append(powi(_pown(a, n), e))
        return mul(*out) if out else ONE
    one = d.get((), 0) == 1 and i in body.fv and sub(body, 1)
    if one is not False and one is not ZERO:
        # all factors but one are 1
        r = None
        for m, c in pdict(one).items():
            w = [z for a, e in m if a.op == 'iv' and e == 1 and (a.a[0].op == 'eq0') for z in (_coef_of(a.a[0].a[0], i),) if z is not None]
            w = w and (neg(w[0][1]) if w[0][0] == 1 else w[0][1])
            if not w or i in w.fv or (r is not None and r is not w):
                r = None
                break
            r = w
        if r is not None:
            return add(ONE, mul(iv(land(le(0, r), lt(r, n))), subst(one, {i: r})))
    # a factor of its own at one position: taken out of the product
    for e in () if any(v.op == 'var' and v.a[0].startswith('k!') for v in n.fv) else _singled_out(d, i):
        at_e = subst(body, {i: e})
        if at_e is not ONE:
            w = iv(eq(i, e))
            return mul(add(ONE, mul(iv(land(le(0, e), lt(e, n))), sub(at_e, ONE))),
                       prod_(n, i, add(w, mul(sub(ONE, w), body))))
    bs, b2, _ = _close([i], body)
    return _mk('prod', (n, bs[0], b2), 'R' if body.sort != 'I' else 'I')


def _singled_out(d, i):
    """positions e for which the body asks whether i == e"""
    out = []
    for m in d:
        for a, _ in m:
            if a.op == 'iv' and a.a[0].op == 'eq0' and i in a.fv:
                c = _coef_of(a.a[0].a[0], i)
                if c is not None:
                    e = neg(c[1]) if c[0] == 1 else c[1]
                    if i not in e.fv and e not in out:
                        out.append(e)
    return sorted(out, key=lambda e: e.id)


def _pown(a, n):
    if is_num(n):
        return powi(a, int(numval(n)))
    if a is ONE:
        return ONE
    return _mk('app', ('pown', a, n), a.sort)


def forall(n, fn):
    n = tm(n)
    i = fresh('q', 'I')
    return forall_(n, i, tm(fn(i)))


def one_point(n, i, body):
    """forall 0<=i<n: not(i = v) or rest  is  not(0<=v<n) or rest at v"""
    for x in (body.a if body.op == 'or' else (body,)):
        if x.op == 'not' and x.a[0].op == 'eq0' and x.a[0].a[0].sort == 'I':
            p = x.a[0].a[0]
            d = pdict(p)
            c = d.get(((i, 1),))
            if c not in (1, -1):
                continue
            v = sub(i, p) if c == 1 else add(i, p)
            if i in v.fv:
                continue
            return lor(lnot(land(le(0, v), lt(v, n))), subst(lor(*[y for y in body.a if y is not x]) if body.op == 'or' else FALSE, {i: v}))
    return None


ALL = None      # as the range of forall: every integer


def forall_(n, i, body):
    if body is TRUE or n is ZERO:
        return TRUE
    if n is ALL:
        if body.op == 'and':
            return land(*[forall_(n, i, b) for b in body.a])
        if i not in body.fv:
            return body
        bs, b2, _ = _close([i], body)
        return _mk('forall', (n, bs[0], b2), 'B')
    o = over_kept(n, i, body)
    if o:
        n, i, c, b = o
        body = lor(lnot(c), b)
        r = one_point(n, i, body)
        return forall_(n, i, body) if r is None else r
    if body.op == 'and':
        return land(*[forall_(n, i, b) for b in body.a])
    if i not in body.fv and body is not FALSE:
        return lor(le(n, 0), body)
    bs, b2, _ = _close([i], body)
    return _mk('forall', (n, bs[0], b2), 'B')


def first(n, fn):
    """least 0<=i<n with fn(i), n if none"""
    n = tm(n)
    i = fresh('f', 'I')
    return first_(n, i, tm(fn(i)))


def first_(n, i, body):
    if body is FALSE:
        return n
    bs, b2, _ = _close([i], body)
    return _mk('first', (n, bs[0], b2), 'I')


def filter_(n, i, cond, elem):
    """list of elem(i) for 0<=i<n with cond(i), in order"""
    if cond is TRUE:
        return lam_(n, i, elem)
    if cond is FALSE:
        return lam_(ZERO, i, elem)
    o = over_kept(n, i, rec('%pair', {'c': cond, 'e': elem}))
    if o:
        n, i, c, b = o
        b = dict(b.a[1])
        return filter_(n, i, land(c, b['c']), b['e'])
    pair = rec('%pair', {'c': cond, 'e': elem})
    bs, b2, _ = _close([i], pair)
    t = _mk('filter', (n, bs[0], b2), 'V')
    _elem_sort[t] = elem.sort
    return t


ALL = var('%ALL', 'I')


# ---------------------------------------------------------------- substitution
def subst(t, s):
    if not s:
        return t
    memo = {}
    return _subst(t, s, frozenset(s), memo)


def _subst(t, s, ks, memo):
    if not (t.fv & ks):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = _subst1(t, s, ks, memo)
    memo[t] = r
    return r


def replace(t, m, deep=False):
    """replace compound (closed) subterms: each key becomes its value (deep: also under quantifiers and in lists)"""
    memo = {}
    ids = {x.id for x in m}

    def go(x):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is None:
            r = memo[x] = go1(x)
        return r

    def go1(x):
        op, a = x.op, x.a
        if deep and op in ('forall', 'lam'):
            f = fresh('r', 'I')
            b = go(subst(a[2], {a[1]: f}))
            return forall_(go(a[0]), f, b) if op == 'forall' else lam_(go(a[0]), f, b)
        if op in ('var', 'bv', 'str', 'true', 'false', 'obj', 'lam', 'mlam', 'ms', 'prod', 'forall', 'first', 'filter'):
            return x
        if op == 'poly':
            return add(*[mul(num(c), *[powi(go(b), e) for b, e in mm]) for mm, c in a])
        if op == 'pol':
            return go(a[0])
        if op == 'app':
            return rebuild_app(x, [go(y) for y in a[1:]])
        if op == 'at':
            return at(go(a[0]), go(a[1]))
        if op == 'at2':
            return at2(go(a[0]), go(a[1]), go(a[2]))
        if op == 'fld':
            return fld(go(a[0]), a[1], x.sort)
        if op == 'rec':
            return rec(a[0], {n: go(v) for n, v in a[1]})
        if op == 'ite':
            return ite(go(a[0]), go(a[1]), go(a[2]))
        if op == 'iv':
            return iv(go(a[0]))
        if op == 'not':
            return lnot(go(a[0]))
        if op == 'and':
            return land(*[go(y) for y in a])
        if op == 'or':
            return lor(*[go(y) for y in a])
        if op == 'lt0':
            return lt0(go(a[0]))
        if op == 'eq0':
            return eq0(go(a[0]))
        if op == 'eqo':
            return eq(go(a[0]), go(a[1]))
        return x
    return go(t)


def _open(t, bvs):
    return {b: fresh('o', b.sort) for b in bvs}


def _subst1(t, s, ks, memo):
    op, a = t.op, t.a
    S = lambda x: _subst(x, s, ks, memo)
    if op in ('var', 'bv'):
        r = s.get(t, t)
        if op == 'var' and r is not t and t in _elem_sort and r not in _elem_sort and r.sort == 'V' and r.op != 'lam':
            _elem_sort[r] = _elem_sort[t]
        return r
    if op == 'poly':
        out = {}
        for m, c in a:
            x = {(): c}
            dirty = False
            const = []
            for at_, e in m:
                y = S(at_)
                if y is not at_:
                    dirty = True
                    break
            if not dirty:
                out[m] = out.get(m, 0) + c
                continue
            p = num(c)
            for at_, e in m:
                p = mul(p, powi(S(at_), e))
            for mm, cc in pdict(p).items():
                out[mm] = out.get(mm, 0) + cc
        return mkpoly(out)
    if op == 'pol':
        # pol atoms occur with negative exponents only; substituting may change the normal form
        return S(a[0])
    if op == 'app':
        return rebuild_app(t, [S(x) for x in a[1:]])
    if op == 'at':
        return at(S(a[0]), S(a[1]))
    if op == 'at2':
        return at2(S(a[0]), S(a[1]), S(a[2]))
    if op == 'fld':
        return fld(S(a[0]), a[1], t.sort)
    if op == 'rec':
        return rec(a[0], {n: S(v) for n, v in a[1]})
    if op == 'ite':
        return ite(S(a[0]), S(a[1]), S(a[2]))
    if op == 'iv':
        return iv(S(a[0]))
    if op == 'not':
        return lnot(S(a[0]))
    if op == 'and':
        return land(*[S(x) for x in a])
    if op == 'or':
        return lor(*[S(x) for x in a])
    if op == 'lt0':
        return lt0(S(a[0]))
    if op == 'eq0':
        return eq0(S(a[0]))
    if op == 'eqo':
        return eq(S(a[0]), S(a[1]))
    # binders: open, substitute, rebuild
    if op == 'lam':
        f = fresh('o', 'I')
        return lam_(S(a[0]), f, subst(subst(a[2], {a[1]: f}), s))
    if op == 'mlam':
        f, g = fresh('o', 'I'), fresh('o', 'I')
        return mlam_(S(a[0]), S(a[1]), f, g, subst(subst(a[4], {a[2]: f, a[3]: g}), s))
    if op == 'ms':
        rs, bs, b = a
        fr = {x: fresh('o', 'I') for x in bs}
        if all(y.op in ('bv', 'var') for y in s.values()):
            # pure renaming keeps the shape
            nb = subst(subst(b, fr), s)
            if nb.op != 'poly' or (len(nb.a) == 1 and nb.a[0][1] == 1):
                return mkms([(fr[x], subst(subst(r, fr), s)) for x, r in zip(bs, rs)], _monoitems(nb))
        r = subst(subst(b, fr), s)
        for x, rr in reversed(list(zip(bs, rs))):
            r = sum_(subst(subst(rr, fr), s), fr[x], r)
        return r
    if op == 'prod':
        f = fresh('o', 'I')
        return prod_(S(a[0]), f, subst(subst(a[2], {a[1]: f}), s))
    if op == 'forall':
        f = fresh('o', 'I')
        return forall_(S(a[0]), f, subst(subst(a[2], {a[1]: f}), s))
    if op == 'first':
        f = fresh('o', 'I')
        return first_(S(a[0]), f, subst(subst(a[2], {a[1]: f}), s))
    if op == 'filter':
        f = fresh('o', 'I')
        p = subst(subst(a[2], {a[1]: f}), s)
        c = dict(p.a[1])['c']
        return filter_(S(a[0]), f, c, dict(p.a[1])['e'])
    raise NotImplementedError(op)


APP_REBUILD = {}
SHAPED = {'inv', 'solve', 'solveM', 'eigval', 'eigvec'}


def rebuild_app(t, args):
    f = t.a[0]
    if f in ('call', 'gradient', 'hessian', 'items') and args[0].op == 'ite':
        c, x, y = args[0].a
        return ite(c, rebuild_app(t, [x] + list(args[1:])), rebuild_app(t, [y] + list(args[1:])))
    if f in RULES:
        r = RULES[f](*args)
        if r is not None:
            return r
    if f in APP_REBUILD:
        return APP_REBUILD[f](*args)
    r = _mk('app', (f,) + tuple(args), t.sort)
    if t.sort == 'V' and t in _elem_sort:
        _elem_sort[r] = _elem_sort[t]
    if f in SHAPED:
        if f in ('solve', 'eigval'):
            setshape(r, cols(args[0]))
        elif f == 'solveM':
            setshape(r, cols(args[0]), cols(args[1]))
        else:
            setshape(r, rows(args[0]), rows(args[0]))
    return r


APP_REBUILD['exp'] = exp
APP_REBUILD['log'] = log
APP_REBUILD['sqrt'] = sqrt
APP_REBUILD['pown'] = _pown
APP_REBUILD['len'] = length
APP_REBUILD['rows'] = rows
APP_REBUILD['cols'] = cols


# ---------------------------------------------------------------- derivative
DIFF = {}   # function name -> lambda(term, args) -> list of partials (for scalar args)


def diff(t, x):
    """d t / d x for a scalar variable x (real)"""
    if x not in t.fv:
        return ZERO
    if t is x:
        return ONE
    op, a = t.op, t.a
    if op == 'poly':
        out = []
        for m, c in a:
            for k, (at_, e) in enumerate(m):
                if x in at_.fv:
                    rest = [num(c)] + [powi(b, f) for j, (b, f) in enumerate(m) if j != k]
                    if at_.op == 'pol':
                        inner, base = diff(at_.a[0], x), mkpoly({((at_, e - 1),): Fr(1)})
                        out.append(mul(num(e), base, inner, *rest))
                    else:
                        out.append(mul(num(e), powi(at_, e - 1), diff(at_, x), *rest))
        return add(*out)
    if op == 'app':
        f = a[0]
        if f == 'exp':
            return mul(t, diff(a[1], x))
        if f == 'log':
            return mul(powi(a[1], -1), diff(a[1], x))
        if f == 'sqrt':
            return mul(num(Fr(1, 2)), powi(t, -1), diff(a[1], x))
        if f in DIFF:
            return DIFF[f](t, a[1:], x)
        raise NotImplementedError('diff ' + f)
    if op == 'ms':
        rs, bs, b = a
        fr = {y: fresh('o', 'I') for y in bs}
        r = diff(subst(b, fr), x)
        for y, rr in reversed(list(zip(bs, rs))):
            r = sum_(subst(rr, fr), fr[y], r)
        return r
    if op == 'prod':
        n, f, g = a[0], fresh('o', 'I'), fresh('o', 'I')
        b = subst(a[2], {a[1]: f})
        w = iv(eq(f, g))
        return sum_(n, g, mul(subst(diff(b, x), {f: g}), prod_(n, f, add(w, mul(sub(ONE, w), b)))))
    if op == 'iv':
        return ZERO   # locally constant (differentiated away from the jump)
    if op == 'pol':
        return diff(a[0], x)
    if op == 'at' and a[0].op == 'app' and a[0].a[0] == 'call':
        return _callv_diff(t, x)
    raise NotImplementedError('diff ' + op)


DIFF['call'] = _call_diff


# ---------------------------------------------------------------- clearing denominators
def denominators(p):
    return {a: 1 for m in pdict(p) for a, e in m if e < 0}


def is_zero(p):
    """decides p == 0 as a rational function of its atoms (denominators assumed nonzero)"""
    for _ in range(40):
        if p is ZERO:
            return True
        dens = {}
        for m, c in pdict(p).items():
            for a, e in m:
                if e < 0:
                    dens[a] = max(dens.get(a, 0), -e)
        if not dens:
            return False
        for a, e in dens.items():
            # multiply by denominators without re-inverting pol atoms
            b = a.a[0] if a.op == 'pol' else a
            np_ = {}
            for m, c in pdict(p).items():
                ee = dict(m)
                cur = ee.pop(a, 0)
                k = cur + e
                base = mkpoly({tuple(sorted(ee.items(), key=lambda z: z[0].id)): c})
                q = mul(base, powi(b, k)) if k > 0 else base
                for mm, cc in pdict(q).items():
                    np_[mm] = np_.get(mm, 0) + cc
            p = mkpoly(np_)
    return p is ZERO


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    op, a = t.op, t.a
    if depth > 12:
        return '...'
    s = lambda x: show(x, depth + 1)
    if op == 'poly':
        if not a:
            return '0'
        out = []
        for m, c in a:
            fs = []
            if c != 1 or not m:
                fs.append(str(c))
            for at_, e in m:
                fs.append(s(at_) if e == 1 else '%s^%d' % (s(at_), e))
            out.append('*'.join(fs))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]
    if op in ('var',):
        return a[0]
    if op == 'bv':
        return '#%d' % a[0]
    if op == 'app':
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if op == 'at':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if op == 'at2':
        return '%s[%s,%s]' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'lam':
        return '<%s<%s: %s>' % (s(a[1]), s(a[0]), s(a[2]))
    if op == 'mlam':
        return '<%s<%s,%s<%s: %s>' % (s(a[2]), s(a[0]), s(a[3]), s(a[1]), s(a[4]))
    if op == 'ms':
        return 'SUM[%s](%s)' % (', '.join('%s<%s' % (s(b), s(r)) for b, r in zip(a[1], a[0])), s(a[2]))
    if op in ('prod', 'forall', 'first', 'filter'):
        return '%s[%s<%s](%s)' % (op.upper(), s(a[1]), s(a[0]), s(a[2]))
    if op == 'lt0':
        return '%s < 0' % s(a[0])
    if op == 'eq0':
        return '%s == 0' % s(a[0])
    if op == 'eqo':
        return '%s == %s' % (s(a[0]), s(a[1]))
    if op == 'iv':
        return '[%s]' % s(a[0])
    if op == 'not':
        return '!(%s)' % s(a[0])
    if op in ('and', 'or'):
        return '(' + (' %s ' % op).join(s(x) for x in a) + ')'
    if op == 'ite':
        return '(%s ? %s : %s)' % tuple(s(x) for x in a)
    if op == 'fld':
        return '%s.%s' % (s(a[0]), a[1])
    if op == 'rec':
        return '%s{%s}' % (a[0], ', '.join('%s=%s' % (n, s(v)) for n, v in a[1]))
    if op == 'str':
        return repr(a[0])
    if op == 'pol':
        return 'pol' + s(a[0])
    return op
