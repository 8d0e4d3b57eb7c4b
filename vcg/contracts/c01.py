"""C01: binomial log-likelihood terms."""
from fractions import Fraction as Fr
from vcg import terms as t, prover
from vcg.deduce import spec, ASSUME
from vcg.terms import ONE, ZERO

EPS = t.num(Fr(1, 10 ** 8))


def clamp(p):
    lo = t.ite(t.lt(p, EPS), EPS, p)
    return t.ite(t.lt(t.sub(ONE, EPS), lo), t.sub(ONE, EPS), lo)


def summand(m, y, w):
    return t.mul(w, t.add(t.mul(y, t.log(m)), t.mul(t.sub(ONE, y), t.log(t.sub(ONE, m)))))


@spec('Binomial::checkMean', 'C01 C17')
def _(c):
    yield
    x = c.a(0)
    c.post(0, t.lam(t.length(x), lambda i: clamp(t.at(x, i))), 'mean clamped into [1e-8, 1-1e-8]')


def same_length(c, *ix):
    for i in ix[1:]:
        c.req(t.eq(t.length(c.a(i)), t.length(c.a(ix[0]))), 'equal lengths')


@spec('Binomial::evaluate', 'C01 C17')
def _(c):
    same_length(c, 0, 1, 2)
    yield
    m, y, w = c.a(0), c.a(1), c.a(2)
    c.returns(t.SUM(t.length(m), lambda i: summand(t.at(m, i), t.at(y, i), t.at(w, i))), 'sum of w*(y*log(mu)+(1-y)*log(1-mu))')


def nth(expr, x, k):
    for _ in range(k):
        expr = t.diff(expr, x)
    return expr


def binomial_derivative(k):
    def con(c):
        same_length(c, 0, 1, 2)
        yield
        m, y, w = c.a(0), c.a(1), c.a(2)
        x = t.fresh('x', 'R')

        def el(i):
            return t.subst(nth(summand(x, t.at(y, i), t.at(w, i)), x, k), {x: t.at(m, i)})
        c.returns(t.lam(t.length(m), el), 'derivative %d of each summand in the mean' % k)
    return con


for _k, _n in enumerate(('Derivative', 'SecondDerivative', 'ThirdDerivative', 'FourthDerivative'), 1):
    spec('Binomial::evaluate' + _n, 'C01 C17')(binomial_derivative(_k))


# ------------------------------------------------------------------ links
LINKS = ('logit', 'probit')
CLS = {'logit': 'LogitLink', 'probit': 'ProbitLink'}


def mean_of(link, x):
    if link == 'logit':
        return t.powi(t.add(ONE, t.exp(t.neg(x))), -1)
    return t.app('cdf', x)


def _cdf_diff(term, a, x):
    return t.mul(t.app('pdf', *a), t.diff(a[-1], x))


def pdf(x):
    return t.app('pdf', x)


t.DIFF['cdf'] = _cdf_diff
t.DIFF['pdf'] = lambda term, a, x: t.mul(t.neg(a[-1]), term, t.diff(a[-1], x))     # density of N(0,1)
ORD = ('', 'Derivative', 'SecondDerivative', 'ThirdDerivative', 'FourthDerivative')


def link_contract(link, k, build):
    def con(c):
        if c.mode == 'verify':
            c.setthis(c.build('Link', t.strc(link)) if build else c.build(CLS[link]))
        elif link == 'probit':
            s = c.m('standardNormal_')
            c.req(t.land(t.eq(t.fld(s, 'm'), ZERO), t.eq(t.fld(s, 's'), ONE)), 'the normal of the link is the standard one')
        yield
        x = c.a(0)
        z = t.fresh('x', 'R')
        d = nth(mean_of(link, z), z, k)
        c.returns(t.lam(t.length(x), lambda i: t.subst(d, {z: t.at(x, i)})), 'derivative %d of the inverse link' % k if k else 'inverse link')
    return con


for _l in LINKS:
    for _k, _n in enumerate(ORD):
        spec('%s::computeMean%s' % (CLS[_l], _n), 'C01 C17')(link_contract(_l, _k, False))
        spec('Link::computeMean' + _n, 'C01 C17', use=False, name='Link::computeMean%s(%s)' % (_n, _l))(link_contract(_l, _k, True))


# ------------------------------------------------------------------ Family: the composition
def eta(link, k):
    """k-th derivative in the linear predictor of the summand, as a function of x, y, w"""
    x, y, w = t.fresh('x', 'R'), t.fresh('y', 'R'), t.fresh('w', 'R')
    d = nth(summand(mean_of(link, x), y, w), x, k)
    return lambda a, b, c: t.subst(d, {x: a, y: b, w: c})


def logistic(d):
    """with p = 1/(1+exp(-x)) and q = 1-p everything is rational in p: returns its numerator"""
    atoms = {}

    def pq(e):
        if e not in atoms:
            n = t.show(e.a[1])
            atoms[e] = (t.var('p(%s)' % n, 'R'), t.var('q(%s)' % n, 'R'))
        return atoms[e]

    def conv(x):
        if x.op == 'poly':
            out = []
            for m, c in x.a:
                out.append(t.mul(t.num(c), *[power(a, e) for a, e in m]))
            return t.add(*out)
        return power(x, 1)

    def power(a, e):
        if a.op == 'app' and a.a[0] == 'exp':
            p, q = pq(a)
            return t.mul(t.powi(p, e), t.powi(q, -e))
        if a.op == 'pol':
            b = norm(conv(a.a[0]))
            return t.powi(b, e)
        return t.powi(a, e)

    def numerator(b, p, q):
        """b = N(p) * p^-i * q^-j, N without q"""
        i = j = 0
        for m, c in t.pdict(b).items():
            dm = dict(m)
            i, j = max(i, -dm.get(p, 0)), max(j, -dm.get(q, 0))
        n = t.subst(t.mul(b, t.powi(p, i), t.powi(q, j)), {q: t.sub(ONE, p)})
        return n, i, j

    def norm(b):
        for p, q in atoms.values():
            if p not in b.fv and q not in b.fv:
                continue
            n, i, j = numerator(b, p, q)
            co = coeffs(n, p)
            if co is None:
                return b
            # powers of p and of 1-p
            while co and co[0] is ZERO:
                co, i = co[1:], i - 1
            while len(co) > 1 and t.add(*co) is ZERO:
                r, acc = [], ZERO       # n = (1-p) * r
                for c in co[:-1]:
                    acc = t.add(acc, c)
                    r.append(acc)
                co, j = r, j - 1
            b = t.mul(t.add(*[t.mul(c, t.powi(p, k)) for k, c in enumerate(co)]), t.powi(p, -i), t.powi(q, -j))
        return b
    r = conv(d)
    for p, q in atoms.values():
        r = numerator(r, p, q)[0]
    return r


def coeffs(n, p):
    out = {}
    for m, c in t.pdict(n).items():
        dm = dict(m)
        k = dm.pop(p, 0)
        if k < 0 or any(p in a.fv for a in dm):
            return None
        out.setdefault(k, {})[tuple(sorted(dm.items(), key=lambda z: z[0].id))] = c
    return [t.mkpoly(out.get(k, {})) for k in range(max(out) + 1)] if out else [ZERO]


def family_contract(link, k):
    def con(c):
        if link == 'logit' and k > 0:
            c.rw.append(logistic)
        if c.mode == 'verify':
            c.setthis(c.build('Family', t.strc('binomial'), t.strc(link)))
        same_length(c, 0, 1, 2)
        x, y, w = c.a(0), c.a(1), c.a(2)
        n = t.length(x)
        if k > 0:
            c.req(t.forall(n, lambda i: t.land(t.le(EPS, mean_of(link, t.at(x, i))), t.le(mean_of(link, t.at(x, i)), t.sub(ONE, EPS)))),
                  'means not clamped')
        yield
        if k == 0:
            c.returns(t.SUM(n, lambda i: summand(clamp(mean_of(link, t.at(x, i))), t.at(y, i), t.at(w, i))), 'value at the clamped mean')
        else:
            e = eta(link, k)
            c.returns(t.lam(n, lambda i: e(t.at(x, i), t.at(y, i), t.at(w, i))), 'derivative %d of the value' % k)
    return con


for _l in LINKS:
    for _k, _n in enumerate(ORD):
        spec('Family::evaluate' + _n, 'C01 C17', use=False, name='Family::evaluate%s(binomial,%s)' % (_n, _l))(family_contract(_l, _k))


ASSUME['C01'] = [
    'boost::math::cdf and pdf of the standard normal are the mathematical functions (positivity and the derivative pdf = cdf\' are used)',
    'in the far tail of the probit link the clamp of the mean makes the value a constant; the derivative contracts are stated for means that are not clamped',
    'floating-point arithmetic is treated as real arithmetic']
