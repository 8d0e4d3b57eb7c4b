"""C04: Gaussian algebra (MultiNormal, NormalBelief, subset helpers)."""
from vcg import terms as t
from vcg.deduce import spec, ASSUME
from vcg.terms import ONE, ZERO


def mm(a, b):
    return t.mlam(t.rows(a), t.cols(b), lambda i, j: t.SUM(t.cols(a), lambda k: t.mul(t.at2(a, i, k), t.at2(b, k, j))))


def mv(a, v):
    return t.lam(t.rows(a), lambda i: t.SUM(t.cols(a), lambda k: t.mul(t.at2(a, i, k), t.at(v, k))))


def place_v(s, src, x, base=None):
    """element x after writing src to the positions s"""
    n = t.length(s)
    put = t.SUM(n, lambda k: t.mul(t.iv(t.eq(t.at(s, k), x)), t.at(src, k)))
    return put


def hit(s, x):
    return t.SUM(t.length(s), lambda k: t.iv(t.eq(t.at(s, k), x)))


def place_m(s, src, x, y):
    n = t.length(s)
    return t.SUM(n, lambda k: t.SUM(n, lambda l: t.mul(t.iv(t.eq(t.at(s, k), x)), t.iv(t.eq(t.at(s, l), y)), t.at2(src, k, l))))


@spec('setVectorSubset', 'C04 C05 C17')
def _(c):
    tg, src, s = c.a(0), c.a(1), c.a(2)
    c.within(s, t.length(tg))
    c.distinct(s)
    c.req(t.le(t.length(s), t.length(src)), 'a value for every position')
    yield
    c.post(0, t.lam(t.length(tg), lambda x: t.add(place_v(s, src, x), t.mul(t.sub(ONE, hit(s, x)), t.at(tg, x)))),
           'listed positions overwritten, others kept')


@spec('setMatrixSubset', 'C04 C05 C17')
def _(c):
    tg, src, s = c.a(0), c.a(1), c.a(2)
    c.within(s, t.rows(tg))
    c.within(s, t.cols(tg))
    c.distinct(s)
    c.req(t.land(t.le(t.length(s), t.rows(src)), t.le(t.length(s), t.cols(src))), 'a value for every position')
    yield
    c.post(0, t.mlam(t.rows(tg), t.cols(tg), lambda x, y: t.add(place_m(s, src, x, y),
                                                              t.mul(t.sub(ONE, t.mul(hit(s, x), hit(s, y))), t.at2(tg, x, y)))),
           'listed positions overwritten, others kept')


@spec('getVectorSubset', 'C04 C05 C17')
def _(c):
    v, s = c.a(0), c.a(1)
    c.within(s, t.length(v))
    yield
    c.returns(t.lam(t.length(s), lambda k: t.at(v, t.at(s, k))), 'elements at the listed positions')


@spec('getMatrixSubset', 'C04 C05 C17')
def _(c):
    m, s = c.a(0), c.a(1)
    c.within(s, t.rows(m))
    c.within(s, t.cols(m))
    yield
    c.returns(t.mlam(t.length(s), t.length(s), lambda k, l: t.at2(m, t.at(s, k), t.at(s, l))), 'elements at the listed positions')


@spec('addVectorSubset', 'C05 C17')
def _(c):
    v, s, x = c.a(0), c.a(1), c.a(2)
    c.within(s, t.length(v))
    c.req(t.le(t.length(s), t.length(x)), 'a value for every position')
    yield
    c.post(0, t.lam(t.length(v), lambda i: t.add(t.at(v, i), place_v(s, x, i))), 'values added at the listed positions')


@spec('addMatrixSubset', 'C05 C17')
def _(c):
    v, s, x = c.a(0), c.a(1), c.a(2)
    c.within(s, t.rows(v))
    c.within(s, t.cols(v))
    c.req(t.land(t.le(t.length(s), t.rows(x)), t.le(t.length(s), t.cols(x))), 'a value for every position')
    yield
    c.post(0, t.mlam(t.rows(v), t.cols(v), lambda i, j: t.add(t.at2(v, i, j), place_m(s, x, i, j))), 'values added at the listed positions')


@spec('findSubset', 'C05 C17')
def _(c):
    v, s = c.a(0), c.a(1)
    c.within(s, t.length(v))
    yield
    c.returns(t.lam(t.length(s), lambda k: t.at(v, t.at(s, k))), 'elements at the listed positions')


# ------------------------------------------------------------------ MultiNormal
K = t.var('%log(sqrt(2*pi))', 'R')


def inv(p):
    return t.setshape(t.app('inv', p, sort='M'), t.rows(p), t.rows(p))


def normal(mean, prec, var=None):
    """the object that represents the Gaussian with this mean and precision"""
    n = t.length(mean)
    return t.rec('MultiNormal', {'mean_': mean, 'precision_': prec, 'variance_': inv(prec) if var is None else var,
                                 'normalizer_': t.add(t.neg(t.mul(n, K)), t.mul(t.num(t.Fr(1, 2)), t.log(t.app('det', prec))))})


def dim(c, name):
    n = t.var(name + '.n', 'I')
    if c.mode == 'verify':
        c.ex.facts.append(t.le(0, n))
    return n


def symmat(name, n):
    m = t.matvar(name, n, n)
    t._symm.add(m)
    return m


def anormal(c, name):
    n = dim(c, name)
    return normal(t.vecvar(name + '.mean', n), symmat(name + '.precision', n))


def field(o, n):
    return t.fld(o, n)


def gauss(o, x):
    """log-density of the Gaussian o at x"""
    m, p = field(o, 'mean_'), field(o, 'precision_')
    n = t.length(m)
    d = lambda i: t.sub(t.at(x, i), t.at(m, i))
    q = t.SUM(n, lambda i: t.SUM(n, lambda j: t.mul(d(i), t.at2(p, i, j), d(j))))
    return t.add(t.neg(t.mul(n, K)), t.mul(t.num(t.Fr(1, 2)), t.log(t.app('det', p))), t.mul(t.num(t.Fr(-1, 2)), q))


def partial(f, x, *js):
    """partial derivatives of f at the vector x in the coordinates js"""
    hs = [t.fresh('h', 'R') for _ in js]
    y = t.lam(t.length(x), lambda i: t.add(t.at(x, i), *[t.mul(h, t.iv(t.eq(i, j))) for h, j in zip(hs, js)]))
    v = f(y)
    for h in hs:
        v = t.diff(v, h)
    return t.subst(v, {h: ZERO for h in hs})


def on_normal(c):
    o = anormal(c, 'this')
    if c.mode == 'verify':
        c.setthis(o)
    return o


def point(c, i, n):
    c.req(t.eq(t.length(c.a(i)), n), 'a point of that dimension')


@spec('MultiNormal::evaluate', 'C04 C17', use=False)
def _(c):
    o = on_normal(c)
    point(c, 0, t.length(field(o, 'mean_')))
    yield
    c.returns(gauss(o, c.a(0)), 'log-density of the Gaussian with that mean and precision, normalized')


@spec('MultiNormal::evaluateDerivative', 'C04 C17', use=False)
def _(c):
    o = on_normal(c)
    point(c, 0, t.length(field(o, 'mean_')))
    yield
    x = c.a(0)
    c.returns(t.lam(t.length(field(o, 'mean_')), lambda j: partial(lambda y: gauss(o, y), x, j)), 'gradient of the log-density')


@spec('MultiNormal::evaluateSecondDerivative', 'C04 C17', use=False)
def _(c):
    o = on_normal(c)
    n = t.length(field(o, 'mean_'))
    point(c, 0, n)
    yield
    x = c.a(0)
    c.returns(t.mlam(n, n, lambda i, j: partial(lambda y: gauss(o, y), x, i, j)), 'Hessian of the log-density')


def square(c, m, n, text='square, of that dimension'):
    c.req(t.land(t.eq(t.rows(m), n), t.eq(t.cols(m), n)), text)


@spec('MultiNormal::MultiNormal', 'C04 C17', np=2, use=False, name='MultiNormal(mean, precision)')
def _(c):
    n = dim(c, 'n')
    mean, prec = t.vecvar('mean', n), symmat('precision', n)
    c.setarg(0, mean)
    c.setarg(1, prec)
    yield
    c.returns(normal(mean, prec), 'Gaussian with that mean and precision; variance its inverse')


@spec('MultiNormal::MultiNormal', 'C04 C17', np=3, use=False, name='MultiNormal(location, derivative, secondDerivative)')
def _(c):
    n = dim(c, 'n')
    loc, d, P = t.vecvar('location', n), t.vecvar('derivative', n), symmat('precision', n)
    c.setarg(0, loc)
    c.setarg(1, d)
    c.setarg(2, t.mlam(n, n, lambda i, j: t.neg(t.at2(P, i, j))))
    yield
    o = c.result
    c.ensure(gradient_at(o, loc, d), 'its gradient at the location is the given one')
    c.ensure(hessian_at(o, loc, c.a(2)), 'its Hessian at the location is the given one')
    c.returns(normal(field(o, 'mean_'), P), 'precision, variance and normalizer belong together')


def gradient_at(o, x, d):
    from vcg.deduce import eqt
    return eqt(t.lam(t.length(x), lambda j: partial(lambda y: gauss(o, y), x, j)), d)


def hessian_at(o, x, h):
    from vcg.deduce import eqt
    n = t.length(x)
    return eqt(t.mlam(n, n, lambda i, j: partial(lambda y: gauss(o, y), x, i, j)), h)


@spec('MultiNormal::setMean', 'C04 C17', use=False)
def _(c):
    o = on_normal(c)
    point(c, 0, t.length(field(o, 'mean_')))
    yield
    c.post_this('mean_', c.a(0))


@spec('MultiNormal::setPrecision', 'C04 C17', use=False)
def _(c):
    o = on_normal(c)
    n = t.length(field(o, 'mean_'))
    P = symmat('newPrecision', n)
    c.setarg(0, P)
    yield
    w = normal(field(o, 'mean_'), P)
    for f in ('precision_', 'variance_', 'normalizer_'):
        c.post_this(f, field(w, f))


@spec('MultiNormal::setVariance', 'C04 C17', use=False)
def _(c):
    o = on_normal(c)
    n = t.length(field(o, 'mean_'))
    V = symmat('newVariance', n)
    c.setarg(0, V)
    yield
    w = normal(field(o, 'mean_'), inv(V), V)
    for f in ('precision_', 'variance_', 'normalizer_'):
        c.post_this(f, field(w, f))


@spec('MultiNormal::integrate', 'C04 C17', use=False)
def _(c):
    o = on_normal(c)
    n = t.length(field(o, 'mean_'))
    i = c.a(0)
    c.req(t.land(t.le(0, i), t.lt(i, n)), 'an item of the Gaussian')
    yield
    up = lambda k: t.add(k, t.iv(t.le(i, k)))
    v = field(o, 'variance_')
    m = t.sub(n, 1)
    V = t.mlam(m, m, lambda a, b: t.at2(v, up(a), up(b)))
    c.returns(normal(t.lam(m, lambda a: t.at(field(o, 'mean_'), up(a))), inv(V), V), 'the means and variances of the other items')


@spec('MultiNormal::computeMarginal', 'C04 C17', use=False)
def _(c):
    o = on_normal(c)
    n = t.length(field(o, 'mean_'))
    s = c.a(0)
    c.within(s, n)
    c.distinct(s)
    yield
    v = field(o, 'variance_')
    k = t.length(s)
    V = t.mlam(k, k, lambda a, b: t.at2(v, t.at(s, a), t.at(s, b)))
    c.returns(normal(t.lam(k, lambda a: t.at(field(o, 'mean_'), t.at(s, a))), inv(V), V), 'the means and variances of the listed items, in that order')


def added(P, s, B, sign):
    """P plus (or minus) B on the listed items"""
    return t.mlam(t.rows(P), t.rows(P), lambda x, y: t.add(t.at2(P, x, y), t.mul(t.num(sign), place_m(s, B, x, y))))


def subset_product(sign):
    def con(c):
        if c.mode == 'use':
            o, N = c.this(), c.a(0)
            B, mu = field(N, 'precision_'), field(N, 'mean_')
        else:
            o = on_normal(c)
        m0, P = field(o, 'mean_'), field(o, 'precision_')
        n = t.length(m0)
        s = c.a(1)
        c.within(s, n)
        c.distinct(s)
        k = t.length(s)
        if c.mode == 'use':
            square(c, P, n)
            square(c, B, k)
            c.req(t.eq(t.length(mu), k), 'one mean for every listed item')
        else:
            # B ranges over all symmetric matrices as N does
            N = symmat('N', k)
            B = t.mlam(k, k, lambda a, b: t.mul(t.num(sign), t.sub(t.at2(N, a, b), t.at2(P, t.at(s, a), t.at(s, b)))))
            mu = t.vecvar('other.mean', k)
            if c.case == 'common mean':
                mu = t.lam(k, lambda a: t.at(m0, t.at(s, a)))
            c.setarg(0, normal(mu, B))
        yield
        w = added(P, s, B, sign)
        if c.mode == 'use':
            m1 = t.vecvar(t.fresh('mean', 'V').a[0], n)
            c.post_this('mean_', m1)
            c.ensure(t.implies(t.forall(k, lambda a: t.eq(t.at(mu, a), t.at(m0, t.at(s, a)))),
                               t.forall(n, lambda x: t.eq(t.at(m1, x), t.at(m0, x)))), 'the common mean is kept')
        elif c.case == 'common mean':
            c.post_this('mean_', m0, 'the common mean is kept')
        else:
            c.posted.append(('this', 'mean_'))
            c.ensure(t.eq(t.length(field(c.this_now(), 'mean_')), n), 'as many means')
        c.post_this('precision_', w, 'precision entries of the listed items %s' % ('added' if sign > 0 else 'subtracted'))
        c.post_this('variance_', inv(w), 'variance is the inverse of the precision')
        c.post_this('normalizer_', field(normal(m0, w), 'normalizer_'), 'normalized')
    return con


spec('MultiNormal::multiplySubset', 'C04 C17', cases=('any', 'common mean'))(subset_product(1))
spec('MultiNormal::divideSubset', 'C04 C17', cases=('any', 'common mean'))(subset_product(-1))


ASSUME['C04'] = [
    'Eigen decompositions and solvers compute the inverse and determinant of a positive definite matrix (det > 0, A inv(A) = I)',
    'matrices said to be symmetric are symmetric (precondition of every contract here; met by the callers under C05, C03, C06)',
    'floating-point arithmetic is treated as real arithmetic']
