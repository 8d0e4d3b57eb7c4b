"""C06: a model term: linear predictor of the current parameters, value, gradient and Hessian in the random effects."""
from vcg import terms as t, numeval
from vcg.deduce import spec, ASSUME, eqt
from vcg.terms import ONE, ZERO
import contracts_c04 as c04

# what a family at one observation is, as far as a model term is concerned: a twice differentiable function of the
# linear predictor (C01 proves it, with its formulas, for both links and all five orders)
GLM = ('glm0', 'glm1', 'glm2')
t.DIFF['glm0'] = lambda term, a, x: t.mul(t.app('glm1', *a), t.diff(a[1], x))
t.DIFF['glm1'] = lambda term, a, x: t.mul(t.app('glm2', *a), t.diff(a[1], x))


def _num(k):
    def f(m, fam, e, y, w):
        mp = numeval.mp
        g = (lambda z: mp.sin(z * 7 / 5), lambda z: mp.cos(z * 7 / 5) * 7 / 5, lambda z: -mp.sin(z * 7 / 5) * 49 / 25)[k]
        h = (e ** 3 * y, 3 * e ** 2 * y, 6 * e * y)[k]
        return w * (g(e) + h)
    return f


for _k, _n in enumerate(GLM):
    numeval.CALLS[_n] = _num(_k)


def family(c, order):
    fam = c.this()
    n = t.length(c.a(0))
    c.req(t.land(t.eq(t.length(c.a(1)), n), t.eq(t.length(c.a(2)), n)), 'a response and a weight for every observation')
    el = lambda i: t.app(GLM[order], fam, t.at(c.a(0), i), t.at(c.a(1), i), t.at(c.a(2), i))
    yield
    c.returns(t.SUM(n, el) if order == 0 else t.lam(n, el))


spec('Family::evaluate', '')(lambda c: family(c, 0))
spec('Family::evaluateDerivative', '')(lambda c: family(c, 1))
spec('Family::evaluateSecondDerivative', '')(lambda c: family(c, 2))


def factor(b, theta):
    """Lambda(theta)' : the stored entries, in order, are the elements of theta listed in the index vector"""
    s, ind = t.fld(b, 'Lambdat_'), t.fld(b, 'Lind_')
    return t.mlam(t.fld(s, 'rows'), t.fld(s, 'cols'), lambda i, j: t.SUM(t.fld(s, 'nnz'), lambda p: t.mul(
        t.iv(t.eq(t.at(t.fld(s, 'ri'), p), i)), t.iv(t.eq(t.at(t.fld(s, 'ci'), p), j)), t.at(theta, t.at(ind, p)))))


def effects(b, theta):
    """Lambda(theta)' Z'"""
    return c04.mm(factor(b, theta), t.fld(b, 'Zt_'))


def fixed(b, beta):
    X = t.fld(b, 'X_')
    return t.mlam(t.rows(X), ONE, lambda o, z: t.SUM(t.cols(X), lambda f: t.mul(t.at2(X, o, f), t.at(beta, f))))


def predictor(b, theta, beta, u):
    A, F = effects(b, theta), fixed(b, beta)
    return lambda o: t.add(t.at2(F, o, 0), t.SUM(t.length(u), lambda i: t.mul(t.at2(A, i, o), t.at(u, i))))


def design(c):
    """data of consistent sizes"""
    n, p, q, m, z, k = (c04.dim(c, x) for x in ('observations', 'fixed', 'effects', 'columns', 'nonzeros', 'parameters'))
    s = c.ex.sparse('Lambdat', m, q, z)
    ri, ci = t.fld(s, 'ri'), t.fld(s, 'ci')
    ind = t.vecvar('Lind', z, 'I')
    b = t.rec('GLMMBelief', {
        'numItems_': m, 'items_': t.vecvar('items', m, 'I'), 'numObservations_': n, 'numFixed_': p,
        'X_': t.matvar('X', n, p), 'Zt_': t.matvar('Zt', q, n), 'Lambdat_': s, 'Lind_': ind,
        'response_': t.vecvar('response', n), 'weights_': t.vecvar('weights', n),
        'theta_': t.vecvar('theta0', k), 'beta_': t.vecvar('beta0', p)})
    c.within(ri, m)
    c.within(ci, q)
    c.within(ind, k, 'a parameter for every stored entry')
    return b


def term(c):
    """a model term whose cached products are those of the parameters it saw last"""
    b = design(c)
    b = t.withf(t.withf(b, 'LambdatThetaZt_', effects(b, t.fld(b, 'theta_'))), 'XBeta_', fixed(b, t.fld(b, 'beta_')))
    c.setthis(b)
    return b


def parameters(c, b, i=1):
    k = c04.dim(c, 'parameters2')
    theta, beta = t.vecvar('theta', k), t.vecvar('beta', t.cols(t.fld(b, 'X_')))
    P = t.withf(t.withf(c.a(i), 'GLMMTheta', theta), 'GLMMBeta', beta)
    c.setarg(i, P)
    c.within(t.fld(b, 'Lind_'), k, 'a parameter for every stored entry')
    return theta, beta, t.fld(P, 'GLMMFamily')


def consistent(c):
    """the object's caches afterwards are again those of the parameters it keeps"""
    now = c.this_now()
    for f in ('theta_', 'beta_', 'LambdatThetaZt_', 'XBeta_'):
        c.posted.append(('this', f))
    return now


def with_sizes(f):
    def con(c):
        b = term(c)
        yield from f(c, b)
    return con


@spec('GLMMBelief::setTheta', 'C06 C17', use=False)
@with_sizes
def _(c, b):
    theta = t.vecvar('theta', c04.dim(c, 'parameters2'))
    c.setarg(0, theta)
    c.within(t.fld(b, 'Lind_'), t.length(theta), 'a parameter for every stored entry')
    yield
    c.post_this('theta_', theta, 'the parameters are remembered')
    c.post_this('LambdatThetaZt_', effects(b, theta), 'product of the factor filled from these parameters with the design')


@spec('GLMMBelief::setBeta', 'C06 C17', use=False)
@with_sizes
def _(c, b):
    beta = t.vecvar('beta', t.cols(t.fld(b, 'X_')))
    c.setarg(0, beta)
    yield
    c.post_this('beta_', beta, 'the parameters are remembered')
    c.post_this('XBeta_', fixed(b, beta), 'fixed part of these parameters')


@spec('GLMMBelief::setLambdatThetaZt', 'C06 C17', use=False)
@with_sizes
def _(c, b):
    theta = t.vecvar('theta', c04.dim(c, 'parameters2'))
    c.setarg(0, theta)
    c.within(t.fld(b, 'Lind_'), t.length(theta), 'a parameter for every stored entry')
    yield
    c.post_this('LambdatThetaZt_', effects(b, theta), 'product of the factor filled from these parameters with the design')


@spec('GLMMBelief::computeLinearPredictor', 'C06 C17', use=False)
@with_sizes
def _(c, b):
    c04.point(c, 0, t.length(t.fld(b, 'items_')))
    yield
    e = predictor(b, t.fld(b, 'theta_'), t.fld(b, 'beta_'), c.a(0))
    c.returns(t.lam(t.length(t.fld(b, 'response_')), e), "X beta + (Lambda' Z')' u")


def evaluation(order):
    def f(c, b):
        m, n = t.length(t.fld(b, 'items_')), t.length(t.fld(b, 'response_'))
        c04.point(c, 0, m)
        theta, beta, fam = parameters(c, b)
        yield
        y, w = t.fld(b, 'response_'), t.fld(b, 'weights_')

        def value(u):
            e = predictor(b, theta, beta, u)
            return t.SUM(n, lambda o: t.app('glm0', fam, e(o), t.at(y, o), t.at(w, o)))
        u = c.a(0)
        if order == 0:
            c.returns(value(u), 'family at the linear predictor of the parameters of this call')
        elif order == 1:
            c.returns(t.lam(m, lambda j: c04.partial(value, u, j)), 'gradient of that value in the random effects')
        else:
            c.returns(t.mlam(m, m, lambda j, k: c04.partial(value, u, j, k)), 'Hessian of that value in the random effects')
        c.post_this('theta_', theta, 'parameters of this call are remembered')
        c.post_this('beta_', beta, 'parameters of this call are remembered')
        c.post_this('LambdatThetaZt_', effects(b, theta), 'cache belongs to the parameters remembered')
        c.post_this('XBeta_', fixed(b, beta), 'cache belongs to the parameters remembered')
    return with_sizes(f)


for _k, _n in enumerate(('', 'Derivative', 'SecondDerivative')):
    spec('GLMMBelief::evaluate' + _n, 'C06 C17', use=False)(evaluation(_k))


@spec('GLMMBelief::GLMMBelief', 'C06 C17', np=7, use=False)
def _(c):
    b = design(c)
    for i, f in enumerate(('items_', 'X_', 'Zt_', 'Lambdat_', 'Lind_', 'response_', 'weights_')):
        c.setarg(i, t.fld(b, f))
    yield
    o = c.result
    for f in ('items_', 'X_', 'Zt_', 'Lambdat_', 'Lind_', 'response_', 'weights_'):
        c.ensure(eqt(t.fld(o, f), t.fld(b, f)), 'keeps its data')
    th, be = t.fld(o, 'theta_'), t.fld(o, 'beta_')
    c.ensure(t.forall(t.length(t.fld(b, 'Lind_')), lambda p: t.lt(t.at(t.fld(b, 'Lind_'), p), t.length(th))),
             'the parameters it starts from cover every stored entry')
    c.ensure(eqt(t.fld(o, 'LambdatThetaZt_'), effects(b, th)), 'cache belongs to the parameters it starts from')
    c.ensure(eqt(t.fld(o, 'XBeta_'), fixed(b, be)), 'cache belongs to the parameters it starts from')


ASSUME['C06'] = [
    'the family at one observation is a twice differentiable function of the linear predictor whose derivatives are what Family::evaluateDerivative and '
    'evaluateSecondDerivative return: proved under C01 for both links, for means that are not clamped',
    'a sparse matrix is the list of its stored entries in storage order (compressed column storage), every entry inside the matrix',
    'a virtual call through the base class reaches the functions proved here (C++ dispatch)',
]
