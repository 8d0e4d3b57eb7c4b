"""C03: integrating out one coordinate of a log-density."""
from vcg import terms as t
from vcg.deduce import spec, ASSUME, eqt
from vcg.terms import ONE, ZERO
import contracts_c02 as c02
import contracts_c04 as c04

fld = t.fld


def function_of(n):
    """a twice continuously differentiable function of n variables with its derivatives"""
    F, D, H = t.var('F', 'O'), t.var('gradient of F', 'O'), t.var('Hessian of F', 'O')
    t.ufunction(F, ONE, D)
    t.ufunction(D, n, H)
    t.ufunction(H, n, None, True)
    return F, D, H


def ap(f, y):
    return t.app('call', f, y)


def ext(x, i, z):
    """x with z inserted at position i"""
    return t.lam(t.add(t.length(x), 1), lambda k: t.add(t.mul(t.iv(t.eq(k, i)), z), t.mul(t.iv(t.lt(k, i)), t.at(x, k)),
                                                        t.mul(t.iv(t.lt(i, k)), t.at(x, t.sub(k, 1)))))


def integrated(c):
    m = c04.dim(c, 'm')
    n = t.add(m, 1)
    i = t.var('i', 'I')
    if c.mode == 'verify':
        c.req(t.land(t.le(0, i), t.lt(i, n)), 'the coordinate exists')
    F, D, H = function_of(n)
    o = t.rec('IntegratedFunction', {
        'integrateOver_': i, 'function_': F, 'derivativeFunction_': D, 'secondDerivativeFunction_': H,
        'logValueAtMean_': t.var('value at the mean', 'R'), 'normal_': c04.anormal(c, 'normal'), 'mean1_': t.var('mean1', 'R'),
        'mean2_': t.vecvar('mean2', m), 'cross_': t.vecvar('cross', m), 'sigmaConditional_': t.var('sigma', 'R')})
    if c.mode == 'verify':
        c.setthis(o)
    return o


def conditional_mean(o, x):
    return t.add(fld(o, 'mean1_'), t.SUM(t.length(x), lambda k: t.mul(t.at(fld(o, 'cross_'), k), t.sub(t.at(x, k), t.at(fld(o, 'mean2_'), k)))))


def quadrature_sum(o, x, rule):
    """the rule along the conditional Gaussian applied to exp(F - L)"""
    i, L = fld(o, 'integrateOver_'), fld(o, 'logValueAtMean_')
    return c02.quadrature(lambda z: t.exp(t.sub(ap(fld(o, 'function_'), ext(x, i, z)), L)), rule, conditional_mean(o, x), fld(o, 'sigmaConditional_'))


def value(o, x, rule):
    return t.add(t.log(quadrature_sum(o, x, rule)), fld(o, 'logValueAtMean_'))


def setting(c):
    o = integrated(c)
    r = c02.rule_ok(c, 1)
    c.req(t.eq(t.length(c.a(0)), t.length(fld(o, 'mean2_'))), 'a value for every other coordinate')
    c.setarg(0, t.vecvar('x', t.length(fld(o, 'mean2_'))))
    return o, r


@spec('IntegratedFunction::evaluate', 'C03 C17', use=False)
def _(c):
    o, r = setting(c)
    yield
    c.returns(value(o, c.a(0), r), 'log of the quadrature sum along the conditional Gaussian')


@spec('IntegratedFunction::evaluateDerivative', 'C03 C17', use=False)
def _(c):
    o, r = setting(c)
    yield
    x = c.a(0)
    c.returns(t.lam(t.length(x), lambda j: c04.partial(lambda y: value(o, y, r), x, j)), 'gradient of the returned value')


@spec('IntegratedFunction::evaluateSecondDerivative', 'C03 C17', use=False)
def _(c):
    o, r = setting(c)
    yield
    x = c.a(0)
    n = t.length(x)
    c.returns(t.mlam(n, n, lambda j, k: c04.partial(lambda y: value(o, y, r), x, j, k)), 'Hessian of the returned value')


def without(v, i):
    return t.lam(t.sub(t.length(v), 1), lambda k: t.add(t.mul(t.iv(t.lt(k, i)), t.at(v, k)), t.mul(t.iv(t.le(i, k)), t.at(v, t.add(k, 1)))))


def without2(m, i):
    rows = lambda b: without(t.lam(t.rows(m), lambda a: t.at2(m, a, b)), i)
    k1 = t.sub(t.rows(m), 1)
    return t.mlam(k1, k1, lambda a, b: t.at(without(t.lam(t.rows(m), lambda y: t.at(rows(y), a)), i), b))


@spec('IntegratedFunction::IntegratedFunction', 'C03 C17', use=False, cases=('proper', 'improper', 'one coordinate', 'one coordinate, improper'))
def _(c):
    if c.case.startswith('one'):
        n = ONE
    else:
        m = c04.dim(c, 'm')
        n = t.add(m, 2)
    i = c.a(0)
    c.req(t.land(t.le(0, i), t.lt(i, n)), 'the coordinate exists')
    F, D, H = function_of(n)
    c.setarg(1, F)
    c.setarg(2, D)
    c.setarg(3, H)
    mu, Q, V = t.vecvar('mean', n), c04.symmat('precision', n), c04.symmat('variance', n)
    proper = not c.case.endswith('improper')
    z = t.var('normalizer', 'R') if proper else t.neg(t.var('%inf', 'R'))
    if proper:
        c.req(t.app('isfinite', z, sort='B'), 'the Gaussian is proper')
    c.setarg(4, t.rec('MultiNormal', {'mean_': mu, 'precision_': Q, 'variance_': V, 'normalizer_': z}))
    yield
    from vcg.deduce import eqt
    o = c.result
    if not proper:
        I = t.mlam(n, n, lambda a, b: t.iv(t.eq(a, b)))
        V = c04.inv(I)
    c.ensure(eqt(fld(o, 'integrateOver_'), i), 'the coordinate')
    c.ensure(eqt(fld(o, 'function_'), F), 'the function')
    c.ensure(eqt(fld(o, 'derivativeFunction_'), D), 'its gradient')
    c.ensure(eqt(fld(o, 'secondDerivativeFunction_'), H), 'its Hessian')
    c.ensure(eqt(fld(o, 'logValueAtMean_'), ap(F, mu)), 'value of the function at the mean')
    c.ensure(eqt(fld(o, 'mean1_'), t.at(mu, i)), 'mean of the coordinate')
    k1 = t.sub(n, 1)
    c.ensure(eqt(fld(o, 'mean2_'), without(mu, i)), 'mean of the others')
    if c.case.startswith('one'):
        c.ensure(eqt(fld(o, 'sigmaConditional_'), t.sqrt(t.at2(V, ZERO, ZERO))), 'standard deviation of the coordinate')
        c.ensure(eqt(t.length(fld(o, 'cross_')), ZERO), 'no regression coefficients')
        return
    V22 = without2(V, i)
    V21 = without(t.lam(n, lambda b: t.at2(V, i, b)), i)
    cross = c04.mv(c04.inv(V22), V21)
    c.ensure(eqt(fld(o, 'cross_'), cross), 'regression coefficients of the coordinate on the others')
    c.ensure(eqt(fld(o, 'sigmaConditional_'),
                 t.sqrt(t.sub(t.at2(V, i, i), t.SUM(k1, lambda a: t.mul(t.at(V21, a), t.at(cross, a)))))),
             'standard deviation of the coordinate given the others')


@spec('IntegratedFunction::findConditionalMean', 'C03 C17', use=False)
def _(c):
    o = integrated(c)
    c.req(t.eq(t.length(c.a(0)), t.length(fld(o, 'mean2_'))), 'a value for every other coordinate')
    c.setarg(0, t.vecvar('x', t.length(fld(o, 'mean2_'))))
    yield
    c.returns(conditional_mean(o, c.a(0)), 'mean of the coordinate given the others')
    # the conditional distribution, with the coordinate first: V = (V11 V12; V21 A), g = inv(A) V21, s = V11 - V12 g
    m = t.length(fld(o, 'mean2_'))
    A = c04.symmat('A', m)
    B, g, s = c04.inv(A), t.vecvar('g', m), t.var('s', 'R')
    d, z = t.vecvar('d', m), t.var('z', 'R')
    S = lambda f: t.SUM(m, f)
    V21 = lambda j: S(lambda k: t.mul(t.at2(A, j, k), t.at(g, k)))
    V11 = t.add(s, S(lambda j: t.mul(t.at(g, j), V21(j))))
    q11 = t.powi(s, -1)
    q21 = lambda j: t.neg(t.mul(t.at(g, j), q11))
    q22 = lambda j, k: t.add(t.at2(B, j, k), t.mul(t.at(g, j), t.at(g, k), q11))
    pos = t.lt(0, s)
    I = lambda j, k: t.iv(t.eq(j, k))
    c.lemma(t.eq(t.add(t.mul(q11, V11), S(lambda k: t.mul(q21(k), V21(k)))), ONE), 'block form of the precision is the inverse of the variance (1,1)', pos)
    c.lemma(t.forall(m, lambda j: t.eq(t.add(t.mul(q11, V21(j)), S(lambda k: t.mul(q21(k), t.at2(A, k, j)))), ZERO)), 'block form (1,2)', pos)
    c.lemma(t.forall(m, lambda j: t.eq(t.add(t.mul(q21(j), V11), S(lambda k: t.mul(q22(j, k), V21(k)))), ZERO)), 'block form (2,1)', pos)
    c.lemma(t.forall(m, lambda j: t.forall(m, lambda l: t.eq(t.add(t.mul(q21(j), V21(l)), S(lambda k: t.mul(q22(j, k), t.at2(A, k, l)))), I(j, l)))),
            'block form (2,2)', pos)
    gd = S(lambda k: t.mul(t.at(g, k), t.at(d, k)))
    form = t.add(t.mul(q11, z, z), t.mul(t.num(2), z, S(lambda k: t.mul(q21(k), t.at(d, k)))),
                 S(lambda j: S(lambda k: t.mul(t.at(d, j), q22(j, k), t.at(d, k)))))
    c.lemma(t.eq(form, t.add(t.mul(t.powi(t.sub(z, gd), 2), q11), S(lambda j: S(lambda k: t.mul(t.at(d, j), t.at2(B, j, k), t.at(d, k)))))),
            'as a function of the coordinate, the Gaussian density is that with the conditional mean and standard deviation, '
            'times the marginal density of the others', pos)


ASSUME['C03'] = [
    'the function passed in is a function of its argument with the gradient and symmetric Hessian passed with it (proved for the callers under C05)',
    'the variance block of the other coordinates is invertible and the conditional variance positive (the Gaussian is proper)',
    'exactness for Gaussian integrands: the lemmas here plus the C02 lemma for p(x)exp(-(x-m)^2/(2s^2)) with constant p, and sum of the weights = sqrt(pi)',
    'floating-point arithmetic is treated as real arithmetic']
