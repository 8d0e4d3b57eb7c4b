"""C02: Gauss-Hermite quadrature."""
from vcg import terms as t
from vcg.deduce import spec, ASSUME
from vcg.terms import ONE, ZERO

SQRT2 = t.sqrt(t.num(2))
HALF = t.num(t.Fr(1, 2))


def isint(f):
    return f['params'][0]['t']['k'] == 'int'


def jacobi(n):
    """Jacobi matrix of the Hermite polynomials: zero diagonal, sqrt(i/2) beside it"""
    return t.mlam(n, n, lambda i, j: t.add(t.mul(t.iv(t.eq(i, t.add(j, 1))), t.sqrt(t.mul(HALF, i))),
                                           t.mul(t.iv(t.eq(j, t.add(i, 1))), t.sqrt(t.mul(HALF, j)))))


@spec('QuadratureRule::findHermiteJacobi', 'C02 C17')
def _(c):
    n = c.a(0)
    c.req(t.le(0, n), 'a number of points')
    yield
    c.returns(t.mlam(n, n, lambda i, j: t.mul(t.iv(t.eq(i, t.add(j, 1))), t.sqrt(t.mul(HALF, i)))),
              'lower triangle of the Jacobi matrix of the Hermite polynomials')


@spec('QuadratureRule::QuadratureRule', 'C02 C17', np=1, pred=isint, use=False, name='QuadratureRule(n)')
def _(c):
    n = c.a(0)
    c.req(t.le(1, n), 'a number of points')
    yield
    from vcg.deduce import eqt
    o = c.result
    J = jacobi(n)
    x, w = t.fld(o, 'nodes_'), t.fld(o, 'weights_')
    c.ensure(t.eq(t.length(x), n), 'n nodes')
    c.ensure(t.eq(t.length(w), n), 'n weights')
    ev = t.setshape(t.app('eigval', J, sort='V'), n)
    U = t.setshape(t.app('eigvec', J, sort='M'), n, n)
    c.ensure(eqt(x, ev), 'the nodes are the eigenvalues of the Jacobi matrix, each once')
    c.ensure(eqt(w, t.lam(n, lambda k: t.mul(t.var('%sqrt(pi)', 'R'), t.powi(t.at2(U, 0, k), 2)))),
             'the weight of a node is sqrt(pi) times the squared first entry of its eigenvector')


def quadrature(f, rule, m, s, at=None):
    """sqrt(2)*s * sum over every node once of w_i * exp(x_i^2) * f(m + sqrt(2)*s*x_i)"""
    x, w = t.fld(rule, 'nodes_'), t.fld(rule, 'weights_')
    g = t.mul(SQRT2, s)
    return t.mul(g, t.SUM(t.length(x), lambda i: t.mul(t.at(w, i), t.exp(t.powi(t.at(x, i), 2)), f(t.add(m, t.mul(g, t.at(x, i)))))))


def rule_ok(c, i):
    r = c.a(i)
    c.req(t.eq(t.length(t.fld(r, 'weights_')), t.length(t.fld(r, 'nodes_'))), 'one weight for every node')
    return r


@spec('integrate1D', 'C02 C17')
def _(c):
    r = rule_ok(c, 3)
    yield
    f, m, s = c.fun(0), c.a(1), c.a(2)
    ap = lambda h: (lambda x: t.app('call', h, x))
    c.returns(quadrature(f, r, m, s), 'every node once, with the weight of the scaled and shifted rule')
    if c.mode == 'verify':
        g, h = t.var('g', 'O'), t.var('h', 'O')
        a, b = t.var('a', 'R'), t.var('b', 'R')
        c.lemma(t.eq(quadrature(lambda x: t.add(t.mul(a, ap(g)(x)), t.mul(b, ap(h)(x))), r, m, s),
                     t.add(t.mul(a, quadrature(ap(g), r, m, s)), t.mul(b, quadrature(ap(h), r, m, s)))), 'linear in the integrand')
        p = t.var('p', 'O')
        x, w = t.fld(r, 'nodes_'), t.fld(r, 'weights_')
        k = t.mul(SQRT2, s)
        c.lemma(t.eq(quadrature(lambda z: t.mul(ap(p)(z), t.exp(t.mul(t.neg(HALF), t.powi(t.sub(z, m), 2), t.powi(s, -2)))), r, m, s),
                     t.mul(k, t.SUM(t.length(x), lambda i: t.mul(t.at(w, i), ap(p)(t.add(m, t.mul(k, t.at(x, i)))))))),
                'applied to p(x)*exp(-(x-m)^2/(2s^2)) it is sqrt(2)*s times the plain rule sum w_i p(m+sqrt(2)*s*x_i)', t.lt(0, s))


def of_length(c, f, d, rule, m, s, shape):
    x = t.fld(rule, 'nodes_')
    c.req(t.le(0, d), 'a length')
    k = t.mul(SQRT2, s)

    def ok(i):
        v = f(t.add(m, t.mul(k, t.at(x, i))))
        return t.eq(t.length(v), d) if shape == 'V' else t.land(t.eq(t.rows(v), d), t.eq(t.cols(v), d))
    c.req(t.forall(t.length(x), ok), 'the integrand has that length')


@spec('integrate1DVector', 'C02 C17')
def _(c):
    r = rule_ok(c, 4)
    f, d, m, s = c.fun(0, 'V'), c.a(1), c.a(2), c.a(3)
    of_length(c, f, d, r, m, s, 'V')
    yield
    c.returns(t.lam(d, lambda j: quadrature(lambda x: t.at(f(x), j), r, m, s)),
              'entry j is the scalar rule applied to entry j of the integrand')


@spec('integrate1DMatrix', 'C02 C17')
def _(c):
    r = rule_ok(c, 4)
    f, d, m, s = c.fun(0, 'M'), c.a(1), c.a(2), c.a(3)
    of_length(c, f, d, r, m, s, 'M')
    yield
    c.returns(t.mlam(d, d, lambda j, k: quadrature(lambda x: t.at2(f(x), j, k), r, m, s)),
              'entry j,k is the scalar rule applied to entry j,k of the integrand')


ASSUME['C02'] = [
    'Golub-Welsch (mathematics): the eigenvalues of that Jacobi matrix and sqrt(pi) times the squared first entries of its orthonormal '
    'eigenvectors are the nodes and weights of the rule that integrates p(x)exp(-x^2) exactly for degree at most 2n-1',
    'Eigen::SelfAdjointEigenSolver returns the eigenvalues and orthonormal eigenvectors of the symmetric matrix with the given lower triangle',
    'floating-point arithmetic is treated as real arithmetic']
