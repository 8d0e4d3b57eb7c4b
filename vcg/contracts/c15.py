"""C15: first-order and second-order Laplace approximations and their divergence."""
from vcg import terms as t
from vcg.rdeduce import rspec
from vcg.rlang import Num, Sparse, Lst, SLst, Obj, Chr, NULL, PyFun, Clo, sc, lgl, asnum, inverse, BUILTINS
from contracts_rcommon import *
import contracts_c14 as c14


def approx(c, q):
    def make():
        m = t.vecvar('mean', q)
        P = t.matvar('P', q, q)
        t._symm.add(P)
        return Lst(['l_laplace', 'mean', 'precision'], [sc(t.var('l', 'R')), Num(m), Num(P)])
    return make


def third_matrix(f, ps, P):
    """M = (Lambda'Z')' P^-1 (Lambda'Z'): covariances of the linear predictors"""
    L = f.F(ps.vec())
    H = inverse(P)
    return t.mlam(f.n, f.n, lambda i, j: S(f.q, lambda a: t.mul(t.at2(L, a, i), S(f.q, lambda b: t.mul(t.at2(H, a, b), t.at2(L, b, j))))))


def covariances(f, ps, P):
    M = t.setshape(t.app('covariances', f.F(ps.vec()), P, sort='M'), f.n, f.n)
    if t.issym(P):
        t._symm.add(M)
    return M


@rspec('find_M', 'C15')
def _(c):
    m = c.arg('modfr', lambda: modfr(c))
    ps = c.arg('pars', lambda: pars(c, m))
    f = Frame(m)
    na = c.arg('normal_approx', approx(c, f.q))
    P = na.get('precision').x
    right_length(c, ps, m)
    c.req(t.land(t.eq(t.rows(P), f.q), t.eq(t.cols(P), f.q)), 'one row for each effect')
    yield
    M = third_matrix(f, ps, P)
    i, j = t.var('i', 'I'), t.var('j', 'I')
    c.lemma(t.eq(t.at2(M, i, j), t.at2(M, j, i)), 'symmetric')
    c.returns(Num(third_matrix(f, ps, P) if c.mode == 'verify' else covariances(f, ps, P)), 'covariances of the linear predictors under the approximation')


def family_derivatives(c):
    """extended_family: the compiled derivatives of the log-likelihood terms (C01)"""
    def make(I, pos, kw):
        def el(k):
            return PyFun(lambda I2, p, kw2: c14.mapn(I2, p, lambda *x: t.app('loglik_d%d' % k, pos[0].v[0], pos[1].v[0], *x)), 'd%d' % k)
        return Obj('extended_family', {'evaluate_d%d' % k: el(k) for k in (1, 2, 3, 4)})
    c.extern('extended_family', make, 'elementwise derivatives of one observation\'s log-likelihood in its linear predictor (compiled code, C01)')


def correction(f, m, ps):
    """-K4/8 + (2 K23 + 3 K13)/24 with the derivatives of minus the log-density at the mode"""
    fam = m.get('family')
    y, w = m.get('fr').get('(response)'), m.get('fr').get('(weights)')
    u, P = approximation(ps, f.q)
    eta = c14.lp(f, ps, lambda k: t.at(u, k))
    M = covariances(f, ps, P)

    def g(k, i):
        return t.neg(t.app('loglik_d%d' % k, fam.get('family').v[0], fam.get('link').v[0], eta(i), y.el(i), w.el(i)))
    n = f.n
    K4 = S(n, lambda i: t.mul(g(4, i), t.powi(t.at2(M, i, i), 2)))
    K13 = S(n, lambda i: S(n, lambda j: t.mul(g(3, i), g(3, j), t.at2(M, i, i), t.at2(M, i, j), t.at2(M, j, j))))
    K23 = S(n, lambda i: S(n, lambda j: t.mul(g(3, i), g(3, j), t.powi(t.at2(M, i, j), 3))))
    return t.add(t.mul(t.num(-1), t.div(K4, 8)), t.div(t.add(t.mul(2, K23), t.mul(3, K13)), 24))


@rspec('find_epsilon_1', 'C15', cases=('', 'offset'))
def _(c):
    m = c.arg('modfr', lambda: modfr(c, offset=c.case == 'offset'))
    ps = c.arg('pars', lambda: pars(c, m))
    d = c.arg('devfun_laplace_1', lambda: devfun(c))
    right_length(c, ps, m)
    family_derivatives(c)
    yield
    if c.mode == 'use':
        c.result = sc(t.app('epsilon_1', ps.vec()))
        return
    c.returns(sc(correction(Frame(m), m, ps)), 'standard second-order correction')


def numderiv(c):
    def at(I, pos, kw):
        kw = dict(kw)
        f = kw.pop('func', None) or pos[0]
        x = kw.pop('x', None) or pos[1 if f is pos[0] else 0]
        p = t.vecvar('%point', x.n)
        v = I.apply(f, [Num(p)], kw)
        return v.x, x
    c.extern('numDeriv::grad', lambda I, pos, kw: (lambda v, x: Num(t.setshape(t.app('gradient_of', v, x.vec(), sort='V'), x.n)))(*at(I, pos, kw)),
             'gradient of the function passed, at the point passed')
    c.extern('numDeriv::hessian', lambda I, pos, kw: (lambda v, x: Num(t.setshape(t.app('hessian_of', v, x.vec(), sort='M'), x.n, x.n)))(*at(I, pos, kw)),
             'Hessian of the function passed, at the point passed')


def eps_grad(ps):
    p = t.vecvar('%point', ps.n)
    return t.setshape(t.app('gradient_of', t.app('epsilon_1', p), ps.vec(), sort='V'), ps.n)


def eps_hess(ps):
    p = t.vecvar('%point', ps.n)
    return t.setshape(t.app('hessian_of', t.app('epsilon_1', p), ps.vec(), sort='M'), ps.n, ps.n)


for _name, _val in (('find_delta_1', eps_grad), ('find_gamma_1', eps_hess)):
    def _(c, val=_val):
        m = c.arg('modfr', lambda: modfr(c))
        ps = c.arg('pars', lambda: pars(c, m))
        d = c.arg('devfun_laplace_1', lambda: devfun(c))
        right_length(c, ps, m)
        numderiv(c)
        yield
        c.returns(Num(val(ps)), 'derivative of the second-order correction at the estimate')
    rspec(_name, 'C15')(_)


@rspec('find_laplace_divergence', 'C15', cases=('gradient', 'second derivatives'))
def _(c):
    m = c.arg('modfr', lambda: modfr(c))
    est = Num(t.vecvar('estim', t.add(Frame(m).h, Frame(m).p)))
    n = est.n
    Sg = t.matvar('Sigma', n, n)
    t._symm.add(Sg)
    fit = c.arg('fit_laplace_1', lambda: Lst(['estim', 'Sigma'], [est, Num(Sg)]))
    d = c.arg('devfun_laplace_1', lambda: devfun(c))
    if c.case == 'second derivatives':
        c.arg('use_second_derivatives', lgl(True))
    yield
    est, Sg = fit.get('estim'), fit.get('Sigma').x
    dl = eps_grad(est)
    n = est.n
    if c.case == 'second derivatives':
        G = eps_hess(est)
        J = inverse(Sg)
        S2 = inverse(t.mlam(n, n, lambda i, j: t.sub(t.at2(J, i, j), t.at2(G, i, j))))
        df = lambda i: S(n, lambda k: t.mul(t.at2(S2, k, i), t.at(dl, k)))
        KL = t.div(t.add(t.sub(t.log(t.app('det', Sg)), t.log(t.app('det', S2))), t.neg(n),
                         S(n, lambda i: S(n, lambda k: t.mul(t.at2(J, i, k), t.at2(S2, k, i)))),
                         S(n, lambda i: S(n, lambda j: t.mul(df(i), t.at2(J, i, j), df(j))))), 2)
        c.returns(sc(KL), 'Kullback-Leibler divergence between the two Gaussian posteriors')
    else:
        c.returns(sc(t.div(S(n, lambda i: S(n, lambda j: t.mul(t.at(dl, i), t.at2(Sg, i, j), t.at(dl, j)))), 2)),
                  'half the quadratic form of the gradient of the correction in the covariance')


@rspec('is_canonical', 'C13 C15')
def _(c):
    fam = c.arg('family', lambda: Obj('family', {'family': Chr([t.var('family', 'S')]), 'link': Chr([t.var('link', 'S')])}))
    if c.mode == 'verify':
        f = fam.get('family').v[0]
        c.extern('parse', lambda I, pos, kw: Obj('source', {'text': kw['text']}), 'parse(text =) reads the text')
        c.extern('eval', lambda I, pos, kw: Obj('default family', {'link': Chr([t.app('canonical_link', f, sort='S')])}),
                 'calling a family constructor without arguments gives that family with its canonical link')
    yield
    c.returns(lgl(t.eq(fam.get('link').v[0], t.app('canonical_link', fam.get('family').v[0], sort='S'))), 'whether the link is the canonical one')


def unsupported(fam, order):
    canon = t.eq(fam.get('link').v[0], t.app('canonical_link', fam.get('family').v[0], sort='S'))
    return t.lor(t.lt(2, order), t.land(t.lt(1, order), t.lnot(canon)))


@rspec('check_if_order_implemented', 'C13 C15')
def _(c):
    fam = c.arg('family', lambda: Obj('family', {'family': Chr([t.var('family', 'S')]), 'link': Chr([t.var('link', 'S')])}))
    o = c.arg('order', lambda: sc(t.var('order', 'R')))
    yield
    c.stops(unsupported(fam, o.x), 'stops exactly for orders above 2, and above 1 with a non-canonical link')
    if c.mode == 'use':
        c.result = NULL


@rspec('find_lfun_Laplace', 'C15 C13 C09', cases=(1, 2, None))
def _(c):
    m = c.arg('modfr', lambda: modfr(c))
    d = c.arg('devfun_laplace_1', lambda: devfun(c))
    o = c.arg('order', lambda: sc(t.num(c.case)) if c.case else sc(t.var('order', 'R')))
    if c.mode == 'verify' and not c.case:
        c.req(t.lt(2, o.x))
    yield
    fam, f = m.get('family'), Frame(m)
    if c.mode != 'verify':
        raise c14.Unsupported('use of find_lfun_Laplace')
    c.stops(unsupported(fam, o.x) if c.case != 1 else t.FALSE, 'stops exactly for orders that are not implemented')
    if c.stopped is not None:
        return
    ps = Num(t.vecvar('pars', count(c, 'given')))
    n0 = len(c.I.effects)
    v = c.call(c.result, ps)
    bad = t.lnot(t.eq(ps.n, t.add(f.h, f.p)))
    c.ensure(bad if isinstance(v, RStop) else t.lnot(bad), 'stops exactly when the number of parameters is wrong')
    if isinstance(v, RStop):
        return
    first = t.mul(t.num(-1), t.div(t.app('deviance', ps.vec()), 2))
    want = first if c.case == 1 else t.add(first, t.app('epsilon_1', ps.vec()))
    c.same(v, sc(want), 'minus half the deviance' + (' plus the second-order correction' if c.case == 2 else ''))
    c.call(c.result, Num(t.vecvar('other', t.add(f.h, f.p))))
    c.same(c.call(c.result, ps), v, 'same value when called again after other parameters')
    c.ensure(t.tm(len(c.I.effects) == n0), 'the log-likelihood function changes nothing when called')


ASSUME['C15'] = [
    'lme4\'s deviance function returns the first-order Laplace deviance and leaves the mode and the Cholesky factor of the expected Hessian there',
    'numDeriv::grad and numDeriv::hessian return the derivatives of the function passed (numerical differentiation)',
    'the compiled third and fourth derivatives are those of the log-likelihood term (proved under C01 for the logit link and the regular range of the probit link)',
    'floating-point arithmetic is treated as real arithmetic']
