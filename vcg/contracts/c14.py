"""C14: importance sampling averages exact weights under one fixed set of draws."""
from vcg import terms as t
from vcg.rdeduce import rspec
from vcg.rlang import Num, Sparse, Lst, SLst, Obj, Chr, NULL, PyFun, sc, lgl, lognorm, asnum, column
from contracts_rcommon import *


@rspec('check_pars', 'C09 C14 C15')
def _(c):
    m = c.arg('modfr', lambda: modfr(c))
    p = c.arg('pars', lambda: Num(t.vecvar('pars', count(c, 'given'))))
    yield
    f = Frame(m)
    c.stops(t.lnot(t.eq(p.n, t.add(f.h, f.p))), 'stops exactly when the number of parameters is wrong')
    if c.mode == 'use':
        c.result = NULL


@rspec('find_XBeta', 'C14 C15', cases=('', 'offset'))
def _(c):
    m = c.arg('modfr', lambda: modfr(c, offset=c.case == 'offset'))
    ps = c.arg('pars', lambda: pars(c, m))
    right_length(c, ps, m)
    yield
    f = Frame(m)
    c.returns(Num(t.lam(f.n, f.fixed(ps.vec()))), 'fixed part of the linear predictor, with the offset')


@rspec('find_LambdatThetaZt', 'C14 C15')
def _(c):
    m = c.arg('modfr', lambda: modfr(c))
    ps = c.arg('pars', lambda: pars(c, m))
    right_length(c, ps, m)
    yield
    f = Frame(m)
    c.returns(Num(t.mlam(f.q, f.n, f.factor(ps.vec())) if c.mode == 'verify' else f.F(ps.vec())), 'factor of the current parameters times the design')


def lp(f, ps, u):
    """linear predictor of observation i at random effects u(k)"""
    fx, fa = f.fixed(ps.vec()), f.F(ps.vec())
    return lambda i: t.add(fx(i), S(f.q, lambda k: t.mul(u(k), t.at2(fa, k, i))))


@rspec('find_eta', 'C14 C15', cases=('one', 'several', 'none'))
def _(c):
    def u():
        q = count(c, 'q', 1)
        return Num(t.vecvar('u', q)) if c.case == 'one' else Num(t.matvar('u', q, count(c, 'r', 1)))
    u = c.arg('u', u)
    L = c.arg('LambdatThetaZt', lambda: Num(t.matvar('L', t.var('q', 'I'), count(c, 'n', 1))))
    xb = c.arg('XBeta', lambda: Num(t.vecvar('XBeta', t.cols(L.x) if c.case != 'none' else 0)))
    n = t.cols(L.x)
    has = c.mode == 'verify' and c.case != 'none' or c.mode == 'use' and xb.n is not t.ZERO
    if has:
        c.req(t.eq(xb.n, n), 'one fixed part for each observation')
    c.req(t.eq(t.rows(L.x), u.n if u.mode != 'm' else t.rows(u.x)), 'one effect for each row')
    yield
    x0 = (lambda i: xb.el(i)) if has else (lambda i: t.ZERO)
    if u.mode == 'm':
        c.returns(Num(t.mlam(t.cols(u.x), n, lambda j, i: t.add(x0(i), S(t.rows(u.x), lambda k: t.mul(t.at2(u.x, k, j), t.at2(L.x, k, i))))), 'f'),
                  'linear predictors of every sample at the first observation, then the second, ...')
    else:
        c.returns(Num(t.lam(n, lambda i: t.add(x0(i), S(u.n, lambda k: t.mul(u.el(k), t.at2(L.x, k, i)))))), 'linear predictor of each observation')


def log_integrand(f, m, ps, u):
    """log of the density of the observations (as deviance) and effects u(k) together"""
    fam = m.get('family')
    eta = lp(f, ps, u)
    y, w = m.get('fr').get('(response)'), m.get('fr').get('(weights)')
    return t.add(t.mul(t.num(-1), t.div(S(f.n, lambda i: t.app('dev', y.el(i), t.app('linkinv', eta(i)), w.el(i))), 2)),
                 S(f.q, lambda k: lognorm(u(k))))


def response_given(c):
    """find_response has its own contract (C10): here the frame holds numbers and weights"""
    pass


@rspec('find_log_integrand', 'C14', cases=('', 'offset'))
def _(c):
    m = c.arg('modfr', lambda: modfr(c, offset=c.case == 'offset'))
    ps = c.arg('pars', lambda: pars(c, m))
    right_length(c, ps, m)
    yield
    f = Frame(m)

    def value(u):
        return Num(t.lam(t.cols(u), lambda j: log_integrand(f, m, ps, lambda k: t.at2(u, k, j))))
    if c.mode == 'use':
        def go(I, pos, kw):
            I.oblige('precondition', t.eq(t.rows(pos[0].x), f.q), 'one effect for each row of the samples')
            return value(pos[0].x)
        c.result = PyFun(go, 'log_integrand')
    elif c.stopped is None:
        u = t.matvar('u', f.q, count(c, 'r', 1))
        c.same(c.call(c.result, Num(u)), value(u), 'log joint density of observations and effects of each sample')


@rspec('compute_normal_approx', 'C14 C15 C09')
def _(c):
    """mean and precision of lme4 at these parameters (after its deviance function ran at them)"""
    q = count(c, 'q', 1)
    I = c.I
    if c.mode == 'verify':
        ps = c.arg('pars', Num(t.vecvar('pars', count(c, 'npar', 1))))
        pp = t.app('state', ps.vec(), sort='O')
        L, P = (t.setshape(t.app(x, pp, sort='M'), q, q) for x in ('L', 'P'))
        d = devfun(c)

        def current(name):
            def go():
                return t.app('state', I.state['pp'].vec(), sort='O') if 'pp' in I.state else t.var('%state before', 'O')
            return go
        st = current('pp')
        PR = Obj('PR', {'L': PyFun(lambda I2, pos, kw: Obj('CHM', {'of': st()}), 'L'),
                        'delu': lambda: Num(t.setshape(t.app('delu', st(), sort='V'), q))})
        d.env = Obj('environment', {'pp': PR})
        c.arg('devfun_lme4', d)

        def expand(I2, pos, kw):
            o = pos[0].get('of')
            return Lst(['P', 'L'], [Num(t.setshape(t.app('P', o, sort='M'), q, q)), Num(t.setshape(t.app('L', o, sort='M'), q, q))])
        c.extern('expand', expand, 'the Cholesky factorization of lme4 is P\'LL\'P = precision of the random effects at the last parameters used')
    else:
        ps, d = c.arg('pars'), c.arg('devfun_lme4')
    yield
    if c.mode == 'verify':
        prec = t.mlam(q, q, lambda a, b: S(q, lambda i: S(q, lambda j: S(q, lambda k: t.mul(
            t.at2(P, i, a), t.at2(L, i, k), t.at2(L, j, k), t.at2(P, j, b))))))
        c.returns(Lst(['l_laplace', 'mean', 'precision'],
                      [sc(t.mul(t.num(-1), t.div(t.app('deviance', ps.vec()), 2))), Num(t.setshape(t.app('delu', pp, sort='V'), q)), Num(prec)]),
                  'approximation at these parameters')
    else:
        m, P = approximation(ps, t.var('q', 'I'))
        c.result = Lst(['l_laplace', 'mean', 'precision'], [sc(t.mul(t.num(-1), t.div(t.app('deviance', ps.vec()), 2))), Num(m), Num(P)])


def gaussian(m, P, n, u):
    """log-density of the normal approximation at u(k)"""
    return t.sub(t.sub(t.div(t.log(t.app('det', P)), 2),
                       t.div(S(n, lambda a: S(n, lambda b: t.mul(t.sub(u(a), t.at(m, a)), t.at2(P, a, b), t.sub(u(b), t.at(m, b))))), 2)),
                 t.mul(n, t.app('%log(sqrt(2*pi))')))


def proposal(c):
    q, r = count(c, 'q', 1), count(c, 'r', 1)
    z = c.arg('z', lambda: Num(t.matvar('z', q, r)))

    def make():
        m = t.vecvar('mean', q)
        P = t.matvar('P', q, q)
        t._symm.add(P)
        return Lst(['l_laplace', 'mean', 'precision'], [sc(t.var('l', 'R')), Num(m), Num(P)])
    na = c.arg('normal_approx', make)
    m, P = na.get('mean').vec(), na.get('precision').x
    c.req(t.land(t.eq(t.rows(P), t.rows(z.x)), t.eq(t.cols(P), t.rows(z.x)), t.eq(t.length(m), t.rows(z.x))), 'one row of draws for each effect')
    return z, m, P


@rspec('transform_normal', 'C14')
def _(c):
    z, m, P = proposal(c)
    yield
    C = t.setshape(t.app('icholu', P, sort='M'), t.rows(P), t.cols(P))
    c.returns(Num(t.mlam(t.rows(P), t.cols(z.x), lambda i, j: t.add(t.at(m, i), S(t.rows(P), lambda k: t.mul(t.at2(C, i, k), t.at2(z.x, k, j)))))),
              'mean plus the inverse Cholesky factor of the precision times the draws')
    x, y = t.var('x', 'I'), t.var('y', 'I')
    c.lemma(t.eq(S(t.rows(P), lambda a: S(t.rows(P), lambda b: t.mul(t.at2(C, a, x), t.at2(P, a, b), t.at2(C, b, y)))), t.iv(t.eq(x, y))),
            'independent standard normal draws give samples whose precision is that of the approximation')


def log_weights(c, z, li, m, P):
    """the log weights as one opaque vector (what find_log_weights returns, proved to have the elements stated there)"""
    f = c.I.apply(li, [Num(t.matvar('%samples', t.rows(z), t.cols(z)))])
    return t.setshape(t.app('log_weights', z, f.vec(), m, P, sort='V'), t.cols(z))


@rspec('find_log_weights', 'C14')
def _(c):
    z, m, P = proposal(c)
    n = t.rows(P)

    def lg():
        f = t.var('log_integrand', 'O')
        return PyFun(lambda I, pos, kw: Num(t.lam(t.cols(pos[0].x), lambda j: t.app('call', f, t.lam(t.rows(pos[0].x), lambda k: t.at2(pos[0].x, k, j))))), 'log_integrand')
    li = c.arg('log_integrand', lg)
    yield
    if c.mode == 'use':
        c.result = Num(log_weights(c, z.x, li, m, P))
        return
    C = t.setshape(t.app('icholu', P, sort='M'), t.rows(P), t.cols(P))
    u = t.mlam(n, t.cols(z.x), lambda i, j: t.add(t.at(m, i), S(n, lambda k: t.mul(t.at2(C, i, k), t.at2(z.x, k, j)))))
    top = c.I.apply(li, [Num(u)])
    c.returns(Num(t.lam(t.cols(z.x), lambda j: t.sub(t.at(top.vec(), j), gaussian(m, P, n, lambda k: t.at2(u, k, j))))),
              'log integrand minus the log-density the sample was drawn from')


@rspec('find_lfun_IS', 'C14 C09', cases=('', 'offset'))
def _(c):
    m = c.arg('modfr', lambda: modfr(c, offset=c.case == 'offset'))
    d = c.arg('devfun_laplace', lambda: devfun(c))
    N = count(c, 'nIS', 1)
    if c.mode == 'verify':
        c.arg('nIS', sc(N))
    yield
    if c.mode != 'verify' or c.stopped is not None:
        return
    c.effects('rng')
    f = Frame(m)
    lf = c.result
    ps = Num(t.vecvar('pars', count(c, 'given')))
    n0 = len(c.I.effects)
    v = c.call(lf, ps)
    after = c.I.effects[n0:]
    c.ensure(t.tm(not after), 'the log-likelihood function draws nothing and changes nothing when called')
    c.ensure(t.tm(sum(e[0] == 'rng' for e in c.I.effects) == 1), 'draws are made once, when the function is made')
    bad = t.lnot(t.eq(ps.n, t.add(f.h, f.p)))
    c.ensure(bad if isinstance(v, RStop) else t.lnot(bad), 'stops exactly when the number of parameters is wrong')
    if isinstance(v, RStop):
        return
    z = t.setshape(t.app('bycol', t.vecvar('%draws1', t.mul(f.q, N)), f.q, sort='M'), f.q, N)
    mn, P = approximation(ps, f.q)
    W = log_weights(c, z, PyFun(lambda I, p, kw: Num(t.lam(t.cols(p[0].x), lambda j: log_integrand(f, m, ps, lambda k: t.at2(p[0].x, k, j)))), 'li'), mn, P)
    c.same(v, sc(t.log(t.div(S(N, lambda j: t.exp(t.at(W, j))), N))), 'log of the average of integrand over sampling density')
    k = t.var('at', 'I')
    for a, ctx in c.I.exp_args:
        inst = [t.subst(x.a[2], {x.a[1]: k}) for x in c.I.facts if x.op == 'forall' and x.a[0] is a.n]
        c.goal('post', t.implies(t.land(t.le(0, k), t.lt(k, a.n)), t.le(a.el(k) if a.mode == 'v' else a.x, 0)), 'no exponential can overflow', *inst)
        c.ensure(t.lor(*[t.land(t.le(0, p), t.lt(p, a.n), t.eq(a.el(p), 0)) for _, _, p in c.I.extremes]) if a.mode == 'v' else t.eq(a.x, 0),
                 'not all exponentials can underflow: the largest is 1')
    p2 = Num(t.vecvar('other', t.add(f.h, f.p)))
    c.call(lf, p2)
    c.same(c.call(lf, ps), v, 'same value when called again after other parameters')


ASSUME['C14'] = [
    'chol, solve, determinant, crossprod: the matrix functions of R and Matrix compute what they are named for',
    'lme4: after its deviance function ran at some parameters, its environment holds the conditional mode and the Cholesky factor of the precision there',
    'the draws of rnorm are independent standard normal (statistical exactness of the estimator rests on it)',
    'floating-point arithmetic is treated as real arithmetic']
