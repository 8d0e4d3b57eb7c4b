"""C16: reported estimates and variances come from the maximised log-likelihood."""
from vcg import terms as t
from vcg.rdeduce import rspec
from vcg.rlang import Num, NFac, SLst, Lst, Obj, Chr, NULL, PyFun, Clo, Opq, opq, sc, lgl, inverse, merge
from contracts_rcommon import *
import contracts_c13
from contracts_c13 import record, called_with, calls


def loglik(c):
    """an arbitrary log-likelihood function, which may stop with an error at some parameters"""
    def go(I, pos, kw):
        x = pos[0].vec()
        if I.truth(t.app('fails', x, sort='B')):
            raise RStop(Chr(['not available']))
        return sc(t.app('loglik', x))
    return PyFun(go, 'lfun')


def as_function(I, f, n, kw):
    """value of f at an arbitrary point, whatever happened before (variables it writes to are forgotten)"""
    p = t.vecvar('%point', n)
    kept = list(I.effects)

    def paths():
        return I.explore(lambda: I.apply(f, [Num(p)], kw), I.envs_of(f.env))
    for _, _, _, eff, _ in paths():
        for e in eff:
            if e[0] == 'assign':
                for en in I.envs_of(f.env):
                    if id(en) == e[1]:
                        en.vars[e[2]] = sc(t.fresh('earlier ' + e[2], 'R'))
    r = paths()
    I.effects[:] = kept
    return r


def minimiser(c):
    def optim(I, pos, kw):
        kw = dict(kw)
        par = kw.pop('par', None) or pos[0]
        fn = kw.pop('fn', None) or pos[len(pos) - 1 if 'par' not in kw and len(pos) == 2 else 0]
        h = kw.pop('hessian', lgl(False))
        kw.pop('method', None)
        kw.pop('control', None)
        vals = []
        for cond, v, _, _, _ in as_function(I, fn, par.n, kw):
            if isinstance(v, RStop):
                raise Unsupported('objective that may stop')
            vals.append((cond, v))
        v = merge(vals).x
        best = t.setshape(t.app('minimiser', v, par.vec(), sort='V'), par.n)
        I.minimised = (v, par, best)
        return Lst(['par', 'value', 'counts', 'convergence', 'message'] + ['hessian'] * (h.x is t.TRUE),
                   [Num(best), sc(t.app('minimum', v, best)), NULL, sc(t.var('convergence', 'I')), NULL] +
                   ([Num(t.setshape(t.app('hessian_of', v, best, sort='M'), par.n, par.n))] if h.x is t.TRUE else []))
    c.extern('optim', optim, 'returns a minimiser found from the starting point and the Hessian of the objective there (numerically)')
    c.extern('system.time', lambda I, pos, kw: Lst(['user.self'], [sc(t.var('seconds', 'R'))]), 'evaluates its argument and times it')
    c.extern('eigen', lambda I, pos, kw: Lst(['values'], [Num(t.setshape(t.app('eigenvalues', pos[0].x, sort='V'), t.rows(pos[0].x)))]), 'eigenvalues')


@rspec('optimize_glmm', 'C16', cases=('first fit, verbose 0', 'first fit, verbose 1', 'first fit, verbose 2', 'previous fit, verbose 0'))
def _(c):
    b, h = count(c, 'p_beta', 0), count(c, 'p_theta', 1)
    n = t.add(b, h)
    c.arg('lfun', lambda: loglik(c))
    c.arg('p_beta', sc(b))
    c.arg('p_theta', sc(h))
    prev = t.vecvar('previous', n)
    if c.case.startswith('prev'):
        c.arg('prev_fit', Lst(['estim', 'Sigma'], [Num(prev), NULL]))
    c.arg('verbose', sc(t.num(int(c.case[-1]))))
    minimiser(c)
    c.effects('warning', 'output')
    yield
    mu = (lambda k: t.at(prev, k)) if c.case.startswith('prev') else (lambda k: t.ite(t.lt(k, h), t.div(1, 2), 0))
    start = t.lam(n, mu)
    bad = t.app('fails', start, sort='B')
    outside = t.lnot(t.forall(h, lambda k: t.lnot(t.lt(5, t.ite(t.lt(mu(k), 0), t.neg(mu(k)), mu(k))))))
    c.stops(t.land(bad, t.lnot(outside)), 'stops exactly when the log-likelihood is not available at the starting point')
    if c.stopped is not None:
        return
    v, par, best = c.I.minimised
    p = t.vecvar('%point', n)
    x = t.lam(n, lambda k: t.add(t.at(p, k), mu(k)))
    inside = t.forall(h, lambda k: t.land(t.le(t.at(x, k), 5), t.le(-5, t.at(x, k))))
    fails = t.app('fails', x, sort='B')
    c.same(par, Num(t.lam(n, lambda k: t.ZERO)), 'the search starts from the previous fit or the default')
    c.ensure(t.implies(t.land(inside, t.lnot(fails)), t.eq(v, t.mul(t.num(-2), t.app('loglik', x)))),
             'minimises minus twice the log-likelihood on the original scale')
    c.ensure(t.implies(t.land(inside, fails), t.eq(v, t.app('%inf'))), 'parameters where it is not available are never preferred')
    c.ensure(t.implies(t.lnot(inside), t.eq(v, t.add(t.ite(outside, t.app('%inf'), t.mul(t.num(-2), t.app('loglik', start))), 100))),
             'outside the bounds on the random-effects parameters the objective is a constant above its value at the start')
    est = t.lam(n, lambda k: t.add(t.at(best, k), mu(k)))
    H = t.setshape(t.app('hessian_of', v, best, sort='M'), n, n)
    Hi = inverse(H)
    c.same(c.result, Lst(['estim', 'Sigma'], [Num(est), Num(t.mlam(n, n, lambda i, j: t.mul(2, t.at2(Hi, i, j))))]),
           'minimiser shifted back, and twice the inverse of the Hessian there')


# ---------------------------------------------------------------- what is reported of a fit
def fitted(c):
    def make():
        m = modfr(c)
        X = m.get('X')
        X = Num(X.x, 'm', attrs={'dimnames': Lst([None, None], [NULL, Opq(t.var('covariate names', 'O'))])})
        re = m.get('reTrms').put('cnms', Opq(t.var('cnms', 'O')))
        m = m.put('X', X).put('reTrms', re)
        f = Frame(m)
        n = t.add(f.h, f.p)
        c.fact(t.le(1, f.p))
        return Lst(['estim', 'Sigma', 'modfr'], [Num(t.vecvar('estim', n)), Num(t.matvar('Sigma', n, n)), m], {'class': Chr(['glmmFit'])})
    return make


def random_names(x):
    return opq('paste', Chr(['RE']), opq('unlist', opq('unname', x.get('modfr').get('reTrms').get('cnms'))), Chr(['']))


def fixed_names(x):
    return x.get('modfr').get('X').attrs['dimnames'].vals[1]


def named(v, n):
    return Num(v, 'v', names=n)


def part(x, lo, n):
    e = x.get('estim')
    return t.lam(n, lambda k: e.el(t.add(lo, k)))


@rspec('coef_random.glmmFit', 'C16')
def _(c):
    x = c.arg('x', fitted(c))
    f = Frame(x.get('modfr'))
    yield
    c.returns(named(part(x, t.ZERO, f.h), random_names(x)), 'the first parameters, named after the random-effects terms')
    if c.mode == 'verify':
        c.same(c.result.names or NULL, random_names(x), 'names of the random-effects parameters')


@rspec('coef_fixed.glmmFit', 'C16')
def _(c):
    x = c.arg('x', fitted(c))
    f = Frame(x.get('modfr'))
    yield
    c.returns(named(part(x, f.h, f.p), fixed_names(x)), 'the remaining parameters, named after the covariates')
    if c.mode == 'verify':
        c.same(c.result.names or NULL, fixed_names(x), 'names of the covariates')


def all_names(x):
    return opq('joined', random_names(x), fixed_names(x))


@rspec('coef.glmmFit', 'C16')
def _(c):
    x = c.arg('object', fitted(c))
    f = Frame(x.get('modfr'))
    yield
    c.returns(named(part(x, t.ZERO, t.add(f.h, f.p)), all_names(x)), 'the estimates in order')
    if c.mode == 'verify':
        c.same(c.result.names or NULL, all_names(x), 'names in the order of the estimates')


@rspec('vcov.glmmFit', 'C16')
def _(c):
    x = c.arg('object', fitted(c))
    yield
    c.returns(x.get('Sigma'), 'the covariance matrix of the fit')
    if c.mode == 'verify':
        a = c.result.attrs
        c.same(a.get('rownames', NULL), all_names(x), 'rows named after the parameters')
        c.same(a.get('colnames', NULL), all_names(x), 'columns named after the parameters')


@rspec('summary.glmmFit', 'C16')
def _(c):
    x = c.arg('object', fitted(c))
    n = x.get('estim').n
    Sg = x.get('Sigma').x
    c.req(t.forall(n, lambda k: t.lt(0, t.at2(Sg, k, k))), 'variances are positive')
    yield
    se = lambda k: t.sqrt(t.at2(Sg, k, k))

    def z(k):
        r = t.div(x.get('estim').el(k), se(k))
        return t.ite(t.lt(r, 0), t.neg(r), r)
    c.returns(Lst(['fit', 'se', 'z', 'p_value'], [x, Num(t.lam(n, se)), Num(t.lam(n, z)), Num(t.lam(n, lambda k: t.mul(2, t.app('Phi', t.neg(z(k))))))]),
              'standard errors, z values and two-sided p-values of the estimates')
    if c.mode == 'verify':
        c.same(c.result.attrs.get('class', NULL), Chr(['summaryGlmmFit']), 'class')


@rspec('find_nlevels', 'C16')
def _(c):
    n, k = count(c, 'number of factors', 1), count(c, 'number of terms', 1)
    fl = c.arg('flist', lambda: SLst(n, lambda i: NFac(t.setshape(t.app('factor', i, sort='V'), t.var('n', 'I')), t.app('levels of factor', i, sort='I')),
                                     attrs={'assign': Num(t.vecvar('assign', k, 'I'))}))
    if c.mode == 'use':
        c.result = opq('levels of the factors of', fl)
        yield
        return
    asg = fl.attrs['assign']
    c.req(t.forall(k, lambda i: t.land(t.le(1, asg.el(i)), t.le(asg.el(i), n))), 'each term has a factor')
    yield
    c.returns(Num(t.lam(k, lambda i: t.app('levels of factor', t.sub(asg.el(i), 1), sort='I'))), 'for each term the number of levels of its own factor')


def printed_fit(c, x):
    re = x.get('modfr').get('reTrms').put('flist', Opq(t.var('flist', 'O')))
    m = x.get('modfr').put('reTrms', re)
    for n in ('formula', 'subformula'):
        m = m.put(n, Opq(t.var(n, 'O')))
    return x.put('modfr', m).put('method', Chr([t.var('method', 'S')])).put('control', Opq(t.var('control', 'O')))


def printing(c):
    record(c, 'find_approximation_name', Chr([t.var('name of the approximation', 'S')]))
    record(c, 'print_subformula', NULL)
    c.effects('output')


def printed(c):
    return [v for e in c.I.effects if e[0] == 'output' for v in e[1]]


def tables(c, x, extra):
    f = Frame(x.get('modfr'))
    fr = [v for v in printed(c) if isinstance(v, Lst) and 'Estimate' in v.names]
    c.ensure(t.tm(len(fr) == 1), 'prints one table of random effects')
    cn = x.get('modfr').get('reTrms').get('cnms')
    for v in fr[:1]:
        c.same(v.get('Estimate'), Num(part(x, t.ZERO, f.h)), 'random-effects table: estimates')
        c.same(v.get('Name'), opq('unlist', opq('unname', cn)), 'random-effects table: names')
        c.same(v.get('Groups'), opq('names', cn), 'random-effects table: groups')
        for n, (g, _) in extra.items():
            c.same(v.get(n), Num(g), 'random-effects table: ' + n)
    return f


@rspec('print.glmmFit', 'C16', use=False)
def _(c):
    x = c.arg('x', lambda: printed_fit(c, fitted(c)()))
    printing(c)
    yield
    f = tables(c, x, {})
    called_with(c, 'find_approximation_name', {'method': x.get('method'), 'control': x.get('control')}, 'name of the approximation')
    fx = [v for v in printed(c) if isinstance(v, Num) and v.names is not None]
    c.ensure(t.tm(len(fx) == 1), 'prints the fixed effects once')
    for v in fx[:1]:
        c.same(v, Num(part(x, f.h, f.p)), 'fixed effects: estimates')
        c.same(v.names, fixed_names(x), 'fixed effects: names')


@rspec('print.summaryGlmmFit', 'C16', use=False)
def _(c):
    def make():
        fit = printed_fit(c, fitted(c)())
        n = fit.get('estim').n
        return Lst(['fit', 'se', 'z', 'p_value'], [fit] + [Num(t.vecvar(k, n)) for k in ('se', 'z', 'p')])
    s = c.arg('x', make)
    x = s.get('fit')
    printing(c)
    f = Frame(x.get('modfr'))
    yield
    f = tables(c, x, {'Std.Error': (t.lam(f.h, lambda k: s.get('se').el(k)), 0)})
    ms = [v for v in printed(c) if isinstance(v, Num) and v.mode == 'm']
    c.ensure(t.tm(len(ms) == 1), 'prints the fixed effects once')
    for v in ms[:1]:
        cols = [x.get('estim'), s.get('se'), s.get('z'), s.get('p_value')]

        def cell(i, j):
            r = cols[3].el(t.add(f.h, i))
            for q in (2, 1, 0):
                r = t.ite(t.lt(j, q + 1), cols[q].el(t.add(f.h, i)), r)
            return r
        c.same(v, Num(t.mlam(f.p, 4, cell)), 'fixed effects: estimates, standard errors, z values and p-values')
        c.same(v.attrs.get('rownames', NULL), fixed_names(x), 'fixed effects: names')
        c.same(v.attrs.get('colnames', NULL), Chr(['Estimate', 'Std. Error', 'z value', 'Pr(>|z|)']), 'fixed effects: headings')


# ---------------------------------------------------------------- fitting



def glmm_spec(kind, check, prev):
    def spec(c):
        m = modfr(c)
        f = Frame(m)
        n = t.add(f.h, f.p)
        low = m.get('reTrms').get('lower')
        plain = t.forall(f.h, lambda k: t.eq(low.el(k), 0))
        c.fact(plain if kind == 'standard deviations' else t.lnot(plain))
        a = {k: c.arg(k, Opq(t.var('given ' + k, 'O'))) for k in ('formula', 'subformula', 'data', 'family', 'offset', 'lme4_control')}
        me = c.arg('method', Chr([t.var('method', 'S')]))
        co = c.arg('control', Opq(t.var('given control', 'O')))
        w = c.arg('weights', Opq(t.var('given weights', 'O')))
        pf = c.arg('prev_fit', Opq(t.var('given previous fit', 'O')))
        vb = c.arg('verbose', sc(t.var('verbosity', 'I')))
        con = Lst(['check_Laplace', 'divergence_threshold'], [lgl(check), sc(t.var('threshold', 'R'))])
        d = devfun(c)
        lf = PyFun(lambda I, p, k: sc(t.app('loglik', p[0].vec())), 'lfun')
        est, Sg = t.vecvar('estim', n), t.matvar('Sigma', n, n)
        opt = Lst(['estim', 'Sigma'], [Num(est), Num(Sg)])
        KL = t.var('divergence', 'R')
        record(c, 'check_weights', NULL)
        record(c, 'find_control_with_defaults', con)
        record(c, 'find_modfr_glmm', m)
        record(c, 'find_devfun_laplace_1', d)
        record(c, 'find_lfun_glmm_internal', lf)
        record(c, 'optimize_glmm', opt)
        record(c, 'find_laplace_divergence', sc(KL))
        yield
        if c.stopped is not None:
            return
        called_with(c, 'check_weights', {'weights': w}, 'weights')
        called_with(c, 'find_control_with_defaults', {'control': co, 'method': me}, 'options')
        called_with(c, 'find_modfr_glmm', dict(a, weights=w), 'model')
        called_with(c, 'find_devfun_laplace_1', {'modfr': m, 'lme4_control': a['lme4_control']}, 'deviance')
        called_with(c, 'find_lfun_glmm_internal', {'modfr': m, 'method': me, 'control': con, 'devfun_laplace_1': d}, 'log-likelihood')
        called_with(c, 'optimize_glmm', {'lfun': lf, 'p_beta': sc(f.p), 'p_theta': sc(f.h), 'prev_fit': pf, 'verbose': vb}, 'optimisation')
        if check:
            called_with(c, 'find_laplace_divergence', {'fit_laplace_1': opt, 'modfr': m, 'devfun_laplace_1': d}, 'divergence from the second-order approximation')
        else:
            c.ensure(t.tm(not calls(c, 'find_laplace_divergence')), 'the quality check runs only when asked for')
        thr = con.get('divergence_threshold').x
        bad = t.land(t.tm(check), t.lt(thr, KL))
        if kind != 'standard deviations':
            c.warns(t.TRUE, 'warns that correlated effects are not summarised')
            c.same(c.result.get('estim'), Num(est), 'the estimate found')
            c.same(c.result.get('Sigma'), Num(Sg), 'the covariance found')
            return
        neg = lambda k: t.land(t.lt(k, f.h), t.lt(t.at(est, k), 0))
        e2 = t.lam(n, lambda k: t.ite(neg(k), t.neg(t.at(est, k)), t.at(est, k)))
        sg = lambda k: t.ite(neg(k), t.num(-1), t.ONE)
        inf = t.lnot(t.forall(f.h, lambda k: t.lnot(t.lt(t.num('4.9'), t.at(e2, k)))))
        k = t.var('k', 'I')
        c.lemma(t.le(0, t.at(c.result.get('estim').x, k)), 'standard deviations are not negative', t.le(0, k), t.lt(k, f.h))
        c.same(c.result.get('estim'), Num(e2), 'the estimate found, standard deviations made non-negative')
        S2 = c.result.get('Sigma')
        isna = isinstance(S2, Num) and S2.mode == 'm' and t.at2(S2.x, t.ZERO, t.ZERO) is t.var('%NA', 'R')
        c.ensure(inf if isna else t.lnot(inf), 'covariances are not available exactly when a standard deviation is above 4.9')
        if not isna:
            c.same(S2, Num(t.mlam(n, n, lambda i, j: t.mul(sg(i), t.at2(Sg, i, j), sg(j)))), 'the covariance found, for the reflected parameters')
        c.warns(t.lor(bad, inf), 'warns exactly when the divergence is above the threshold or the estimate may not be finite')
        c.same(c.result.get('laplace_divergence'), sc(KL) if check else NULL, 'the divergence, when asked for')
        for n2, v in (('method', me), ('control', con)):
            c.same(c.result.get(n2), v, 'keeps the ' + n2)
        c.ensure(t.tm(c.result.get('lfun') is lf and c.result.get('modfr') is m), 'keeps the log-likelihood and the model')
        c.same(c.result.attrs.get('class', NULL), Chr(['glmmFit']), 'class')
    return spec


for _k in ('standard deviations', 'correlated'):
    for _ch in (False, True):
        rspec('glmm', 'C16 C13', use=False, name='R glmm, %s%s' % (_k, ', with check' if _ch else ''))(glmm_spec(_k, _ch, False))


ASSUME['C16'] = [
    'optim returns a point and the numerical Hessian of the objective there (its convergence is not proved)',
    'standard errors and p-values are stated for covariance matrices with positive diagonal',
    'floating-point arithmetic is treated as real arithmetic']
