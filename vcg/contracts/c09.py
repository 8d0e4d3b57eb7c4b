"""C09: log-likelihood functions depend on their parameters only; the model frame is left alone."""
from vcg import terms as t
from vcg.rdeduce import rspec
from vcg.rlang import Num, Sparse, Lst, Obj, Chr, NULL, PyFun, Clo, Opq, NFac, sc, lgl
from contracts_rcommon import *
import contracts_c14
import contracts_c15
import contracts_c13
from contracts_c13 import record


@rspec('find_lfun_AGQ', 'C09', use=False)
def _(c):
    m = c.arg('modfr', lambda: modfr(c))
    d = c.arg('devfun_laplace_1', lambda: devfun(c))
    k = c.arg('nAGQ', sc(count(c, 'nAGQ', 1)))
    f = Frame(m)
    re = m.get('reTrms')

    def update(I, pos, kw):
        got = dict(zip(('devfun', 'reTrms', 'nAGQ'), pos))
        got.update(kw)
        if got['devfun'] is not d or got['reTrms'] is not re:
            raise Unsupported('update of another deviance function')
        return PyFun(lambda I2, p, k2: sc(t.app('deviance by quadrature', got['nAGQ'].x, p[0].vec())), 'devfun_AGQ')
    c.extern('updateGlmerDevfun', update, 'lme4: the deviance by adaptive Gaussian quadrature with this number of points, a function of the parameters')
    yield
    if c.stopped is not None:
        return
    ps = Num(t.vecvar('pars', count(c, 'given')))
    n0 = len(c.I.effects)
    v = c.call(c.result, ps)
    bad = t.lnot(t.eq(ps.n, t.add(f.h, f.p)))
    c.ensure(bad if isinstance(v, RStop) else t.lnot(bad), 'stops exactly when the number of parameters is wrong')
    if isinstance(v, RStop):
        return
    c.same(v, sc(t.mul(t.num(-1), t.div(t.app('deviance by quadrature', k.x, ps.vec()), 2))), 'minus half the deviance')
    c.call(c.result, Num(t.vecvar('other', t.add(f.h, f.p))))
    c.same(c.call(c.result, ps), v, 'same value when called again after other parameters')
    c.ensure(t.tm(len(c.I.effects) == n0), 'the log-likelihood function changes nothing when called')


@rspec('find_devfun_laplace_1', 'C09', use=False, cases=('', 'offset'))
def _(c):
    """lme4 writes into the numbers it is given: it must be given copies, with the same values"""
    def make():
        m = modfr(c, offset=c.case == 'offset')
        fr = m.get('fr')
        cols = dict(fr.fields)
        cols['group'] = NFac(t.vecvar('group', t.var('n', 'I'), 'I'), t.var('levels', 'I'))
        return m.put('fr', Lst(list(cols), list(cols.values())))
    m = c.arg('modfr', make)
    lc = c.arg('lme4_control', Opq(t.var('lme4 control', 'O')))
    seen = []

    def mk(I, pos, kw):
        got = dict(zip(('fr', 'X', 'reTrms', 'family'), pos))
        got.update(kw)
        seen.append(got)
        return PyFun(lambda I2, p, k2: sc(t.var('unused', 'R')), 'devfun_lme4')
    d = devfun(c)
    ups = []

    def update(I, pos, kw):
        got = dict(zip(('devfun', 'reTrms', 'nAGQ'), pos))
        got.update(kw)
        ups.append(got)
        return d
    c.extern('mkGlmerDevfun', mk, 'lme4: builds a deviance function that may overwrite the numbers of the offset, theta and the random-effects factor it is given')
    c.extern('updateGlmerDevfun', update, 'lme4: the first-order Laplace deviance for nAGQ = 1')
    yield
    if c.stopped is not None or c.mode != 'verify':
        return
    c.ensure(t.tm(len(seen) == 1 and len(ups) == 1), 'one deviance function is made')
    got, up = seen[0], ups[0]
    re, r0 = got['reTrms'], m.get('reTrms')
    for n in ('theta', 'Zt', 'Lind', 'Lambdat', 'lower'):
        c.same(re.get(n), r0.get(n), 'passes the same random-effects terms: ' + n)
    c.same(got['X'], m.get('X'), 'passes the same design')
    f0, f1 = m.get('fr'), got['fr']
    for n in f0.names:
        if isinstance(f0.get(n), Num):
            c.same(f1.get(n), f0.get(n), 'passes the same data: ' + n)
    c.ensure(t.tm(f1.names == f0.names), 'passes all the data')
    c.ensure(t.tm(got['family'] is m.get('family')), 'passes the family')
    c.same(got['control'], lc, 'passes the control parameters')
    c.same(up.get('nAGQ', sc(t.num(1))), sc(t.num(1)), 'asks for the first-order Laplace approximation')
    if c.case == 'offset':
        c.ensure(t.tm(f1.get('(offset)') is not f0.get('(offset)')), 'the offset lme4 writes into is a copy')
    c.ensure(t.tm(re.get('theta') is not r0.get('theta')), 'the parameters lme4 writes into are a copy')
    c.ensure(t.tm(re.get('Lambdat').own is not r0.get('Lambdat').own), 'the random-effects factor lme4 writes into is a copy')
    c.returns(d, 'the deviance function of lme4')


ASSUME['C09'] = [
    'lme4\'s deviance functions are functions of their parameter argument (they refit from scratch)',
    'R semantics: arithmetic makes a new vector, assignment and component access share it; lme4 writes only into what it was given',
    'the compiled cluster graph is copied before each evaluation (checked by the bounded part of this check and, function by function, by the frame conditions of C02-C07)']
