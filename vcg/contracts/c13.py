"""C13: options are honoured, completed with defaults, and invalid requests rejected."""
from vcg import terms as t
from vcg.rdeduce import rspec
from vcg.rlang import Num, Lst, Obj, Chr, NULL, PyFun, Clo, Opq, sc, lgl
from contracts_rcommon import *
import contracts_c14 as c14
import contracts_c15

DEFAULTS = {'Laplace': {'order': 1, 'check_Laplace': False, 'divergence_threshold': '0.1'}, 'AGQ': {'nAGQ': 15}, 'SR': {'nSL': 3}, 'IS': {'nIS': 1000}}
KNOWN = ['order', 'check_Laplace', 'divergence_threshold', 'nAGQ', 'nSL', 'nIS']


def const(v):
    from fractions import Fraction
    return lgl(v) if isinstance(v, bool) else sc(t.num(Fraction(v) if isinstance(v, str) else v))


def given(n):
    return lgl(t.var('given check', 'B')) if n == 'check_Laplace' else Chr(['x']) if n == 'unknown' else sc(t.var('given ' + n, 'R'))


def subsets():
    out = []
    for m in DEFAULTS:
        for k in range(2 ** len(KNOWN)):
            out.append((m, tuple(n for i, n in enumerate(KNOWN) if k >> i & 1)))
    rev = [(m, tuple(reversed(s)) + ('unknown',)) for m, s in out]
    return tuple(out + rev + [('none', ()), ('other', ()), ('other', ('nAGQ',))])


@rspec('find_control_with_defaults', 'C13', cases=subsets())
def _(c):
    method, names = c.case
    vals = {n: given(n) for n in names}
    c.arg('control', Lst(list(names), [vals[n] for n in names]))
    c.arg('method', NULL if method == 'none' else Chr(['method X' if method == 'other' else method]))
    yield
    c.stops(t.tm(method in ('none', 'other')), 'stops exactly when no method, or an unknown one, is given')
    if c.stopped is not None:
        return
    used = DEFAULTS[method]
    want = {n: vals.get(n, const(d)) for n, d in used.items()}
    if method == 'SR':
        L = want['nSL'].x
        p = t.add(L, 1)
        want['nAGQ'] = sc(t.sub(t.app('pow2', p, sort='I') if p.sort == 'I' and not t.is_num(p) else t.num(2 ** int(t.numval(p))) if t.is_num(p) else t.app('rpow', t.num(2), p), 1))
    if method != 'Laplace':
        want['check_Laplace'] = lgl(False)
    else:
        want['check_Laplace'] = lgl(t.land(t.lnot(t.lt(1, want['order'].x)), want['check_Laplace'].x))
    for n, v in want.items():
        c.same(c.result.get(n), v, '%s is the value given or the default' % n)
    c.warns(t.tm(any(n not in used for n in names)), 'warns exactly when a name is unknown or not used by the method')


@rspec('check_weights', 'C13')
def _(c):
    w = c.arg('weights', lambda: Num(t.vecvar('w', count(c, 'n', 1))))
    yield
    if w is NULL:
        c.result = NULL
        return
    tol = t.powi(t.num(2), -26)

    def far(k):
        x = w.el(k)
        d = t.sub(x, t.app('round', x, sort='I'))
        return t.lnot(t.lt(t.ite(t.lt(d, 0), t.neg(d), d), tol))
    c.stops(t.lnot(t.forall(w.n, lambda k: t.lnot(far(k)))), 'stops exactly when some weight is not a whole number')
    c.result = NULL


@rspec('check_weights', 'C13', use=False, name='R check_weights without weights')
def _(c):
    c.arg('weights', NULL)
    yield
    c.stops(t.FALSE, 'accepts no weights')


def family(c):
    return Obj('family', {'family': Chr([t.var('family', 'S')]), 'link': Chr([t.var('link', 'S')])})


def unfit(fam):
    f, l = fam.get('family').v[0], fam.get('link').v[0]
    return t.lnot(t.land(t.eq(f, t.strc('binomial')), t.lor(t.eq(l, t.strc('logit')), t.eq(l, t.strc('probit')))))


@rspec('check_modfr_SR', 'C13')
def _(c):
    m = c.arg('modfr', lambda: Obj('modfr', {'family': family(c)}))
    yield
    c.stops(unfit(m.get('family')), 'stops exactly unless the model is binomial with logit or probit link')
    c.result = NULL if c.mode == 'use' else c.result


# ---------------------------------------------------------------- dispatch
def record(c, name, result):
    """stands for a function of the package with its own contract; keeps the arguments it was given"""
    if c.mode != 'verify':
        return
    calls = c.I.state.setdefault('calls of ' + name, ())

    def go(I, pos, kw):
        ps = [p[0] for p in I.prog[name]['p']]
        got = dict(kw)
        for n, v in zip([p for p in ps if p not in got], pos):
            got[n] = v
        I.state['calls of ' + name] = I.state.get('calls of ' + name, ()) + (got,)
        return result(got) if callable(result) and not isinstance(result, (PyFun, Clo)) else result
    c.I.overrides[name] = go


def calls(c, name):
    return c.I.state.get('calls of ' + name, ())


def called_with(c, name, want, text):
    got = calls(c, name)
    c.ensure(t.tm(len(got) == 1), '%s is called once' % name)
    for g in got[:1]:
        for n, v in want.items():
            h = g.get(n, NULL)
            if isinstance(v, (Obj, PyFun)):
                c.ensure(t.tm(h is v), '%s: the same %s' % (text, n))
            else:
                c.same(h, v, '%s: %s' % (text, n))


METHODS = {'Laplace': ('find_lfun_Laplace', {'order': 'order'}), 'AGQ': ('find_lfun_AGQ', {'nAGQ': 'nAGQ'}),
           'SR': ('find_lfun_SR', {'nSL': 'nSL', 'nAGQ': 'nAGQ'}), 'IS': ('find_lfun_IS', {'nIS': 'nIS'})}


@rspec('find_lfun_glmm_internal', 'C13', use=False, cases=('Laplace', 'AGQ', 'SR', 'IS', 'other'))
def _(c):
    m = c.arg('modfr', lambda: modfr(c))
    c.arg('method', Chr([c.case]))
    con = Lst(['order', 'nAGQ', 'nSL', 'nIS'], [sc(t.var(n, 'R')) for n in ('order', 'nAGQ', 'nSL', 'nIS')])
    c.arg('control', con)
    d = c.arg('devfun_laplace_1', lambda: devfun(c))
    for k, (fn, _) in METHODS.items():
        record(c, fn, Opq(t.var('log-likelihood by ' + fn, 'O')))
    c.effects('output')
    yield
    c.stops(t.tm(c.case == 'other'), 'stops exactly when the method is unknown')
    if c.stopped is not None:
        return
    fn, ar = METHODS[c.case]
    c.same(c.result, Opq(t.var('log-likelihood by ' + fn, 'O')), 'the log-likelihood of this method')
    p2 = [p[0] for p in c.I.prog[fn]['p']][1]
    called_with(c, fn, dict({'modfr': m, p2: d}, **{a: con.get(b) for a, b in ar.items()}), 'passed to %s' % fn)


@rspec('find_lfun_glmm', 'C13', use=False)
def _(c):
    m = c.arg('modfr', lambda: modfr(c))
    me = c.arg('method', Chr([t.var('method', 'S')]))
    co = c.arg('control', Opq(t.var('control', 'O')))
    lc = c.arg('lme4_control', Opq(t.var('lme4 control', 'O')))
    d = devfun(c)
    record(c, 'find_devfun_laplace_1', d)
    record(c, 'find_control_with_defaults', Opq(t.var('completed control', 'O')))
    record(c, 'find_lfun_glmm_internal', Opq(t.var('log-likelihood', 'O')))
    yield
    called_with(c, 'find_devfun_laplace_1', {'modfr': m, 'lme4_control': lc}, 'deviance function')
    called_with(c, 'find_control_with_defaults', {'control': co, 'method': me}, 'options')
    called_with(c, 'find_lfun_glmm_internal', {'modfr': m, 'method': me, 'control': Opq(t.var('completed control', 'O')), 'devfun_laplace_1': d}, 'log-likelihood')
    c.returns(Opq(t.var('log-likelihood', 'O')), 'the log-likelihood function')


# ---------------------------------------------------------------- sequential reduction
def reduction(c):
    """cluster_graph and calibration_parameters: the compiled code (C08), as a function of what it is given"""
    def graph(I, pos, kw):
        terms = pos[0]

        def value(I2, p, k2):
            names = ('theta', 'beta', 'n_quadrature_points', 'n_sparse_levels', 'family', 'link')
            I2.state['given'] = I2.state.get('given', ()) + ((p[0], p[1], p[2]),)
            cal = p[2]
            return sc(t.app('reduced', c14_token(terms), p[0].vec(), p[1].x, *[c14_token(cal.get(n)) for n in names]))
        return Obj('graph', {'width': sc(t.app('width', c14_token(terms), sort='I')), 'compute_log_normalizing_constant': PyFun(value, 'compute')})
    c.extern('cluster_graph', graph, 'compiled code: its log normalizing constant is a function of the terms, the normal approximation and the settings (C08)')
    c.extern('calibration_parameters', lambda I, pos, kw: Lst(['n_sparse_levels', 'n_quadrature_points', 'theta', 'beta', 'family', 'link'],
                                                               [sc(t.num(3)), sc(t.num(15)), NULL, NULL, Chr(['']), Chr([''])]), 'a list of settings')


def c14_token(v):
    if isinstance(v, Num) and v.mode in 'sv':
        return v.vec() if v.mode == 'v' else v.x
    from vcg.rlang import token
    return token(v)


@rspec('find_lfun_SR', 'C13 C09', use=False, cases=('', 'offset', 'wrong number of parameters'))
def _(c):
    off = c.case == 'offset'
    m = c.arg('modfr', lambda: modfr(c, offset=off))
    d = c.arg('devfun_lme4', lambda: devfun(c))
    L, Q = c.arg('nSL', sc(count(c, 'nSL', 0))), c.arg('nAGQ', sc(count(c, 'nAGQ', 1)))
    reduction(c)
    terms = Opq(t.var('factorization terms', 'O'))
    record(c, 'find_factorization_terms', terms)
    f = Frame(m)
    fam = m.get('family')
    w = t.app('width', terms.x, sort='I')
    c.fact(t.le(1, w))
    yield
    hard = t.lt(t.num(500000), t.app('rpow', w, t.mul(2, L.x)))
    c.stops(t.lor(unfit(fam), hard), 'stops exactly when family or link are not supported or the graph is too wide')
    if c.stopped is not None:
        return
    called_with(c, 'find_factorization_terms', {'modfr': m}, 'terms')
    n0 = [e for e in c.I.effects]
    if c.case.startswith('wrong'):
        k = count(c, 'given')
        c.I.pc.append(t.lnot(t.eq(k, t.add(f.h, f.p))))
        c.ensure(t.tm(isinstance(c.call(c.result, Num(t.vecvar('pars', k))), RStop)), 'stops when the number of parameters is wrong')
        return
    ps = Num(t.vecvar('pars', t.add(f.h, f.p)))

    def value(ps):
        u, P = approximation(ps, f.q)
        beta = t.lam(t.add(f.p, int(off)), lambda k: t.ite(t.lt(k, f.p), ps.el(t.add(f.h, k)), 1) if off else ps.el(t.add(f.h, k)))
        return t.app('reduced', terms.x, u, P, t.lam(f.h, lambda k: ps.el(k)), beta, Q.x, L.x, fam.get('family').v[0], fam.get('link').v[0])
    dev = t.mul(t.num(-1), t.div(t.app('deviance', ps.vec()), 2))
    unstable = t.lt(t.div(dev, 2), value(ps))
    v = c.call(c.result, ps)
    stopped = isinstance(v, RStop)
    c.ensure(unstable if stopped else t.lnot(unstable), 'stops exactly when the result is above half the Laplace log-likelihood')
    if stopped:
        return
    c.same(v, sc(value(ps)), 'the log normalizing constant of these terms, at these parameters and settings')
    other = Num(t.vecvar('other', t.add(f.h, f.p)))
    c.call(c.result, other)
    c.same(c.call(c.result, ps), v, 'same value when called again after other parameters')
    c.ensure(t.tm(not [e for e in c.I.effects if e not in n0]), 'the log-likelihood function changes nothing when called')


ASSUME['C13'] = [
    'control lists name no option twice; every subset of the documented names is covered, in the documented and the reverse order, with and without an unknown name',
    'cluster_graph (compiled code) is a function of what it is given (its own properties: C08, C09)',
    'floating-point arithmetic is treated as real arithmetic']
