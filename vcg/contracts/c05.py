"""C05: combined log-densities: items and signed sums of factors."""
from vcg import terms as t
from vcg.deduce import spec, ASSUME, eqt
from vcg.terms import ONE, ZERO
import contracts_c04 as c04


def place(items, x):
    """position of the first element equal to x (the length if there is none)"""
    return t.first(t.length(items), lambda k: t.eq(t.at(items, k), x))


def places(s, items):
    return t.lam(t.length(s), lambda k: place(items, t.at(s, k)))


def missing(s, items):
    """some element of s is not in items"""
    return t.lnot(t.forall(t.length(s), lambda k: t.lt(place(items, t.at(s, k)), t.length(items))))


@spec('findRelativeItem', 'C05 C08 C17')
def _(c):
    x, items = c.a(0), c.a(1)
    yield
    c.throws(t.eq(place(items, x), t.length(items)))
    c.returns(place(items, x), 'position of the item')


@spec('findRelativeItems', 'C05 C08 C17')
def _(c):
    s, items = c.a(0), c.a(1)
    yield
    c.throws(missing(s, items))
    c.returns(places(s, items), 'positions of the items, in their order')


@spec('findItemsDifference', 'C05 C08 C17')
def _(c):
    items, s = c.a(0), c.a(1)
    yield
    k = t.fresh('k', 'I')
    c.returns(t.filter_(t.length(items), k, t.eq(place(s, t.at(items, k)), t.length(s)), t.at(items, k)),
              'the items that are not in the subset, in order')


# ------------------------------------------------------------------ NormalBelief
def items_vec(c, name, n):
    v = t.vecvar(name, n, 'I')
    return v


def no_repeats(c, v):
    c.distinct(v)


def nbelief(c, name, n=None, normal=None):
    """a Gaussian over labelled items"""
    n = c04.dim(c, name) if n is None else n
    items = items_vec(c, name + '.items', n)
    o = normal if normal is not None else c04.normal(t.vecvar(name + '.mean', n), c04.symmat(name + '.precision', n))
    return t.rec('NormalBelief', {'numItems_': n, 'items_': items, 'normal_': o, 'logNormalizingConstant_': t.var(name + '.constant', 'R')})


def value_of(b, x):
    return t.add(t.fld(b, 'logNormalizingConstant_'), c04.gauss(t.fld(b, 'normal_'), x))


def on_nbelief(c):
    b = nbelief(c, 'this')
    if c.mode == 'verify':
        c.setthis(b)
        no_repeats(c, t.fld(b, 'items_'))
    return b


@spec('NormalBelief::evaluate', 'C04 C05 C17', use=False)
def _(c):
    b = on_nbelief(c)
    c04.point(c, 0, t.length(t.fld(b, 'items_')))
    yield
    c.returns(value_of(b, c.a(0)), 'log-density of the Gaussian, plus the constant')


@spec('NormalBelief::evaluateDerivative', 'C04 C05 C17', use=False)
def _(c):
    b = on_nbelief(c)
    n = t.length(t.fld(b, 'items_'))
    c04.point(c, 0, n)
    yield
    c.returns(t.lam(n, lambda j: c04.partial(lambda y: value_of(b, y), c.a(0), j)), 'gradient of the value')


@spec('NormalBelief::evaluateSecondDerivative', 'C04 C05 C17', use=False)
def _(c):
    b = on_nbelief(c)
    n = t.length(t.fld(b, 'items_'))
    c04.point(c, 0, n)
    yield
    c.returns(t.mlam(n, n, lambda j, k: c04.partial(lambda y: value_of(b, y), c.a(0), j, k)), 'Hessian of the value')


def belief_product(sign):
    def con(c):
        b = on_nbelief(c)
        items, n = t.fld(b, 'items_'), t.length(t.fld(b, 'items_'))
        k = c04.dim(c, 'other')
        oi = items_vec(c, 'other.items', k)
        c.req(t.lnot(missing(oi, items)), 'every item of the other Gaussian is an item of this one')
        no_repeats(c, oi)
        s = places(oi, items)
        P = t.fld(t.fld(b, 'normal_'), 'precision_')
        B = c04.symmat('other.precision', k)
        mu = t.vecvar('other.mean', k)
        if c.case == 'common mean':
            m0 = t.fld(t.fld(b, 'normal_'), 'mean_')
            mu = t.lam(k, lambda a: t.at(m0, t.at(s, a)))
        c.setarg(0, t.rec('NormalBelief', {'numItems_': k, 'items_': oi, 'normal_': c04.normal(mu, B),
                                           'logNormalizingConstant_': t.var('other.constant', 'R')}))
        yield
        now = c.this_now()
        c.posted += [('this', 'normal_'), ('this', 'logNormalizingConstant_')]
        g = t.fld(now, 'normal_')
        w = c04.added(P, s, B, sign)
        c.ensure(eqt(t.fld(g, 'precision_'), w), 'precision entries of the items of the other Gaussian %s, whatever order they are listed in'
                 % ('added' if sign > 0 else 'subtracted'))
        c.ensure(eqt(t.fld(g, 'variance_'), c04.inv(w)), 'variance is the inverse of the precision')
        c.ensure(eqt(t.fld(now, 'logNormalizingConstant_'), t.add(t.fld(b, 'logNormalizingConstant_'), t.mul(t.num(sign), t.var('other.constant', 'R')))),
                 'constants %s' % ('added' if sign > 0 else 'subtracted'))
        if c.case == 'common mean':
            c.ensure(eqt(t.fld(g, 'mean_'), t.fld(t.fld(b, 'normal_'), 'mean_')), 'the common mean is kept')
    return con


spec('NormalBelief::operator*=', 'C04 C17', use=False, cases=('any', 'common mean'))(belief_product(1))
spec('NormalBelief::operator/=', 'C04 C17', use=False, cases=('any', 'common mean'))(belief_product(-1))


@spec('NormalBelief::margin', 'C04 C17', use=False)
def _(c):
    b = on_nbelief(c)
    items = t.fld(b, 'items_')
    k = c04.dim(c, 'k')
    sub = items_vec(c, 'subset', k)
    c.setarg(0, sub)
    c.req(t.lnot(missing(sub, items)), 'every item is an item of the Gaussian')
    no_repeats(c, sub)
    yield
    s = places(sub, items)
    g = t.fld(b, 'normal_')
    V = t.mlam(k, k, lambda x, y: t.at2(t.fld(g, 'variance_'), t.at(s, x), t.at(s, y)))
    c.returns(t.rec('NormalBelief', {'numItems_': k, 'items_': sub, 'logNormalizingConstant_': t.fld(b, 'logNormalizingConstant_'),
                                     'normal_': c04.normal(t.lam(k, lambda x: t.at(t.fld(g, 'mean_'), t.at(s, x))), c04.inv(V), V)}),
              'the means and variances of those items, in that order')


@spec('NormalBelief::setItems', 'C04 C17', use=False)
def _(c):
    b = on_nbelief(c)
    k = c04.dim(c, 'k')
    v = items_vec(c, 'items', k)
    c.setarg(0, v)
    yield
    c.post_this('items_', v, 'the items')
    c.posted.append(('this', 'normal_'))
    g = t.fld(c.this_now(), 'normal_')
    c.ensure(eqt(t.fld(g, 'mean_'), t.lam(k, lambda x: ZERO)), 'zero mean')
    c.ensure(eqt(t.fld(g, 'precision_'), t.mlam(k, k, lambda x, y: ZERO)), 'zero precision: no information')


# ------------------------------------------------------------------ factors
def fn_of(b):
    """the function a factor stands for"""
    return t.fld(b, 'continuousBelief_', 'O')


def items_of(f):
    return t.set_elem_sort(t.app('items', f, sort='V'), 'I')


def grad_of(f):
    return t.app('gradient', f, sort='O')


def hess_of(f):
    return t.app('hessian', f, sort='O')


def a_function(f):
    """declares f (and every function matching the same shape): a twice differentiable function of its items' values"""
    def rule(g):
        if g.op == 'app' and g.a[0] == 'gradient':
            return {'n': t.length(items_of(g.a[1])), 'grad': hess_of(g.a[1]), 'sym': False}
        if g.op == 'app' and g.a[0] == 'hessian':
            return {'n': t.length(items_of(g.a[1])), 'grad': None, 'sym': True}
        if f(g):
            return {'n': ONE, 'grad': grad_of(g), 'sym': False}
        return None
    t._ufun_rules.append(rule)


def call(f, x, sort='R'):
    return t.app('call', f, x, sort=sort)


# every factor is known through these only (trusted: C01/C06 GLMMBelief, C04 NormalBelief, C07 SparseBelief)
def on_base(c):
    return c.this()


@spec('ContinuousBeliefBase::evaluate', '')
def _(c):
    f = on_base(c)
    c.req(t.eq(t.length(c.a(0)), t.length(items_of(f))), 'a value for every item')
    yield
    c.returns(call(f, c.a(0)))


@spec('ContinuousBeliefBase::evaluateDerivative', '')
def _(c):
    f = on_base(c)
    c.req(t.eq(t.length(c.a(0)), t.length(items_of(f))), 'a value for every item')
    yield
    c.returns(call(grad_of(f), c.a(0), 'V'))


@spec('ContinuousBeliefBase::evaluateSecondDerivative', '')
def _(c):
    f = on_base(c)
    c.req(t.eq(t.length(c.a(0)), t.length(items_of(f))), 'a value for every item')
    yield
    c.returns(call(hess_of(f), c.a(0), 'M'))


@spec('BeliefBase::getItems', 'C05 C08 C17')
def _(c):
    o = c.this()
    yield
    c.returns(t.fld(o, 'items_') if o.op == 'rec' else items_of(o))


def factor(c):
    if c.mode == 'verify':
        p = t.var('pointee', 'O')
        a_function(lambda g: g is p)
        c.setthis(t.rec('ContinuousBelief', {'continuousBelief_': p}))
    else:
        p = fn_of(c.this())
    return p


for _n, _s, _f in (('evaluate', 'R', lambda f: f), ('evaluateDerivative', 'V', grad_of), ('evaluateSecondDerivative', 'M', hess_of)):
    def _con(c, _s=_s, _f=_f):
        f = factor(c)
        c.req(t.eq(t.length(c.a(0)), t.length(items_of(f))), 'a value for every item')
        yield
        c.returns(call(_f(f), c.a(0), _s), 'that of the factor')
    spec('ContinuousBelief::' + _n, 'C05 C17')(_con)


@spec('ContinuousBelief::getItems', 'C05 C17')
def _(c):
    f = factor(c)
    yield
    c.returns(items_of(f), 'items of the factor')


# ------------------------------------------------------------------ MixedContinuousBelief
def mixed(c, name, items, count):
    """a combined log-density with unknown factors, each over some of the items"""
    bs = t.set_elem_sort(t.vecvar(name + '.beliefs', count, 'O'), 'O')
    inv = t.vecvar(name + '.inverted', count, 'B')
    F = lambda k: fn_of(t.at(bs, k))
    n = t.length(items)
    o = t.rec('MixedContinuousBelief', {
        'numItems_': n, 'items_': items, 'beliefs_': bs, 'isInverted_': inv,
        'relativeItems_': t.lam(count, lambda k: places(items_of(F(k)), items)),
        'normalApprox_': nbelief(c, name + '.normal', n, None), 'isNormalFixed_': t.var(name + '.fixed', 'B')})
    o = t.withf(o, 'normalApprox_', t.withf(t.fld(o, 'normalApprox_'), 'items_', items))
    a_function(lambda g: g.op == 'fld' and g.a[0].op == 'at' and g.a[0].a[0] is bs)
    if c.mode == 'verify':
        c.req(t.forall(count, lambda k: t.lnot(missing(items_of(F(k)), items))), 'every item of a factor is an item of the combination')
    return o


def on_mixed(c):
    n, m = c04.dim(c, 'n'), c04.dim(c, 'factors')
    items = t.vecvar('items', n, 'I')
    o = mixed(c, 'this', items, m)
    if c.mode == 'verify':
        c.setthis(o)
        c.distinct(items)
    return o


def signed_sum(o, x):
    bs, inv, items = (t.fld(o, f) for f in ('beliefs_', 'isInverted_', 'items_'))

    def term(k):
        f = fn_of(t.at(bs, k))
        s = items_of(f)
        y = t.lam(t.length(s), lambda l: t.at(x, place(items, t.at(s, l))))
        return t.mul(t.sub(1, t.mul(2, t.iv(t.at(inv, k)))), call(f, y))
    return t.SUM(t.length(bs), term)


@spec('MixedContinuousBelief::evaluate', 'C05 C17', use=False)
def _(c):
    o = on_mixed(c)
    c04.point(c, 0, t.length(t.fld(o, 'items_')))
    yield
    c.returns(signed_sum(o, c.a(0)), 'sum of the multiplied-in factors minus the sum of the divided-out ones, each at the coordinates of its items')


@spec('MixedContinuousBelief::evaluateDerivative', 'C05 C17', use=False)
def _(c):
    o = on_mixed(c)
    n = t.length(t.fld(o, 'items_'))
    c04.point(c, 0, n)
    yield
    c.returns(t.lam(n, lambda j: c04.partial(lambda y: signed_sum(o, y), c.a(0), j)), 'gradient of the value')


@spec('MixedContinuousBelief::evaluateSecondDerivative', 'C05 C17', use=False)
def _(c):
    o = on_mixed(c)
    n = t.length(t.fld(o, 'items_'))
    c04.point(c, 0, n)
    yield
    c.returns(t.mlam(n, n, lambda j, k: c04.partial(lambda y: signed_sum(o, y), c.a(0), j, k)), 'Hessian of the value')


def other_mixed(c):
    """another combination, over some of the items of this one"""
    o = on_mixed(c)
    items = t.fld(o, 'items_')
    k, m2 = c04.dim(c, 'k'), c04.dim(c, 'other.factors')
    oi = t.vecvar('other.items', k, 'I')
    c.distinct(oi)
    c.req(t.lnot(missing(oi, items)), 'every item of the other combination is an item of this one')
    p = mixed(c, 'other', oi, m2)
    F = lambda j: fn_of(t.at(t.fld(p, 'beliefs_'), j))
    c.req(t.forall(m2, lambda j: t.lnot(missing(items_of(F(j)), items))), 'so is every item of its factors')
    c.setarg(0, p)
    return o, p


def combine(sign):
    def con(c):
        o, p = other_mixed(c)
        yield
        now = c.this_now()
        c.posted += [('this', f) for f in ('normalApprox_', 'items_', 'beliefs_', 'isInverted_', 'relativeItems_', 'numItems_')]
        c.ensure(eqt(t.fld(now, 'items_'), t.fld(o, 'items_')), 'over the same items')
        m, m2 = t.length(t.fld(o, 'beliefs_')), t.length(t.fld(p, 'beliefs_'))
        both = lambda f, g: t.lam(t.add(m, m2), lambda k: t.ite(t.lt(k, m), t.at(t.fld(o, f), k), g(t.at(t.fld(p, f), t.sub(k, m)))))
        c.ensure(eqt(t.fld(now, 'beliefs_'), both('beliefs_', lambda v: v)), 'the factors of both')
        c.ensure(eqt(t.fld(now, 'isInverted_'), both('isInverted_', (lambda v: v) if sign > 0 else t.lnot)),
                 'the new factors %s' % ('keep their signs' if sign > 0 else 'have their signs reversed'))
        F = lambda k: fn_of(t.at(t.fld(now, 'beliefs_'), k))
        c.ensure(eqt(t.fld(now, 'relativeItems_'), t.lam(t.add(m, m2), lambda k: places(items_of(F(k)), t.fld(o, 'items_')))),
                 'every factor knows where its items are')
        x = t.vecvar('x', t.length(t.fld(o, 'items_')))
        y = t.lam(t.length(t.fld(p, 'items_')), lambda a: t.at(x, place(t.fld(o, 'items_'), t.at(t.fld(p, 'items_'), a))))
        after = t.withf(t.withf(o, 'beliefs_', both('beliefs_', lambda v: v)), 'isInverted_', both('isInverted_', (lambda v: v) if sign > 0 else t.lnot))
        c.lemma(t.eq(signed_sum(after, x), t.add(signed_sum(o, x), t.mul(t.num(sign), signed_sum(p, y)))),
                'so the value becomes the %s of the two values' % ('sum' if sign > 0 else 'difference'))
    return con


spec('MixedContinuousBelief::operator*=', 'C05 C17', use=False)(combine(1))
spec('MixedContinuousBelief::operator/=', 'C05 C17', use=False)(combine(-1))


@spec('MixedContinuousBelief::setItems', 'C05 C17', use=False)
def _(c):
    o = on_mixed(c)
    k = c04.dim(c, 'k')
    v = items_vec(c, 'items2', k)
    c.setarg(0, v)
    F = lambda j: fn_of(t.at(t.fld(o, 'beliefs_'), j))
    m = t.length(t.fld(o, 'beliefs_'))
    c.req(t.forall(m, lambda j: t.lnot(missing(items_of(F(j)), v))), 'every item of a factor is one of the new items')
    yield
    c.post_this('items_', v, 'the items')
    c.posted.append(('this', 'normalApprox_'))
    c.post_this('relativeItems_', t.lam(m, lambda j: places(items_of(F(j)), v)), 'every factor knows where its items are')


# ------------------------------------------------------------------ making beliefs
def zeros(n):
    return t.lam(n, lambda k: ZERO)


def no_information(n):
    return c04.normal(zeros(n), t.mlam(n, n, lambda j, k: ZERO))


def nbelief_of(items, normal, constant=ZERO):
    return t.rec('NormalBelief', {'numItems_': t.length(items), 'items_': items, 'normal_': normal, 'logNormalizingConstant_': constant})


def new_items(c, i=0):
    n = c04.dim(c, 'n')
    v = items_vec(c, 'items', n)
    c.setarg(i, v)
    c.distinct(v)
    return v, n


def params(*names):
    """constructors with that many parameters, told apart by the type of the last one"""
    def ok(f):
        if len(f['params']) != len(names):
            return False
        return all(n is None or n in str(p['t'].get('n', '')) for n, p in zip(names, f['params']))
    return ok


def same_normal(c, got, want, text):
    """same mean and precision (what the variance and the constant are follows: C04)"""
    for f in ('mean_', 'precision_'):
        c.ensure(eqt(t.fld(got, f), t.fld(want, f)), text + ' (%s)' % f.rstrip('_'))


@spec('MixedContinuousBelief::MixedContinuousBelief', 'C05 C17', np=1, pred=lambda f: f['params'][0]['t'].get('n', '').startswith('std::vector'), use=False,
      name='MixedContinuousBelief(items)')
def _(c):
    v, n = new_items(c)
    yield
    o = c.result
    c.ensure(eqt(t.fld(o, 'items_'), v), 'over the given items')
    c.ensure(t.eq(t.length(t.fld(o, 'beliefs_')), ZERO), 'no factors')
    c.ensure(t.eq(t.length(t.fld(o, 'isInverted_')), ZERO), 'no factors')
    c.ensure(eqt(t.fld(t.fld(o, 'normalApprox_'), 'items_'), v), 'approximated by a Gaussian over the same items')
    same_normal(c, t.fld(t.fld(o, 'normalApprox_'), 'normal_'), no_information(n), 'that carries no information')
    c.ensure(t.eq(t.fld(t.fld(o, 'normalApprox_'), 'logNormalizingConstant_'), ZERO), 'and no constant')
    c.ensure(t.lnot(t.fld(o, 'isNormalFixed_')), 'and may be changed')


@spec('MixedContinuousBelief::MixedContinuousBelief', 'C05 C17', np=1, pred=lambda f: f['params'][0]['t'].get('n') == 'ContinuousBelief', use=False,
      name='MixedContinuousBelief(factor)')
def _(c):
    p = t.var('pointee', 'O')
    a_function(lambda g: g is p)
    f = t.rec('ContinuousBelief', {'continuousBelief_': p})
    c.setarg(0, f)
    v = items_of(p)
    c.distinct(v)
    yield
    o = c.result
    n = t.length(v)
    c.ensure(eqt(t.fld(o, 'items_'), v), 'over the items of the factor')
    c.ensure(t.eq(t.length(t.fld(o, 'beliefs_')), ONE), 'one factor')
    c.ensure(eqt(t.at(t.fld(o, 'beliefs_'), 0), f), 'the given one')
    c.ensure(eqt(t.fld(o, 'isInverted_'), t.lam(1, lambda k: t.FALSE)), 'multiplied in')
    c.ensure(eqt(t.at(t.fld(o, 'relativeItems_'), 0), t.lam(n, lambda k: k)), 'whose items are those of the combination, in order')
    same_normal(c, t.fld(t.fld(o, 'normalApprox_'), 'normal_'), no_information(n), 'approximated by a Gaussian that carries no information')
    c.ensure(eqt(t.fld(t.fld(o, 'normalApprox_'), 'items_'), v), 'over the same items')


@spec('MixedContinuousBelief::fixNormalApprox', 'C05 C17', use=False)
def _(c):
    on_mixed(c)
    yield
    c.post_this('isNormalFixed_', t.TRUE, 'the approximation is kept from now on')


@spec('MixedContinuousBelief::setNormalApprox', 'C05 C17', np=1, use=False, name='setNormalApprox(belief)')
def _(c):
    o = on_mixed(c)
    b = nbelief(c, 'given', t.length(t.fld(o, 'items_')))
    c.setarg(0, b)
    yield
    c.post_this('normalApprox_', t.ite(t.fld(o, 'isNormalFixed_'), t.fld(o, 'normalApprox_'), b), 'replaced unless it is to be kept')


@spec('MixedContinuousBelief::setNormalApprox', 'C05 C17', np=2, use=False, name='setNormalApprox(mean, precision)')
def _(c):
    o = on_mixed(c)
    n = t.length(t.fld(o, 'items_'))
    m, P = t.vecvar('given mean', n), c04.symmat('given precision', n)
    c.setarg(0, m)
    c.setarg(1, P)
    yield
    c.posted.append(('this', 'normalApprox_'))
    now, was, fixed = t.fld(c.this_now(), 'normalApprox_'), t.fld(o, 'normalApprox_'), t.fld(o, 'isNormalFixed_')
    for f, x in (('mean_', m), ('precision_', P)):
        c.ensure(eqt(t.fld(t.fld(now, 'normal_'), f), t.ite(fixed, t.fld(t.fld(was, 'normal_'), f), x)), 'replaced unless it is to be kept (%s)' % f.rstrip('_'))
    c.ensure(eqt(t.fld(now, 'items_'), t.fld(o, 'items_')), 'over the same items')


@spec('MixedContinuousBelief::isProper', 'C05 C17', use=False)
def _(c):
    o = on_mixed(c)
    N = t.fld(o, 'normalApprox_')
    m = t.fld(t.fld(N, 'normal_'), 'mean_')
    yield
    ok = lambda v: t.app('isfinite', v, sort='B')
    c.returns(t.land(t.lor(t.eq(t.length(t.fld(o, 'beliefs_')), ZERO), ok(signed_sum(o, m))), ok(value_of(N, m))),
              'whether the value and its approximation are finite at the mean of the approximation')


@spec('MixedContinuousBelief::margin', 'C05 C17', use=False, cases=('approximation only',))
def _(c):
    o = on_mixed(c)
    items = t.fld(o, 'items_')
    k = c04.dim(c, 'k')
    v = items_vec(c, 'subset', k)
    c.setarg(0, v)
    c.distinct(v)
    c.req(t.lnot(missing(v, items)), 'every item is one of the items')
    c.setarg(1, t.TRUE)
    yield
    r = c.result
    c.ensure(eqt(t.fld(r, 'items_'), v), 'over the given items')
    c.ensure(t.eq(t.length(t.fld(r, 'beliefs_')), ZERO), 'no factors')
    s = places(v, items)
    g = t.fld(t.fld(o, 'normalApprox_'), 'normal_')
    V = t.mlam(k, k, lambda x, y: t.at2(t.fld(g, 'variance_'), t.at(s, x), t.at(s, y)))
    h = t.fld(t.fld(r, 'normalApprox_'), 'normal_')
    c.ensure(eqt(t.fld(h, 'mean_'), t.lam(k, lambda x: t.at(t.fld(g, 'mean_'), t.at(s, x)))), 'the means of those items')
    c.ensure(eqt(t.fld(h, 'variance_'), V), 'the variances of those items')


ASSUME['C05'] = [
    'a factor reached through the base class is a twice differentiable function of its argument with the gradient and symmetric Hessian it returns '
    '(ContinuousBeliefBase::evaluate*: assumed contract of a virtual function; proved for its three classes under C04, C06 and C07)',
    'the items of a belief are distinct (precondition; every constructor under contract keeps it)',
    'MixedContinuousBelief::margin is under contract for the approximation only; integration of several effects one after another is MixedContinuousBelief::integrate, '
    'whose parts are under contract in C03 and C07, and is compared with closed forms in the bounded part',
    'floating-point arithmetic is treated as real arithmetic']
