"""C07: sparse-grid storage: interpolant and its exact derivatives, correction by a quadratic, transformation by a Gaussian."""
from vcg import terms as t, numeval
from vcg.deduce import spec, ASSUME, eqt
from vcg.terms import ONE, ZERO
import contracts_c04 as c04

fld = t.fld
HALF = t.num(t.Fr(1, 2))
t.DIFF['level0'] = lambda term, a, x: t.mul(t.app('level1', *a), t.diff(a[1], x))
t.DIFF['level1'] = lambda term, a, x: t.mul(t.app('level2', *a), t.diff(a[1], x))


def _num(k):
    def f(m, lev, x, p):
        mp = numeval.mp
        return (lambda z: mp.sin(z * 6 / 5 + p), lambda z: mp.cos(z * 6 / 5 + p) * 6 / 5, lambda z: -mp.sin(z * 6 / 5 + p) * 36 / 25)[k](x)
    return f


for _k in range(3):
    numeval.CALLS['level%d' % _k] = _num(_k)


# ------------------------------------------------------------------ one level of basis functions
def pow2(k):
    from vcg.cxx import pow2 as p
    return p(k)


def basis_level(c, name='this'):
    lev, m = t.var(name + '.level', 'I'), c04.dim(c, name + '.knots')
    g = c04.dim(c, name + '.grid')
    ids = t.vecvar(name + '.gridIds', g, 'I')
    o = t.rec('BasisLevel', {'level_': lev, 'knots_': t.vecvar(name + '.knots', m), 'gridIds_': ids,
                             'splineCoefficients_': t.matvar(name + '.coefficients', t.mul(8, pow2(lev)), pow2(lev)),
                             'scale_': t.var(name + '.scale', 'R'), 'bandwidth_': t.var(name + '.bandwidth', 'R')})
    if c.mode == 'verify':
        c.setthis(o)
        c.req(t.le(0, lev), 'a level')
        c.req(t.eq(m, pow2(lev)), 'a knot for every basis function')
        c.fact(t.le(1, pow2(lev)))
        c.req(t.lt(ZERO, fld(o, 'bandwidth_')), 'a positive width')
        c.within(ids, t.mul(2, pow2(lev)), 'interval numbers')
    return o


def intervals(o):
    """number of intervals: one more than there are knots at this level and the levels below"""
    return t.mul(2, pow2(fld(o, 'level_')))


@spec('BasisLevel::findIntervalId', 'C07 C17')
def _(c):
    o = basis_level(c) if c.mode == 'verify' else c.this()
    yield
    if c.mode == 'verify':
        c.ensure(t.land(t.le(0, c.result), t.lt(c.result, intervals(o))), 'an interval that exists')
    else:
        r = t.app('interval', c.this(), c.a(0), sort='I')
        c.result = r
        c.ensure(t.land(t.le(0, r), t.lt(r, intervals(o))), '')


def cubic(o, x, p, i):
    """the cubic of interval i"""
    C = fld(o, 'splineCoefficients_')
    return t.add(*[t.mul(t.at2(C, t.add(t.mul(4, i), k), p), t.powi(x, k) if k else ONE) for k in range(4)])


def level_fn(k):
    def con(c):
        x, p = c.a(0), c.a(1)
        if c.mode == 'verify':
            o = basis_level(c)
            c.req(t.land(t.le(0, p), t.lt(p, pow2(fld(o, 'level_')))), 'the basis function exists')
        yield
        if c.mode == 'verify':
            i = t.fresh('interval', 'I')
            d = cubic(o, x, p, i)
            for _ in range(k):
                d = t.diff(d, x)
            d = t.ite(t.lt(ZERO, fld(o, 'level_')), d, ZERO if k else ONE)
            c.returns(t.subst(d, {i: t.app('interval', o, x, sort='I')}), 'basis function' if not k else 'derivative %d of the basis function' % k)
        else:
            c.req(t.land(t.le(0, p), t.lt(p, pow2(fld(c.this(), 'level_', 'I')))), 'the basis function exists')
            c.returns(t.app('level%d' % k, c.this(), x, p))
    return con


for _k, _n in enumerate(('evaluate', 'evaluateDerivative', 'evaluateSecondDerivative')):
    spec('BasisLevel::' + _n, 'C07 C17')(level_fn(_k))


# ------------------------------------------------------------------ all levels
def a_basis(c, name='basis'):
    n = c04.dim(c, name + '.levels')
    v = t.set_elem_sort(t.vecvar(name + '.levels', n, 'O'), 'O')
    return t.rec('Basis', {'basisLevels_': v, 'levelMax_': t.var(name + '.max', 'I')})


def exists(b, level, position):
    """the basis function is one of the stored ones"""
    L = fld(b, 'basisLevels_')
    return t.land(t.le(0, level), t.lt(level, t.length(L)), t.le(0, position), t.lt(position, pow2(fld(t.at(L, level), 'level_', 'I'))))


def phi(b, k, x, level, position):
    return t.app('level%d' % k, t.at(fld(b, 'basisLevels_'), level), x, position)


def basis_fn(k):
    def con(c):
        if c.mode == 'verify':
            c.setthis(a_basis(c))
        b, x, l, p = c.this(), c.a(0), c.a(1), c.a(2)
        c.req(exists(b, l, p), 'a basis function that exists')
        yield
        c.returns(phi(b, k, x, l, p), 'that of the level')
    return con


for _k, _n in enumerate(('evaluate', 'evaluateDerivative', 'evaluateSecondDerivative')):
    spec('Basis::' + _n, 'C07 C17')(basis_fn(_k))


# ------------------------------------------------------------------ grid points
def a_point(c, b):
    d = c04.dim(c, 'd')
    lev, pos = t.vecvar('levels', d, 'I'), t.vecvar('positions', d, 'I')
    o = t.rec('Point', {'index_': t.var('index', 'I'), 'levels_': lev, 'positions_': pos, 'levelSum_': t.var('sum', 'I')})
    c.setthis(o)
    return o


def on_grid(b, o):
    lev, pos = fld(o, 'levels_'), fld(o, 'positions_')
    return t.forall(t.length(lev), lambda s: exists(b, t.at(lev, s), t.at(pos, s)))


def product(b, o, x):
    """product over the coordinates of the one-dimensional basis functions"""
    lev, pos = fld(o, 'levels_'), fld(o, 'positions_')
    return t.PROD(t.length(lev), lambda s: phi(b, 0, t.at(x, s), t.at(lev, s), t.at(pos, s)))


def point_fn(order):
    def con(c):
        if c.mode == 'verify':
            b = a_basis(c)
            c.setarg(1, b)
            o = a_point(c, b)
        else:
            b, o = c.a(1), c.this()
        n = t.length(fld(o, 'levels_'))
        c.req(t.eq(t.length(c.a(0)), n), 'a point of that dimension')
        c.req(on_grid(b, o), 'basis functions that exist')
        c.req(t.eq(t.length(fld(o, 'positions_')), n), 'a position in every direction')
        yield
        x = c.a(0)
        f = lambda y: product(b, o, y)
        if order == 0:
            c.returns(f(x), 'product of the basis functions of every direction')
        elif order == 1:
            c.returns(t.lam(n, lambda j: c04.partial(f, x, j)), 'gradient of the value')
        else:
            c.returns(t.mlam(n, n, lambda j, k: c04.partial(f, x, j, k)), 'Hessian of the value')
    return con


for _k, _n in enumerate(('computeBasis', 'computeBasisDerivative', 'computeBasisSecondDerivative')):
    spec('Point::' + _n, 'C07 C17')(point_fn(_k))


@spec('BasisLevel::getKnot', 'C07 C17')
def _(c):
    o = basis_level(c) if c.mode == 'verify' else c.this()
    c.req(t.land(t.le(0, c.a(0)), t.lt(c.a(0), t.length(fld(o, 'knots_', 'V')))), 'the knot exists')
    yield
    c.returns(t.at(fld(o, 'knots_', 'V'), c.a(0)), 'the knot')


@spec('Point::getGridPoint', 'C07 C17')
def _(c):
    if c.mode == 'verify':
        b = a_basis(c)
        c.setarg(0, b)
        o = a_point(c, b)
        L = fld(b, 'basisLevels_')
        c.req(t.forall(t.length(L), lambda l: t.eq(t.length(t.fld(t.at(L, l), 'knots_', 'V')), pow2(fld(t.at(L, l), 'level_', 'I')))),
              'a knot for every basis function')
    else:
        b, o = c.a(0), c.this()
    c.req(on_grid(b, o), 'basis functions that exist')
    c.req(t.eq(t.length(fld(o, 'positions_')), t.length(fld(o, 'levels_'))), 'a position in every direction')
    yield
    c.returns(grid_point(b, o), 'the knots of its basis functions')


def knot(b, l, p):
    return t.at(fld(t.at(fld(b, 'basisLevels_'), l), 'knots_', 'V'), p)


def grid_point(b, o):
    lev, pos = fld(o, 'levels_'), fld(o, 'positions_')
    return t.lam(t.length(lev), lambda s: knot(b, t.at(lev, s), t.at(pos, s)))


@spec('Point::setLevelSum', 'C07 C17')
def _(c):
    if c.mode == 'verify':
        a_point(c, None)
    o = c.this()
    yield
    lev = fld(o, 'levels_')
    c.post_this('levelSum_', t.SUM(t.length(lev), lambda s: t.at(lev, s)), 'sum of the levels')


# ------------------------------------------------------------------ correction by a quadratic
def a_quadratic(c, name='this', n=None):
    n = c04.dim(c, name) if n is None else n
    return t.rec('Quadratic', {'b_': t.vecvar(name + '.centre', n), 'A_': t.matvar(name + '.A', n, n)})


def quadratic(o, x):
    b, A = fld(o, 'b_'), fld(o, 'A_')
    n = t.length(b)
    d = lambda i: t.sub(t.at(x, i), t.at(b, i))
    return t.SUM(n, lambda i: t.SUM(n, lambda j: t.mul(d(i), t.at2(A, i, j), d(j))))


def quadratic_fn(order):
    def con(c):
        if c.mode == 'verify':
            c.setthis(a_quadratic(c))
        o = c.this()
        n = t.length(fld(o, 'b_'))
        c.req(t.eq(t.length(c.a(0)), n), 'a point of that dimension')
        yield
        x = c.a(0)
        f = lambda y: quadratic(o, y)
        if order == 0:
            c.returns(f(x), 'the quadratic form')
        elif order == 1:
            c.returns(t.lam(n, lambda j: c04.partial(f, x, j)), 'gradient of the value')
        else:
            c.returns(t.mlam(n, n, lambda j, k: c04.partial(f, x, j, k)), 'Hessian of the value')
    return con


for _k, _n in enumerate(('operator()', 'derivative', 'secondDerivative')):
    spec('Quadratic::' + _n, 'C07 C17')(quadratic_fn(_k))


def correction(n, loc, D, H):
    """the quadratic with Hessian -H whose gradient at loc is -D"""
    A = t.mlam(n, n, lambda i, j: t.neg(t.mul(HALF, t.at2(H, i, j))))
    norm = t.sqrt(t.SUM(n, lambda i: t.SUM(n, lambda j: t.powi(t.at2(A, i, j), 2))))
    move = lambda i: t.mul(HALF, t.SUM(n, lambda j: t.mul(t.at2(c04.inv(A), i, j), t.at(D, j))))
    return A, t.lam(n, lambda i: t.ite(t.lt(ZERO, norm), t.add(t.at(loc, i), move(i)), t.at(loc, i))), norm


@spec('Quadratic::initializeFromDerivatives', 'C07 C17', cases=('no dimension', 'same curvature', 'curvature'))
def _(c):
    if c.mode == 'use':
        loc, D, H = c.a(0), c.a(1), c.a(2)
        n = t.length(loc)
        c.req(t.eq(t.length(D), n), 'a gradient of that size')
        c.req(t.land(t.eq(t.rows(H), n), t.eq(t.cols(H), n)), 'a Hessian of that size')
        yield
        A, b, _n = correction(n, loc, D, H)
        c.post_this('A_', A)
        c.post_this('b_', b)
        return
    n = ZERO if c.case == 'no dimension' else c04.dim(c, 'n')
    o = a_quadratic(c, 'this', n)
    c.setthis(o)
    loc, D = t.vecvar('location', n), t.vecvar('derivative', n)
    H = c04.symmat('second derivative', n)
    if c.case == 'same curvature':
        H = t.mlam(n, n, lambda i, j: ZERO)
    if c.case != 'no dimension':
        c.req(t.lt(ZERO, n), 'a dimension')
    c.setarg(0, loc)
    c.setarg(1, D)
    c.setarg(2, H)
    A, b, norm = correction(n, loc, D, H)
    if c.case == 'curvature':
        c.req(t.lt(ZERO, norm), 'not flat')
    yield
    now = c.this_now()
    c.posted += [('this', 'A_'), ('this', 'b_')]
    x = t.vecvar('x', n)
    q = lambda y: quadratic(now, y)
    c.ensure(eqt(t.mlam(n, n, lambda j, k: c04.partial(q, x, j, k)), t.mlam(n, n, lambda j, k: t.neg(t.at2(H, j, k)))),
             'its Hessian is minus the given one')
    c.ensure(eqt(fld(now, 'A_'), A), 'the matrix is symmetric, minus half the given Hessian')
    if c.case == 'same curvature':
        c.ensure(t.eq(q(x), ZERO), 'nothing is added when the curvatures agree')
    elif c.case == 'curvature':
        c.ensure(eqt(fld(now, 'b_'), b), 'centred so that its gradient at the location is minus the given one')


# ------------------------------------------------------------------ transformation by a Gaussian
def as_function(tag):
    """objects of that kind, with a basis, as twice differentiable functions"""
    def rule(g):
        if g.op == 'app' and g.a[0] == tag:
            return {'n': ONE, 'grad': t.app('gradient', g, sort='O'), 'sym': False}
        if g.op == 'app' and g.a[0] == 'gradient' and g.a[1].op == 'app' and g.a[1].a[0] == tag:
            return {'n': g.a[1].a[3], 'grad': t.app('hessian', g.a[1], sort='O'), 'sym': False}
        if g.op == 'app' and g.a[0] == 'hessian' and g.a[1].op == 'app' and g.a[1].a[0] == tag:
            return {'n': g.a[1].a[3], 'grad': None, 'sym': True}
        return None
    t._ufun_always.append(rule)


as_function('grid')
as_function('transformed')
as_function('stored')


def fn(tag, o, basis, n):
    return t.app(tag, o, basis, n, sort='O')


def fn_value(f, x, order):
    g = (f, t.app('gradient', f, sort='O'), t.app('hessian', f, sort='O'))[order]
    return t.app('call', g, x, sort='RVM'[order])


def shape_of_result(r, n, order):
    return t.setshape(r, n) if order == 1 else t.setshape(r, n, n) if order == 2 else r


def in_use(c, tag, n, order):
    c.req(t.eq(t.length(c.a(0)), n), 'a point of that dimension')
    return fn_value(fn(tag, c.this(), c.a(1), n), c.a(0), order)


def transform(c, name='this'):
    n = c04.dim(c, name)
    S, W = c04.symmat(name + '.scale', n), c04.symmat(name + '.inverse scale', n)
    g = t.rec('SparseGrid', {'k_': t.var(name + '.k', 'I'), 'd_': n, 'coefficients_': t.vecvar(name + '.coefficients', c04.dim(c, name + '.size')),
                             'bound_': t.var(name + '.bound', 'R')})
    return t.rec('SparseGridTransform', {'fTransformStored_': g, 'shift_': t.vecvar(name + '.shift', n), 'scale_': S, 'inverseScale_': W})


def whitened(o, x):
    W, m = fld(o, 'inverseScale_'), fld(o, 'shift_')
    n = t.length(m)
    return t.lam(n, lambda i: t.SUM(n, lambda j: t.mul(t.at2(W, i, j), t.sub(t.at(x, j), t.at(m, j)))))


def transformed_value(o, b, x):
    n = t.length(fld(o, 'shift_'))
    z = whitened(o, x)
    return t.sub(fn_value(fn('grid', fld(o, 'fTransformStored_'), b, n), z, 0), t.mul(HALF, t.SUM(n, lambda i: t.powi(t.at(z, i), 2))))


def derivatives(c, f, x, n, order, what):
    if order == 0:
        c.returns(f(x), what)
    elif order == 1:
        c.returns(t.lam(n, lambda j: c04.partial(f, x, j)), 'gradient of the value')
    else:
        c.returns(t.mlam(n, n, lambda j, k: c04.partial(f, x, j, k)), 'Hessian of the value')


def transform_fn(order):
    def con(c):
        if c.mode == 'verify':
            o = transform(c)
            c.setthis(o)
            n = t.length(fld(o, 'shift_'))
            c.req(t.eq(t.length(c.a(0)), n), 'a point of that dimension')
            yield
            derivatives(c, lambda y: transformed_value(o, c.a(1), y), c.a(0), n, order,
                        'the stored function at the whitened point, minus half the squared length of that')
        else:
            n = t.length(fld(c.this(), 'shift_', 'V'))
            yield
            c.returns(in_use(c, 'transformed', n, order))
    return con


# the sequence of grid points of a d-dimensional grid: by definition, each is what advance() makes of the one before
# (that it visits every admissible combination once, in the order of their indices, is checked by execution)
t.RULES['gridlevel'] = t.RULES['gridposition'] = lambda d, i, s: ZERO if i is ZERO else None


def nth_point(d, i):
    at = lambda f: t.lam(d, lambda s: t.app(f, d, i, s, sort='I'))
    return at('gridlevel'), at('gridposition')


@spec('Point::advance', '')
def _(c):
    o = c.this()
    d, i = t.length(fld(o, 'levels_')), fld(o, 'index_')
    lev, pos = nth_point(d, i)
    c.req(t.land(t.forall(d, lambda s: t.eq(t.at(fld(o, 'levels_'), s), t.at(lev, s))),
                 t.forall(d, lambda s: t.eq(t.at(fld(o, 'positions_'), s), t.at(pos, s)))), 'a point of the sequence')
    yield
    lev, pos = nth_point(d, t.add(i, 1))
    c.post_this('index_', t.add(i, 1))
    c.post_this('levels_', lev)
    c.post_this('positions_', pos)
    c.post_this('levelSum_', t.app('gridsum', d, t.add(i, 1), sort='I'))


def a_grid(c):
    d, n = c04.dim(c, 'd'), c04.dim(c, 'size')
    o = t.rec('SparseGrid', {'k_': t.var('k', 'I'), 'd_': d, 'coefficients_': t.vecvar('coefficients', n), 'bound_': t.var('bound', 'R')})
    b = a_basis(c)
    c.setthis(o)
    c.req(t.le(1, n), 'at least one point')
    c.req(t.forall(n, lambda i: t.forall(d, lambda s: exists(b, t.app('gridlevel', d, i, s, sort='I'), t.app('gridposition', d, i, s, sort='I')))),
          'the basis functions of the grid points are stored')
    return o, b


def interpolant(o, b, x):
    C, d = fld(o, 'coefficients_'), fld(o, 'd_')
    return t.SUM(t.length(C), lambda i: t.mul(t.at(C, i), t.PROD(d, lambda s: phi(
        b, 0, t.at(x, s), t.app('gridlevel', d, i, s, sort='I'), t.app('gridposition', d, i, s, sort='I')))))


def grid_fn(order):
    def con(c):
        if c.mode == 'use' and not c.ex.verifying.fname.startswith('SparseGrid::'):
            yield
            c.returns(in_use(c, 'grid', fld(c.this(), 'd_', 'I'), order))
            return
        o, b = a_grid(c) if c.mode == 'verify' else (c.this(), c.a(1))
        d = fld(o, 'd_')
        if c.mode == 'verify':
            c.setarg(1, b)
        c.req(t.eq(t.length(c.a(0)), d), 'a point of that dimension')
        yield
        x, B = c.a(0), fld(o, 'bound_')
        v = interpolant(o, b, x)
        f = lambda y: interpolant(o, b, y)
        if order == 0:
            c.returns(t.ite(t.lt(B, v), B, v), 'weighted sum of the basis functions of every grid point, no larger than the largest stored value')
        elif order == 1:
            c.returns(t.lam(d, lambda j: t.ite(t.lt(v, B), c04.partial(f, x, j), ZERO)), 'gradient of the value (none where it is cut off)')
        else:
            c.returns(t.mlam(d, d, lambda j, k: t.ite(t.lt(v, B), c04.partial(f, x, j, k), ZERO)), 'Hessian of the value (none where it is cut off)')
    return con


_ORD = ('', 'Derivative', 'SecondDerivative')
for _k, _n in enumerate(_ORD):
    spec('SparseGridTransform::interpolate' + _n, 'C07 C17')(transform_fn(_k))
    spec('SparseGrid::interpolate' + _n, 'C07 C17')(grid_fn(_k))


# ------------------------------------------------------------------ stored log-density
def store(c, name='this'):
    T = transform(c, name)
    n = t.length(fld(T, 'shift_'))
    return t.rec('SparseStore', {'modifier_': a_quadratic(c, name + '.modifier', n), 'fPlusModifierStored_': T})


def stored_value(o, b, x):
    T = fld(o, 'fPlusModifierStored_')
    n = t.length(fld(T, 'shift_'))
    return t.sub(fn_value(fn('transformed', T, b, n), x, 0), quadratic(fld(o, 'modifier_'), x))


def store_fn(order):
    def con(c):
        if c.mode == 'verify':
            o = store(c)
            c.setthis(o)
            n = t.length(fld(fld(o, 'modifier_'), 'b_'))
            c.req(t.eq(t.length(c.a(0)), n), 'a point of that dimension')
            yield
            derivatives(c, lambda y: stored_value(o, c.a(1), y), c.a(0), n, order, 'the interpolated function with the correction taken away again')
        else:
            yield
            c.returns(in_use(c, 'stored', t.length(fld(fld(c.this(), 'modifier_'), 'b_', 'V')), order))
    return con


for _k, _n in enumerate(_ORD):
    spec('SparseStore::evaluate' + _n, 'C07 C17')(store_fn(_k))


def belief_fn(order):
    def con(c):
        o = t.rec('SparseBelief', {'numItems_': c04.dim(c, 'items'), 'items_': t.vecvar('items', t.var('items.n', 'I'), 'I'), 'fStored_': store(c)})
        c.setthis(o)
        n = t.length(fld(fld(fld(o, 'fStored_'), 'modifier_'), 'b_'))
        c.req(t.eq(t.length(c.a(0)), n), 'a point of that dimension')
        yield
        f = fn('stored', fld(o, 'fStored_'), fld(c.a(1), 'sparseBasis'), n)
        c.returns(fn_value(f, c.a(0), order), 'the stored function with the basis of the settings')
    return con


for _k, _n in enumerate(_ORD):
    spec('SparseBelief::evaluate' + _n, 'C07 C17', use=False)(belief_fn(_k))


# ------------------------------------------------------------------ storing a function
Z = lambda n: t.vecvar('%point', n)        # stands for every point: a stored function is known by its value there


@spec('SparseGrid::initialize', '')
def _(c):
    o = c.this()
    d = fld(o, 'd_')
    v = c.value(0, Z(d))
    yield
    c.post_this('coefficients_', t.setshape(t.app('coefficients_of', v, c.a(1), d, sort='V'), t.length(fld(o, 'coefficients_'))))
    c.post_this('bound_', t.app('largest_of', v, c.a(1), d))


def stores(c, now, basis, f, n):
    """the grid was filled from the function f"""
    g = fld(now, 'fTransformStored_')
    v = f(Z(n))
    c.ensure(eqt(fld(g, 'coefficients_'), t.setshape(t.app('coefficients_of', v, basis, n, sort='V'), t.length(fld(g, 'coefficients_')))), 'the grid is filled from that function')


def half_square(z):
    return t.mul(HALF, t.SUM(t.length(z), lambda i: t.powi(t.at(z, i), 2)))


def coloured(shift, S):
    n = t.length(shift)
    return lambda z: t.lam(n, lambda i: t.add(t.at(shift, i), t.SUM(n, lambda j: t.mul(t.at2(S, i, j), t.at(z, j)))))


@spec('SparseGridTransform::initializeTransformedFunction', 'C07 C17', use=False)
def _(c):
    o = transform(c)
    c.setthis(o)
    F = t.var('F', 'O')
    n = t.length(fld(o, 'shift_'))
    c.setarg(0, F)
    yield
    c.posted += [('this', 'fTransformStored_')]
    y = coloured(fld(o, 'shift_'), fld(o, 'scale_'))
    stores(c, c.this_now(), c.a(1), lambda z: t.add(t.app('call', F, y(z)), half_square(z)), n)


@spec('SparseGridTransform::initializeFromNormal', 'C07 C17', use=False, cases=('some', 'none'))
def _(c):
    o = transform(c)
    n = t.length(fld(o, 'shift_'))
    if c.case == 'none':
        c.req(t.eq(n, ZERO), 'no dimension')
    else:
        c.req(t.lt(ZERO, n), 'a dimension')
    c.setthis(o)
    F = t.var('F', 'O')
    c.setarg(0, F)
    m, P = t.vecvar('mean', n), c04.symmat('precision', n)
    c.setarg(1, c04.normal(m, P))
    yield
    now = c.this_now()
    c.posted += [('this', f) for f in ('fTransformStored_', 'scale_', 'inverseScale_', 'shift_')]
    if c.case == 'some':
        S = t.setshape(t.app('misqrt', P, sort='M'), n, n)
        c.ensure(eqt(fld(now, 'scale_'), S), 'scaled by the inverse root of the precision')
        c.ensure(eqt(fld(now, 'inverseScale_'), t.setshape(t.app('msqrt', P, sort='M'), n, n)), 'and back by its root')
        c.ensure(eqt(fld(now, 'shift_'), m), 'centred at the mean')
        y = coloured(m, S)
        z = t.vecvar('z', n)
        back = t.setshape(t.app('msqrt', P, sort='M'), n, n)
        c.lemma(eqt(whitened(t.rec('SparseGridTransform', {'inverseScale_': back, 'shift_': m}), y(z)), t.lam(n, lambda i: t.at(z, i))),
                'the two maps undo each other')
        stores(c, now, c.a(2), lambda z: t.add(t.app('call', F, y(z)), half_square(z)), n)


@spec('SparseStore::initializeFromNormal', 'C07 C17', use=False)
def _(c):
    o = store(c)
    n = t.length(fld(fld(o, 'modifier_'), 'b_'))
    c.req(t.lt(ZERO, n), 'a dimension')
    c.setthis(o)
    F, D, H = t.var('F', 'O'), t.var('gradient of F', 'O'), t.var('Hessian of F', 'O')
    t.ufunction(F, ONE, D)
    t.ufunction(D, n, H)
    t.ufunction(H, n, None, True)
    m, P = t.vecvar('mean', n), c04.symmat('precision', n)
    g = c04.normal(m, P)
    c.setarg(0, g)
    for i, x in ((1, F), (2, D), (3, H)):
        c.setarg(i, x)
    yield
    now = c.this_now()
    c.posted += [('this', 'modifier_'), ('this', 'fPlusModifierStored_')]
    dD = t.lam(n, lambda j: t.sub(t.at(t.app('call', D, m, sort='V'), j), c04.partial(lambda x: c04.gauss(g, x), m, j)))
    dH = t.mlam(n, n, lambda j, k: t.sub(t.at2(t.app('call', H, m, sort='M'), j, k), c04.partial(lambda x: c04.gauss(g, x), m, j, k)))
    A, b, _n = correction(n, m, dD, dH)
    q = t.rec('Quadratic', {'A_': A, 'b_': b})
    c.ensure(eqt(fld(now, 'modifier_'), q), 'the correction takes away the differences of gradient and Hessian at the mean')
    S = t.setshape(t.app('misqrt', P, sort='M'), n, n)
    y = coloured(m, S)
    stores(c, fld(now, 'fPlusModifierStored_'), c.a(4), lambda z: t.add(t.app('call', F, y(z)), quadratic(q, y(z)), half_square(z)), n)
    # a log-density that is exactly this Gaussian, up to a constant
    k = t.var('constant', 'R')
    gs = lambda x: t.add(k, c04.gauss(g, x))
    A0, b0, _n = correction(n, m, t.lam(n, lambda j: t.sub(c04.partial(gs, m, j), c04.partial(lambda x: c04.gauss(g, x), m, j))),
                            t.mlam(n, n, lambda j, l: t.sub(c04.partial(gs, m, j, l), c04.partial(lambda x: c04.gauss(g, x), m, j, l))))
    z = Z(n)
    v = t.add(quadratic(t.rec('Quadratic', {'A_': A0, 'b_': b0}), y(z)), half_square(z))
    c.lemma(t.eq(t.add(gs(y(z)), v), gs(m)), 'an exactly Gaussian log-density leaves a constant function to be stored')


ASSUME['C07'] = [
    'Point::advance and SparseGrid::initialize (enumeration of the levels and of the grid points) have assumed contracts, used by SparseStore: the grid is some list of points; '
    'that it is the right one is decided by the bounded part only (all grids of up to 4 dimensions and 6 levels)',
    'floating-point arithmetic is treated as real arithmetic']
