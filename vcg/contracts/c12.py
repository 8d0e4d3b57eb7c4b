"""C12: indexing of substituted variables is exact and independent of coding."""
from vcg import terms as t
from vcg.rdeduce import rspec
from vcg.rlang import Num, Lst, SLst, NFac, Lang, Chr, NULL, Arr, sc, lgl, vec_of, Inline, RStop
from contracts_rcommon import *
from contracts_c11 import hole, sym, call_tree, is_hole, ATOMS, OTHER

# An arbitrary expression is a hole: what it gives for the function under proof is its entry in the hole (induction hypothesis).
VAR = 'a'


def strings(xs):
    return Chr(list(xs)) if xs else NULL


def dedup(xs):
    return [x for k, x in enumerate(xs) if x not in xs[:k]]


def names_of(v):
    return [] if v is NULL else [x.a[0] for x in v.v]


# ---------------------------------------------------------------- occurrences
def folds(maxk):
    """which parts of a call hold occurrences"""
    return [tuple(bool(m >> j & 1) for j in range(k)) for k in range(maxk + 1) for m in range(2 ** k)]


@rspec('find_dim_sub', 'C12', cases=tuple((w, a) for w in ('first', 'again') for a in ATOMS) + tuple((w, n) for w in ('first', 'again') for n in ('a', 'b')) +
       tuple((w, 'call', f) for w in ('first', 'again') for f in folds(3)) + tuple((w, 'index', f) for w in ('first', 'again') for f in folds(3) if f) +
       tuple((w, 'other index', f) for w in ('first', 'again') for f in folds(2) if f))
def _(c):
    if c.mode == 'use':
        x, d = c.arg('x'), c.arg('d')
        if not is_hole(x):
            raise Inline()
        yield
        k = x.e['dim']
        if k is None:
            c.result = d
        else:
            c.stops(t.FALSE if d is NULL else t.lnot(t.eq(d.x, k)))
            c.result = sc(k) if d is NULL else d
        return
    start = c.case[0]
    d0 = None if start == 'first' else t.var('d0', 'I')
    ds = []
    if len(c.case) == 2:
        x = ATOMS[c.case[1]] if c.case[1] in ATOMS else Lang(sym(c.case[1]))
    else:
        f = c.case[2]
        args = [hole('e%d' % k, dim=t.var('d%d' % (k + 1), 'I') if b else None, not_name=VAR) for k, b in enumerate(f)]
        found = [a['dim'] for a in args if a['dim'] is not None]
        if c.case[1] == 'call':
            x = Lang(call_tree(OTHER, *args))
            ds = found
        elif c.case[1] == 'index':
            x = Lang(call_tree('[', sym(VAR), *args))
            ds = [t.num(len(args))] + found
        else:
            x = Lang(call_tree('[', *args))
            ds = found
    c.arg('x', x)
    c.arg('var', Chr([VAR]))
    c.arg('d', NULL if d0 is None else sc(d0))
    yield
    ds = ([] if d0 is None else [d0]) + ds
    c.stops(t.lor(*[t.lnot(t.eq(ds[0], d)) for d in ds[1:]]) if len(ds) > 1 else t.FALSE, 'stops exactly when the variable has two different numbers of indices')
    c.returns(sc(ds[0]) if ds else NULL, 'the number of indices at every occurrence')


def walker(fname, key, extra, atoms, calls, head=OTHER, once=False):
    """contract of a function that collects the different strings found in an expression"""
    @rspec(fname, 'C12', cases=tuple(('atom', a) for a in ATOMS) + (('name', 'a'), ('name', 'b')) + tuple(('call', k) for k in range(len(CALLS))) + tuple(('own', k) for k in range(len(calls))))
    def _(c):
        if c.mode == 'use':
            x = c.arg('x')
            if not is_hole(x):
                raise Inline()
            c.result = strings(x.e[key]) if 'by' not in x.e else strings(x.e['by'][int(t.numval(c.arg('i').x)) - 1])
            yield
            return
        kind = c.case[0]
        if kind == 'atom':
            x, want = ATOMS[c.case[1]], []
        elif kind == 'name':
            x, want = Lang(sym(c.case[1])), atoms(c.case[1])
        elif kind == 'call':
            args = [hole('e%d' % k, not_name=VAR, **{key: list(v)}) for k, v in enumerate(CALLS[c.case[1]])]
            x, want = Lang(call_tree(head, *args)), dedup(sum([list(v) for v in CALLS[c.case[1]]], []))
        else:
            e, want = calls[c.case[1]]
            x = Lang(e)
        c.arg('x', x)
        for n, v in extra.items():
            c.arg(n, v)
        yield
        if once:
            c.returns(strings(want), 'every name found, once')
        elif c.stopped is None:
            r = c.result
            known = r is NULL or isinstance(r, Chr) and all(x.op == 'str' for x in r.v)
            c.ensure(t.tm(known and set(names_of(r)) == set(want)), 'the names found')
    return _


CALLS = ((), ((),), (('p',),), ((), ()), (('p',), ()), ((), ('p',)), (('p', 'q'), ('q', 'r')), (('p',), ('p',)), (('p',), ('q',), ('p', 'r')), ((), (), ()))
H = lambda k, key, *v: hole('e%d' % k, not_name=VAR, **{key: list(v)})

walker('find_indices', 'indices', {'i': sc(t.num(2)), 'var': Chr([VAR])}, lambda n: [], (
    (call_tree('[', sym('a'), sym('p'), sym('q')), ['q']),                                        # the second index of the variable
    (call_tree('[', sym('a'), H(1, 'indices', 'r'), sym('q'), H(2, 'indices')), ['q']),
    (call_tree('[', sym('b'), sym('p'), sym('q')), []),                                           # another variable
    (call_tree('[', sym('b'), H(1, 'indices', 'r'), sym('q')), ['r']),
    (call_tree('[', H(0, 'indices', 'p'), H(1, 'indices', 'r')), ['p', 'r']),
    (call_tree('[', sym('a'), sym('p'), sym('p')), ['p'])))

walker('find_vars_with_index', 'vars', {'i': sc(t.num(2)), 'index': Chr(['j'])}, lambda n: [], (
    (call_tree('[', sym('x'), sym('p'), sym('j')), ['x']),
    (call_tree('[', sym('x'), H(1, 'vars'), sym('j'), H(2, 'vars')), ['x']),
    (call_tree('[', sym('x'), sym('j'), sym('p')), []),                                           # in another position
    (call_tree('[', sym('x'), sym('j')), []),                                                     # fewer indices
    (call_tree('[', sym('x'), H(1, 'vars', 'v'), sym('p')), ['v']),
    (call_tree('[', sym('x'), H(1, 'vars', 'v')), ['v'])))

walker('find_vars', 'found', {'vars': Chr(['a', 'c'])}, lambda n: ['a'] if n == 'a' else [], (
    (call_tree('[', sym('a'), H(1, 'found')), ['a']),
    (call_tree('[', sym('a'), H(1, 'found', 'c')), ['a', 'c']),
    (call_tree('g', H(0, 'found', 'c'), sym('a')), ['c', 'a'])), head='g', once=True)


@rspec('drop_index', 'C12', cases=tuple(('atom', a) for a in ATOMS) + (('name', 'a'),) + tuple(('call', k) for k in range(4)) + tuple(('index', k) for k in (1, 2, 3)))
def _(c):
    if c.mode == 'use':
        x = c.arg('x')
        if not is_hole(x):
            raise Inline()
        c.result = Lang(hole(x.e['h'] + ' without indices'))
        yield
        return
    k = c.case[0]
    args = [hole('e%d' % j) for j in range(c.case[1])] if k in ('call', 'index') else []
    bare = [hole('e%d without indices' % j) for j in range(len(args))]
    if k == 'index':
        x, want = Lang(call_tree('[', hole('v'), *args)), Lang(hole('v without indices'))
    elif k == 'call':
        x, want = Lang(call_tree(OTHER, *args)), Lang(call_tree(OTHER, *bare))
    else:
        x = want = ATOMS[c.case[1]] if k == 'atom' else Lang(sym('a'))
    c.arg('x', x)
    yield
    c.returns(want, 'every indexed variable replaced by the variable')


@rspec('matrix_indexing', 'C12', cases=tuple(('atom', a) for a in ATOMS) + (('name', 'a'),) + tuple(('call', k) for k in range(4)) + tuple(('index', k) for k in (1, 2, 3, 4)))
def _(c):
    if c.mode == 'use':
        x = c.arg('x')
        if not is_hole(x):
            raise Inline()
        c.result = Lang(hole(x.e['h'] + ' by rows'))
        yield
        return
    k = c.case[0]
    args = [hole('e%d' % j) for j in range(c.case[1])] if k in ('call', 'index') else []
    rows = [hole('e%d by rows' % j) for j in range(len(args))]
    if k == 'index':
        x = Lang(call_tree('[', sym('v'), *args))
        want = Lang(call_tree('[', sym('v'), call_tree('cbind', *args))) if len(args) > 1 else Lang(call_tree('[', sym('v'), *rows))
    elif k == 'call':
        x, want = Lang(call_tree(OTHER, *args)), Lang(call_tree(OTHER, *rows))
    else:
        x = want = ATOMS[c.case[1]] if k == 'atom' else Lang(sym('a'))
    c.arg('x', x)
    c.arg('indices', NULL)
    yield
    c.returns(want, 'several indices become one matrix with a column for each, one row for each element')


# ---------------------------------------------------------------- names of flattened indices
FLAT = ((), ((),), ((('p', 'q'),),), ((('p', 'q'),), (('p', 'q'),)), ((('p', 'q'), ('r', 's')), (('r', 's'), ('q', 'p'))), ((), (('p', 'q', 'r'),)), ((), ()))
OWN = ((True, ('p',), []), (True, ('p', 'q'), [('p', 'q')]), (True, ('p', 'q', 'r'), [('p', 'q', 'r')]), (True, ('p', 'p'), [('p', 'p')]), (False, ('p', 'q'), []))


def vectors(vs):
    return Lst([None] * len(vs), [Chr(list(v)) for v in vs])


@rspec('extract_to_flatten', 'C12', cases=tuple(('atom', a) for a in ATOMS) + (('name', 'a'), ('name', 'b')) + tuple(('call', k) for k in range(len(FLAT))) + tuple(('own', k) for k in range(len(OWN))))
def _(c):
    if c.mode == 'use':
        x = c.arg('x')
        if not is_hole(x):
            raise Inline()
        c.result = vectors(x.e['flat'])
        yield
        return
    k = c.case[0]
    if k == 'atom' or k == 'name':
        x, want = ATOMS[c.case[1]] if k == 'atom' else Lang(sym(c.case[1])), []
    elif k == 'call':
        args = [hole('e%d' % j, flat=list(v), occurs=bool(v)) for j, v in enumerate(FLAT[c.case[1]])]
        x, want = Lang(call_tree(OTHER, *args)), dedup(sum([list(v) for v in FLAT[c.case[1]]], []))
    else:
        sub, ix, want = OWN[c.case[1]]
        x = Lang(call_tree('[', hole('e', flat=[], occurs=sub), *[sym(i) for i in ix]))
    c.arg('x', x)
    c.arg('subvar', Chr([VAR]))
    yield
    if c.stopped is None:
        r = c.result
        got = [] if r is NULL else [names_of(v) for v in r.vals]
        c.ensure(t.tm(sorted(set(map(tuple, got))) == sorted(set(map(tuple, want)))), 'the index names of every occurrence with several indices: %s against %s' % (got, want))


# ---------------------------------------------------------------- flattening
def weight(l):
    """number of positions of the grid for one step of index k: the product of the levels of the indices before it"""
    return lambda k: t.PROD(k, lambda m: l(m))


def flat(d, l, x):
    """position in the grid of the index with components x(0), x(1), ..., counted from 1"""
    w = weight(l)
    return t.add(1, t.SUM(d, lambda k: t.mul(t.sub(x(k), 1), w(k))))


@rspec('multi_to_flat', 'C12')
def _(c):
    d, n = count(c, 'd', 1), count(c, 'n', 1)
    lev = lambda k: t.app('levels', k, sort='I')
    ind = c.arg('indices', lambda: SLst(d, lambda k: Num(t.setshape(t.app('index', k, sort='V'), lev(k)))))
    id_ = c.arg('multi_id', lambda: Num(t.mlam(d, n, lambda i, j: t.app('id', i, j, sort='I'))))
    m = id_.x
    if c.mode == 'use':
        lens = [size(c.I, v) for v in ind.vals] if isinstance(ind, Lst) else None
        dd = t.num(len(lens)) if lens else ind.n
        l = (lambda k: vec_of(lens).a and t.at(vec_of(lens), k)) if lens else (lambda k: size(c.I, ind.fn(k)))
    else:
        dd, l = d, lev
        c.fact(t.forall(d, lambda k: t.le(1, lev(k))))
    c.req(t.land(t.le(1, dd), t.eq(t.rows(m), dd)), 'a row for each index')
    yield
    c.returns(Num(t.lam(t.cols(m), lambda j: flat(dd, l, lambda k: t.at2(m, k, j))), 'v'), 'column j is the position of its cell in the grid whose first index varies fastest')
    if c.mode == 'use':
        return
    # the map is one to one onto 1..N: by induction on the number of indices, for any cell x
    x, y = (lambda k: t.app('x', k, sort='I')), (lambda k: t.app('y', k, sort='I'))
    w = weight(lev)
    k = t.fresh('k', 'I')
    off = lambda z, n: t.SUM(n, lambda j: t.mul(t.sub(z(j), 1), w(j)))
    c.fact(t.le(0, k))
    c.lemma(t.eq(off(x, t.add(k, 1)), t.add(off(x, k), t.mul(t.sub(x(k), 1), w(k)))), 'one more index adds its steps, each as long as the grid of the indices before it')
    c.lemma(t.eq(w(t.add(k, 1)), t.mul(w(k), lev(k))), 'one more index multiplies the size of the grid by its number of levels')
    c.lemma(t.eq(off(x, t.ZERO), 0), 'no index: the only cell')
    c.lemma(t.eq(w(t.ZERO), 1), 'no index: one cell')
    s, s2, W, a, b, L = [t.var(v, 'I') for v in ('s', 's2', 'W', 'xk', 'yk', 'L')]
    cell = (t.le(0, s), t.lt(s, W), t.le(1, a), t.le(a, L))
    c.lemma(t.land(t.le(0, t.add(s, t.mul(t.sub(a, 1), W))), t.lt(t.add(s, t.mul(t.sub(a, 1), W)), t.mul(W, L))), 'induction step: positions stay inside the grid', *cell)
    c.lemma(t.land(t.eq(a, b), t.eq(s, s2)), 'induction step: different cells have different positions',
            t.eq(t.add(s, t.mul(t.sub(a, 1), W)), t.add(s2, t.mul(t.sub(b, 1), W))), *cell, t.le(0, s2), t.lt(s2, W), t.le(1, b), t.le(b, L))


from vcg.rlang import size          # noqa: E402


@rspec('find_dim_in_dir', 'C12', cases=tuple((d, i) for d in (0, 2, 3) for i in (1, 2, 3, 4)))
def _(c):
    if c.mode == 'verify':
        d, i = c.case
        ns = [count(c, 'n%d' % k, 0) for k in range(max(d, 1))]
        x = Num(t.vecvar('x', ns[0])) if d == 0 else Num(t.matvar('x', *ns)) if d == 2 else Arr(ns)
        c.arg('x', x)
        c.arg('i', sc(t.num(i)))
    else:
        x, i = c.arg('x'), c.arg('i').x
        ns = list(x.dims) if isinstance(x, Arr) else [t.rows(x.x), t.cols(x.x)] if x.mode == 'm' else [x.n]
        i = int(t.numval(i))
    yield
    c.stops(t.tm(i > len(ns)), 'stops exactly when there is no such dimension')
    if i <= len(ns):
        c.returns(sc(ns[i - 1]), 'number of positions in the dimension')


@rspec('flatten_vars', 'C12', use=False, cases=((2, ('n', 'n')), (2, ('n', 'f')), (2, ('f', 'f')), (3, ('n', 'n', 'n')), (3, ('f', 'n', 'f')), (4, ('n', 'f', 'n', 'n'))))
def _(c):
    d, kinds = c.case
    n = count(c, 'n', 1)
    names = ['v%d' % k for k in range(d)]
    code = [t.vecvar(v, n, 'I') for v in names]
    lens = [count(c, 'l%d' % k, 1) for k in range(d)]
    c.arg('var_names', Chr(names))
    c.arg('indices', Lst(['i%d' % k for k in range(d)], [Num(t.vecvar('index%d' % k, lens[k])) for k in range(d)]))
    other = [Num(t.vecvar('other', n))]
    c.arg('data', Lst(['y'] + names[::-1], other + [Num(x) if k == 'n' else NFac(x, l, t.vecvar('lv%d' % j, l)) for j, (x, k, l) in enumerate(zip(code, kinds, lens))][::-1]))
    yield
    w = [t.num(1)]
    for l in lens:
        w.append(t.mul(w[-1], l))
    c.returns(Num(t.lam(n, lambda j: t.add(1, *[t.mul(t.sub(t.at(x, j), 1), w[k]) for k, x in enumerate(code)])), 'v'), 'cell of each observation: codes of factors and numbers alike')


# ---------------------------------------------------------------- levels of an index
def biggest(xs):
    r = xs[0]
    for x in xs[1:]:
        r = t.ite(t.lt(r, x), x, r)
    return r


def array(c, name, d):
    ns = [count(c, '%s.n%d' % (name, k), 1) for k in range(d)]
    return (Num(t.vecvar(name, ns[0])) if d == 1 else Num(t.matvar(name, *ns)) if d == 2 else Arr(ns)), ns


def whole(v):
    return t.eq(v, t.app('round', v, sort='I')) if v.sort != 'I' else t.TRUE


INDEXED = ((), (1,), (2,), (3,), (2, 2), (1, 2), (2, 3), (3, 2, 2))


@rspec('find_index_i', 'C12', cases=tuple((k, i, ds) for k in ('factor', 'numbers', 'whole numbers') for i in (1, 2) for ds in INDEXED))
def _(c):
    if c.mode == 'use':
        ix, form, data, i = c.arg('index_i'), c.arg('subform').e, c.arg('data'), int(t.numval(c.arg('i').x))
        vs = [v for v in form['indexed'][i - 1] if v in data.names]
        ds = [list(v.dims) if isinstance(v, Arr) else [t.rows(v.x), t.cols(v.x)] if v.mode == 'm' else [v.n] for v in (data.get(v) for v in vs)]
    else:
        kind, i, ds = c.case
        names = ['v%d' % k for k in range(len(ds))]
        arrs = [array(c, v, d) for v, d in zip(names, ds)]
        ds = [a[1] for a in arrs]
        m = count(c, 'm', 1)
        ix = NFac(t.lam(m, lambda k: t.add(k, 1)), m, t.vecvar('labels', m)) if kind == 'factor' else Num(t.vecvar('values', m, 'I' if kind == 'whole numbers' else 'R'))
        c.arg('index_i', ix)
        c.arg('index', Chr(['j']))
        c.arg('i', sc(t.num(i)))
        c.arg('subform', Lang(hole('form', vars=names + ['absent'])))
        c.arg('data', Lst(names + ['other'], [a[0] for a in arrs] + [Num(t.vecvar('other', m))]))
    if not isinstance(ix, NFac):
        c.req(t.lt(0, ix.vec().sort and t.length(ix.vec())), 'at least one value')
    yield
    few = any(len(d) < i for d in ds)
    if few:
        c.stops(t.TRUE, 'stops when a variable has fewer dimensions')
        return
    have = [d[i - 1] for d in ds]
    if isinstance(ix, NFac):
        c.stops(t.lnot(t.eq(ix.nlev, biggest(have))) if have else t.FALSE, 'stops exactly when the levels are not those of the indexed variables')
        c.returns(ix, 'the levels of the factor')
        return
    v = ix.vec()
    n = t.length(v)
    if have:
        top = biggest(have)
        c.stops(t.lnot(t.forall(n, lambda k: t.land(t.le(1, t.at(v, k)), t.le(t.at(v, k), top), whole(t.at(v, k))))), 'stops exactly when a value is none of 1, 2, ..., the size of the indexed variables')
    else:
        top = t.app('max', v, sort='I' if t.at(v, t.fresh('k', 'I')).sort == 'I' else 'R')
        p = t.app('position of max', v, sort='I')
        c.fact(t.land(t.forall(n, lambda k: t.le(t.at(v, k), top)), t.le(0, p), t.lt(p, n), t.eq(t.at(v, p), top)))
        c.stops(t.lnot(t.forall(n, lambda k: t.land(t.le(1, t.at(v, k)), whole(t.at(v, k))))), 'stops exactly when a value is none of 1, 2, ...')
    if c.mode == 'use' or c.stopped is None:
        ntop = top if top.sort == 'I' else t.app('round', top, sort='I')
        c.returns(Num(t.lam(ntop, lambda k: t.add(k, 1)), 'v'), '1, 2, ..., the size of the indexed variables, or the largest value')


# kinds of one index: how the variables used there are coded; whether the data give the index itself
def position(c, i, kind, k):
    """data for position i: k variables; -> names, data entries, index entry or None"""
    names = ['u%d%d' % (i, j) for j in range(k)]
    n = t.var('n', 'I')
    data = {}
    for j, v in enumerate(names):
        L = count(c, v + '.nlev', 1)
        lab = t.vecvar(v + '.levels', L)
        fac = kind == 'factors' or kind == 'mixed' and j == 0 or kind == 'given, factors'
        data[v] = NFac(t.vecvar(v + '.codes', n, 'I'), L, lab) if fac else Num(t.vecvar(v, n))
    given = None
    if kind.startswith('given'):
        m = count(c, 'm%d' % i, 1)
        given = Num(t.vecvar('given%d' % i, m))
    return names, data, given


PLACES = tuple(((k, m),) for k in ('numbers', 'factors', 'mixed', 'given', 'given, factors') for m in (1, 2) if m > 1 or k != 'mixed') + \
    ((('numbers', 1), ('factors', 2)), (('factors', 2), ('numbers', 2)), (('given', 2), ('numbers', 1)), (('numbers', 1), ('given', 1)), (('factors', 1), ('given, factors', 2)),
     (('given', 1), ('given, factors', 2)), (('numbers', 1), ('factors', 1), ('given', 1)), (('factors', 1), ('numbers', 1), ('numbers', 2)))


@rspec('find_indices_subform', 'C12', use=False, cases=PLACES + ('other dimension', 'unknown variable'))
def _(c):
    n = count(c, 'n', 1)
    places = c.case if isinstance(c.case, tuple) else (('numbers', 1), ('numbers', 1))
    d = len(places)
    data, idx, pos = {'y': Num(t.vecvar('y', n))}, [], []
    for i, (kind, k) in enumerate(places):
        names, dt, given = position(c, i, kind, k)
        pos.append((kind, names, dt, given))
        idx.append(names)
        data.update(dt)
        if given is not None:
            data['i%d' % i] = given
    arr, size_ = array(c, 'v', d)
    data['v'] = arr
    expr = hole('subexpr', dim=t.num(d), by=[list(x) for x in idx])
    if c.case == 'unknown variable':
        expr['by'][1] = ['u10', 'nowhere']
    form = hole('subform', dim=t.num(d if c.case != 'other dimension' else 3), by=[['i%d' % i] for i in range(d)], indexed=[['v', 'absent'] for i in range(d)])
    c.arg('sub', Lst(['subvar', 'subform', 'subexpr'], [Chr([VAR]), Lang(form), Lang(expr)]))
    D = c.arg('data', Lst(list(data), list(data.values())))
    yield
    if isinstance(c.case, str):
        c.stops(t.TRUE, 'an inconsistent number of indices, or an index variable that is not in the data, stops')
        return
    bad, want, new = t.FALSE, [], D
    for i, (kind, names, dt, given) in enumerate(pos):
        top = size_[i]
        value = lambda v: (lambda k: t.at(v.levels, t.sub(t.at(v.code, k), 1))) if isinstance(v, NFac) else v.el
        if given is not None:
            L, m = given.vec(), given.n
            for v in names:
                code = t.lam(n, lambda k, v=v: t.app('match', value(dt[v])(k), L, sort='I'))
                bad = t.lor(bad, t.lnot(t.forall(n, lambda k: t.lt(0, t.at(code, k)))))
                new = new.put(v, NFac(code, m, L))
            bad = t.lor(bad, t.lnot(t.eq(m, top)))
            want.append(NFac(t.lam(m, lambda k: t.add(k, 1)), m, L))
        elif kind == 'factors':
            f = dt[names[0]]
            for v in names[1:]:
                bad = t.lor(bad, t.lnot(t.land(t.eq(f.nlev, dt[v].nlev), t.forall(f.nlev, lambda k: t.eq(t.at(f.levels, k), t.at(dt[v].levels, k))))))
            bad = t.lor(bad, t.lnot(t.eq(f.nlev, top)))
            want.append(NFac(t.lam(f.nlev, lambda k: t.add(k, 1)), f.nlev, f.levels))
        elif kind == 'numbers':
            for v in names:
                x = dt[v].x
                bad = t.lor(bad, t.lnot(t.forall(n, lambda k: t.land(t.le(1, t.at(x, k)), t.le(t.at(x, k), top), whole(t.at(x, k))))))
            want.append(Num(t.lam(top, lambda k: t.add(k, 1)), 'v'))
        else:
            bad = t.TRUE
            want.append(NULL)
    c.stops(bad, 'stops exactly when an index takes values that are not among the levels of its position, or codings do not agree')
    if bad is not t.TRUE:
        c.returns(Lst(['data', 'indices_subform'], [new, Lst(['i%d' % i for i in range(d)], want)]), 'the levels of each position, found from the variables used there; factors in the data have those levels')


# ---------------------------------------------------------------- subformulas and the expressions they are for
@rspec('find_subvar', 'C12', cases=('name', 'index', 'several'))
def _(c):
    if c.mode == 'use':
        f = c.arg('subform')
        c.result = Chr([f.e['var']])
        yield
        return
    v = {'name': sym('s'), 'index': call_tree('[', sym('s'), hole('i'), hole('j')), 'several': call_tree('f', sym('s'), sym('t'))}[c.case]
    form = Lang(call_tree('~', v, hole('rhs')))
    c.arg('subform', form)
    ch = t.var('char', 'B')
    c.arg('char', Num(ch))
    c.extern('terms', lambda I, pos, kw: pos[0], 'terms() keeps the left-hand side of a formula')
    yield
    if c.case == 'several':
        c.stops(t.TRUE, 'stops unless there is one variable on the left')
        return
    c.stops(t.FALSE)
    if c.stopped is None:
        if c.I.decided(ch) is True:
            c.same(c.result, Chr(['s']), 'name of the substituted variable')
        else:
            c.same(c.result, Lang(sym('s')), 'the substituted variable')


MATCH = ((('s',), (('s',),)), (('s', 'u'), (('s',), ('u',))), (('s', 'u'), (('u',), ('s',))), (('s', 'u'), (('s',),)), (('s',), (('s',), ('s',))), (('s',), ((),)),
         (('s', 'u'), (('s', 'u'),)), (('s', 'u', 'v'), (('v',), ('s',), ('u',))), (('s', 'u'), (('u',), ('u',), ('s',))), (('s', 'u'), (('s',), ())))


@rspec('add_subexpr', 'C12', cases=tuple((k, m) for m, (vs, es) in enumerate(MATCH) for k in range(len(vs)) if all(es)))
def _(c):
    if c.mode == 'use':
        v = c.arg('subform').e['var']
        which = c.arg('which_subvars')
        ks = [k for k, x in enumerate(which.vals) if x.v[0].a[0] == v]
        exprs = c.arg('subexprs').vals
        form = c.arg('subform')
    else:
        k, m = c.case
        vs, es = MATCH[m]
        v = vs[k]
        form = c.arg('subform', Lang(hole('form ' + v, var=v)))
        exprs = [Lang(hole('expr%d' % j, found=list(e))) for j, e in enumerate(es)]
        c.arg('subexprs', Lst([None] * len(es), exprs))
        c.arg('which_subvars', Lst([None] * len(es), [strings(list(e)) for e in es]))
        ks = [j for j, e in enumerate(es) if e[0] == v]
    yield
    c.warns(t.tm(not ks), 'warns exactly when no expression involves the variable')
    c.stops(t.tm(len(ks) > 1), 'stops exactly when several expressions involve the variable')
    if len(ks) == 1:
        c.returns(Lst(['subvar', 'subform', 'subexpr'], [Chr([v]), form, exprs[ks[0]]]), 'the subformula with the expression that involves its variable')
    elif not ks:
        c.returns(NULL, 'nothing')


@rspec('match_subform_subexpr', 'C12', use=False, cases=tuple(range(len(MATCH))))
def _(c):
    vs, es = MATCH[c.case]
    forms = [Lang(hole('form ' + v, var=v)) for v in vs]
    exprs = [Lang(hole('expr%d' % j, found=list(e))) for j, e in enumerate(es)]
    c.arg('subforms', Lst([None] * len(vs), forms))
    c.arg('subexprs', Lst([None] * len(es), exprs))
    c.arg('data', NULL)
    yield
    bad = any(len(e) != 1 for e in es) or any(sum(v in e for e in es) > 1 for v in vs)
    c.stops(t.tm(bad), 'stops exactly when an expression does not involve exactly one of the variables, or two involve the same one')
    if not bad:
        c.warns(t.tm(any(not any(v in e for e in es) for v in vs)), 'warns exactly when a variable is not used')
        c.returns(Lst([None] * len(vs), [Lst(['subvar', 'subform', 'subexpr'], [Chr([v]), f, [x for x, e in zip(exprs, es) if v in e][0]]) if any(v in e for e in es) else NULL
                                         for v, f in zip(vs, forms)]), 'each subformula with its own expression')


ASSUME['C12'] = [
    'expressions: as in C11, a call whose arguments are arbitrary expressions, up to 3 or 4 of them; induction over the structure covers the rest',
    'the number of index positions of a variable and the number of indexing vectors are those of the listed cases (up to 3); the numbers of levels, of observations and the codes are arbitrary',
    'match, factor, levels, mget, exists, expand.grid: as documented by R',
    'floating-point arithmetic is treated as real arithmetic']
