"""C10: every observation enters exactly one local term, with its own data."""
from vcg import terms as t
from vcg.rdeduce import rspec
from vcg.rlang import Num, Sparse, Lst, SLst, NFac, Obj, Chr, NULL, PyFun, sc, lgl, triplets, matmul, part_entries
from contracts_rcommon import *


def inside(a, C):
    """every value of vector a is one of C"""
    return t.forall(t.length(a), lambda k: t.lnot(t.forall(t.length(C), lambda m: t.lnot(t.eq(t.at(C, m), t.at(a, k))))))


def active(c, n):
    """the random effects of each of n observations: any lists of numbers"""
    ln = lambda o: t.app('act.n', o, sort='I')
    c.fact(t.forall(n, lambda o: t.le(0, ln(o))))

    def vec(o):
        return ints(t.setshape(t.app('act', o, sort='V'), ln(o)))
    return SLst(n, lambda o: Num(vec(o), 'v'))


def ints(v):
    t.set_elem_sort(v, 'I')
    return v


def groups(c, K):
    ln = lambda j: t.app('clique.n', j, sort='I')
    c.fact(t.forall(K, lambda j: t.le(1, ln(j))))
    return SLst(K, lambda j: Num(ints(t.setshape(t.app('clique', j, sort='V'), ln(j))), 'v'))


def kept(n, cond):
    """observations 1..n that meet a condition, in order"""
    i = t.fresh('p', 'I')
    return Num(t.filter_(n, i, cond(i), t.add(i, 1)), 'v')


def all_obs(n):
    return Num(t.lam(n, lambda k: t.add(k, 1)), 'v')


# ---------------------------------------------------------------- responses
@rspec('find_response', 'C10', cases=tuple((k, w) for k in ('number', 'factor', 'two columns') for w in (True, False)))
def _(c):
    if c.mode == 'use':
        m = c.arg('modfr')
        y, w = m.get('fr').get('(response)'), m.get('fr').get('(weights)')
        yield
        c.result = Lst(['response', 'weights'], [y, w])
        return
    kind_, weighted = c.case
    n = count(c, 'n', 1)
    if kind_ == 'number':
        y = Num(t.vecvar('y', n))
    elif kind_ == 'factor':
        L = count(c, 'levels', 1)
        lev = t.vecvar('lev', L)
        code = t.vecvar('code', n, 'I')
        y = NFac(code, L, lev)
        c.fact(t.forall(L, lambda k: t.lor(t.eq(k, 0), t.lnot(t.eq(t.at(lev, k), t.at(lev, 0))))))
        c.fact(t.forall(n, lambda k: t.land(t.le(1, t.at(code, k)), t.le(t.at(code, k), L))))
    else:
        y = Num(t.matvar('Y', n, t.num(2)))
    w = Num(t.vecvar('w', n)) if weighted else NULL
    c.arg('modfr', lambda: Obj('modfr', {'fr': Obj('fr', {'(response)': y, '(weights)': w})}))
    yield
    w0 = lambda k: t.at(w.x, k) if weighted else t.ONE
    if kind_ == 'number':
        r, u = (lambda k: t.at(y.x, k)), w0
    elif kind_ == 'factor':
        r, u = (lambda k: t.iv(t.lnot(t.eq(t.at(code, k), 1)))), w0
    else:
        size = lambda k: t.add(t.at2(y.x, k, 0), t.at2(y.x, k, 1))
        r, u = (lambda k: t.ite(t.lt(0, size(k)), t.div(t.at2(y.x, k, 0), size(k)), 0)), (lambda k: t.mul(w0(k), size(k)))
    c.returns(Lst(['response', 'weights'], [Num(t.lam(n, r), 'v'), Num(t.lam(n, u), 'v')]), 'response and weight of each observation')


# ---------------------------------------------------------------- allocation
@rspec('add_obs_C', 'C10')
def _(c):
    n, k = count(c, 'n', 0), count(c, 'size', 0)
    C = c.arg('C', lambda: Num(t.vecvar('C', k, 'I'), 'v'))
    act = c.arg('act', lambda: active(c, n))
    left = c.arg('obs_rem', lambda: kept(n, lambda i: t.app('left', i, sort='B')))
    if c.mode == 'use':
        n = act.n
    f = left.vec()
    p = t.fresh('p', 'I')
    yield
    c.returns(Lst(['C', 'obs_C'], [C, Num(t.filter_(left.n, p, inside(act.fn(t.sub(left.el(p), 1)).vec(), C.vec()), left.el(p)), 'v')]),
              'exactly the remaining observations that involve no effect outside C, in order')


def hit(act, cl):
    """observation i fits in clique j"""
    return lambda i, j: inside(act.fn(i).vec(), cl.fn(j).vec())


def allocated(act, cl, n):
    h = hit(act, cl)
    return lambda j: kept(n, lambda i: t.land(t.forall(j, lambda q: t.lnot(h(i, q))), h(i, j)))


@rspec('add_obs', 'C10')
def _(c):
    n, K = count(c, 'n', 1), count(c, 'cliques', 0)
    act = c.arg('act', lambda: active(c, n))
    cl = c.arg('cliques', lambda: groups(c, K))
    obs = c.arg('obs', lambda: all_obs(n))
    if c.mode == 'use':
        n, K = act.n, cl.n
        k = t.fresh('k', 'I')
        c.req(t.eq(obs.n, n), 'all observations are given')
        c.req(t.forall(n, lambda k: t.eq(obs.el(k), t.add(k, 1))), 'all observations are given, in order')
    h, part = hit(act, cl), allocated(act, cl, n)
    c.invariant(lambda I, env, k: {'cliques_ext': SLst(k, lambda j: Lst(['C', 'obs_C'], [cl.fn(j), part(j)])),
                                   'obs_rem': kept(n, lambda i: t.forall(k, lambda j: t.lnot(h(i, j))))})
    yield
    c.stops(t.lnot(t.forall(n, lambda i: t.lnot(t.forall(K, lambda j: t.lnot(h(i, j)))))), 'stops exactly when some observation fits in no clique')
    c.returns(SLst(K, lambda j: Lst(['C', 'obs_C'], [cl.fn(j), part(j)])), 'each clique with the observations that fit in it and in none before it')
    # hence each observation is in exactly one: by induction on the number of cliques
    i, k = t.fresh('o', 'I'), t.fresh('k', 'I')
    times = lambda m: t.SUM(m, lambda j: t.iv(t.land(t.forall(j, lambda q: t.lnot(h(i, q))), h(i, j))))
    some = lambda m: t.iv(t.lnot(t.forall(m, lambda j: t.lnot(h(i, j)))))
    c.lemma(t.eq(times(t.ZERO), some(t.ZERO)), 'an observation is in none of no cliques')
    c.lemma(t.eq(times(t.add(k, 1)), some(t.add(k, 1))), 'an observation that fits in some of the first cliques is allocated once among them, otherwise never (induction step)',
            t.le(0, k), t.eq(times(k), some(k)))


# ---------------------------------------------------------------- which effects an observation involves
def sparse_frame(c, offset=False):
    m = modfr(c, offset=offset)
    f = Frame(m)
    z = count(c, 'nnz.Zt', 0)
    Z = sparse('Zt', f.q, f.n, z)
    return m.put('reTrms', m.get('reTrms').put('Zt', Sparse(Z)))


def entries(m):
    """the stored entries of Lambda' Z', as the frame first gives them"""
    r = m.get('reTrms')
    return triplets(matmul(r.get('Lambdat').dense(), r.get('Zt').dense() if isinstance(r.get('Zt'), Sparse) else r.get('Zt').x))


@rspec('find_active', 'C10')
def _(c):
    m = c.arg('modfr', lambda: sparse_frame(c))
    f = Frame(m)
    E = entries(m)
    F = dict(E.a[1])
    nz = F['nnz']
    yield
    if c.mode == 'use':
        # any lists with the properties proved below
        act = active(c, f.n)
        a = lambda o: act.fn(o).vec()
        c.I.facts.append(t.forall(f.n, lambda o: t.le(0, t.length(a(o)))))
        c.I.facts.append(t.forall(f.n, lambda o: t.forall(t.length(a(o)), lambda k: t.land(t.le(1, t.at(a(o), k)), t.le(t.at(a(o), k), f.q)))))
        c.I.facts.append(t.forall(f.n, lambda o: t.forall(nz, lambda e: t.lor(t.lnot(t.eq(t.at(F['ci'], e), o)), t.lnot(t.forall(
            t.length(a(o)), lambda k: t.lnot(t.eq(t.at(a(o), k), t.add(t.at(F['ri'], e), 1)))))))))
        c.result = act
        return
    p = t.fresh('p', 'I')
    c.returns(SLst(f.n, lambda o: Num(t.filter_(nz, p, t.eq(t.at(F['ci'], p), o), t.add(t.at(F['ri'], p), 1)), 'v')),
              'for each observation the rows of the stored entries in its column')
    o, k = t.fresh('k', 'I'), t.fresh('k', 'I')
    v = c.result.fn(o).vec()
    c.lemma(t.forall(t.length(v), lambda e: t.land(t.le(1, t.at(v, e)), t.le(t.at(v, e), f.q))), 'they are numbers of random effects', t.le(0, o), t.lt(o, f.n))
    c.lemma(t.lor(t.lnot(t.eq(t.at(F['ci'], k), o)), t.lnot(t.forall(t.length(v), lambda e: t.lnot(t.eq(t.at(v, e), t.add(t.at(F['ri'], k), 1)))))),
            'every stored entry in its column is listed', t.le(0, o), t.lt(o, f.n), t.le(0, k), t.lt(k, nz))
    # an effect that is not listed has no part in the linear predictor
    entry = S(nz, lambda e: t.mul(t.iv(t.eq(t.at(F['ri'], e), k)), t.iv(t.eq(t.at(F['ci'], e), o)), t.at(F['va'], e)))
    c.lemma(t.eq(entry, 0), 'an effect that is not listed does not enter the linear predictor of the observation (its entry, the sum of what is stored there, is 0)',
            t.le(0, o), t.lt(o, f.n), t.le(0, k), t.lt(k, f.q), t.forall(t.length(v), lambda e: t.lnot(t.eq(t.at(v, e), t.add(k, 1)))))


def inst(f, v):
    """what a quantified statement says at v"""
    g = t.subst(f.a[2], {f.a[1]: v})
    return t.lor(t.lnot(f), t.lnot(t.land(t.le(0, v), t.lt(v, f.a[0]))), g)


@rspec('find_cliques', 'C10')
def _(c):
    n = count(c, 'n', 1)
    act = c.arg('act', lambda: active(c, n))
    if c.mode == 'use':
        n = act.n
    a = lambda o: act.fn(o).vec()
    yield
    if c.mode == 'use':
        K = t.var('cliques', 'I')
        cl = groups(c, K)
        b, src = (lambda j: cl.fn(j).vec()), (lambda j: t.app('clique.from', j, sort='I'))
        h = hit(act, cl)
        I = c.I
        I.facts.append(t.le(0, K))
        I.facts.append(t.forall(K, lambda j: t.le(1, t.length(b(j)))))
        I.facts.append(t.forall(K, lambda j: t.land(t.le(0, src(j)), t.lt(src(j), n), t.eq(t.length(b(j)), t.length(a(src(j)))))))
        I.facts.append(t.forall(K, lambda j: t.forall(t.length(b(j)), lambda k: t.eq(t.at(b(j), k), t.at(a(src(j)), k)))))
        I.facts.append(t.forall(n, lambda o: t.lor(t.eq(t.length(a(o)), 0), t.lnot(t.forall(K, lambda j: t.lnot(h(o, j)))))))
        c.result = cl
        return
    cl = c.result
    if not c.ensure(t.tm(isinstance(cl, SLst)), 'a list') and not isinstance(cl, SLst):
        return
    h = hit(act, cl)
    j, o = t.fresh('k', 'I'), t.fresh('k', 'I')
    b = cl.fn(j).vec()
    c.lemma(t.forall(cl.n, lambda j: t.le(1, t.length(cl.fn(j).vec()))), 'no clique is empty')
    c.lemma(t.tm(any(b is a(x) for x in reads(b))), 'each clique is the list of an observation')
    none = t.forall(cl.n, lambda j: t.lnot(h(o, j)))
    W = t.app('unique.class', t.var('unique!0', 'I'), o, sort='I')
    c.goal('post', t.lor(t.eq(t.length(a(o)), 0), t.lnot(none)), 'the effects of an observation that involves any are in one clique', t.le(0, o), t.lt(o, n), *([inst(none, W)] if none.op == 'forall' else []))


def reads(b):
    """the observation a clique is taken from"""
    return [x for x in b.a[1:]] if b.op == 'app' else []


# ---------------------------------------------------------------- the local terms
def local_term(c, m, C, obs):
    """what the local term of effects C and observations obs holds"""
    f = Frame(m)
    r = m.get('reTrms')
    L, Z = r.get('Lambdat'), f.Zt
    fr = m.get('fr')
    off = fr.get('(offset)')
    i0 = lambda v: (lambda k: t.sub(v.el(k), 1))
    ci, oi = i0(C), i0(obs)
    p = f.p if off is NULL else t.add(f.p, 1)
    X = t.mlam(obs.n, p, lambda i, k: t.at2(f.X, oi(i), k) if off is NULL else t.ite(t.lt(k, f.p), t.at2(f.X, oi(i), k), off.el(oi(i))))
    n, e, ri, cj = part_entries(L.rec, C.vec(), C.vec())
    F = dict(L.rec.a[1])
    rec = t.rec('%sparse', {'rows': C.n, 'cols': C.n, 'nnz': n, 'ri': ri, 'ci': cj, 'va': t.lam(n, lambda k: t.at(F['va'], t.at(e, k)))})
    y, w = fr.get('(response)'), fr.get('(weights)')
    return {'C': C, 'X': Num(X), 'Zt': Num(t.mlam(C.n, obs.n, lambda i, j: t.at2(Z, ci(i), oi(j)))), 'Lambdat': Sparse(rec),
            'Lind': Num(t.lam(n, lambda k: t.sub(t.at(f.Lind, t.at(e, k)), 1)), 'v'), 'resp': Num(t.mlam(obs.n, t.ONE, lambda i, j: y.el(oi(i)))),
            'weights': Num(t.lam(obs.n, lambda i: w.el(oi(i))), 'v')}


def stored(c, got, want, text):
    """the same stored entries: place and value of each"""
    if not isinstance(got, Sparse):
        c.ensure(t.FALSE, text + ' (not a sparse matrix)')
        return
    g, w = dict(got.rec.a[1]), dict(want.rec.a[1])
    for n in ('rows', 'cols', 'nnz'):
        c.ensure(t.eq(g[n], w[n]), '%s: %s' % (text, n))
    for n in ('ri', 'ci', 'va'):
        c.same(Num(g[n], 'v'), Num(w[n], 'v'), '%s: %s of each' % (text, {'ri': 'row', 'ci': 'column', 'va': 'value'}[n]))


@rspec('find_local_term', 'C10', cases=(False, True))
def _(c):
    m = c.arg('modfr', lambda: sparse_frame(c, offset=c.case))
    f = Frame(m)

    def clique():
        C, o = count(c, 'effects', 0), count(c, 'observations', 0)
        return Lst(['C', 'obs_C'], [Num(t.vecvar('C', C, 'I'), 'v'), Num(t.vecvar('obs', o, 'I'), 'v')])
    x = c.arg('clique_ext', clique)
    C, obs = x.get('C'), x.get('obs_C')
    for v, top, what in ((C, f.q, 'effects'), (obs, f.n, 'observations')):
        c.req(t.forall(v.n, lambda k: t.land(t.le(1, v.el(k)), t.le(v.el(k), top))), 'numbers of ' + what)
    want = local_term(c, m, C, obs)
    yield
    if c.mode == 'use':
        c.result = Lst(list(want), list(want.values()))
        return
    got = c.result
    ok = isinstance(got, Lst) and sorted(got.names) == sorted(want)
    c.ensure(t.tm(ok), 'a local term has the components %s' % sorted(want))
    if not ok:
        return
    for n in want:
        if n == 'Lambdat':
            stored(c, got.get(n), want[n], 'stored entries of the factor')
        else:
            c.same(got.get(n), want[n], {'C': 'the effects', 'X': 'fixed-effect row (and offset) of each observation', 'Zt': 'random-effect columns of each observation',
                                         'Lind': 'the parameter of each stored entry of the factor is the one it has in the whole', 'resp': 'response of each observation',
                                         'weights': 'weight of each observation'}[n])


@rspec('find_factorization_terms', 'C10', use=False, cases=(False, True))
def _(c):
    m = c.arg('modfr', lambda: sparse_frame(c, offset=c.case))
    f = Frame(m)

    def terms(I, pos, kw):
        def append(kind_):
            def go(I, pos, kw):
                if pos:
                    raise Unsupported('arguments without names')
                I.effects.append(('term', kind_, dict(kw)))
                return NULL
            return PyFun(go, 'append_%s_belief' % kind_)
        return Obj('beliefs', {'append_glmm_belief': append('glmm'), 'append_normal_belief': append('normal')})
    c.extern('continuous_beliefs', terms, 'an empty collection, to which append_glmm_belief and append_normal_belief add one term each')
    yield
    a = lambda o: Num(ints(t.setshape(t.app('act', o, sort='V'), t.app('act.n', o, sort='I'))), 'v')
    act = SLst(f.n, a)
    c.stops(t.forall(f.n, lambda o: t.eq(t.length(a(o).vec()), 0)), 'stops exactly when no observation involves a random effect')
    if c.stopped is not None:
        return
    K = t.var('cliques', 'I')
    cl = SLst(K, lambda j: Num(ints(t.setshape(t.app('clique', j, sort='V'), t.app('clique.n', j, sort='I'))), 'v'))
    eff = [e for e in c.I.effects if e[0] in ('each', 'term')]
    shape = len(eff) == 2 and all(e[0] == 'each' and len(e[3]) == 1 for e in eff) and [e[3][0][1] for e in eff] == ['glmm', 'normal']
    c.ensure(t.tm(shape), 'one term for each clique, then one normal term for each random effect')
    c.effects('each', 'term')
    if not shape:
        return
    (_, k, n, (g,)), (_, i, q, (z,)) = eff
    c.ensure(t.eq(n, K), 'one local term for each clique')
    c.ensure(t.eq(q, f.q), 'one normal term for each random effect')
    part = allocated(act, cl, f.n)
    want = local_term(c, m, cl.fn(k), part(k))
    inr = t.land(t.le(0, k), t.lt(k, K))
    c.I.pc.append(inr)
    got = g[2]
    names_ = {'items': 'C', 'X': 'X', 'Zt': 'Zt', 'Lambdat': 'Lambdat', 'Lind': 'Lind', 'response': 'resp', 'weights': 'weights'}
    c.ensure(t.tm(sorted(got) == sorted(names_)), 'arguments of the local term')
    if sorted(got) != sorted(names_):
        return
    for x, y in names_.items():
        w = want[y]
        if x == 'items':
            w = Num(t.lam(w.n, lambda e, w=w: t.sub(w.el(e), 1)), 'v')
        if x == 'Lambdat':
            stored(c, got[x], w, 'stored entries of the factor, of clique k')
        else:
            c.same(got[x], w, '%s of the local term of clique k' % x)
    c.I.pc.pop()
    c.I.pc.append(t.land(t.le(0, i), t.lt(i, f.q)))
    nm = z[2]
    c.ensure(t.tm(sorted(nm) == ['items', 'mean', 'precision']), 'arguments of the normal term')
    if sorted(nm) == ['items', 'mean', 'precision']:
        c.same(nm['items'], sc(i), 'normal term i is on random effect i')
        c.same(nm['mean'], sc(0), 'its mean is 0')
        c.same(nm['precision'], Num(t.mlam(t.ONE, t.ONE, lambda a, b: t.ONE)), 'its precision is 1')
    c.I.pc.pop()


ASSUME['C10'] = [
    'R and Matrix: tapply, unique, setdiff, is.element, cbind and matrix indexing as documented; which entries of a sparse matrix are stored, and in what order, is for Matrix to say, '
    'but depends on their positions only and every nonzero entry is stored',
    'the counting lemma (each observation in exactly one local term) is an induction over the number of cliques: base and step are the two obligations, the principle itself is not',
    'the generated Rcpp glue passes each argument of append_glmm_belief and append_normal_belief to the parameter of that name (exercised by the bounded part)',
    'the response holds no missing values (lme4 drops them)']
