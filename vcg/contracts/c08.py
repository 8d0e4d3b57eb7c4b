"""C08: elimination covers every model structure."""
from vcg import terms as t
from vcg.terms import TRUE, FALSE, ZERO, ONE
from vcg.deduce import spec, ASSUME, eqt
from vcg.sets import every, some, upto, among, isin, sub, norep
import contracts_c05 as c05
from contracts_c05 import items_of

NINT = 2147483647


def upsum(k, f):
    """sum over 0 <= l < k, the last one apart when k is k' + 1"""
    if not t.is_num(k) and t.pdict(k).get(()) == 1:
        return t.add(t.SUM(t.sub(k, 1), f), f(t.sub(k, 1)))
    return t.SUM(k, f)


# ---------------------------------------------------------------- graphs
def act(g, x):
    """x is a vertex of the graph"""
    return t.app('@act', g, x, sort='B')


def adj(g, x, y):
    return t.app('@adj', g, x, y, sort='B')


def nact(g):
    return t.app('@nact', g, sort='I')


def neighbours(g, i):
    return t.set_elem_sort(t.app('@nbrs', g, i, sort='V'), 'I')


def vertices(g):
    return t.set_elem_sort(t.app('@vertices', g, sort='V'), 'I')


def graph_ok(g):
    """invariant of every graph"""
    return [every(lambda x: every(lambda y: t.implies(adj(g, x, y), adj(g, y, x)))),
            every(lambda x: t.lnot(adj(g, x, x))), t.le(0, nact(g)),
            every(lambda x: t.implies(act(g, x), t.le(1, nact(g))))]


def clique(g, inq):
    """the items x with inq(x) are vertices, and all joined"""
    return t.land(every(lambda x: t.implies(inq(x), act(g, x))),
                  every(lambda x: every(lambda y: t.implies(t.land(inq(x), inq(y), t.lnot(t.eq(x, y))), adj(g, x, y)))))


def complete(g):
    return clique(g, lambda x: act(g, x))


def on_graph(c):
    g = c.this()
    if c.mode == 'use':
        for f in graph_ok(g):
            c.ensure(f, '')
    return g


@spec('Graph::getItems', '')
def _(c):
    g = on_graph(c)
    yield
    v = vertices(g)
    c.ensure(every(lambda x: t.land(t.implies(isin(v, x), act(g, x)), t.implies(act(g, x), isin(v, x)))), 'the vertices')
    c.ensure(norep(v), 'each once')
    c.ensure(t.le(0, t.length(v)), '')
    c.ensure(t.eq(t.length(v), nact(g)), 'their number')
    c.returns(v)


@spec('Graph::findNeighbours', '')
def _(c):
    g = on_graph(c)
    i = c.a(0)
    c.req(act(g, i), 'a vertex')
    yield
    v = neighbours(g, i)
    c.ensure(every(lambda x: t.land(t.implies(isin(v, x), t.land(act(g, x), adj(g, i, x))), t.implies(t.land(act(g, x), adj(g, i, x)), isin(v, x)))), 'the vertices joined to it')
    c.ensure(norep(v), 'each once')
    c.ensure(t.le(0, t.length(v)), '')
    c.returns(v)


@spec('isComplete', '')
def _(c):
    g = c.a(0)
    yield
    b = t.app('@complete', g, sort='B')
    c.ensure(t.land(t.implies(b, complete(g)), t.implies(complete(g), b)), '')
    c.returns(b)


@spec('Graph::connect', '')
def _(c):
    g = on_graph(c)
    v = c.a(0)
    c.req(norep(v), 'no item twice')
    c.req(every(lambda x: t.implies(isin(v, x), act(g, x))), 'vertices')
    yield
    g2 = t.fresh('graph', 'O')
    c.ex.put(c.st, c.thisl, g2)
    c.posted.append(('this', 'graph_'))
    for f in graph_ok(g2):
        c.ensure(f, '')
    c.ensure(every(lambda x: t.eqb(act(g2, x), act(g, x))), 'same vertices')
    c.ensure(t.eq(nact(g2), nact(g)), '')
    c.ensure(every(lambda x: every(lambda y: t.eqb(adj(g2, x, y), t.lor(adj(g, x, y), t.land(isin(v, x), isin(v, y), t.lnot(t.eq(x, y))))))), 'all joined')


@spec('Graph::removeNode', '')
def _(c):
    g = on_graph(c)
    i = c.a(0)
    c.req(act(g, i), 'a vertex')
    yield
    g2 = t.fresh('graph', 'O')
    c.ex.put(c.st, c.thisl, g2)
    for f in graph_ok(g2):
        c.ensure(f, '')
    c.ensure(every(lambda x: t.eqb(act(g2, x), t.land(act(g, x), t.lnot(t.eq(x, i))))), 'that vertex is gone')
    c.ensure(t.eq(nact(g2), t.sub(nact(g), 1)), '')
    c.ensure(every(lambda x: every(lambda y: t.eqb(adj(g2, x, y), adj(g, x, y)))), 'same edges')


@spec('Graph::Graph', '', np=1, pred=lambda f: f['params'][0]['t'].get('n') == 'std::vector')
def _(c):
    v = c.a(0)
    c.req(norep(v), 'no item twice')
    c.req(t.le(t.length(v), NINT), 'items can be counted')
    yield
    g = t.fresh('graph', 'O')
    for f in graph_ok(g):
        c.ensure(f, '')
    c.ensure(every(lambda x: t.eqb(act(g, x), isin(v, x))), 'the items are the vertices')
    c.ensure(every(lambda x: every(lambda y: t.lnot(adj(g, x, y)))), 'no edges')
    c.ensure(t.eq(nact(g), t.length(v)), '')
    c.returns(g)


@spec('makeDependenceGraph', 'C08 C17', heavy=True)
def _(c):
    if c.mode == 'verify':
        m = t.var('terms', 'I')
        c.fact(t.le(0, m))
        c.setarg(0, clusters('term', m))
    B = c.a(0)
    m = t.length(B)
    I = lambda l: its(t.at(B, l))
    c.req(upto(m, lambda l: norep(I(l))), 'no term lists an item twice')
    c.req(upto(m, lambda l: t.le(0, t.length(I(l)))), '')
    c.req(t.le(t.SUM(m, lambda l: t.length(I(l))), NINT), 'items can be counted')
    some_term = lambda k, f: among(k, lambda l: f(I(l)))

    def inv1(k, v, st):
        N = v['items']
        return [('items of the terms seen', every(lambda x: t.land(t.implies(isin(N, x), some_term(k, lambda w: isin(w, x))), upto(k, lambda l: t.implies(isin(I(l), x), isin(N, x)))))),
                ('each once', norep(N)), ('number of items', t.land(t.le(0, t.length(N)), t.le(t.length(N), upsum(k, lambda l: t.length(I(l))))))]
    c.loop(lambda where, names: any(n.startswith('items') for n in names), inv1)
    g0 = []

    def inv2(k, v, st):
        g = next(x for n, x in v.items() if 'raph' in n)
        if not g0:
            g0.append(g)
        out = [('a graph', f) for f in graph_ok(g)]
        out.append(('same vertices', every(lambda x: t.eqb(act(g, x), act(g0[0], x)))))
        out.append(('same number of them', t.eq(nact(g), nact(g0[0]))))
        out.append(('items are joined when a term has both', every(lambda x: every(lambda y: t.land(
            t.implies(adj(g, x, y), some_term(k, lambda w: t.land(isin(w, x), isin(w, y)))),
            upto(k, lambda l: t.implies(t.land(isin(I(l), x), isin(I(l), y), t.lnot(t.eq(x, y))), adj(g, x, y))))))))
        return out
    c.loop(lambda where, names: any('raph' in n for n in names), inv2)
    yield
    if c.mode == 'use':
        g = t.fresh('graph', 'O')
        c.returns(g)
        for f in graph_ok(g):
            c.ensure(f, '')
    g = c.result
    c.ensure(every(lambda x: t.land(t.implies(act(g, x), some_term(m, lambda w: isin(w, x))), upto(m, lambda l: t.implies(isin(I(l), x), act(g, x))))), 'the vertices are the items of the terms')
    c.ensure(t.le(nact(g), t.SUM(m, lambda l: t.length(I(l)))), 'no more vertices than items')
    c.ensure(upto(m, lambda l: clique(g, lambda x: isin(I(l), x))), 'the items of every term are all joined')
    c.ensure(every(lambda x: every(lambda y: t.implies(adj(g, x, y), some_term(m, lambda w: t.land(isin(w, x), isin(w, y)))))), 'no other items are joined')


# ---------------------------------------------------------------- lists of items
def ints(f):
    return lambda f_: f_['params'][0]['t'].get('n') == 'std::vector'


@spec('findItemsUnion', 'C08 C17')
def _(c):
    a, b = c.a(0), c.a(1)
    c.req(norep(a), 'no item twice')
    c.req(norep(b), 'no item twice')
    yield
    if c.mode == 'use':
        c.returns(t.set_elem_sort(t.app('@union', a, b, sort='V'), 'I'))
    u = c.result
    c.ensure(every(lambda x: t.eqb(isin(u, x), t.lor(isin(a, x), isin(b, x)))), 'the items of both')
    c.ensure(norep(u), 'each once')
    c.ensure(t.le(0, t.length(u)), '')
    c.ensure(t.le(t.length(u), t.add(t.length(a), t.length(b))), 'no more than both have')


@spec('isSubset', 'C08 C17', pred=lambda f: f['params'][0]['t'].get('n') == 'std::vector')
def _(c):
    a, b = c.a(0), c.a(1)
    c.req(norep(a), 'no item twice')
    c.req(norep(b), 'no item twice')
    yield
    c.returns(t.app('@subset', a, b, sort='B'), 'every item of the first is in the second')


@spec('BeliefBase::contains', 'C08 C17')
def _(c):
    a, b = its(c.a(0)), its(c.this())
    c.req(norep(a), 'no item twice')
    c.req(norep(b), 'no item twice')
    yield
    c.returns(t.app('@subset', a, b, sort='B'), 'every item of the other is in this one')


@spec('isSubset', 'C08 C17', pred=lambda f: f['params'][0]['t'].get('n') != 'std::vector', name='isSubset(belief, belief)')
def _(c):
    a, b = its(c.a(0)), its(c.a(1))
    c.req(norep(a), 'no item twice')
    c.req(norep(b), 'no item twice')
    yield
    c.returns(t.app('@subset', a, b, sort='B'), 'every item of the first is in the second')


@spec('BeliefBase::width', 'C08 C17')
def _(c):
    o = c.this()
    yield
    c.returns(t.length(its(o)), 'the number of items')


# ---------------------------------------------------------------- the cluster graph
def edge(F, S, B, e):
    return t.rec('ClusterGraphEdge', {'firstClusterId_': t.at(F, e), 'secondClusterId_': t.at(S, e), 'belief_': t.at(B, e)})


def edges(name, n):
    F, S = t.vecvar(name + '.first', n, 'I'), t.vecvar(name + '.second', n, 'I')
    B = t.set_elem_sort(t.vecvar(name + '.belief', n, 'O'), 'O')
    return t.set_elem_sort(t.lam(n, lambda e: edge(F, S, B, e)), 'O')


def clusters(name, n):
    return t.set_elem_sort(t.vecvar(name, n, 'O'), 'O')


def its(b):
    """items of a combined term"""
    if b.op == 'rec':
        return t.fld(b, 'items_')
    if b.op == 'ite':
        return t.ite(b.a[0], its(b.a[1]), its(b.a[2]))
    return items_of(b)


class Now:
    def __init__(self, o):
        self.C, self.E = t.fld(o, 'clusters_'), t.fld(o, 'edges_')
        self.nc, self.ne = t.length(self.C), t.length(self.E)

    def items(self, j):
        return its(t.at(self.C, j))

    def sep(self, e):
        return its(t.fld(t.at(self.E, e), 'belief_'))

    def first(self, e):
        return t.fld(t.at(self.E, e), 'firstClusterId_')

    def second(self, e):
        return t.fld(t.at(self.E, e), 'secondClusterId_')


def cluster_graph(c, name):
    """an arbitrary one"""
    n, m = t.var(name + '.clusters', 'I'), t.var(name + '.edges', 'I')
    c.fact(t.le(0, n))
    c.fact(t.le(0, m))
    o = c.this()
    o = t.withf(o, 'clusters_', clusters(name + '.C', n))
    return t.withf(o, 'edges_', edges(name + '.E', m))


Q = t.set_elem_sort(t.vecvar('Q', t.var('Q.n', 'I'), 'I'), 'I')        # any list of items


def structure(old, new, g, hang, lists=(), used=False, ex=None, witness=None):
    """what building the clusters of graph g does: (text, formula)"""
    out = []
    o, w = old, new
    say = lambda text, f: out.append((text, f))
    say('one cluster more than edges', t.eq(w.nc, t.add(w.ne, 1)))
    say('clusters are added', t.land(t.lt(o.nc, w.nc), t.le(o.ne, w.ne)))
    say('no more than there are items', t.le(w.nc, t.add(o.nc, t.ite(t.lt(nact(g), 1), ONE, nact(g)))))
    say('clusters made before stay', upto(o.nc, lambda j: t.land(samelist(w.items(j), o.items(j)), t.eq(lw(t.at(w.C, j)), lw(t.at(o.C, j))))))
    say('edges made before keep their first cluster and items', upto(o.ne, lambda e: t.land(t.eq(w.first(e), o.first(e)), samelist(w.sep(e), o.sep(e)))))
    say('edges complete before keep their second cluster', upto(o.ne, lambda e: t.lor(isin(hang, e), t.eq(w.second(e), o.second(e)))))
    say('every hanging edge gets a later cluster that contains its items',
        every(lambda e: t.implies(isin(hang, e), t.land(t.le(o.nc, w.second(e)), t.lt(w.second(e), w.nc), sub(w.sep(e), w.items(w.second(e)))))))
    say('every new edge leads from its own cluster to a later one', upto(w.ne, lambda e: t.land(t.eq(w.first(e), e), t.lt(e, w.second(e)), t.lt(w.second(e), w.nc)), o.ne))
    say('its items are in its cluster', upto(w.ne, lambda e: sub(w.sep(e), w.items(e)), o.ne))
    say('its items are in the cluster it leads to', upto(w.ne, lambda e: sub(w.sep(e), w.items(w.second(e))), o.ne))
    drops = lambda e, z: t.land(isin(w.items(e), z), t.lnot(isin(w.sep(e), z)), every(lambda x: t.lor(t.eq(x, z), t.lnot(isin(w.items(e), x)), isin(w.sep(e), x))),
                                upto(w.nc, lambda j: t.lnot(isin(w.items(j), z)), t.add(e, 1)))
    dropped = t.set_elem_sort(t.vecvar('dropped.%d' % t.fresh('q', 'I').id, w.ne, 'I'), 'I')
    if used:
        z = lambda e: t.at(dropped, e)
        if ex is not None:
            ex.dropped = dropped
        say('', upto(w.ne, lambda e: isin(w.items(e), z(e)), o.ne))
        say('', upto(w.ne, lambda e: t.lnot(isin(w.sep(e), z(e))), o.ne))
        say('', every(lambda x: upto(w.ne, lambda e: t.lor(t.eq(x, z(e)), t.lnot(isin(w.items(e), x)), isin(w.sep(e), x)), o.ne)))
        say('', every(lambda j: upto(w.ne, lambda e: t.implies(t.land(t.lt(e, j), t.lt(j, w.nc)), t.lnot(isin(w.items(j), z(e)))), o.ne)))
    else:
        say('each new edge drops exactly one item of its cluster, which is in no later cluster', upto(w.ne, lambda e: drops(e, witness(e)) if witness else some(lambda z: drops(e, z)), o.ne))
    say('new clusters hold items of the graph only', upto(w.nc, lambda j: every(lambda x: t.implies(isin(w.items(j), x), act(g, x))), o.nc))
    say('any items that are all joined are together in a new cluster', t.implies(clique(g, lambda x: isin(Q, x)), among(w.nc, lambda j: sub(Q, w.items(j)), o.nc)))
    for n, I in lists:         # proved for an arbitrary list: so it holds of each of these
        say('', upto(n, lambda l: t.implies(clique(g, lambda x: isin(I(l), x)), among(w.nc, lambda j: subset(I(l), w.items(j)), o.nc))))
    say('every item is in the last cluster or dropped by a new edge', every(lambda x: t.implies(act(g, x), t.lor(
        isin(w.items(t.sub(w.nc, 1)), x), among(w.ne, lambda e: t.land(isin(w.items(e), x), t.lnot(isin(w.sep(e), x))), o.ne)))))
    say('new clusters have no factors yet', upto(w.nc, lambda j: t.eq(lw(t.at(w.C, j)), 0), o.nc))
    say('no item twice in a new cluster or edge', t.land(upto(w.nc, lambda j: norep(w.items(j)), o.nc), upto(w.ne, lambda e: norep(w.sep(e)), o.ne)))
    return out


def samelist(a, b):
    if a is b:
        return TRUE
    return t.eq(a, b)


@spec('ClusterGraph::initializeInternal', 'C08 C17', heavy=True)
def _(c):
    if c.mode == 'verify':
        c.setthis(cluster_graph(c, 'this'))
        g = t.var('g', 'O')
        c.setarg(0, g)
        for f in graph_ok(g):
            c.fact(f)
        c.ex.variant = g
    g, H = c.a(0), c.a(1)
    o = Now(c.this())
    c.req(t.eq(o.nc, o.ne), 'one cluster for each edge')
    c.req(t.le(t.add(o.nc, nact(g)), NINT - 1), 'clusters can be counted')
    c.req(every(lambda e: t.implies(isin(H, e), t.land(t.le(0, e), t.lt(e, o.ne)))), 'hanging edges exist')
    c.req(every(lambda e: t.implies(isin(H, e), clique(g, lambda x: isin(o.sep(e), x)))), 'items of a hanging edge are all joined')
    c.req(every(lambda e: t.implies(isin(H, e), norep(o.sep(e)))), 'no item twice on a hanging edge')
    if c.mode == 'use':
        return_use(c, o, g, H)
        yield
        return

    def best(where, names):
        return 'itemToEliminate' in names
    chosen = []

    def choose(k, v, st):
        chosen.append(v['itemToEliminate'])
        return [('the chosen item is a candidate', isin(vertices(g), v['itemToEliminate']))]
    c.loop(best, choose)

    def hang(where, names):
        return any(n.endswith('edges_') for n in names) and any('newHanging' in n for n in names)

    def first_case(where, names):
        return any(n.endswith('edges_') for n in names) and not any('newHanging' in n for n in names)

    def val(v, end):
        return next(x for n, x in v.items() if end in n)

    def shape(name, init):
        if name.endswith('edges_'):
            S = t.vecvar('second.%d' % t.fresh('q', 'I').id, t.length(init), 'I')
            return t.set_elem_sort(t.lam(t.length(init), lambda e: t.withf(t.at(init, e), 'secondClusterId_', t.at(S, e))), 'O')

    def kept(k, v, st, cond):
        E = val(v, 'edges_')
        S1 = lambda e: t.fld(t.at(E, e), 'secondClusterId_')
        e0 = c.ex.get(st, c.thisl + ('f', 'clusters_'))
        X = t.sub(t.length(e0), 1) if cond else t.length(e0)
        was = lambda e: t.fld(t.at(start[0], e), 'secondClusterId_')
        n = t.length(E)
        out = [('edges visited get the new cluster', upto(k, lambda l: t.implies(cond(t.at(H, l)) if cond else TRUE, t.eq(S1(t.at(H, l)), X)))),
               ('other edges keep theirs', upto(n, lambda e: t.lor(t.eq(S1(e), was(e)), t.land(t.eq(S1(e), X), isin(H, e), cond(e) if cond else TRUE))))]
        return out
    start = [None]

    def grab(name, init):
        if name.endswith('edges_'):
            start[0] = init
        return shape(name, init)

    def inv1(k, v, st):
        if start[0] is None:
            start[0] = val(v, 'edges_')
        return kept(k, v, st, None)

    def inv2(k, v, st):
        if start[0] is None:
            start[0] = val(v, 'edges_')
        cl = its(t.at(c.ex.get(st, c.thisl + ('f', 'clusters_')), o.nc))
        cond = lambda e: t.app('@subset', its(t.fld(t.at(start[0], e), 'belief_')), cl, sort='B')
        N = val(v, 'newHanging')
        return kept(k, v, st, cond) + [
            ('edges still hanging', every(lambda e: t.implies(isin(N, e), t.land(isin(H, e), t.lnot(cond(e)))))),
            ('all edges still hanging', upto(k, lambda l: t.lor(cond(t.at(H, l)), isin(N, t.at(H, l)))))]
    c.loop(first_case, inv1, grab)
    c.loop(hang, inv2, grab)
    yield
    w = Now(c.this_now())
    c.posted += [0, ('this', 'clusters_'), ('this', 'edges_')]
    witness = None
    if chosen and hasattr(c.ex, 'dropped'):         # what is dropped: the item chosen, or what the recursion drops
        witness = lambda e: t.ite(t.eq(e, o.ne), chosen[-1], t.at(c.ex.dropped, e))
    for text, f in structure(o, w, g, H, witness=witness):
        c.ensure(f, text)


def return_use(c, o, g, H, scratch=True):
    s = 'after%d' % t.fresh('q', 'I').id
    n, m = t.var(s + '.nc', 'I'), t.var(s + '.ne', 'I')
    C2, E2 = clusters(s + '.C', n), edges(s + '.E', m)
    c.ensure(t.land(t.le(0, n), t.le(0, m)), '')
    c.ex.put(c.st, c.thisl + ('f', 'clusters_'), C2)
    c.ex.put(c.st, c.thisl + ('f', 'edges_'), E2)
    if scratch:
        c.ex.put(c.st, c.args[0], t.fresh('graph', 'O'))
    w = Now(c.this_now())
    for text, f in structure(o, w, g, H, getattr(c.ex, 'lists', ()), True, c.ex):
        c.ensure(f, text)
    if getattr(c.ex, 'verifying', None) and c.ex.verifying.fname == c.f['name']:
        g0 = c.ex.variant
        c.ex.oblige('termination', c.st, t.land(t.lt(nact(g), nact(g0)), t.le(0, nact(g))), 'the recursion ends: fewer items each time')


def empty_graph(c):
    o = c.this()
    o = t.withf(o, 'clusters_', t.set_elem_sort(t.setshape(t.var('noclusters', 'V'), ZERO), 'O'))
    return t.withf(o, 'edges_', t.set_elem_sort(t.setshape(t.var('noedges', 'V'), ZERO), 'O'))


NOHANG = t.set_elem_sort(t.setshape(t.var('nohang', 'V'), ZERO), 'I')


def zero_sum(n, f):
    """a sum of zeros (mathematics: holds for every n and f)"""
    return t.implies(upto(n, lambda j: t.eq(f(j), 0)), t.eq(t.SUM(n, f), 0))


@spec('ClusterGraph::initialize', 'C08 C17', heavy=True)
def _(c):
    if c.mode == 'verify':
        c.setthis(empty_graph(c))
        c.setarg(0, t.var('g', 'O'))
        for f in graph_ok(c.a(0)):
            c.fact(f)
    g = c.a(0)
    c.req(t.lt(nact(g), NINT - 1), 'items can be counted')
    o = Now(c.this())
    if c.mode == 'use':
        c.req(t.land(t.eq(o.nc, 0), t.eq(o.ne, 0)), 'nothing yet')
        return_use(c, o, g, NOHANG, False)
        c.ensure(t.eq(total(Now(c.this_now()).C), 0), '')
        yield
        return
    yield
    w = Now(c.this_now())
    c.ex.facts.append(zero_sum(w.nc, lambda j: lw(t.at(w.C, j))))
    c.ensure(t.eq(total(w.C), 0), 'no factors yet')
    c.posted += [('this', 'clusters_'), ('this', 'edges_')]
    witness = (lambda e: t.at(c.ex.dropped, e)) if hasattr(c.ex, 'dropped') else None
    for text, f in structure(o, w, g, NOHANG, witness=witness):
        c.ensure(f, text)


# ---------------------------------------------------------------- sizes
for _n, _f in (('nClusters', 'clusters_'), ('nEdges', 'edges_'), ('nMessages', 'edges_')):
    def _con(c, _f=_f):
        if c.mode == 'verify':
            c.setthis(cluster_graph(c, 'this'))
            c.req(t.le(t.length(t.fld(c.this(), _f)), NINT), 'can be counted')
        o = c.this()
        yield
        c.returns(t.length(t.fld(o, _f)), 'their number')
    spec('ClusterGraph::' + _n, 'C08 C17')(_con)


@spec('ClusterGraph::width', 'C08 C17')
def _(c):
    if c.mode == 'verify':
        c.setthis(cluster_graph(c, 'this'))
    o = Now(c.this())
    w = lambda j: t.length(o.items(j))
    c.req(upto(o.nc, lambda j: t.land(t.le(0, w(j)), t.le(w(j), NINT))), 'sizes can be counted')

    def inv(k, v, st):
        r = v['width']
        return [('no smaller than those seen', upto(k, lambda j: t.le(w(j), r))), ('zero or one of them', t.lor(t.eq(r, 0), among(k, lambda j: t.eq(w(j), r))))]
    c.loop(lambda where, names: any(n.split('.')[0] == 'width' for n in names), inv)
    yield
    r = c.result
    c.ensure(upto(o.nc, lambda j: t.le(w(j), r)), 'no cluster is larger')
    c.ensure(t.lor(t.eq(r, 0), among(o.nc, lambda j: t.eq(w(j), r))), 'it is the size of one of them')


# ---------------------------------------------------------------- terms into clusters
def lw(b):
    """log-density of a combined term at an arbitrary, fixed value of all items"""
    b = t.tm(b)
    if b.op == 'ite':
        return t.ite(b.a[0], lw(b.a[1]), lw(b.a[2]))
    if b.op == 'rec' and t.length(t.fld(b, 'beliefs_')) is ZERO:
        return ZERO             # no factors yet
    return t.app('@lw', b, sort='R')


def combined(sign):
    def con(c):
        o, p = c.this(), c.a(0)
        c.req(t.app('@subset', its(p), its(o), sort='B'), 'every item of the other is an item of this one')
        yield
        b = t.fresh('belief', 'O')
        c.ensure(t.eq(its(b), its(o)), '')
        c.ensure(t.eq(lw(b), t.add(lw(o), t.mul(t.num(sign), lw(p)))), '')
        c.ex.put(c.st, c.thisl, b)
    return con


# proved of the members themselves in C05
spec('MixedContinuousBelief::operator*=', '')(combined(1))
spec('MixedContinuousBelief::operator/=', '')(combined(-1))


def total(v):
    return t.SUM(t.length(v), lambda j: lw(t.at(v, j)))


@spec('populateBelief', 'C08 C17')
def _(c):
    if c.mode == 'verify':
        n = t.var('terms', 'I')
        c.fact(t.le(0, n))
        c.setarg(0, t.var('cluster', 'O'))
        c.setarg(2, clusters('term', n))
    B, C = c.a(2), c.a(0)
    n = t.length(B)
    inside = lambda b: t.app('@subset', its(b), its(C), sort='B')
    c.req(norep(its(C)), 'no item twice')
    c.req(t.forall(n, lambda j: norep(its(t.at(B, j)))), 'no item twice')
    sign = t.sub(t.mul(2, t.iv(c.a(1))), 1)

    def inv(k, v, st):
        b = v['cluster']
        L = found[0]
        return [('same items', t.eq(its(b), its(C))), ('combined with those seen', t.eq(lw(b), t.add(lw(C), t.mul(sign, upsum(k, lambda l: lw(t.at(L, l)))))))]
    found = [t.filter_(n, t.fresh('i', 'I'), FALSE, ZERO)]
    i = t.fresh('i', 'I')
    found[0] = t.set_elem_sort(t.filter_(n, i, inside(t.at(B, i)), t.at(B, i)), 'O')
    c.loop(lambda where, names: any(n == 'cluster' for n in names), inv)
    yield
    if c.mode == 'use':
        b, m = t.fresh('belief', 'O'), t.fresh('left', 'I')
        c.ensure(t.le(0, m), '')
        c.ex.put(c.st, c.args[0], b)
        c.ex.put(c.st, c.args[2], clusters('left.%d' % m.id, m))
    b, N = c.now(0), c.now(2)
    c.posted += [0, 2]
    c.ensure(t.eq(its(b), its(C)), 'same items')
    c.ensure(t.eq(lw(b), t.add(lw(C), t.mul(sign, t.SUM(n, lambda j: t.mul(t.iv(inside(t.at(B, j))), lw(t.at(B, j))))))), 'combined with every term inside, once')
    c.ensure(t.eq(total(N), t.SUM(n, lambda j: t.mul(t.iv(t.lnot(inside(t.at(B, j)))), lw(t.at(B, j))))), 'the others are left, once')
    c.ensure(t.forall(t.length(N), lambda j: t.lnot(inside(t.at(N, j)))), 'none that is left is inside')
    if True:
        c.ensure(t.forall(t.length(N), lambda j: among(n, lambda l: t.eq(t.at(N, j), t.at(B, l)))), 'only terms given are left')


def populating(c, name, graph=None):
    if c.mode == 'verify':
        c.setthis(cluster_graph(c, 'this') if graph is None else graph)
        n = t.var('terms', 'I')
        c.fact(t.le(0, n))
        c.setarg(name, clusters('term', n))
    o, B = Now(c.this()), c.a(name)
    c.req(t.forall(o.nc, lambda j: norep(o.items(j))), 'no item twice')
    c.req(t.forall(t.length(B), lambda j: norep(its(t.at(B, j)))), 'no item twice')
    return o, B


def subset(a, b):
    return t.app('@subset', a, b, sort='B')


def placed(c, o, B, sign, left):
    """what populating the clusters does"""
    w = Now(c.this_now())
    out = [('as many clusters', t.eq(w.nc, o.nc)), ('same items', upto(o.nc, lambda j: t.eq(w.items(j), o.items(j))))]
    s = t.add(total(o.C), t.mul(sign, total(B)))
    if left is not None:
        s = t.sub(s, t.mul(sign, total(left)))
        out.append(('no term that is left fits into a cluster', t.forall(t.length(left), lambda i: upto(o.nc, lambda j: t.lnot(subset(its(t.at(left, i)), o.items(j)))))))
        out.append(('only terms given are left', t.forall(t.length(left), lambda i: among(t.length(B), lambda l: t.eq(t.at(left, i), t.at(B, l))))))
    out.append(('every term is in the clusters exactly once', t.eq(total(w.C), s)))
    return out


def put_clusters(c, o):
    w = clusters('filled.%d' % t.fresh('q', 'I').id, o.nc)
    c.ex.put(c.st, c.thisl + ('f', 'clusters_'), w)
    c.ex.put(c.st, c.thisl + ('f', 'isCalibrated_'), FALSE)


def populates(c):
    o, B = populating(c, 1)
    sign = t.sub(t.mul(2, t.iv(c.a(0))), 1)

    def inv(k, v, st):
        C1 = next(x for n, x in v.items() if n.endswith('clusters_'))
        N = next(x for n, x in v.items() if n.startswith('beliefs'))
        return [('as many clusters', t.eq(t.length(C1), o.nc)), ('a list', t.le(0, t.length(N))),
                ('same items', upto(o.nc, lambda j: t.eq(its(t.at(C1, j)), o.items(j)))),
                ('clusters to come are as they were', upto(o.nc, lambda j: t.eq(lw(t.at(C1, j)), lw(t.at(o.C, j))), k)),
                ('no term that is left fits into a cluster seen', upto(t.length(N), lambda i: upto(k, lambda j: t.lnot(subset(its(t.at(N, i)), o.items(j)))))),
                ('only terms given are left', upto(t.length(N), lambda i: among(t.length(B), lambda l: t.eq(t.at(N, i), t.at(B, l))))),
                ('every term is in a cluster or left', t.eq(t.add(total(C1), t.mul(sign, total(N))), t.add(total(o.C), t.mul(sign, total(B)))))]
    c.loop(lambda where, names: any(n.endswith('clusters_') for n in names) and any(n.startswith('beliefs') for n in names), inv, lambda name, init: shape(name, init))

    def shape(name, init):
        if name.endswith('clusters_'):
            return clusters('during.%d' % t.fresh('q', 'I').id, o.nc)
    yield
    if c.mode == 'use':
        put_clusters(c, o)
        m = t.fresh('left', 'I')
        c.ensure(t.le(0, m), '')
        c.ex.put(c.st, c.args[1], clusters('left.%d' % m.id, m))
    c.posted += [1, ('this', 'clusters_'), ('this', 'isCalibrated_')]
    left = c.now(1)
    for text, f in placed(c, o, B, sign, left):
        c.ensure(f, text)
    c.ensure(t.implies(fits(B, o), t.eq(t.length(left), 0)), 'none is left when every term fits into a cluster')
    c.ex.facts.append(zero_sum(t.length(left), lambda j: lw(t.at(left, j))))


spec('ClusterGraph::populateClusters', 'C08 C17')(populates)


def fits(B, o):
    return upto(t.length(B), lambda i: among(o.nc, lambda j: subset(its(t.at(B, i)), o.items(j))))


def all_fit(c, B, o):
    c.req(fits(B, o), 'every term fits into a cluster')


@spec('ClusterGraph::populate', 'C08 C17')
def _(c):
    o, B = populating(c, 0)
    all_fit(c, B, o)
    yield
    if c.mode == 'use':
        put_clusters(c, o)
    c.posted += [('this', 'clusters_'), ('this', 'isCalibrated_')]
    for text, f in placed(c, o, B, ONE, None):
        c.ensure(f, text)


@spec('ClusterGraph::ClusterGraph', 'C08 C17', np=1, pred=lambda f: f['params'][0]['t'].get('n') == 'std::vector', use=False, heavy=True)
def _(c):
    n = t.var('terms', 'I')
    if c.mode == 'verify':
        c.fact(t.le(0, n))
        c.setarg(0, clusters('term', n))
    B = c.a(0)
    n = t.length(B)
    I = lambda l: its(t.at(B, l))
    c.req(upto(n, lambda l: norep(I(l))), 'no term lists an item twice')
    c.req(upto(n, lambda l: t.le(0, t.length(I(l)))), '')
    c.req(t.lt(t.SUM(n, lambda l: t.length(I(l))), NINT - 1), 'items can be counted')
    c.ex.lists = [(n, I)]
    yield
    w = Now(c.result)
    some_term = lambda f: among(n, lambda l: f(I(l)))
    c.ensure(t.eq(w.nc, t.add(w.ne, 1)), 'one cluster more than edges')
    c.ensure(upto(w.ne, lambda e: t.land(t.eq(w.first(e), e), t.lt(e, w.second(e)), t.lt(w.second(e), w.nc))), 'every edge leads from its own cluster to a later one')
    c.ensure(upto(w.ne, lambda e: t.land(sub(w.sep(e), w.items(e)), sub(w.sep(e), w.items(w.second(e))))), 'its items are in both its clusters')
    witness = (lambda e, f: f(t.at(c.ex.dropped, e))) if hasattr(c.ex, 'dropped') else (lambda e, f: some(f))
    c.ensure(upto(w.ne, lambda e: witness(e, lambda z: t.land(
        isin(w.items(e), z), t.lnot(isin(w.sep(e), z)), every(lambda x: t.lor(t.eq(x, z), t.lnot(isin(w.items(e), x)), isin(w.sep(e), x))),
        upto(w.nc, lambda j: t.lnot(isin(w.items(j), z)), t.add(e, 1))))), 'each edge drops exactly one item of its cluster, which is in no later cluster')
    c.ensure(every(lambda x: t.implies(some_term(lambda i: isin(i, x)), t.lor(
        isin(w.items(t.sub(w.nc, 1)), x), among(w.ne, lambda e: t.land(isin(w.items(e), x), t.lnot(isin(w.sep(e), x))))))), 'every item is in the last cluster or dropped by an edge')
    c.ensure(upto(w.nc, lambda j: every(lambda x: t.implies(isin(w.items(j), x), some_term(lambda i: isin(i, x))))), 'clusters hold items of the terms only')
    c.ensure(upto(n, lambda l: among(w.nc, lambda j: subset(I(l), w.items(j)))), 'every term fits into a cluster')
    c.ensure(t.eq(total(w.C), total(B)), 'every term is in the clusters exactly once')


# ---------------------------------------------------------------- messages
def margin(o, items, only, par):
    return t.app('@margin', o, items, t.iv(only), par, sort='O')


@spec('MixedContinuousBelief::margin', '')
def _(c):
    o, items, only, par = c.this(), c.a(0), c.a(1), c.a(2)
    c.req(subset(items, its(o)), 'every item kept is an item of the combination')
    yield
    b = margin(o, items, only, par)
    c.ensure(t.eq(its(b), items), '')
    c.returns(b)


@spec('MixedContinuousBelief::isProper', '')
def _(c):
    o = c.this()
    yield
    c.returns(t.app('@proper', o, sort='B'))


@spec('MixedContinuousBelief::computeLogNormalizingConstant', '')
def _(c):
    o = c.this()
    yield
    c.returns(t.app('@lognormal', o, c.a(0)))


def message(c, forward, o, e):
    """edge e joins two different clusters and its items are in both"""
    i, j = t.fld(e, 'firstClusterId_'), t.fld(e, 'secondClusterId_')
    B = t.fld(e, 'belief_')
    c.req(t.land(t.le(0, i), t.lt(i, o.nc), t.le(0, j), t.lt(j, o.nc), t.lnot(t.eq(i, j))), 'the edge joins two clusters')
    c.req(t.land(subset(its(B), o.items(i)), subset(its(B), o.items(j))), 'its items are in both')
    return i, j, B


@spec('ClusterGraph::passMessage', 'C08 C17', cases=('forward', 'backward'))
def _(c):
    if c.mode == 'verify':
        c.setthis(cluster_graph(c, 'this'))
        c.setarg(0, t.rec('ClusterGraphEdge', {'firstClusterId_': t.var('first', 'I'), 'secondClusterId_': t.var('second', 'I'), 'belief_': t.var('between', 'O')}))
        c.fact(c.a(1) if c.case == 'forward' else t.lnot(c.a(1)))
    o, e, fwd = Now(c.this()), c.a(0), c.a(1)
    i, j, B = message(c, fwd, o, e)
    i, j = t.ite(fwd, i, j), t.ite(fwd, j, i)
    only, par = c.a(2), t.fld(c.this(), 'parameters_')
    yield
    if c.mode == 'use':
        c.ex.put(c.st, c.args[0] + ('f', 'belief_'), margin(t.at(o.C, i), its(B), only, par))
        c.ex.put(c.st, c.thisl + ('f', 'clusters_') + ('i', j), t.fresh('informed', 'O'))
    e2, w = c.now(0), Now(c.this_now())
    c.posted += [0, ('this', 'clusters_')]
    B2 = t.fld(e2, 'belief_')
    c.throws(t.lnot(t.app('@proper', t.at(w.C, j), sort='B')))
    c.ensure(t.eq(B2, margin(t.at(o.C, i), its(B), only, par)), 'the edge becomes the margin of the cluster the message comes from')
    c.ensure(t.eq(w.nc, o.nc), 'as many clusters')
    c.ensure(t.land(t.eq(t.fld(e2, 'firstClusterId_'), t.fld(e, 'firstClusterId_')), t.eq(t.fld(e2, 'secondClusterId_'), t.fld(e, 'secondClusterId_'))), 'the edge joins the same clusters')
    c.ensure(t.eq(its(B2), its(B)), 'items of the edge stay the same')
    c.ensure(upto(o.nc, lambda k: t.lor(t.eq(k, j), t.eq(t.at(w.C, k), t.at(o.C, k)))), 'other clusters stay as they are')
    c.ensure(t.eq(w.items(j), o.items(j)), 'items of the cluster stay the same')
    c.ensure(t.eq(t.sub(lw(t.at(w.C, j)), lw(t.at(o.C, j))), t.sub(lw(B2), lw(B))), 'the cluster gains what the edge gains')


def messages(v):
    """log-density of all edges"""
    return t.SUM(t.length(v), lambda e: lw(t.fld(t.at(v, e), 'belief_')))


def joined(c, o):
    c.req(upto(o.ne, lambda e: t.land(t.eq(o.first(e), e), t.lt(e, o.second(e)), t.lt(o.second(e), o.nc))), 'every edge leads from its own cluster to a later one')
    c.req(upto(o.ne, lambda e: t.land(subset(o.sep(e), o.items(o.first(e))), subset(o.sep(e), o.items(o.second(e))))), 'its items are in both')


def same(o, C1, E1, back, only, par, sent=lambda e: TRUE):
    S = lambda e, f: t.fld(t.at(E1, e), f)
    return [('as many clusters and edges', t.land(t.eq(t.length(C1), o.nc), t.eq(t.length(E1), o.ne))),
            ('items of clusters stay the same', upto(o.nc, lambda j: t.eq(its(t.at(C1, j)), o.items(j)))),
            ('edges join the same clusters, on the same items', upto(o.ne, lambda e: t.land(
                t.eq(S(e, 'firstClusterId_'), o.first(e)), t.eq(S(e, 'secondClusterId_'), o.second(e)), t.eq(its(S(e, 'belief_')), o.sep(e))))),
            ('every message sent is the margin of its cluster as it is now', upto(o.ne, lambda e: t.implies(sent(e), t.eq(S(e, 'belief_'), margin(t.at(C1, o.second(e) if back else e), o.sep(e), only, par))))),
            ('what is counted in the clusters beyond the edges stays the same', t.eq(t.sub(total(C1), messages(E1)), t.sub(total(o.C), messages(o.E))))]


@spec('ClusterGraph::calibrateInternal', 'C08 C17', cases=('forward', 'backward'), heavy=True)
def _(c):
    if c.mode == 'verify':
        c.setthis(cluster_graph(c, 'this'))
        c.fact(c.a(0) if c.case == 'forward' else t.lnot(c.a(0)))
    o = Now(c.this())
    joined(c, o)
    back = c.case == 'backward' if c.mode == 'verify' else t.lnot(c.a(0)) is TRUE
    only, par = c.a(1), t.fld(c.this(), 'parameters_')

    def inv(k, v, st):
        C1, E1 = (c.ex.get(st, c.thisl + ('f', f)) for f in ('clusters_', 'edges_'))
        to_come = (lambda e: t.lt(e, t.sub(o.ne, k))) if back else (lambda e: t.le(k, e))
        return same(o, C1, E1, back, only, par, lambda e: t.lnot(to_come(e))) + [('messages to come are not sent yet', upto(o.ne, lambda e: t.implies(to_come(e), t.eq(t.fld(t.at(E1, e), 'belief_'), t.fld(t.at(o.E, e), 'belief_')))))]

    def shape(name, init):
        if name.endswith('clusters_'):
            return clusters('during.%d' % t.fresh('q', 'I').id, o.nc)
        if name.endswith('edges_'):
            return edges('during.%d' % t.fresh('q', 'I').id, o.ne)
    c.loop(lambda where, names: any(n.endswith('clusters_') for n in names), inv, shape)
    yield
    pass_all(c, o, back, only, par)


def pass_all(c, o, back, only, par):
    if c.mode == 'use':
        c.ex.put(c.st, c.thisl + ('f', 'clusters_'), clusters('after.%d' % t.fresh('q', 'I').id, o.nc))
        c.ex.put(c.st, c.thisl + ('f', 'edges_'), edges('after.%d' % t.fresh('q', 'I').id, o.ne))
    c.may_throw()
    c.posted += [('this', 'clusters_'), ('this', 'edges_')]
    w = Now(c.this_now())
    for text, f in same(o, w.C, w.E, back, only, par):
        c.ensure(f, text)


for _n, _b in (('calibrateForward', False), ('calibrateBackward', True)):
    def _con(c, _b=_b):
        if c.mode == 'verify':
            c.setthis(cluster_graph(c, 'this'))
        o = Now(c.this())
        joined(c, o)
        par = t.fld(c.this(), 'parameters_')
        yield
        pass_all(c, o, _b, FALSE, par)
    spec('ClusterGraph::' + _n, 'C08 C17')(_con)


@spec('ClusterGraph::calibrate', 'C08 C17')
def _(c):
    if c.mode == 'verify':
        c.setthis(cluster_graph(c, 'this'))
    o = Now(c.this())
    joined(c, o)
    par = t.fld(c.this(), 'parameters_')
    yield
    pass_all(c, o, True, FALSE, par)
    c.posted.append(('this', 'isCalibrated_'))
    if c.mode == 'use':
        c.ex.put(c.st, c.thisl + ('f', 'isCalibrated_'), TRUE)
    c.ensure(t.fld(c.this_now(), 'isCalibrated_'), 'and it is known to be calibrated')


@spec('ClusterGraph::computeLogNormalizingConstant', 'C08 C17', np=0)
def _(c):
    if c.mode == 'verify':
        c.setthis(cluster_graph(c, 'this'))
    o = Now(c.this())
    c.req(t.le(1, o.nc), 'there is a cluster')
    par = t.fld(c.this(), 'parameters_')
    yield
    c.returns(t.app('@lognormal', t.at(o.C, t.sub(o.nc, 1)), par), 'that of the last cluster')


@spec('ClusterGraph::extractBeliefs', 'C08 C17')
def _(c):
    if c.mode == 'verify':
        c.setthis(cluster_graph(c, 'this'))
    o = Now(c.this())
    joined(c, o)

    def shape(name, init):
        return clusters('during.%d' % t.fresh('q', 'I').id, o.nc) if name.startswith('beliefs') else None

    def inv(k, v, st):
        C1 = next(x for n, x in v.items() if n.startswith('beliefs'))
        return [('as many clusters', t.eq(t.length(C1), o.nc)), ('items of clusters stay the same', upto(o.nc, lambda j: t.eq(its(t.at(C1, j)), o.items(j)))),
                ('edges seen are divided out', t.eq(total(C1), t.sub(total(o.C), upsum(k, lambda e: lw(t.fld(t.at(o.E, e), 'belief_'))))))]
    c.loop(lambda where, names: any(n.startswith('beliefs') for n in names), inv, shape)
    yield
    if c.mode == 'use':
        c.returns(clusters('extracted.%d' % t.fresh('q', 'I').id, o.nc))
    c.ensure(t.eq(total(c.result), t.sub(total(o.C), messages(o.E))), 'every edge is divided out of a cluster, once')
    c.ensure(upto(o.nc, lambda j: t.eq(its(t.at(c.result, j)), o.items(j))), 'items of clusters stay the same')


ASSUME['C08'] = [
    'Graph (Boost adjacency_list): after construction from items, connect and removeNode the graph has the items, and the symmetric neighbour relation, its contracts state; '
    'findNeighbours and getItems list them without repetition; isComplete answers whether all items are joined',
    'MixedContinuousBelief::margin keeps exactly the items it is given (its value is under contract in C05 for the approximation and in C03/C07 for the rules)',
    'std::sort, set_union, includes, copy_if, remove_if do what the standard says (models in vcg/vcg/externals.py)',
    'ClusterGraph::margin and ClusterGraph::setNormalApprox are not under contract (bounded part only)']
