"""C11: subformula terms contribute the written linear combination of designs."""
from vcg import terms as t
from vcg.rdeduce import rspec
from vcg.rlang import Num, Sparse, Lst, SLst, NFac, Lang, Obj, Chr, NULL, PyFun, Clo, Opq, sc, lgl, vec_of, make_call, Inline, Env
from contracts_rcommon import *


def design(c, name, n, re, full=True, p=None, q=None):
    """a frame of n rows made from a subformula: fixed design, and (re) the random-effects terms"""
    p = count(c, name + '.p', 0) if p is None else p
    fs = {'X': Num(t.matvar(name + '.X', n, p))}
    if re:
        q, k = count(c, name + '.q', 1) if q is None else q, count(c, name + '.terms', 1)
        h, z, g, nf = count(c, name + '.h', 1), count(c, name + '.nnz', 0), count(c, name + '.blocks', 2), count(c, name + '.factors', 1)
        L = sparse(name + '.Lambdat', q, q, z)
        lind, Gp, asg = t.vecvar(name + '.Lind', z, 'I'), t.vecvar(name + '.Gp', g, 'I'), t.vecvar(name + '.assign', k, 'I')
        zr = lambda i: t.app(name + '.rows', i, sort='I')
        r = {'Zt': Num(t.matvar(name + '.Zt', q, n)),
             'Ztlist': SLst(k, lambda i: Num(t.setshape(t.app(name + '.Ztlist', i, sort='M'), zr(i), n))),
             'flist': SLst(nf, lambda i: NFac(t.setshape(t.app(name + '.factor', i, sort='V'), n), t.app(name + '.nlev', i, sort='I')),
                           attrs={'assign': Num(asg)})}
        if full:
            r.update({'theta': Num(t.vecvar(name + '.theta', h)), 'Lind': Num(lind), 'Gp': Num(Gp), 'lower': Num(t.vecvar(name + '.lower', h)),
                      'Lambdat': Sparse(L), 'cnms': SLst(k, lambda i: Opq(t.app(name + '.cnms', i, sort='O')))})
        fs['reTrms'] = Lst(list(r), list(r.values()))
    return Lst(list(fs), list(fs.values()))


def well_formed(c, m, text):
    """what holds of every frame: needed before and kept by the operations on frames"""
    r = m.get('reTrms')
    if r is NULL:
        return []
    q, th, Lind, Gp, L = t.rows(r.get('Zt').x), r.get('theta').n, r.get('Lind'), r.get('Gp'), r.get('Lambdat').rec
    f = dict(L.a[1])
    out = [(t.land(t.eq(f['rows'], q), t.eq(f['cols'], q)), 'a row and column of the factor for each effect'),
           (t.eq(Lind.n, f['nnz']), 'a parameter for each entry of the factor'),
           (t.forall(f['nnz'], lambda k: t.land(t.le(1, Lind.el(k)), t.le(Lind.el(k), th))), 'parameters of the factor exist'),
           (t.land(t.le(1, Gp.n), t.eq(Gp.el(t.ZERO), 0), t.eq(Gp.el(t.sub(Gp.n, 1)), q)), 'blocks start with the first and end with the last effect'),
           (t.forall(Gp.n, lambda k: t.le(Gp.el(k), q)), 'blocks lie among the effects'),
           (t.eq(r.get('lower').n, th), 'a bound for each parameter')]
    for x in ('ri', 'ci'):
        out.append((t.forall(f['nnz'], lambda k: t.land(t.le(0, t.at(f[x], k)), t.lt(t.at(f[x], k), q))), 'entries of the factor lie inside'))
    return [(g, text + ': ' + s) for g, s in out]


def require(c, m, text):
    for g, s in well_formed(c, m, text):
        c.req(g, s)


def has_re(m):
    return isinstance(m, Lst) and 'reTrms' in m.names


def is_frame(m):
    return isinstance(m, Lst) and 'X' in m.names


def mapped(m, X, Z, flist=None):
    """the frame with its designs replaced: X the fixed design, Z a function on each random-effects design"""
    out = m.put('X', Num(X))
    if has_re(m):
        r = m.get('reTrms')
        r = r.put('Zt', Num(Z(r.get('Zt').x))).put('Ztlist', SLst(r.get('Ztlist').n, lambda k, l=r.get('Ztlist'): Num(Z(l.fn(k).x))))
        if flist:
            r = r.put('flist', flist(r.get('flist')))
        out = out.put('reTrms', r)
    return out


def picked(m, ix):
    """the frame whose row k is the row of index k"""
    X = m.get('X').x
    at = lambda j: t.sub(ix.el(j), 1)
    cols = lambda Z: t.mlam(t.rows(Z), ix.n, lambda a, b: t.at2(Z, a, at(b)))
    pick = lambda fl: SLst(fl.n, lambda q: (lambda f: NFac(t.lam(ix.n, lambda j: t.at(f.code, at(j))), f.nlev))(fl.fn(q)), attrs=fl.attrs)
    return mapped(m, t.mlam(ix.n, t.cols(X), lambda a, b: t.at2(X, at(a), b)), cols, pick)


RE = ('fixed', 'random')


@rspec('[fr', 'C11 C12', cases=tuple((a, b) for a in RE for b in ('numbers', 'factor')))
def _(c):
    n = count(c, 'n', 1)
    k = count(c, 'k', 1)
    v = c.case and c.mode == 'verify'
    m = c.arg('modfr', lambda: design(c, 'F', n, c.case[0] == 'random'))
    i = c.arg('i', lambda: Num(t.vecvar('i', k, 'I')) if c.case[1] == 'numbers' else NFac(t.vecvar('i', k, 'I'), t.var('levels', 'I')))
    if not is_frame(m):
        raise Unsupported('indexing something that is not a frame')
    X = m.get('X').x
    ix = i.codes() if isinstance(i, NFac) else i
    c.req(t.forall(ix.n, lambda j: t.land(t.le(1, ix.el(j)), t.le(ix.el(j), t.rows(X)))), 'indices exist')
    yield
    c.returns(picked(m, ix), 'row k of every design is the row of index k')
    if c.mode == 'verify' and has_re(m) and c.stopped is None:
        c.same(c.result.get('reTrms').get('flist').attrs.get('assign', NULL), m.get('reTrms').get('flist').attrs['assign'], 'factor of each term')


def times(m, a):
    f = (lambda k: a.x) if a.mode == 's' else a.el
    X = m.get('X').x
    return mapped(m, t.mlam(t.rows(X), t.cols(X), lambda i, j: t.mul(t.at2(X, i, j), f(i))),
                  lambda Z: t.mlam(t.rows(Z), t.cols(Z), lambda k, i: t.mul(t.at2(Z, k, i), f(i))))


def number(c, n, kind, name='a'):
    if kind == 'scalar':
        return sc(t.var(name, 'R'))
    if kind == 'vector':
        return Num(t.vecvar(name, n))
    return Chr(['word'])


KINDS = ('scalar', 'vector', 'string', 'frame')


@rspec('*fr', 'C11', cases=tuple((a, k, o) for a in RE for k in KINDS for o in (1, 2)) + (('', 'numbers', 1),))
def _(c):
    n = count(c, 'n', 1)
    if c.mode == 'verify':
        m = design(c, 'F', n, c.case[0] == 'random') if c.case[0] else sc(t.var('b', 'R'))
        a = design(c, 'G', n, c.case[0] == 'random') if c.case[1] == 'frame' else number(c, n, c.case[1] if c.case[0] else 'scalar')
        x, y = (m, a) if c.case[2] == 1 else (a, m)
        c.arg('modfr', x)
        c.arg('a', y)
    else:
        x, y = c.arg('modfr'), c.arg('a')
    good = is_frame(x) and isinstance(y, Num) or is_frame(y) and isinstance(x, Num)
    m, a = (x, y) if is_frame(x) and isinstance(y, Num) else (y, x)
    if good and a.mode != 's':
        c.req(t.eq(a.n, t.rows(m.get('X').x)), 'one number for each row')
        if has_re(m):
            Zl = m.get('reTrms').get('Ztlist')
            c.req(t.eq(t.cols(m.get('reTrms').get('Zt').x), t.rows(m.get('X').x)), 'one column of the random design for each row')
            c.req(t.forall(Zl.n, lambda k: t.eq(t.cols(Zl.fn(k).x), t.rows(m.get('X').x))), 'one column of each random design for each row')
    yield
    c.stops(t.tm(not good), 'stops exactly unless one side is a frame and the other a number')
    if good:
        c.returns(times(m, a), 'every row of the designs multiplied by its number')


@rspec('/fr', 'C11', cases=tuple((a, k, o) for a in RE for k in KINDS for o in (1, 2) if (k, o) != ('frame', 2)))
def _(c):
    n = count(c, 'n', 1)
    if c.mode == 'verify':
        m = design(c, 'F', n, c.case[0] == 'random')
        a = design(c, 'G', n, c.case[0] == 'random') if c.case[1] == 'frame' else number(c, n, c.case[1])
        x, y = (m, a) if c.case[2] == 1 else (a, m)
        c.arg('modfr', x)
        c.arg('a', y)
    else:
        x, y = c.arg('modfr'), c.arg('a')
    good = is_frame(x) and isinstance(y, Num)
    if good and y.mode != 's':
        c.req(t.eq(y.n, t.rows(x.get('X').x)), 'one number for each row')
        if has_re(x):
            Zl = x.get('reTrms').get('Ztlist')
            c.req(t.eq(t.cols(x.get('reTrms').get('Zt').x), t.rows(x.get('X').x)), 'one column of the random design for each row')
            c.req(t.forall(Zl.n, lambda k: t.eq(t.cols(Zl.fn(k).x), t.rows(x.get('X').x))), 'one column of each random design for each row')
    yield
    c.stops(t.tm(not good), 'stops exactly unless a frame is divided by a number')
    if good:
        c.returns(times(x, Num(t.lam(y.n, lambda k: t.div(1, y.el(k))), 'v') if y.mode == 'v' else sc(t.div(1, y.x))), 'every row of the designs divided by its number')


def sizes_differ(a, b):
    X, Y = a.get('X').x, b.get('X').x
    d = t.lor(t.lnot(t.eq(t.rows(X), t.rows(Y))), t.lnot(t.eq(t.cols(X), t.cols(Y))))
    if has_re(a):
        Z, W = a.get('reTrms').get('Zt').x, b.get('reTrms').get('Zt').x
        d = t.lor(d, t.lnot(t.eq(t.rows(Z), t.rows(W))), t.lnot(t.eq(t.cols(Z), t.cols(W))))
    return d


def combined(a, b, s):
    """a + s*b entry by entry"""
    X, Y = a.get('X').x, b.get('X').x
    g = lambda x, y: t.add(x, t.mul(s, y))
    out = a.put('X', Num(t.mlam(t.rows(X), t.cols(X), lambda i, j: g(t.at2(X, i, j), t.at2(Y, i, j)))))
    if has_re(a):
        r, u = a.get('reTrms'), b.get('reTrms')
        both = lambda Z, W: Num(t.mlam(t.rows(Z), t.cols(Z), lambda i, j: g(t.at2(Z, i, j), t.at2(W, i, j))))
        out = out.put('reTrms', r.put('Zt', both(r.get('Zt').x, u.get('Zt').x)).put('Ztlist', SLst(r.get('Ztlist').n, lambda k: both(
            r.get('Ztlist').fn(k).x, u.get('Ztlist').fn(k).x))))
    return out


PAIRS = tuple((a, b) for a in ('fixed', 'random', 'number') for b in ('fixed', 'random', 'number'))

for _f, _s, _w in (('+fr', 1, 'sum'), ('-fr', -1, 'difference')):
    def _(c, s=_s, w=_w):
        if c.mode == 'verify':
            ns = [count(c, k, 1) for k in ('n', 'm')]
            a, b = [number(c, n, 'scalar') if k == 'number' else design(c, 'FG'[j], n, k == 'random') for j, (k, n) in enumerate(zip(c.case, ns))]
            c.arg('modfr1', a)
            c.arg('modfr2', b)
        else:
            a, b = c.arg('modfr1'), c.arg('modfr2')
        good = is_frame(a) and is_frame(b) and has_re(a) == has_re(b)
        if good and has_re(a):
            A, B = a.get('reTrms').get('Ztlist'), b.get('reTrms').get('Ztlist')
            c.req(t.eq(A.n, B.n), 'the same terms on both sides')
            c.req(t.forall(A.n, lambda k: t.land(t.eq(t.rows(A.fn(k).x), t.rows(B.fn(k).x)), t.eq(t.cols(A.fn(k).x), t.cols(B.fn(k).x)))), 'the same effects on both sides')
        yield
        c.stops(sizes_differ(a, b) if good else t.TRUE, 'stops exactly unless both sides are frames of the same shape')
        if good:
            c.returns(combined(a, b, s), 'the %s of the designs entry by entry' % w)
    rspec(_f, 'C11', cases=PAIRS)(_)


# ---------------------------------------------------------------- joining
@rspec('concatenate_Matrix', 'C11')
def _(c):
    def mk(n):
        def go():
            r, k, z = count(c, n + '.rows', 0), count(c, n + '.cols', 0), count(c, n + '.nnz', 0)
            return Sparse(sparse(n, r, k, z))
        return go
    A, B = c.arg('M1', mk('A')), c.arg('M2', mk('B'))
    for M in (A, B):
        f = dict(M.rec.a[1])
        for x, d in (('ri', 'rows'), ('ci', 'cols')):
            c.req(t.forall(f['nnz'], lambda k: t.land(t.le(0, t.at(f[x], k)), t.lt(t.at(f[x], k), f[d]))), 'entries are inside the matrix')
    yield
    a, b = dict(A.rec.a[1]), dict(B.rec.a[1])
    n = a['nnz']
    R = {'rows': t.add(a['rows'], b['rows']), 'cols': t.add(a['cols'], b['cols']), 'nnz': t.add(n, b['nnz'])}
    for x, off in (('ri', a['rows']), ('ci', a['cols']), ('va', t.ZERO)):
        R[x] = t.lam(R['nnz'], lambda k, x=x, off=off: t.ite(t.lt(k, n), t.at(a[x], k), t.add(off, t.at(b[x], t.sub(k, n)))))
    if c.mode == 'use':
        c.result = Sparse(t.rec('%sparse', R))
        return
    if c.stopped is not None:
        return
    f = dict(c.result.rec.a[1])
    for x in R:
        c.same(Num(f[x]), Num(R[x]), 'stored entries of the first, then those of the second moved down and right: ' + x)
    i, j = t.var('i', 'I'), t.var('j', 'I')
    D, DA, DB = c.result.dense(), A.dense(), B.dense()
    inA, inB = t.land(t.lt(i, a['rows']), t.lt(j, a['cols'])), t.land(t.le(a['rows'], i), t.le(a['cols'], j))
    dom = t.land(t.le(0, i), t.le(0, j), t.lt(i, R['rows']), t.lt(j, R['cols']))
    c.lemma(t.eq(t.at2(D, i, j), t.at2(DA, i, j)), 'the first matrix in the upper left corner', dom, inA)
    c.lemma(t.eq(t.at2(D, i, j), t.at2(DB, t.sub(i, a['rows']), t.sub(j, a['cols']))), 'the second matrix in the lower right corner', dom, inB)
    c.lemma(t.eq(t.at2(D, i, j), 0), 'zero elsewhere', dom, t.lnot(inA), t.lnot(inB))


def beside(A, B):
    k = t.cols(A)
    return t.mlam(t.rows(A), t.add(k, t.cols(B)), lambda i, j: t.ite(t.lt(j, k), t.at2(A, i, j), t.at2(B, i, t.sub(j, k))))


def below(A, B):
    k = t.rows(A)
    return t.mlam(t.add(k, t.rows(B)), t.cols(A), lambda i, j: t.ite(t.lt(i, k), t.at2(A, i, j), t.at2(B, t.sub(i, k), j)))


def after(a, b, f=lambda x: x):
    n = a.n
    return Num(t.lam(t.add(n, b.n), lambda k: t.ite(t.lt(k, n), a.el(k), f(b.el(t.sub(k, n))))), 'v')


def listed(c, a, b):
    from vcg.rlang import concat_lists
    return concat_lists(c.I, [a, b])


def joined(c, a, b):
    out = a.put('X', Num(beside(a.get('X').x, b.get('X').x)))
    if has_re(a) and has_re(b):
        r, u = a.get('reTrms'), b.get('reTrms')
        h, q = r.get('theta').n, t.rows(r.get('Zt').x)
        f, g = dict(r.get('Lambdat').rec.a[1]), dict(u.get('Lambdat').rec.a[1])
        L = {'rows': t.add(f['rows'], g['rows']), 'cols': t.add(f['cols'], g['cols']), 'nnz': t.add(f['nnz'], g['nnz'])}
        for x, off in (('ri', f['rows']), ('ci', f['cols']), ('va', t.ZERO)):
            L[x] = after(Num(f[x], 'v'), Num(g[x], 'v'), lambda y, off=off: t.add(off, y)).x
        G1, G2 = r.get('Gp'), u.get('Gp')
        tail = Num(t.lam(t.sub(G2.n, 1), lambda k: G2.el(t.add(k, 1))), 'v')
        new = {'Zt': Num(below(r.get('Zt').x, u.get('Zt').x)), 'theta': after(r.get('theta'), u.get('theta')),
               'Lind': after(r.get('Lind'), u.get('Lind'), lambda y: t.add(h, y)), 'Gp': after(G1, tail, lambda y: t.add(q, y)),
               'lower': after(r.get('lower'), u.get('lower')), 'Lambdat': Sparse(t.rec('%sparse', L))}
        for n, v in new.items():
            r = r.put(n, v)
        F1, F2 = a.get('reTrms').get('flist'), u.get('flist')
        fl = listed(c, F1, F2)
        fl.attrs = {'assign': after(F1.attrs['assign'], F2.attrs['assign'], lambda y: t.add(F1.n, y))}
        r = r.put('flist', fl)
        for n in ('cnms', 'Ztlist'):
            r = r.put(n, listed(c, a.get('reTrms').get(n), u.get(n)))
        out = out.put('reTrms', r)
    elif has_re(b):
        out = out.put('reTrms', b.get('reTrms'))
    return out


@rspec('concatenate_frames', 'C11', cases=tuple((a, b) for a in RE for b in RE))
def _(c):
    if c.mode == 'verify':
        n = count(c, 'n', 1)
        a, b = [design(c, 'FG'[j], n, k == 'random') for j, k in enumerate(c.case)]
        c.arg('modfr1', a)
        c.arg('modfr2', b)
    else:
        a, b = c.arg('modfr1'), c.arg('modfr2')
        if b is NULL:
            c.result = a
            yield
            return
    for m, x in ((a, 'first frame'), (b, 'second frame')):
        require(c, m, x)
    c.req(t.eq(t.rows(a.get('X').x), t.rows(b.get('X').x)), 'as many rows on both sides')
    if has_re(a) and has_re(b):
        c.req(t.eq(t.cols(a.get('reTrms').get('Zt').x), t.cols(b.get('reTrms').get('Zt').x)), 'as many observations on both sides')
    yield
    want = joined(c, a, b)
    c.returns(want, 'fixed designs side by side, random effects one after the other, each with its own parameters, bounds and group')
    if c.mode == 'verify' and c.stopped is None:
        for g, s in well_formed(c, c.result, 'joined frame'):
            c.ensure(g, s)
        if has_re(c.result):
            fl = c.result.get('reTrms').get('flist')
            c.same(fl.attrs.get('assign', NULL), want.get('reTrms').get('flist').attrs['assign'], 'factor of each term')


@rspec('attach_subframes', 'C11', use=False, cases=tuple((k, r) for k in (1, 2, 3) for r in RE))
def _(c):
    n = count(c, 'n', 1)
    m = c.arg('modfr', lambda: design(c, 'M', n, c.case[1] == 'random'))
    subs = [design(c, 'S%d' % k, n, True) for k in range(c.case[0])]
    c.arg('subframes', Lst([None] * len(subs), subs))
    for k, s in enumerate([m] + subs):
        require(c, s, 'frame %d' % k)
        if has_re(s):
            c.req(t.eq(t.cols(s.get('reTrms').get('Zt').x), n), 'one column for each row')
    yield
    if c.stopped is not None:
        return
    all_ = subs[0]
    for s in subs[1:]:
        all_ = joined(c, all_, s)
    c.same(c.result, joined(c, m, all_), 'the main frame followed by every substituted term in turn')


# ---------------------------------------------------------------- expressions, by induction on their structure
# An expression is given as a call whose parts are arbitrary expressions ("holes"), of which only what the induction
# hypothesis says is known: whether the substituted variable occurs in it, what the function gives for it.
def hole(name, **what):
    return dict(k='hole', h=name, **what)


def sym(n):
    return {'k': 'sym', 'n': n}


def number_tree(x):
    return {'k': 'num', 'v': x}


OTHER = hole('other function', any=False)                   # the name of a function that none of the code mentions


def call_tree(f, *args):
    return {'k': 'call', 'f': sym(f) if isinstance(f, str) else f, 'a': list(args), 'n': [''] * len(args)}


def is_hole(x):
    return isinstance(x, Lang) and x.e['k'] == 'hole' and x.e.get('any', True)


def statuses(k):
    return [tuple(bool(m >> j & 1) for j in range(k)) for m in range(2 ** k)]


ATOMS = {'number': sc(t.num(2)), 'string': Chr(['a']), 'true': lgl(True), 'vector': Num(t.vecvar('atom', t.var('natom', 'I')), 'v')}


def arguments(status):
    return [hole('e%d' % k, occurs=s) for k, s in enumerate(status)]


@rspec('find_sub_status', 'C11', cases=tuple(('atom', a) for a in ATOMS) + (('name', 'a'), ('name', 'b')) +
       tuple(('call', f, s) for f in ('other', 'a') for k in range(4) for s in statuses(k)))
def _(c):
    if c.mode == 'use':
        x = c.arg('x')
        if not is_hole(x):
            raise Inline()
        c.result = lgl(x.e['occurs'])
        yield
        return
    k = c.case[0]
    x = ATOMS[c.case[1]] if k == 'atom' else Lang(sym(c.case[1])) if k == 'name' else \
        Lang(call_tree(OTHER if c.case[1] == 'other' else c.case[1], *arguments(c.case[2])))
    if k == 'call' and c.case[1] == 'other':
        x.e['f'] = hole('function', occurs=False)
    c.arg('x', x)
    c.arg('subvar', Chr(['a']))
    yield
    want = k == 'name' and c.case[1] == 'a' or k == 'call' and (c.case[1] == 'a' or any(c.case[2]))
    c.returns(lgl(want), 'whether the variable occurs in the expression: in one of its parts, or being it')


OPS = tuple((o, s, 'random', w) for o in ('+', '-', '*', '/') for s in statuses(2) if any(s) for w in ('scalar', 'vector')
            if (o in '+-' and all(s) and w == 'scalar') or o in '*/' or not all(s) and w == 'scalar') + \
    tuple((o, (True, True), 'fixed', 'scalar') for o in '+-') + tuple((o, (True, False), 'fixed', w) for o in '*/' for w in ('scalar', 'vector')) + \
    tuple((o, (True,), r, '') for o in ('-', '(') for r in RE) + \
    tuple(('[', (True,) + (False,) * k, r, w) for k in (1, 2, 3) for r in RE for w in ('names', 'expressions') if k == 1 or w == 'names') + \
    tuple(('[', s, 'random', 'expressions') for k in (2, 3, 4) for s in statuses(k) if any(s[1:])) + \
    tuple(('other', s, 'random', '') for k in (1, 2, 3, 4) for s in statuses(k) if any(s))
SAME = tuple((o, (False,) * k, 'same', '') for k in range(5) for o in ('other', '+', '-', '*', '/', '(', '[')
             if o == 'other' or k == {'(': 1}.get(o, 2) or o == '[' and k > 1 or o in '+-' and k == 1)


@rspec('modify_subexpr', 'C11', cases=tuple(('atom', a) for a in ATOMS) + (('name', 'a'), ('name', 'b')) + OPS + SAME)
def _(c):
    if c.mode == 'use':
        x = c.arg('x')
        if not is_hole(x):
            raise Inline()
        c.result = Lang(dict(x.e, mod=True)) if x.e['occurs'] else x
        yield
        return
    k = c.case[0]
    if k in ('atom', 'name'):
        x = c.arg('x', ATOMS[c.case[1]] if k == 'atom' else Lang(sym(c.case[1])))
        c.arg('subvar', Chr(['a']))
        yield
        c.returns(x, 'unchanged')
        return
    op, status, re, kind = c.case
    n = count(c, 'n', 1)
    args = arguments(status)
    if op == '[' and kind == 'names':
        args = args[:1] + [sym('p%d' % j) for j in range(1, len(args))]
    e = call_tree(OTHER if op == 'other' else op, *args)
    c.arg('x', Lang(e))
    c.arg('subvar', Chr(['a']))
    # the values of the parts: a frame where the variable occurs (induction hypothesis), a number elsewhere
    vals, env = {}, Env(c.I.globals)
    if re != 'same':
        for j, s in enumerate(status):
            vals['e%d' % j] = design(c, 'FGHK'[j], n if j == 0 or op in '*/' else count(c, 'n%d' % j, 1), re == 'random') if s else \
                number(c, n, 'scalar', 'a%d' % j) if kind == 'scalar' else Num(t.vecvar('a%d' % j, count(c, 'k', 1) if op == '[' else n, 'I' if op == '[' else 'R'), 'v')
        if op == '[' and kind == 'names':
            env.vars['_'.join(a['n'] for a in args[1:])] = vals['e1']
        if op == '[' and not any(status[1:]):
            m, i = vals['e0'], vals['e1']
            c.req(t.forall(i.n, lambda j: t.land(t.le(1, i.el(j)), t.le(i.el(j), t.rows(m.get('X').x)))), 'indices exist')
        if op in '+-' and status == (True, True) and re == 'random':
            A, B = [vals[h].get('reTrms').get('Ztlist') for h in ('e0', 'e1')]
            c.req(t.eq(A.n, B.n), 'the same terms on both sides')
            c.req(t.forall(A.n, lambda k: t.land(t.eq(t.rows(A.fn(k).x), t.rows(B.fn(k).x)), t.eq(t.cols(A.fn(k).x), t.cols(B.fn(k).x)))), 'the same effects on both sides')
    yield
    if re == 'same':
        c.returns(Lang(e), 'an expression without the variable is left as it is')
        return
    # what the expression means, argument by argument
    w = [vals['e%d' % j] for j in range(len(status))]
    stop, want = t.TRUE, None
    if op in '+-' and status == (True, True):
        stop, want = sizes_differ(w[0], w[1]), lambda: combined(w[0], w[1], 1 if op == '+' else -1)
    elif op == '-' and status == (True,):
        stop, want = t.FALSE, lambda: times(w[0], sc(t.num(-1)))
    elif op == '*' and status in ((True, False), (False, True)):
        stop, want = t.FALSE, lambda: times(*(w if status[0] else w[::-1]))
    elif op == '/' and status == (True, False):
        inv = Num(t.lam(w[1].n, lambda k: t.div(1, w[1].el(k))), 'v') if w[1].mode == 'v' else sc(t.div(1, w[1].x))
        stop, want = t.FALSE, lambda: times(w[0], inv)
    elif op == '(':
        stop, want = t.FALSE, lambda: w[0]
    elif op == '[' and not any(status[1:]):
        stop, want = t.FALSE, lambda: picked(w[0], w[1])
    if c.stopped is not None:
        c.stops(stop, 'rejected only when the expression is not linear in the variable')
        return
    c.stop_said = True

    def value(h):
        if bool(h.get('mod')) != h['occurs']:
            raise RStop(Chr(['the variable has not been replaced']))
        return vals[h['h']]
    c.I.hole_values = value
    try:
        v = c.I.ev(c.result.e, env)
    except RStop as s:
        c.goal('post', stop, 'evaluating the modified expression stops only when the expression is not linear in the variable (%s)' % (s.msg,))
        return
    c.goal('post', t.lnot(stop), 'an expression that is not linear in the variable stops')
    if want is not None:
        c.same(v, want(), 'value of the modified expression is the written combination of the frames')


ASSUME['C11'] = [
    'lme4 builds the frame of each formula (lFormula, mkReTrms); terms(), attr(), as.formula of R; their results are arbitrary values of the documented shape',
    'expressions: the functions that walk a formula are proved for a call whose arguments are arbitrary expressions (each standing for whatever the function gives on it); '
    'that this covers every formula is induction over its structure. Calls have up to 3 or 4 arguments',
    'attach_subframes is proved for 1, 2 and 3 subframes (a list of known length); the frame sizes in it are arbitrary',
    'floating-point arithmetic is treated as real arithmetic']
