"""Model frames and other values the contracts on the R functions speak of."""
from vcg import terms as t
from vcg.rlang import Num, Sparse, Lst, SLst, Obj, Chr, NULL, PyFun, map1, mapn, sc, lgl
from vcg.rlang import RStop
from vcg.deduce import ASSUME
from vcg.cxx import Unsupported

S = t.SUM


def count(c, name, least=0):
    v = t.var(name, 'I')
    c.fact(t.le(least, v))
    return v


def sparse(name, r, c, n):
    return t.rec('%sparse', {'rows': t.tm(r), 'cols': t.tm(c), 'nnz': t.tm(n), 'ri': t.vecvar(name + '.i', n, 'I'),
                             'ci': t.vecvar(name + '.j', n, 'I'), 'va': t.vecvar(name + '.x', n, 'R')})


def elementwise(name, k=1):
    def go(I, pos, kw):
        return mapn(I, list(pos) + list(kw.values()), lambda *x: t.app(name, *x))
    return PyFun(go, name)


def modfr(c, offset=False, nofixed=False):
    """an arbitrary model frame: n observations, p covariates, q random effects, h random-effects parameters"""
    n, p, q, h, z = count(c, 'n', 1), count(c, 'p', 0), count(c, 'q', 1), count(c, 'h', 1), count(c, 'nnz', 0)
    L = sparse('Lambdat', q, q, z)
    lind = t.vecvar('Lind', z, 'I')
    c.req(t.forall(z, lambda k: t.land(t.le(1, t.at(lind, k)), t.le(t.at(lind, k), h))), 'every entry of the factor has a parameter')
    for f in ('ri', 'ci'):
        v = t.fld(L, f)
        c.req(t.forall(z, lambda k: t.land(t.le(0, t.at(v, k)), t.lt(t.at(v, k), q))), 'entries are inside the matrix')
    re = Obj('reTrms', {'theta': Num(t.vecvar('theta0', h)), 'Zt': Num(t.matvar('Zt', q, n)), 'Lambdat': Sparse(L), 'Lind': Num(lind),
                        'lower': Num(t.vecvar('lower', h))})
    fr = {'(response)': Num(t.vecvar('y', n)), '(weights)': Num(t.vecvar('w', n))}
    if offset:
        fr['(offset)'] = Num(t.vecvar('offset', n))
    fam = Obj('family', {'linkinv': elementwise('linkinv'), 'dev.resids': elementwise('dev', 3), 'family': Chr([t.var('family', 'S')]),
                         'link': Chr([t.var('link', 'S')])})
    return Obj('modfr', {'X': Num(t.matvar('X', n, p)), 'reTrms': re, 'fr': Obj('fr', fr), 'family': fam})


class Frame:
    """the parts of a model frame, whoever made it"""

    def __init__(self, m):
        r = m.get('reTrms')
        self.X = m.get('X').x
        self.theta = r.get('theta')
        self.h = self.theta.n
        z = r.get('Zt')
        self.Zt = z.x if isinstance(z, Num) else z.dense()
        self.L = r.get('Lambdat').rec
        self.Lind = r.get('Lind').vec()
        self.n, self.p, self.q = t.rows(self.X), t.cols(self.X), t.rows(self.Zt)
        off = m.get('fr').get('(offset)')
        self.offset = None if off is NULL else off

    def fixed(self, pars):
        """X beta + offset, at observation i"""
        def f(i):
            r = S(self.p, lambda k: t.mul(t.at2(self.X, i, k), t.at(pars, t.add(self.h, k))))
            return t.add(r, self.offset.el(i)) if self.offset is not None else r
        return f

    def F(self, pars):
        """the same as one opaque matrix (what find_LambdatThetaZt returns, proved to have the entries factor(pars))"""
        return t.setshape(t.app('factor_design', self.L, self.Lind, self.Zt, pars, sort='M'), self.q, self.n)

    def factor(self, pars):
        """(Lambda' Z')[k, i] with the factor rebuilt from the parameters"""
        L = self.L
        ri, ci, nz = t.fld(L, 'ri'), t.fld(L, 'ci'), t.fld(L, 'nnz')
        return lambda k, i: S(self.q, lambda j: t.mul(S(nz, lambda e: t.mul(t.iv(t.eq(t.at(ri, e), k)), t.iv(t.eq(t.at(ci, e), j)),
                                                                         t.at(pars, t.sub(t.at(self.Lind, e), 1)))), t.at2(self.Zt, j, i)))


def pars(c, m):
    """parameters of the right number"""
    f = Frame(m)
    return Num(t.vecvar('pars', t.add(f.h, f.p)))


def right_length(c, ps, m):
    f = Frame(m)
    c.req(t.eq(ps.n, t.add(f.h, f.p)), 'one parameter for each covariate and each random-effects parameter')


def devfun(c):
    """lme4's deviance function: a function of the parameters; its environment then holds the approximation at those parameters"""
    def go(I, pos, kw):
        I.state['pp'] = pos[0]
        return sc(t.app('deviance', pos[0].vec()))
    f = PyFun(go, 'devfun')
    f.env = None
    return f


def approximation(ps, q):
    """the normal approximation at parameters ps: mean and precision"""
    v = ps.vec()
    m = t.setshape(t.app('mode', v, sort='V'), q)
    P = t.setshape(t.app('precision', v, sort='M'), q, q)
    t._symm.add(P)
    return m, P
