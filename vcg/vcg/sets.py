"""Facts about sets of integers that are given as lists."""
from . import terms as t
from .terms import TRUE, FALSE, ZERO, ONE
from .prover import theory, sub_terms


def every(f):
    """for all integers"""
    x = t.fresh('x', 'I')
    return t.forall_(t.ALL, x, f(x))


def some(f):
    return t.lnot(every(lambda x: t.lnot(f(x))))


def upto(n, f, start=ZERO):
    """for all start <= k < n"""
    return every(lambda k: t.implies(t.land(t.le(start, k), t.lt(k, n)), f(k)))


def among(n, f, start=ZERO):
    return some(lambda k: t.land(t.le(start, k), t.lt(k, n), f(k)))


def _reads(e, j, n):
    """the subterms u[j] of e, with u of length n"""
    out, todo, seen = [], [e], set()
    while todo:
        u = todo.pop()
        if not isinstance(u, t.T) or u in seen:
            continue
        seen.add(u)
        if u.op == 'at' and u.a[1] is j and t.length(u.a[0]) is n:
            out.append(u)
        todo.extend(k for k in sub_terms(u))
    return out


def isin(v, x):
    """x is an element of v"""
    v, x = t.tm(v), t.tm(x)
    if v.op == 'ite':
        c, a, b = v.a
        return t.land(t.implies(c, isin(a, x)), t.implies(t.lnot(c), isin(b, x)))
    n = t.length(v)
    if t.is_num(n):
        k = int(t.pdict(n).get((), 0))
        if k <= 4:
            return t.lor(*[t.eq(t.at(v, i), x) for i in range(k)])
    if v.op == 'lam':
        # one more element than another list
        j = t.fresh('j', 'I')
        e = t.at(v, j)
        last = t.sub(n, 1)
        for b in _reads(e, j, last):
            x0 = t.at(v, last)
            if j in b.a[0].fv:
                continue
            if t.ite(t.eq(j, last), x0, b) is e or t.ite(t.lnot(t.eq(j, last)), b, x0) is e or t.ite(t.lt(j, last), b, x0) is e:
                return t.lor(t.eq(x0, x), isin(b.a[0], x))
    return t.app('@in', v, x, sort='B')


def sub(a, b):
    return every(lambda x: t.implies(isin(a, x), isin(b, x)))


def norep(v):
    n = t.length(t.tm(v))
    if n is ZERO or n is ONE:
        return TRUE
    return t.app('@norep', v, sort='B')


def rd(v, i):
    return t.at(v, i)


theory('@in', ('V', 'I'), lambda v, i: t.implies(t.land(t.le(0, i), t.lt(i, t.length(v))), t.app('@in', v, t.at(v, i), sort='B')), lambda v, i: t.at(v, i))


def _where(v, x):
    p = t.app('@where', v, x, sort='I')
    return t.implies(t.app('@in', v, x, sort='B'), t.land(t.le(0, p), t.lt(p, t.length(v)), t.eq(t.at(v, p), x)))


theory('@in', ('V', 'I'), _where)


theory('@subset', ('V', 'V'), lambda a, b: t.eqb(t.app('@subset', a, b, sort='B'), every(lambda x: t.implies(t.app('@in', a, x, sort='B'), t.app('@in', b, x, sort='B')))))


