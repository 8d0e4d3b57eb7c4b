"""Loop summaries: closed forms are inferred from one symbolic iteration and then proved (initiation, preservation)."""
from . import terms as t
from .terms import T, TRUE, FALSE, ZERO, ONE, tm, num
from . import prover


def leaves(ex, a, b, lv, out):
    """locations where a (before) and b (after) differ"""
    if a is b:
        return
    oa, ob = ex_unwrap(a), ex_unwrap(b)
    if a.op == 'rec' and b.op == 'rec' and a.a[0] == b.a[0] and [n for n, _ in a.a[1]] == [n for n, _ in b.a[1]]:
        db = dict(b.a[1])
        for n, x in a.a[1]:
            leaves(ex, x, db[n], lv + ('f', n), out)
        return
    out.append(lv)


def ex_unwrap(x):
    from .cxx import unwrap
    return unwrap(x)


class Loc:
    def __init__(self, lv, init):
        from .cxx import Iter
        self.lv, self.init = lv, init
        o = ex_unwrap(init)
        self.iter = o if isinstance(o, Iter) else None
        self.append = False
        self.closed = None
        self.sym = None

    def start(self):
        return self.iter.pos if self.iter else self.init

    def pack(self, v):
        from .cxx import Iter, wrap
        if self.iter:
            return wrap(Iter(self.iter.cont, v, self.iter.stride))
        return v

    def unpack(self, v):
        from .cxx import Iter
        if self.iter:
            o = ex_unwrap(v)
            if not isinstance(o, Iter):
                from .cxx import Unsupported
                raise Unsupported('iterator changed kind')
            return o.pos
        return v

    def havoc(self, fields=False):
        s = self.start()
        if fields and s.sort == 'V':
            e = t.at(s, t.fresh('j', 'I'))
            if e.op == 'rec':
                n = t.length(s) if not self.append else t.fresh('len', 'I')
                vs = {f: t.set_elem_sort(t.vecvar('in.%s.%d' % (f, t.fresh('q', 'I').id), n, x.sort if x.sort in 'IRB' else 'O'), x.sort) for f, x in e.a[1]}
                self.sym = t.set_elem_sort(t.lam(n, lambda j: t.rec(e.a[0], {f: t.at(v, j) for f, v in vs.items()})), 'O')
                return self.sym
        f = t.fresh('in', s.sort)
        if s.sort == 'V':
            es = t.elem_sort(s)
            t.set_elem_sort(f, es)
            if self.append:
                t.setshape(f, t.fresh('len', 'I'))
            else:
                t.setshape(f, t.length(s))
        elif s.sort == 'M':
            t.setshape(f, t.rows(s), t.cols(s))
        self.sym = f
        return f


def summarise(ex, s, cond, inc, body, fr, st):
    from .cxx import Unsupported
    line = s.get('l')
    locs = []
    keys = {}
    pc0 = st.pc
    nfacts = len(ex.facts)

    def one(start, extra=()):
        """condition and one iteration from a state"""
        s2 = start.copy()
        c = cond(s2)
        s2.pc = t.land(s2.pc, c, *extra)
        inpc = s2.pc
        nret, nthr = len(fr.returns), len(ex.throws)
        fr.loops.append({'break': [], 'continue': []})
        s3 = body(fr, s2)
        lp = fr.loops.pop()
        for cs in lp['continue']:
            if s3 is None:
                s3 = cs
            else:
                cc = ex.relpc(inpc, cs.pc)
                env = ex.merge_env(cc, cs.env, s3.env)
                s3 = type(s3)(env, t.land(inpc, t.lor(cc, ex.relpc(inpc, s3.pc))))
        rets = fr.returns[nret:]
        del fr.returns[nret:]
        thr = ex.throws[nthr:]
        del ex.throws[nthr:]
        if s3 is not None:
            inc(fr, s3)
        return c, inpc, s3, lp['break'], rets, thr

    # -------- which locations does an iteration change?
    for rnd in range(10):
        start = st.copy()
        for l in locs:
            ex.put(start, l.lv, l.pack(l.havoc(bool(ex.invariants))))
        ex.silent += 1
        try:
            c, inpc, s3, brk, rets, thr = one(start)
        finally:
            ex.silent -= 1
        new = []
        changed = False
        for fin in ([s3] if s3 is not None else []) + [b for b in brk]:
            for r in start.env:
                lf = []
                leaves(ex, start.env[r], fin.env[r], type(st_lv(r))(r), lf)
                for lv in lf:
                    k = (lv.root, lv.path)
                    if k not in keys:
                        keys[k] = Loc(lv, ex.get(st, lv))
                        locs.append(keys[k])
                        changed = True
        if s3 is not None:
            for l in locs:
                if l.sym is not None and l.sym.sort == 'V' and not l.append:
                    o = l.unpack(ex.get(s3, l.lv))
                    if t.length(o) is not t.length(l.sym):
                        d = t.sub(t.length(o), t.length(l.sym))
                        l.append = True
                        changed = True
        if not changed:
            break
    else:
        raise Unsupported('loop does not stabilise')
    # drop prefixes: a location inside another one
    if s3 is None:
        raise Unsupported('loop body never completes')
    for h in ex.invariants:
        if h[0](ex.where, [name_of(l.lv) for l in locs]):
            del ex.facts[nfacts:]
            return annotated(ex, st, locs, one, s3, h, line)

    k = t.fresh('k', 'I')
    res = {}
    syms = [l.sym for l in locs]
    outs = {l: l.unpack(ex.get(s3, l.lv)) for l in locs}

    # -------- linear counters first
    pend = []
    for l in locs:
        o = outs[l]
        if l.sym.sort == 'I':
            d = t.sub(o, l.sym)
            if t.is_num(d):
                l.closed = t.add(l.start(), t.mul(d, k))
                res[l.sym] = l.closed
                continue
        pend.append(l)
    progress = True
    while pend and progress:
        progress = False
        for l in list(pend):
            o = t.subst(outs[l], res)
            if any(x.sym in o.fv for x in pend if x is not l):
                # perhaps irrelevant under the loop condition
                o = prover.simp(o, prover.Ctx(ex.facts).plus(t.subst(inpc, res)))
                if any(x.sym in o.fv for x in pend if x is not l):
                    continue
            cl = infer(ex, l, o, k, prover.Ctx(ex.facts).plus(t.subst(inpc, res)))
            if cl is not None:
                l.closed = cl
                res[l.sym] = cl
                pend.remove(l)
                progress = True
    flags = []
    if pend:
        # flags: boolean locations that the loop condition requires to be false/true
        raise Unsupported('no closed form for %s' % ', '.join('%s: %s' % (l.lv, t.show(t.subst(outs[l], res))[:300])
                                                            for l in pend))
    ck = t.subst(c, res)
    n = trip(ex, ck, k, prover.Ctx(ex.facts).plus(pc0), st, line)
    if n is None:
        raise Unsupported('loop bound: ' + t.show(ck)[:200])

    # -------- the iteration again, from the closed forms, with its obligations
    def at_k(kk):
        x = st.copy()
        for l in locs:
            ex.put(x, l.lv, l.pack(t.subst(l.closed, {k: tm(kk)})))
        return x
    rng = (t.le(0, k), t.lt(k, n))
    early = bool(brk or rets)
    for l in locs:
        if l.closed.op == 'filter':
            continue      # filter lists are defined by this recursion: nothing to prove at 0
        ex.oblige('loop-init', st, t.eq(t.subst(l.closed, {k: ZERO}), l.start()) if l.closed.sort in 'IRBS' else
                  veq(t.subst(l.closed, {k: ZERO}), l.start()), 'invariant of %s holds initially' % l.lv.root, line)
    s0 = at_k(k)
    s0.pc = t.land(s0.pc, *rng)
    c2, inpc2, s4, brk2, rets2, thr2 = one(s0)
    exits = [('break', b, None) for b in brk2] + [('return', r[0], r[1]) for r in rets2]
    base = inpc2
    econd = [ex.relpc(base, x[1].pc) for x in exits]
    e_any = t.lor(*econd) if econd else FALSE
    if e_any is not FALSE:
        pre = t.land(*(s0.pc.a if s0.pc.op == 'and' else (s0.pc,)), t.lnot(e_any))
    for l in locs:
        nxt = l.unpack(ex.get(s4, l.lv))
        goal = t.subst(l.closed, {k: t.add(k, 1)})
        g = t.eq(goal, nxt) if goal.sort in 'IRBS' else veq(goal, nxt)
        sx = s0.copy()
        sx.pc = t.land(s0.pc, t.lnot(e_any))
        if l.closed.op == 'filter' or getattr(l, 'bydef', False):
            continue
        ex.oblige('loop-step', sx, g, 'invariant of %s is preserved' % l.lv.root, line)
    for cnd, ty in thr2:
        cc = ex.relpc(base, cnd)
        stop = t.first_(n, k, e_any) if e_any is not FALSE else n
        ex.throws.append((t.land(pc0, t.lnot(t.forall_(stop, k, t.lnot(cc)))), ty))
    if not exits:
        fin = at_k(n)
        fin.pc = pc0
        for l in locs:
            if l.sym.sort in 'VM':
                v = l.unpack(ex.get(fin, l.lv))
                if v.op in ('lam', 'mlam'):
                    ex.put(fin, l.lv, l.pack(prover.simp(v, prover.Ctx(ex.facts).plus(pc0))))
        if thr2:
            fin.pc = t.land(pc0, *[t.lnot(x[0]) for x in ex.throws[-len(thr2):]])
        return fin
    kstar = t.first_(n, k, e_any)
    # exits
    tail = at_k(n)
    tail.pc = t.land(pc0, t.forall_(n, k, t.lnot(e_any)))
    cur = tail
    for (kind, es, v), ec in zip(exits, econd):
        x = st.copy()
        for r in x.env:
            x.env[r] = t.subst(es.env[r], {k: kstar})
        cc = t.land(t.lnot(t.forall_(n, k, t.lnot(e_any))), t.subst(ec, {k: kstar}) if len(exits) > 1 else TRUE)
        x.pc = t.land(pc0, cc)
        ex.facts.append(t.implies(t.lnot(t.forall_(n, k, t.lnot(e_any))),
                                  t.land(t.le(0, kstar), t.lt(kstar, n), t.subst(e_any, {k: kstar}))))
        if kind == 'return':
            fr.returns.append((x, t.subst(v, {k: kstar}) if isinstance(v, T) else v))
        else:
            env = ex.merge_env(cc, x.env, cur.env)
            cur = type(cur)(env, t.land(pc0, t.lor(cc, ex.relpc(pc0, cur.pc))))
            if all(kd == 'break' for kd, _, _ in exits) and len(exits) == 1:
                cur.pc = pc0
    return cur


def name_of(lv):
    return '.'.join([lv.root.split('@')[0]] + [str(p[1]) for p in lv.path])


def annotated(ex, st, locs, one, s3, h, line):
    """a loop with an invariant written in the contract: what an iteration changes becomes unknown, the invariant is known of it"""
    from .cxx import Unsupported
    _, shape, inv, *upto = h
    pc0 = st.pc
    nfacts = len(ex.facts)
    k = t.fresh('k', 'I')
    res, rest = {}, []
    for l in locs:
        o = l.unpack(ex.get(s3, l.lv))
        if l.sym.sort == 'I' and t.is_num(t.sub(o, l.sym)):
            l.closed = t.add(l.start(), t.mul(t.sub(o, l.sym), k))
            res[l.sym] = l.closed
        else:
            rest.append(l)

    def unknown(kk):
        x = st.copy()
        for l in locs:
            if l in rest:
                v = shape(name_of(l.lv), l.start())
                if v is None:
                    l.havoc()
                    v = l.sym
                    if l.append:
                        ex.facts.append(t.le(0, t.length(v)))
                ex.put(x, l.lv, l.pack(v))
            else:
                ex.put(x, l.lv, l.pack(t.subst(l.closed, {k: kk})))
        return x

    def says(x, kk):
        vals = {name_of(l.lv): l.unpack(ex.get(x, l.lv)) for l in locs}
        return inv(kk, vals, x)
    s0 = unknown(k)
    c, *_ = one_cond(ex, one, s0)
    n = trip(ex, c, k, prover.Ctx(ex.facts).plus(pc0), st, line)
    if n is None:
        raise Unsupported('loop bound: ' + t.show(c)[:200])
    for text, g in says(st, ZERO):
        ex.oblige('loop-init', st, g, 'invariant holds initially: ' + text, line)
    s0.pc = t.land(pc0, t.le(0, k), t.lt(k, n))
    for text, g in says(s0, k):
        ex.facts.append(t.implies(s0.pc, g))
    _, inpc, s4, brk, rets, thr = one(s0)
    if brk or rets or s4 is None:
        raise Unsupported('leaving a loop that has a written invariant')
    s5 = s4.copy()
    s5.pc = t.land(s0.pc, *[t.lnot(x[0]) for x in thr])
    for text, g in says(s4, t.add(k, 1)):
        ex.oblige('loop-step', s5, g, 'invariant is preserved: ' + text, line)
    del ex.facts[nfacts:]       # those spoke of an iteration
    fin = unknown(n)
    fin.pc = pc0
    for text, g in says(fin, n):
        ex.facts.append(t.implies(pc0, g))
    if thr:         # some iteration may throw
        u = t.fresh('thrown', 'B')
        ex.throws.append((t.land(pc0, u), thr[0][1]))
        fin.pc = t.land(pc0, t.lnot(u))
    return fin


def one_cond(ex, one, s0):
    ex.silent += 1
    try:
        return one(s0)
    finally:
        ex.silent -= 1


def st_lv(r):
    from .cxx import LV
    return LV(r)


def veq(a, b):
    if a.sort == 'V':
        return t.land(t.eq(t.length(a), t.length(b)), t.forall(t.length(a), lambda i: t.eq(t.at(a, i), t.at(b, i))))
    if a.sort == 'M':
        return t._mk('eqo', (a, b) if a.id < b.id else (b, a), 'B') if a is not b else TRUE
    return t.eq(a, b)


def affine(o, atom, bad):
    """o = A*atom + B with A, B free of bad"""
    A, B = {}, {}
    for m, c in t.pdict(o).items():
        d = dict(m)
        if atom in d:
            if d[atom] != 1:
                return None
            d.pop(atom)
            A[tuple(sorted(d.items(), key=lambda x: x[0].id))] = c
        else:
            B[m] = c
    A, B = t.mkpoly(A), t.mkpoly(B)
    if bad in A.fv or bad in B.fv:
        return None
    return A, B


def absorb(e, sym, idx):
    """in a monomial with [j == u], elements of sym at u are elements at j (idx: the bound positions)"""
    if e.op != 'poly':
        return e
    out = []
    for m, c in e.a:
        s = {}
        for a, x in m:
            if a.op == 'iv':
                for q in (a.a[0].a if a.a[0].op == 'and' else (a.a[0],)):
                    if q.op == 'eq0':
                        for j in idx:
                            r = t._coef_of(q.a[0], j)
                            if r is not None:
                                s[t.neg(r[1]) if r[0] == 1 else r[1]] = j
        p = [t.num(c)]
        for a, x in m:
            p.append(t.powi(replace_self(a, sym, s) if s and sym in a.fv else a, x))
        out.append(t.mul(*p))
    return t.add(*out)


def replace_self(a, sym, s):
    if a.op == 'at' and a.a[0] is sym:
        return t.at(sym, s.get(a.a[1], a.a[1]))
    if a.op == 'at2' and a.a[0] is sym:
        return t.at2(sym, s.get(a.a[1], a.a[1]), s.get(a.a[2], a.a[2]))
    if sym not in a.fv or a.op in ('lam', 'mlam', 'ms', 'prod', 'forall', 'first', 'filter', 'var'):
        return a
    m = {}
    for x in selfrefs(a, sym, set()):
        y = replace_self(x, sym, s)
        if y is not x:
            f = t.fresh('sr', x.sort)
            m[x] = (f, y)
    return swap(a, {x: f for x, (f, y) in m.items()}, {f: y for f, y in m.values()})


def selfrefs(a, sym, out):
    if sym not in a.fv:
        return out
    if a.op in ('at', 'at2') and a.a[0] is sym:
        out.add(a)
    for y in prover.sub_terms(a):
        selfrefs(y, sym, out)
    return out


def swap(a, to, back):
    """replace compound terms"""
    if not to:
        return a
    return t.replace(a, {x: back[f] for x, f in to.items()})


def pointwise(ex, l, e, a, js, k, ctx):
    """element-by-element update: iteration k rewrites only the element at a position fixed by k"""
    sym, init = l.sym, l.start()
    cs = []
    prover.find_conds(e, cs, set())
    for j in js:
        for q in cs:
            if q.op != 'eq0' or sym in q.fv:
                continue
            r = t._coef_of(q.a[0], j)
            u = unique(q, k)
            if r is None or u is None:
                continue
            w = t.neg(r[1]) if r[0] == 1 else r[1]
            if k not in w.fv:
                continue
            off = prover.simp(e, ctx.plus(t.lnot(q)))
            if off is not a:
                continue
            on = t.subst(e, {j: w})
            on = prover.simp(on, ctx)
            at_u = t.subst(a, {j: w})
            if any(x is not at_u for x in selfrefs(on, sym, set())):
                continue
            g = t.subst(t.subst(on, {sym: init}), {k: u})
            return t.ite(t.land(t.le(0, u), t.lt(u, k)), g, t.subst(a, {sym: init}))
    return None


def infer(ex, l, o, k, ctx):
    init = l.start()
    if l.sym.sort in 'IR':
        r = affine(o, l.sym, l.sym)
        if r is None:
            r = affine(prover.simp(o, ctx), l.sym, l.sym)
        if r is None:
            return None
        return element(ex, r[0], r[1], init, k, ctx)
    if l.sym.sort == 'B':
        if l.sym not in o.fv:
            return t.ite(t.eq(k, 0), init, t.subst(o, {k: t.sub(k, 1)}))
        # in && g(k)  /  in || g(k)
        on = t.subst(o, {l.sym: TRUE}) if True else None
        off = t.subst(o, {l.sym: FALSE})
        if off is FALSE:
            return t.land(init, t.forall_(k, _k2(k), t.subst(on, {k: _k2(k)})))
        if on is TRUE:
            return t.lor(init, t.lnot(t.forall_(k, _k2(k), t.lnot(t.subst(off, {k: _k2(k)})))))
        return None
    if l.sym.sort == 'V':
        j = t.fresh('j', 'I')
        if l.append:
            return append(ex, l, o, k, ctx)
        e = t.at(o, j)
        a = t.at(l.sym, j)
        n = t.length(l.sym)
        cx = ctx.plus(t.le(0, j), t.lt(j, n))
        if e.sort in 'IR':
            e = absorb(e, l.sym, (j,))
            r = affine(e, a, l.sym) or affine(absorb(prover.simp(e, cx), l.sym, (j,)), a, l.sym)
            b = element(ex, r[0], r[1], t.at(init, j), k, cx) if r is not None else None
            if b is None:
                b = pointwise(ex, l, e, a, (j,), k, cx)
            return t.lam_(n, j, b) if b is not None else None
        # element of another sort: ite chains
        r = writer(e, a, l.sym, k)
        if r is None:
            return None
        c, g = r
        u = unique(c, k)
        if u is None:
            return None
        b = t.ite(t.land(t.le(0, u), t.lt(u, k), t.subst(c, {k: u})), t.subst(g, {k: u}), t.at(init, j))
        return t.lam_(n, j, b)
    if l.sym.sort == 'M':
        i, j = t.fresh('i', 'I'), t.fresh('j', 'I')
        e = t.at2(o, i, j)
        a = t.at2(l.sym, i, j)
        n, m = t.rows(l.sym), t.cols(l.sym)
        cx = ctx.plus(t.le(0, i), t.lt(i, n), t.le(0, j), t.lt(j, m))
        e = absorb(e, l.sym, (i, j))
        r = affine(e, a, l.sym) or affine(absorb(prover.simp(e, cx), l.sym, (i, j)), a, l.sym)
        b = element(ex, r[0], r[1], t.at2(init, i, j), k, cx) if r is not None else None
        if b is None:
            b = pointwise(ex, l, e, a, (i, j), k, cx)
        return t.mlam_(n, m, i, j, b) if b is not None else None
    if l.sym.sort in 'OS' and l.sym not in o.fv:
        return t.ite(t.eq(k, 0), init, t.subst(o, {k: t.sub(k, 1)}))
    return None


_kk = {}


def _k2(k):
    if k not in _kk:
        _kk[k] = t.fresh('kk', 'I')
    return _kk[k]


def element(ex, A, B, init, k, ctx):
    k2 = t.fresh('kk', 'I')
    if A is ONE:
        d = t.pdict(B)
        if len(d) == 1:
            (m, c), = d.items()
            if len(m) == 1 and m[0][1] == 1 and below(m[0][0], k) is not None:      # counts the iterations before u
                u = below(m[0][0], k)
                u = t.ite(t.lt(u, 0), ZERO, u)
                return t.add(init, t.mul(t.num(c), t.ite(t.lt(u, k), u, k)))
        return t.add(init, t.sum_(k, k2, t.subst(B, {k: k2})))
    if A is ZERO:
        return t.ite(t.eq(k, 0), init, t.subst(B, {k: t.sub(k, 1)}))
    if B is ZERO:
        return t.mul(init, t.prod_(k, k2, t.subst(A, {k: k2})))
    C = t.sub(ONE, A)
    if t.mul(C, C) is C:
        AB = t.mul(A, B)
        if AB is not ZERO:
            AB = prover.simp(AB, ctx)
        if AB is ZERO:
            if k not in C.fv:
                return t.add(t.mul(A, init), t.mul(C, t.ite(t.eq(k, 0), init, t.subst(B, {k: t.sub(k, 1)}))))
            if not (A.fv & {init}):
                r = stopping(C, B, init, k)
                if r is not None:
                    return r
            u = unique_poly(C, k)
            if u is not None:
                w = t.land(t.le(0, u), t.lt(u, k))
                cu, bu = t.subst(C, {k: u}), t.subst(B, {k: u})
                return t.add(t.mul(t.iv(w), bu), t.mul(t.sub(ONE, t.mul(t.iv(w), cu)), init))
            sc = t.sum_(k, k2, t.subst(C, {k: k2}))
            sb = t.sum_(k, k2, t.subst(B, {k: k2}))
            return t.add(sb, t.mul(t.sub(ONE, sc), init))
    return None


def below(c, k):
    """u when c is [k < u]"""
    if c.op == 'iv' and c.a[0].op == 'lt0':
        u = t.sub(k, c.a[0].a[0])
        if k not in u.fv:
            return u
    return None


def stopping(C, B, init, k):
    """written anew in every iteration before u, and left alone from then on"""
    d = t.pdict(C)
    if len(d) != 1:
        return None
    (m, c), = d.items()
    u = below(m[0][0], k) if c == 1 and len(m) == 1 and m[0][1] == 1 else None
    if u is None:
        return None
    zero = t.fresh('k', 'I')
    W = t.subst(B, {k: t.sub(k, 1)})
    W = t.mul(W, ONE)
    # B is only used where k < u
    first = t.subst(W, {k: ZERO})
    u0 = t.ite(t.lt(u, 0), ZERO, u)
    r = t.ite(t.lt(u0, k), t.subst(W, {k: u0}), W)
    if first is init or prover.simp(first, prover.Ctx([])) is init:
        return r
    return t.ite(t.lor(t.eq(k, 0), t.le(u, 0)), init, r)


def unique_poly(C, k):
    """iteration fixed by an equality factor common to every monomial of C"""
    cand = None
    for m, c in t.pdict(C).items():
        s = set()
        for a, e in m:
            if a.op == 'iv':
                u = unique(a.a[0], k)
                if u is not None:
                    s.add(u)
        cand = s if cand is None else cand & s
    return min(cand, key=lambda x: x.id) if cand else None


def unique(c, k):
    for x in (c.a if c.op == 'and' else (c,)):
        if x.op == 'eq0':
            r = t._coef_of(x.a[0], k)
            if r is not None:
                co, rest = r
                return t.neg(rest) if co == 1 else rest
    return None


def writer(e, a, sym, k):
    """e = ite(c, g, a)"""
    if e.op == 'ite':
        c, x, y = e.a
        if y is a and sym not in c.fv and sym not in x.fv:
            return c, x
        if x is a and sym not in c.fv and sym not in y.fv:
            return t.lnot(c), y
        if y is not a:
            r = writer(y, a, sym, k)
            if r is not None and sym not in c.fv and sym not in x.fv:
                c2, g2 = r
                return t.lor(c, c2), t.ite(c, x, g2)
            if r is None and x is not a:
                r1 = writer(x, a, sym, k)
                if r1 and y is a:
                    return t.land(c, r1[0]), r1[1]
    return None


def append(ex, l, o, k, ctx):
    init = l.start()
    ln = t.length(l.sym)
    d = t.sub(t.length(o), ln)
    d = prover.simp(d, ctx)
    if d is ONE:
        g = prover.simp(t.at(o, ln), ctx.plus(t.le(0, ln)))
        if l.sym in g.fv or ln in g.fv:
            return None
        n0 = t.length(init)
        k2 = None
        return t.lam(t.add(n0, k), lambda j: t.ite(t.lt(j, n0), t.at(init, j), t.subst(g, {k: t.sub(j, n0)}))) \
            if n0 is not ZERO else t.lam(k, lambda j: t.subst(g, {k: j}))
    if d.op == 'iv' or len(t.pdict(d)) > 0:
        if t.mul(d, d) is d and ln not in d.fv and l.sym not in d.fv and t.length(init) is ZERO:
            c = t.eq(d, ONE) if d.op != 'iv' else d.a[0]
            g = prover.simp(t.at(o, ln), ctx.plus(c, t.le(0, ln)))
            if l.sym in g.fv or ln in g.fv:
                return None
            k2 = t.fresh('kk', 'I')
            return t.filter_(k, k2, t.subst(c, {k: k2}), t.subst(g, {k: k2}))
    return None


def trip(ex, ck, k, ctx, st, line):
    """number of iterations when the loop runs while ck(k)"""
    if ck.op == 'lt0':
        r = t._coef_of(ck.a[0], k)
        if r is not None and r[0] == 1:
            n = t.neg(r[1])
            if prover.decide(ctx, t.le(0, n)) is TRUE:
                return n
            return t.ite(t.le(0, n), n, ZERO)
        if r is None:
            # c*k + r < 0 with c > 1 : ceil division, only for constant steps
            return None
        return None
    if ck.op == 'not' and ck.a[0].op == 'eq0':
        r = t._coef_of(ck.a[0].a[0], k)
        if r is not None:
            n = t.neg(r[1]) if r[0] == 1 else r[1]
            ex.oblige('termination', st, t.le(0, n), 'loop counter reaches its bound', line)
            return n
    return None
