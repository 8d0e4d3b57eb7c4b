"""Models (assumed contracts) of the library operations the code uses: Eigen, std, boost::math."""
from . import terms as t
from .terms import T, TRUE, FALSE, ZERO, ONE, tm, num
from . import cxx
from .cxx import (LV, Ptr, Iter, SpIter, Diag, QR, Eig, Comma, TriView, Inserter, Closure, Unsupported, bare, eshape, esort,
                  matmul, vecmat, transpose, emap, dense, is_sparse, inverse, det, power, wrap, unwrap, size_of)


def call_external(ex, e, fr, st):
    fn = bare(e['fn'])
    name = fn.split('::')[-1]
    ex.assumed.add(fn)
    args = e['args']
    h = EXT.get(fn)
    if h:
        return h(ex, e, fr, st)
    first_t = args[0]['t'] if args else {}
    tys = [a['t'] for a in args]
    iseig = lambda ty: ty.get('eigen')
    if fn.startswith('std::vector::'):
        return vector(ex, e, fr, st, name)
    if fn.startswith('__gnu_cxx::__normal_iterator::') or fn.startswith('__gnu_cxx::operator') or \
            fn.startswith('std::reverse_iterator') or fn.startswith('std::operator') and \
            any('iterator' in x.get('n', '') for x in tys):
        return iterator(ex, e, fr, st, name)
    if fn.startswith('std::_Bit'):
        if 'operator bool' in name:
            return ex.val(args[0], fr, st)
        if name == 'operator=':
            lv = ex.ev(args[0], fr, st)
            v = ex.val(args[1], fr, st)
            ex.put(st, lv, v)
            return lv
    if fn.startswith('std::shared_ptr') or fn.startswith('std::__shared_ptr') or fn.startswith('std::__shared_ptr_access'):
        if name == 'operator=':
            lv = ex.ev(args[0], fr, st)
            v = ex.val(args[1], fr, st)
            ex.put(st, lv, v if isinstance(v, T) else wrap(v))
            return lv
        if name in ('operator->', 'operator*', 'get'):
            v = ex.val(args[0], fr, st)
            if isinstance(v, T) and isinstance(ex.unwrap(v), Ptr):
                v = ex.unwrap(v)
            if isinstance(v, T) and v.sort == 'O':
                # an object known only through its contract, named by the pointer to it
                lv = ex.alloc(st, v, 'pointee')
                ex.readonly.add(lv.root)
                v = Ptr(lv)
            if isinstance(v, Ptr):
                return v if name != 'operator*' else v.lv
            raise Unsupported('dereference of opaque shared_ptr')
    if fn.startswith('std::function::'):
        if name == 'operator()':
            f = ex.term(args[0], fr, st)
            a2 = [ex.ev(a, fr, st) for a in args[1:]]
            a2 = [a if isinstance(a, (LV, T)) else wrap(a) for a in a2]
            return ex.apply_function(st, f, a2, e['t'])
        if name == 'operator=':
            lv = ex.ev(args[0], fr, st)
            ex.put(st, lv, ex.term(args[1], fr, st))
            return lv
    if fn in ('std::exp', 'std::log', 'std::sqrt', 'std::pow', 'std::abs', 'std::fabs', 'exp', 'log', 'sqrt', 'pow', 'fabs',
              'Eigen::exp', 'Eigen::log', 'Eigen::sqrt', 'Eigen::pow', 'Eigen::abs', 'std::log1p', 'log1p', 'expm1',
              'std::expm1'):
        vs = [ex.term(a, fr, st) for a in args]
        return math(name, vs)
    if fn in ('std::isfinite', 'std::isnormal', 'std::isnan', 'std::isinf'):
        v = ex.term(args[0], fr, st)
        if INF in v.fv:
            if v is INF or v is t.neg(INF):
                return TRUE if name == 'isinf' else FALSE
            raise Unsupported('arithmetic on infinity')
        return t.app(name, v, sort='B')
    if fn in ('std::min', 'std::max'):
        a, b = ex.term(args[0], fr, st), ex.term(args[1], fr, st)
        return t.ite(t.lt(b, a), b, a) if name == 'min' else t.ite(t.lt(a, b), b, a)
    if fn in ('boost::math::cdf', 'boost::math::pdf', 'boost::math::quantile', 'cdf', 'pdf', 'quantile'):
        d, x = ex.term(args[0], fr, st), ex.term(args[1], fr, st)
        f = dict(d.a[1]) if d.op == 'rec' else None
        if f is None or f['m'] is not ZERO or f['s'] is not ONE:
            if f is None:
                raise Unsupported('distribution')
            if name == 'quantile':
                return t.add(f['m'], t.mul(f['s'], t.app('quantile', x)))
            z = t.div(t.sub(x, f['m']), f['s'])
            return t.app('cdf', z) if name == 'cdf' else t.div(t.app('pdf', z), f['s'])
        return t.app(name, x)
    if fn == 'std::operator==' or fn == 'std::operator!=':
        a, b = ex.term(args[0], fr, st), ex.term(args[1], fr, st)
        r = veq(a, b)
        return r if name.endswith('==') else t.lnot(r)
    if fn == 'std::back_inserter':
        return Inserter(ex.ev(args[0], fr, st))
    if fn == 'std::find':
        a, b = ex.val(args[0], fr, st), ex.val(args[1], fr, st)
        x = ex.term(args[2], fr, st)
        c = ex.get(st, a.cont)
        n = t.sub(b.pos, a.pos)
        i = t.fresh('f', 'I')
        p = t.add(a.pos, t.first_(n, i, t.eq(t.at(c, t.add(a.pos, i)), x)))
        ff = t.first_(n, i, t.eq(t.at(c, t.add(a.pos, i)), x))
        if not t.is_num(ff):
            ex.facts.append(t.implies(t.le(0, n), t.land(t.le(0, ff), t.le(ff, n))))
            ex.facts.append(t.implies(t.lt(ff, n), t.eq(t.at(c, t.add(a.pos, ff)), x)))
        return Iter(a.cont, p)
    if fn in ('std::copy_if', 'std::remove_if'):
        return selection(ex, e, fr, st, name)
    if fn in ('std::sort', 'std::set_union', 'std::includes'):
        return sorted_lists(ex, e, fr, st, name)
    if any(iseig(x) for x in tys) or fn.startswith('Eigen::'):
        return eigen(ex, e, fr, st, fn, name)
    if fn.startswith('std::numeric_limits'):
        if name == 'infinity':
            return INF
        raise Unsupported(fn)
    raise Unsupported('external ' + fn)


def selection(ex, e, fr, st, name):
    """std::copy_if to the end of an empty list, std::remove_if"""
    a, b = ex.val(e['args'][0], fr, st), ex.val(e['args'][1], fr, st)
    v = ex.get(st, a.cont)
    if a.cont.root is not b.cont.root or a.cont.path != b.cont.path or a.pos is not ZERO or b.pos is not t.length(v) or a.stride != 1:
        raise Unsupported('range')
    f = ex.val(e['args'][-1], fr, st)
    f = unwrap(f) if isinstance(f, T) else f
    if not isinstance(f, Closure):
        raise Unsupported('predicate of ' + name)
    n = t.length(v)
    i = t.fresh('i', 'I')
    s2 = st.copy()
    s2.pc = t.land(st.pc, t.le(0, i), t.lt(i, n))
    nt = len(ex.throws)
    c = ex.call_closure(s2, f, [a.cont + ('i', i)])
    c = ex.tobool(c if isinstance(c, T) else ex.get(s2, c))
    if len(ex.throws) != nt or any(s2.env[r] is not st.env[r] for r in st.env):
        raise Unsupported('predicate of %s with effects' % name)
    pick = lambda cond: t.set_elem_sort(t.filter_(n, i, cond, t.at(v, i)), t.elem_sort(v))
    if name == 'copy_if':
        o = ex.val(e['args'][2], fr, st)
        if not isinstance(o, Inserter) or t.length(ex.get(st, o.lv)) is not ZERO:
            raise Unsupported('output of std::copy_if')
        F = pick(c)
        ex.facts.append(t.le(0, t.length(F)))
        j = t.fresh('j', 'I')       # each of them satisfies the predicate
        ex.facts.append(t.implies(st.pc, t.forall_(t.ALL, j, t.implies(t.land(t.le(0, j), t.lt(j, t.length(F))), t.replace(c, {t.at(v, i): t.at(F, j)})))))
        ex.put(st, o.lv, F)
        return o
    F = pick(t.lnot(c))
    rest = t.set_elem_sort(t.vecvar('moved.%d' % i.id, n, t.elem_sort(v)), t.elem_sort(v))
    ex.put(st, a.cont, t.set_elem_sort(t.lam(n, lambda j: t.ite(t.lt(j, t.length(F)), t.at(F, j), t.at(rest, j))), t.elem_sort(v)))
    return Iter(a.cont, t.length(F))


def whole(ex, e, k, fr, st):
    """the container of which arguments k, k+1 are the ends"""
    a, b = ex.val(e['args'][k], fr, st), ex.val(e['args'][k + 1], fr, st)
    if not isinstance(a, Iter) or not isinstance(b, Iter) or a.cont.root is not b.cont.root or a.cont.path != b.cont.path:
        raise Unsupported('range')
    v = ex.get(st, a.cont)
    if a.pos is not ZERO or b.pos is not t.length(v) or a.stride != 1 or t.elem_sort(v) != 'I':
        raise Unsupported('range')
    return a.cont, v


def ascending(v):
    return TRUE if t.length(v) in (ZERO, ONE) else t.app('@ascending', v, sort='B')


def sorted_lists(ex, e, fr, st, name):
    """std::sort, std::set_union, std::includes on whole lists of integers"""
    from . import sets
    c, v = whole(ex, e, 0, fr, st)
    if name == 'sort':
        if len(e['args']) != 2:
            raise Unsupported('std::sort')
        s = t.set_elem_sort(t.vecvar('sorted.%d' % t.fresh('q', 'I').id, t.length(v), 'I'), 'I')
        ex.facts.append(sets.every(lambda x: t.eqb(sets.isin(s, x), sets.isin(v, x))))
        ex.facts.append(t.eqb(sets.norep(s), sets.norep(v)))
        ex.facts.append(ascending(s))
        ex.put(st, c, s)
        return TRUE
    _, w = whole(ex, e, 2, fr, st)
    for u, text in ((v, 'first'), (w, 'second')):
        ex.oblige('requires', st, ascending(u), 'the %s list is sorted' % text, e['l'])
        ex.oblige('requires', st, sets.norep(u), 'the %s list has no element twice' % text, e['l'])
    if name == 'includes':
        if len(e['args']) != 4:
            raise Unsupported('std::includes')
        return t.app('@subset', w, v, sort='B')
    if len(e['args']) != 5:
        raise Unsupported('std::set_union')
    o = ex.val(e['args'][4], fr, st)
    if not isinstance(o, Inserter) or t.length(ex.get(st, o.lv)) is not ZERO:
        raise Unsupported('output of std::set_union')
    n = t.fresh('n', 'I')
    u = t.set_elem_sort(t.vecvar('union.%d' % n.id, n, 'I'), 'I')
    ex.facts += [sets.every(lambda x: t.eqb(sets.isin(u, x), t.lor(sets.isin(v, x), sets.isin(w, x)))), sets.norep(u), ascending(u),
                 t.le(0, n), t.le(t.length(v), n), t.le(t.length(w), n), t.le(n, t.add(t.length(v), t.length(w)))]
    ex.put(st, o.lv, u)
    return o


INF = t.var('%inf', 'R')


def veq(a, b):
    if a.sort == 'V' and b.sort == 'V':
        return t.land(t.eq(t.length(a), t.length(b)), t.forall(t.length(a), lambda i: t.eq(t.at(a, i), t.at(b, i))))
    return t.eq(a, b)


def math(name, vs):
    if name == 'exp':
        return emap(t.exp, vs[0])
    if name == 'log':
        return emap(t.log, vs[0])
    if name == 'log1p':
        return emap(lambda x: t.log(t.add(ONE, x)), vs[0])
    if name == 'expm1':
        return emap(lambda x: t.sub(t.exp(x), 1), vs[0])
    if name == 'sqrt':
        return emap(t.sqrt, vs[0])
    if name == 'pow':
        return emap(power, vs[0], vs[1])
    if name in ('abs', 'fabs'):
        return emap(lambda x: t.ite(t.lt(x, 0), t.neg(x), x), vs[0])
    raise Unsupported(name)


# ------------------------------------------------------------------------------------------- std::vector
def vector(ex, e, fr, st, name):
    args = e['args']
    if name == 'operator=':
        lv = ex.ev(args[0], fr, st)
        ex.put(st, lv, ex.term(args[1], fr, st))
        return lv
    o = ex.ev(args[0], fr, st)
    if not isinstance(o, LV):
        o = ex.alloc(st, o)
    v = ex.get(st, o)
    if name == 'size':
        return t.length(v)
    if name == 'empty':
        return t.eq(t.length(v), 0)
    if name in ('at', 'operator[]'):
        i = ex.term(args[1], fr, st)
        inb = t.land(t.le(0, i), t.lt(i, t.length(v)))
        ex.oblige('bounds', st, inb, 'index inside the vector', e['l'])
        return o + ('i', i)
    if name in ('back', 'front'):
        ex.oblige('bounds', st, t.lt(0, t.length(v)), 'vector is not empty', e['l'])
        return o + ('i', ZERO if name == 'front' else t.sub(t.length(v), 1))
    if name in ('push_back', 'emplace_back'):
        x = ex.term(args[1], fr, st)
        n = t.length(v)
        if t.elem_sort(v) == 'B' and x.sort != 'B':
            x = ex.tobool(x)
        ex.put(st, o, t.set_elem_sort(t.lam(t.add(n, 1), lambda j: t.ite(t.eq(j, n), x, t.at(v, j))), x.sort)
               if n is not ZERO else t.lam(1, lambda j: x))
        return o
    if name == 'clear':
        ex.put(st, o, t.set_elem_sort(t.setshape(t.var('empty_' + t.elem_sort(v), 'V'), ZERO), t.elem_sort(v)))
        return o
    if name == 'reserve':
        return o
    if name == 'resize':
        n = ex.term(args[1], fr, st)
        w = t.lam(n, lambda j: t.at(v, j))
        if v.op == 'lam':
            j = t.fresh('j', 'I')
            x = t.at(v, j)
            if x.op == 'ite' and x.a[0] is t.lt(j, n) and x.a[1].op == 'at' and x.a[1].a[1] is j and t.length(x.a[1].a[0]) is n and j not in x.a[1].a[0].fv:
                w = x.a[1].a[0]
        ex.put(st, o, w)
        return o
    if name in ('begin', 'cbegin'):
        return Iter(o, ZERO)
    if name in ('end', 'cend'):
        return Iter(o, t.length(v))
    if name == 'rbegin':
        return Iter(o, t.sub(t.length(v), 1), -1)
    if name == 'rend':
        return Iter(o, num(-1), -1)
    if name == 'erase':
        it = ex.val(args[1], fr, st)
        p = it.pos
        ex.oblige('bounds', st, t.land(t.le(0, p), t.lt(p, t.length(v))), 'erased position exists', e['l'])
        ex.put(st, o, t.lam(t.sub(t.length(v), 1), lambda j: t.at(v, t.ite(t.lt(j, p), j, t.add(j, 1)))))
        return Iter(o, p)
    if name in ('pop_back',):
        ex.put(st, o, t.lam(t.sub(t.length(v), 1), lambda j: t.at(v, j)))
        return o
    raise Unsupported('std::vector::' + name)


def iterator(ex, e, fr, st, name):
    args = e['args']
    if name in ('operator*', 'operator->'):
        it = ex.val(args[0], fr, st)
        n = t.length(ex.get(st, it.cont))
        ex.oblige('bounds', st, t.land(t.le(0, it.pos), t.lt(it.pos, n)), 'dereferenced iterator is inside', e['l'])
        lv = it.cont + ('i', it.pos)
        return lv if name == 'operator*' else Ptr(lv)
    if name in ('operator++', 'operator--'):
        lv = ex.ev(args[0], fr, st)
        it = unwrap(ex.get(st, lv))
        new = Iter(it.cont, t.add(it.pos, it.stride if name == 'operator++' else -it.stride), it.stride)
        ex.put(st, lv, wrap(new))
        return it if len(args) > 1 else lv
    if name in ('operator==', 'operator!='):
        a, b = ex.val(args[0], fr, st), ex.val(args[1], fr, st)
        r = t.eq(a.pos, b.pos)
        return r if name == 'operator==' else t.lnot(r)
    if name == 'operator<':
        a, b = ex.val(args[0], fr, st), ex.val(args[1], fr, st)
        return t.lt(a.pos, b.pos) if a.stride == 1 else t.lt(b.pos, a.pos)
    if name == 'operator-':
        a, b = ex.val(args[0], fr, st), ex.val(args[1], fr, st)
        if isinstance(b, Iter):
            return t.sub(a.pos, b.pos)
        return Iter(a.cont, t.sub(a.pos, b), a.stride)
    if name == 'operator+':
        a, b = ex.val(args[0], fr, st), ex.term(args[1], fr, st)
        return Iter(a.cont, t.add(a.pos, b if a.stride == 1 else t.neg(b)), a.stride)
    if name in ('operator+=', 'operator-='):
        lv = ex.ev(args[0], fr, st)
        it = unwrap(ex.get(st, lv))
        d = ex.term(args[1], fr, st)
        ex.put(st, lv, wrap(Iter(it.cont, (t.add if name == 'operator+=' else t.sub)(it.pos, d), it.stride)))
        return lv
    if name == 'operator=':
        lv = ex.ev(args[0], fr, st)
        v = ex.val(args[1], fr, st)
        ex.put(st, lv, wrap(v))
        return lv
    raise Unsupported('iterator ' + name)


# ------------------------------------------------------------------------------------------- Eigen
def shp(v, ty):
    """shape category of a value with its static type"""
    if isinstance(v, Diag):
        return 'D'
    if isinstance(v, TriView):
        return 'T'
    if is_sparse(v):
        return 'P'
    s = eshape(ty)
    if not ty.get('eigen'):
        return 'S'
    return s


def eigen(ex, e, fr, st, fn, name):
    args = e['args']
    tys = [a['t'] for a in args]
    if name in ('operator=',):
        lv = ex.ev(args[0], fr, st)
        v = ex.val(args[1], fr, st)
        if isinstance(lv, LV):
            v = ex.conv(st, diag_dense(v), dict(tys[0], plain=True))
            if isinstance(v, T) and lv.path and lv.path[-1][0] == 'seg':
                ex.oblige('size', st, t.eq(t.length(v), lv.path[-1][2]), 'assigned segment has the same size', e['l'])
            if isinstance(v, T) and lv.path and lv.path[-1][0] == 'blk':
                ex.oblige('size', st, t.land(t.eq(t.rows(v), lv.path[-1][3]), t.eq(t.cols(v), lv.path[-1][4])),
                          'assigned block has the same size', e['l'])
            ex.put(st, lv, v)
            return lv
        raise Unsupported('eigen assignment target')
    if name in ('operator+', 'operator-', 'operator*', 'operator/') and len(args) == 2:
        a, b = ex.val(args[0], fr, st), ex.val(args[1], fr, st)
        return eop(ex, st, name[-1], a, b, tys[0], tys[1], e)
    if name.startswith('operator const') or name == 'operator double':
        v = ex.val(args[0], fr, st)
        if isinstance(v, T) and v.sort == 'M':
            ex.oblige('size', st, t.land(t.eq(t.rows(v), 1), t.eq(t.cols(v), 1)), 'a 1x1 product is used as a number', e['l'])
            return t.at2(v, 0, 0)
        if isinstance(v, T) and v.sort == 'V':
            ex.oblige('size', st, t.eq(t.length(v), 1), 'a 1x1 product is used as a number', e['l'])
            return t.at(v, 0)
        return v
    if name == 'operator-' and len(args) == 1:
        v = ex.val(args[0], fr, st)
        if is_sparse(v):
            raise Unsupported('sparse negation')
        return emap(t.neg, v)
    if name in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
        lv = ex.ev(args[0], fr, st)
        b = ex.val(args[1], fr, st)
        a = ex.get(st, lv)
        r = eop(ex, st, name[-2], a, b, tys[0], tys[1], e)
        ex.put(st, lv, ex.conv(st, r, dict(tys[0], plain=True)))
        return lv
    if name in ('operator==', 'operator!='):
        a, b = ex.term(args[0], fr, st), ex.term(args[1], fr, st)
        if tys[0].get('ek') == 'array':
            raise Unsupported('array comparison')
        if a.sort == 'V':
            ex.oblige('size', st, t.eq(t.length(a), t.length(b)), 'compared vectors have the same size', e['l'])
            r = t.forall(t.length(a), lambda i: t.eq(t.at(a, i), t.at(b, i)))
        else:
            r = t.forall(t.rows(a), lambda i: t.forall(t.cols(a), lambda j: t.eq(t.at2(a, i, j), t.at2(b, i, j))))
        return r if name == 'operator==' else t.lnot(r)
    if name in ('operator()', 'operator[]', 'coeff', 'coeffRef'):
        o = ex.ev(args[0], fr, st)
        idx = [ex.term(a, fr, st) for a in args[1:]]
        v = ex.get(st, o) if isinstance(o, LV) else o
        if is_sparse(v):
            d = sparse_entry(v, *idx)
            f = dict(v.a[1])
            ex.oblige('bounds', st, t.land(t.le(0, idx[0]), t.lt(idx[0], f['rows']), t.le(0, idx[1]),
                                           t.lt(idx[1], f['cols'])), 'indices inside the sparse matrix', e['l'])
            return d
        if isinstance(v, T) and v.sort in 'RI' and v.op != 'ite':   # 1x1 product
            return v
        if len(idx) == 1:
            if v.sort == 'M':
                raise Unsupported('linear index of matrix')
            ex.oblige('bounds', st, t.land(t.le(0, idx[0]), t.lt(idx[0], t.length(v))), 'index inside the vector', e['l'])
            return o + ('i', idx[0]) if isinstance(o, LV) else t.at(v, idx[0])
        if v.sort == 'V':
            s = eshape(tys[0])
            i = idx[0] if s == 'V' else idx[1]
            return o + ('i', i) if isinstance(o, LV) else t.at(v, i)
        ex.oblige('bounds', st, t.land(t.le(0, idx[0]), t.lt(idx[0], t.rows(v)), t.le(0, idx[1]), t.lt(idx[1], t.cols(v))),
                  'indices inside the matrix', e['l'])
        return o + ('ij', idx[0], idx[1]) if isinstance(o, LV) else t.at2(v, idx[0], idx[1])
    # static constructors
    if name in ('Zero', 'Ones', 'Constant', 'Identity') and not e.get('m'):
        vs = [ex.term(a, fr, st) for a in args]
        s = eshape(e['t'])
        x = {'Zero': ZERO, 'Ones': ONE}.get(name)
        if name == 'Constant':
            x = vs.pop()
        if name == 'Identity':
            r, c = vs[0], vs[-1]
            return t.mlam(r, c, lambda i, j: t.iv(t.eq(i, j)))
        if s in 'VW':
            ex.oblige('size', st, t.le(0, vs[0]), 'vector size is not negative', e['l'])
            return t.lam(vs[0], lambda i: x)
        return t.mlam(vs[0], vs[1], lambda i, j: x)
    if fn.startswith('Eigen::SelfAdjointEigenSolver'):
        o = ex.val(args[0], fr, st)
        if not isinstance(o, Eig):
            raise Unsupported('eigen solver')
        n = t.rows(o.m)
        if name == 'eigenvalues':
            return t.setshape(t.app('eigval', o.m, sort='V'), n)
        mat = {'eigenvectors': 'eigvec', 'operatorSqrt': 'msqrt', 'operatorInverseSqrt': 'misqrt'}[name]
        return t.setshape(t.app(mat, o.m, sort='M'), n, n)
    if 'InnerIterator' in fn:
        it = ex.val(args[0], fr, st)
        if name in ('valueRef',):
            return it.cont + ('spval', it.pos)
        if name == 'value':
            return t.at(t.fld(ex.get(st, it.cont), 'va'), it.pos)
        if name == 'row' or name == 'index':
            return t.at(t.fld(ex.get(st, it.cont), 'ri'), it.pos)
        if name == 'col':
            return t.at(t.fld(ex.get(st, it.cont), 'ci'), it.pos)
        raise Unsupported(fn)
    if name == 'solve' and ('HouseholderQR' in fn or 'SolverBase' in fn):
        q = ex.val(args[0], fr, st)
        b = dense(ex.val(args[1], fr, st))
        return solve(q.m, b)
    if name in ('operator<<', 'operator,'):
        return comma(ex, e, fr, st, name)
    # methods on one object
    o = ex.ev(args[0], fr, st)
    lv = o if isinstance(o, LV) else None
    v = ex.get(st, o) if lv is not None else o
    if isinstance(v, T) and unwrap(v) is not None:
        v = unwrap(v)
    ty = tys[0]
    s = shp(v, ty)
    rest = [ex.val(a, fr, st) for a in args[1:]] if e.get('m') else []
    if name in ('array', 'matrix', 'eval', 'noalias', 'derived', 'real'):
        return o
    if name == 'finished':
        return v
    if name == 'size':
        return size_of(v)
    if name in ('rows', 'cols', 'outerSize', 'innerSize'):
        if is_sparse(v):
            f = dict(v.a[1])
            return f['rows'] if name in ('rows', 'innerSize') else f['cols']
        if v.sort == 'V':
            return (t.length(v) if name == 'rows' else ONE) if s != 'W' else (ONE if name == 'rows' else t.length(v))
        return t.rows(v) if name in ('rows', 'innerSize') else t.cols(v)
    if name == 'nonZeros' and is_sparse(v):
        return t.fld(v, 'nnz')
    if name == 'sum':
        if v.sort == 'V':
            return t.SUM(t.length(v), lambda i: t.at(v, i))
        return t.SUM(t.rows(v), lambda i: t.SUM(t.cols(v), lambda j: t.at2(v, i, j)))
    if name == 'prod' and v.sort == 'V':
        return t.PROD(t.length(v), lambda i: t.at(v, i))
    if name == 'dot':
        b = rest[0]
        ex.oblige('size', st, t.eq(t.length(v), t.length(b)), 'dot product of equal sizes', e['l'])
        return t.SUM(t.length(v), lambda i: t.mul(t.at(v, i), t.at(b, i)))
    if name == 'squaredNorm':
        return sqn(v)
    if name == 'norm':
        return t.sqrt(sqn(v))
    if name in ('transpose', 'adjoint'):
        if is_sparse(v):
            f = dict(v.a[1])
            return t.rec('%sparse', dict(f, rows=f['cols'], cols=f['rows'], ri=f['ci'], ci=f['ri']))
        if v.sort in 'VRI':
            return v
        return transpose(v)
    if name == 'inverse':
        if ty.get('ek') == 'array':
            return emap(lambda x: t.powi(x, -1), v)
        ex.oblige('size', st, t.eq(t.rows(v), t.cols(v)), 'inverted matrix is square', e['l'])
        return inverse(v)
    if name == 'determinant':
        return det(v)
    if name in ('colPivHouseholderQr', 'fullPivLu', 'partialPivLu', 'llt', 'ldlt', 'householderQr'):
        return QR(v)
    if name == 'asDiagonal':
        return Diag(v)
    if name in ('exp', 'log', 'sqrt', 'abs', 'cwiseAbs', 'cwiseSqrt'):
        return math(name.replace('cwiseAbs', 'abs').replace('cwiseSqrt', 'sqrt'), [v])
    if name == 'pow':
        return emap(power, v, rest[0])
    if name == 'square':
        return emap(lambda x: t.powi(x, 2), v)
    if name == 'cube':
        return emap(lambda x: t.powi(x, 3), v)
    if name == 'cwiseProduct':
        return emap(t.mul, v, rest[0])
    if name == 'cwiseQuotient':
        return emap(t.div, v, rest[0])
    if name == 'cwiseInverse':
        return emap(lambda x: t.powi(x, -1), v)
    if name == 'cast':
        return v
    if name == 'resize' or name == 'conservativeResize':
        if v.sort == 'V':
            n = rest[0]
            nv = t.setshape(t.fresh('uninitV', 'V'), n)
            if prover_eq(ex, st, n, t.length(v)):
                return v
            if name == 'conservativeResize':
                nv = t.lam(n, lambda i: t.at(v, i))
        else:
            if prover_eq(ex, st, rest[0], t.rows(v)) and prover_eq(ex, st, rest[1], t.cols(v)):
                return v
            nv = t.setshape(t.fresh('uninitM', 'M'), rest[0], rest[1])
        ex.put(st, lv, nv)
        return lv
    if name in ('setZero', 'setOnes', 'setConstant'):
        x = ZERO if name == 'setZero' else ONE if name == 'setOnes' else rest[0]
        ex.put(st, lv, t.lam(t.length(v), lambda i: x) if v.sort == 'V' else
               t.mlam(t.rows(v), t.cols(v), lambda i, j: x))
        return lv
    if name in ('head', 'tail', 'segment'):
        n = t.length(v)
        if name == 'head':
            a, m = ZERO, rest[0]
        elif name == 'tail':
            a, m = t.sub(n, rest[0]), rest[0]
        else:
            a, m = rest
        ex.oblige('bounds', st, t.land(t.le(0, a), t.le(0, m), t.le(t.add(a, m), n)), 'segment inside the vector', e['l'])
        if lv is not None:
            return lv + ('seg', a, m)
        return t.lam(m, lambda i: t.at(v, t.add(i, a)))
    if name in ('topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'block', 'topRows', 'bottomRows',
                'leftCols', 'rightCols', 'middleRows', 'middleCols'):
        R, C = t.rows(v), t.cols(v)
        if name == 'block':
            r0, c0, nr, nc = rest
        elif name == 'topRows':
            r0, c0, nr, nc = ZERO, ZERO, rest[0], C
        elif name == 'bottomRows':
            r0, c0, nr, nc = t.sub(R, rest[0]), ZERO, rest[0], C
        elif name == 'leftCols':
            r0, c0, nr, nc = ZERO, ZERO, R, rest[0]
        elif name == 'rightCols':
            r0, c0, nr, nc = ZERO, t.sub(C, rest[0]), R, rest[0]
        elif name == 'middleRows':
            r0, c0, nr, nc = rest[0], ZERO, rest[1], C
        elif name == 'middleCols':
            r0, c0, nr, nc = ZERO, rest[0], R, rest[1]
        else:
            nr, nc = rest
            r0 = ZERO if name.startswith('top') else t.sub(R, nr)
            c0 = ZERO if 'Left' in name else t.sub(C, nc)
        ex.oblige('bounds', st, t.land(t.le(0, r0), t.le(0, nr), t.le(t.add(r0, nr), R),
                                       t.le(0, c0), t.le(0, nc), t.le(t.add(c0, nc), C)), 'block inside the matrix', e['l'])
        if lv is not None:
            return lv + ('blk', r0, c0, nr, nc)
        return t.mlam(nr, nc, lambda i, j: t.at2(v, t.add(i, r0), t.add(j, c0)))
    if name in ('row', 'col'):
        i = rest[0]
        ex.oblige('bounds', st, t.land(t.le(0, i), t.lt(i, t.rows(v) if name == 'row' else t.cols(v))),
                  name + ' exists', e['l'])
        if lv is not None:
            return lv + (name, i)
        return ex.step(v, (name, i))
    if name == 'diagonal':
        if lv is not None:
            return lv + ('diag',)
        return ex.step(v, ('diag',))
    if name == 'trace':
        return t.SUM(t.rows(v), lambda i: t.at2(v, i, i))
    if name == 'selfadjointView':
        low = 'Lower' in e['fn'] or e['fn'].find('<1') >= 0 or '1U' in e['fn']
        up = 'Upper' in e['fn'] or '<2' in e['fn']
        return sav(v, not up)
    if name in ('minCoeff', 'maxCoeff') and len(args) == 1:
        v = ex.term(args[0], fr, st)
        if isinstance(v, T) and v.sort == 'V':
            n = t.length(v)
            ex.oblige('bounds', st, t.lt(0, n), 'vector is not empty', e['l'])
            p = t.app('argmin' if name == 'minCoeff' else 'argmax', v, sort='I')
            m = t.at(v, p)
            le = (lambda k: t.le(m, t.at(v, k))) if name == 'minCoeff' else (lambda k: t.le(t.at(v, k), m))
            ex.facts.append(t.implies(t.lt(0, n), t.land(t.le(0, p), t.lt(p, n))))
            ex.facts.append(t.forall(n, le))
            return m
    if name in ('minCoeff', 'maxCoeff', 'mean', 'all', 'any', 'allFinite', 'isApprox'):
        raise Unsupported('eigen ' + name)
    if name in ('begin', 'data'):
        raise Unsupported('eigen ' + name)
    raise Unsupported('eigen ' + fn)


def prover_eq(ex, st, a, b):
    return a is b or ex.decide(st, t.eq(a, b)) is TRUE


def sav(m, lower):
    return t.mlam(t.rows(m), t.cols(m), lambda i, j: t.ite(t.le(j, i) if lower else t.le(i, j), t.at2(m, i, j), t.at2(m, j, i)))


def sqn(v):
    if v.sort == 'V':
        return t.SUM(t.length(v), lambda i: t.mul(t.at(v, i), t.at(v, i)))
    return t.SUM(t.rows(v), lambda i: t.SUM(t.cols(v), lambda j: t.powi(t.at2(v, i, j), 2)))


def sparse_entry(x, i, j):
    f = dict(x.a[1])
    return t.SUM(f['nnz'], lambda q: t.mul(t.iv(t.eq(t.at(f['ri'], q), i)), t.iv(t.eq(t.at(f['ci'], q), j)),
                                           t.at(f['va'], q)))


def solve(m, b):
    # the solution of a nonsingular square system
    w = cxx.inverse(m)
    if b.sort == 'V':
        return t.lam(t.cols(m), lambda i: t.SUM(t.rows(m), lambda k: t.mul(t.at2(w, i, k), t.at(b, k))))
    return t.mlam(t.cols(m), t.cols(b), lambda i, j: t.SUM(t.rows(m), lambda k: t.mul(t.at2(w, i, k), t.at2(b, k, j))))


def diag_dense(v):
    return cxx.diagm(v.v) if isinstance(v, Diag) else v


def eop(ex, st, op, a, b, ta, tb, e):
    sa, sb = shp(a, ta), shp(b, tb)
    arr = ta.get('ek') == 'array' or tb.get('ek') == 'array'
    if op in '+-':
        f = t.add if op == '+' else t.sub
        a, b = diag_dense(a), diag_dense(b)
        if 'P' in (sa, sb):
            a, b = dense(a), dense(b)
        if isinstance(a, T) and isinstance(b, T) and a.sort == b.sort and a.sort == 'V':
            ex.oblige('size', st, t.eq(t.length(a), t.length(b)), 'operands have the same size', e['l'])
        if isinstance(a, T) and isinstance(b, T) and a.sort == b.sort and a.sort == 'M':
            ex.oblige('size', st, t.land(t.eq(t.rows(a), t.rows(b)), t.eq(t.cols(a), t.cols(b))),
                      'operands have the same size', e['l'])
        if isinstance(a, T) and isinstance(b, T) and {a.sort, b.sort} == {'V', 'M'} and 'W' not in (sa, sb):
            m, v = (a, b) if a.sort == 'M' else (b, a)      # a one-column matrix and a vector
            ex.oblige('size', st, t.land(t.eq(t.cols(m), 1), t.eq(t.rows(m), t.length(v))), 'operands have the same size', e['l'])
            col = lambda x: (lambda i: t.at2(x, i, 0)) if x.sort == 'M' else (lambda i: t.at(x, i))
            ca, cb = col(a), col(b)
            return t.lam(t.length(v), lambda i: f(ca(i), cb(i)))
        return emap(f, a, b)
    if op == '/':
        if isinstance(a, T) and isinstance(b, T):
            return emap(t.div, dense(a), dense(b))
    if op == '*':
        if arr:
            return emap(t.mul, a, b)
        if sa == 'S' and not ta.get('eigen'):
            if is_sparse(b):
                f = dict(b.a[1])
                return t.rec('%sparse', dict(f, va=emap(t.mul, a, f['va'])))
            if isinstance(b, Diag):
                return Diag(emap(t.mul, a, b.v))
            return emap(t.mul, a, b)
        if sb == 'S' and not tb.get('eigen'):
            if is_sparse(a):
                f = dict(a.a[1])
                return t.rec('%sparse', dict(f, va=emap(t.mul, f['va'], b)))
            if isinstance(a, Diag):
                return Diag(emap(t.mul, a.v, b))
            return emap(t.mul, a, b)
        if isinstance(a, Diag) or isinstance(b, Diag):
            if isinstance(a, Diag) and isinstance(b, Diag):
                return Diag(emap(t.mul, a.v, b.v))
            if isinstance(b, Diag):
                a = dense(a)
                if sa == 'W':
                    return emap(t.mul, a, b.v)
                return t.mlam(t.rows(a), t.length(b.v), lambda i, j: t.mul(t.at2(a, i, j), t.at(b.v, j)))
            b = dense(b)
            if b.sort == 'V':
                return emap(t.mul, a.v, b)
            return t.mlam(t.length(a.v), t.cols(b), lambda i, j: t.mul(t.at(a.v, i), t.at2(b, i, j)))
        a, b = dense(a), dense(b)
        # products by shape
        A = 'S' if a.sort in 'RI' else sa
        B = 'S' if b.sort in 'RI' else sb
        ob = lambda x, y: ex.oblige('size', st, t.eq(x, y), 'inner dimensions agree', e['l'])
        if A == 'S' or B == 'S':
            return emap(t.mul, a, b)
        if A == 'W' and B == 'V':
            ob(t.length(a), t.length(b))
            return t.SUM(t.length(a), lambda i: t.mul(t.at(a, i), t.at(b, i)))
        if A == 'V' and B == 'W':
            return t.mlam(t.length(a), t.length(b), lambda i, j: t.mul(t.at(a, i), t.at(b, j)))
        if A == 'W' and b.sort == 'M':
            ob(t.length(a), t.rows(b))
            return vecmat(a, b)
        if a.sort == 'M' and B == 'V':
            ob(t.cols(a), t.length(b))
            return matmul(a, b)
        if a.sort == 'M' and b.sort == 'M':
            ob(t.cols(a), t.rows(b))
            return matmul(a, b)
        if A == 'V' and b.sort == 'M':     # n x 1 times 1 x m
            return t.mlam(t.length(a), t.cols(b), lambda i, j: t.mul(t.at(a, i), t.at2(b, 0, j)))
    raise Unsupported('eigen operator %s on %s %s' % (op, sa, sb))


def comma(ex, e, fr, st, name):
    args = e['args']
    o = ex.ev(args[0], fr, st)
    v = ex.val(args[1], fr, st)
    if isinstance(o, T) and isinstance(unwrap(o), Comma):
        o = unwrap(o)
    if isinstance(o, Comma):
        lv, n = o.lv, o.n
    else:
        lv, n = o, ZERO
    cur = ex.get(st, lv)
    v = diag_dense(v)
    if cur.sort == 'V':
        if v.sort == 'V':
            m = t.length(v)
            ex.put(st, lv + ('seg', n, m), v)
        else:
            m = ONE
            ex.put(st, lv + ('i', n), v)
        return Comma(lv, t.add(n, m))
    if cur.sort == 'M' and v.sort == 'M':
        m = t.rows(v)
        ex.oblige('size', st, t.eq(t.cols(v), t.cols(cur)), 'stacked blocks have the full width', e['l'])
        ex.put(st, lv + ('blk', n, ZERO, m, t.cols(v)), v)
        return Comma(lv, t.add(n, m))
    raise Unsupported('comma initializer')


EXT = {}
