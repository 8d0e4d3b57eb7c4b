"""Discharging of obligations over terms: normal forms first, then z3, then cvc5."""
import sys
import os
import time
from fractions import Fraction as Fr
import z3
from . import terms as t
from .terms import T, TRUE, FALSE, ZERO, ONE, tm


class Ctx:
    """assumptions: a tuple of boolean terms"""

    def __init__(self, facts=(), rewrites=()):
        out = []
        for f in facts:
            out.extend(f.a if f.op == 'and' else (f,))
        self.facts = tuple(dict.fromkeys(x for x in out if x is not TRUE))
        self.rw = tuple(rewrites)

    def plus(self, *fs):
        return Ctx(self.facts + tuple(fs), self.rw)

    def __repr__(self):
        return 'Ctx' + repr(self.facts)


STAT = {'algebra': 0, 'z3': 0, 'cvc5': 0, 'time': 0.0}


# ------------------------------------------------------------------ z3 translation
_fo = {}


def fo(x):
    """mentions first-order symbols (functions named @..., which the solver sees as functions of all their arguments)"""
    r = _fo.get(x)
    if r is None:
        r = x is t.ALL or x.op == 'app' and x.a[0][:1] == '@' or any(fo(y) for y in sub_terms(x))
        _fo[x] = r
    return r


NATIVE = {'items'}


def triggers(b, v):
    """terms that say something about v, each of them enough to use the quantified fact"""
    out, seen = {}, set()

    def plain(x):
        return z3.is_app(x) and (x.decl().kind() == z3.Z3_OP_UNINTERPRETED or z3.is_int_value(x) or
                                 x.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB) and not has(x)) and all(plain(y) for y in x.children())

    def has(x):
        return x.eq(v) or any(has(y) for y in x.children())

    def go(x):
        if x.get_id() in seen:
            return
        seen.add(x.get_id())
        if not z3.is_app(x):
            if z3.is_quantifier(x):
                go(x.body())
            return
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(y.eq(v) for y in x.children()) and plain(x):
            out[x.get_id()] = x
        for y in x.children():
            go(y)
    go(b)
    return list(out.values())


THEORY = {}      # '@name' -> (variable sorts, function from the variables to a formula that holds for all of them, pattern)


def theory(name, sorts, fn, pat=None):
    THEORY.setdefault(name, []).append((sorts, fn, pat or (lambda *x: t.app(name, *x, sort='B'))))


class Z:
    def __init__(self, fol=False):
        self.c = {}
        self.funs = {}
        self.side = []
        self.fol = fol
        self.known = set()
        self.todo = []

    # ---- first-order mode: vectors and objects are values of one sort, reading them is a function
    def define(self, x, env):
        """an opaque value with defining axioms; a function of the bound variables it mentions"""
        deps = [b for b in env if b in x.fv]
        c = self.atom(x, env)
        key = x
        e2 = {}
        qs = []
        if deps:
            ph = {b: t.var('@%d' % i, b.sort) for i, b in enumerate(deps)}
            key = t.subst(x, ph)
            for b in deps:
                v = z3.Const('d%d_%d' % (ph[b].id, key.id), self.sort(b.sort))
                e2[ph[b]] = v
                qs.append(v)
        if key in self.known:
            return c
        self.known.add(key)
        me = self.funs[key](*qs) if deps else c
        self.todo.append((key, e2, qs, me))
        return c

    def axiomatise(self, x, env, qs, me):
        def say(f, *more):
            b = qs + list(more)
            self.side.append(z3.ForAll(b, f) if b else f)
        L = z3.Function('len', U, z3.IntSort())
        if x.op == 'var' and x.sort == 'V':
            if x in t._shape:
                say(L(me) == self.tr(t._shape[x], env))
            else:
                say(L(me) >= 0)
        elif x.op == 'lam':
            j = z3.Int('j%d' % x.id)
            e2 = dict(env)
            e2[x.a[1]] = j
            n = self.tr(x.a[0], env)
            say(L(me) == z3.If(n < 0, 0, n))
            s = x.a[2].sort
            el = self.tr(x.a[2], e2)
            if s == 'R' and el.sort() == z3.IntSort():
                el = z3.ToReal(el)
            rd = self.rd(s)(me, j)
            b = z3.Implies(z3.And(j >= 0, j < n), rd == el)
            self.side.append(z3.ForAll(qs + [j], b, patterns=[rd]))
        elif x.op == 'filter':
            i, j = z3.Int('i%d' % x.id), z3.Int('j%d' % x.id)
            p = dict(x.a[2].a[1])
            e2 = dict(env)
            e2[x.a[1]] = i
            n, cond, el = self.tr(x.a[0], env), self.tr(p['c'], e2), self.tr(p['e'], e2)
            src = z3.Function('src%d' % x.id, *[q.sort() for q in qs], z3.IntSort(), z3.IntSort())
            dst = z3.Function('dst%d' % x.id, *[q.sort() for q in qs], z3.IntSort(), z3.IntSort())
            s = t.elem_sort(x)
            say(L(me) >= 0)
            say(L(me) <= z3.If(n < 0, 0, n))
            sj = src(*qs, j)
            at_src = [z3.substitute(y, (i, sj)) for y in (cond, el)]
            rd = self.rd(s)(me, j)
            self.side.append(z3.ForAll(qs + [j], z3.Implies(z3.And(j >= 0, j < L(me)), z3.And(sj >= 0, sj < n, at_src[0], rd == at_src[1], dst(*qs, sj) == j)), patterns=[rd]))
            di = dst(*qs, i)
            say(z3.Implies(z3.And(i >= 0, i < n, cond), z3.And(di >= 0, di < L(me), self.rd(s)(me, di) == el, src(*qs, di) == i)), i)
        elif x.op == 'first':
            i = z3.Int('i%d' % x.id)
            n = self.tr(x.a[0], env)
            e2 = dict(env)
            e2[x.a[1]] = i
            body = self.tr(x.a[2], e2)
            say(z3.And(me >= 0, z3.Implies(n >= 0, me <= n)))
            say(z3.Implies(me < n, z3.substitute(body, (i, me))))
            say(z3.Implies(z3.And(i >= 0, i < me, i < n), z3.Not(body)), i)

    def background(self, name):
        """the properties every application of the symbol has"""
        if name in self.known:
            return
        self.known.add(name)
        for sorts, f, pat in THEORY.get(name, []):
            vs = [t.var('%%%s%d' % (name, i), s) for i, s in enumerate(sorts)]
            for v in vs:
                t._shape.pop(v, None)
                if v.sort == 'V':
                    t._elem_sort[v] = 'I'
            zs = [z3.Const('t%d' % v.id, self.sort(v.sort)) for v in vs]
            env = dict(zip(vs, zs))
            pt = pat(*vs)
            ps = [z3.MultiPattern(*[self.tr(y, env) for y in pt]) if isinstance(pt, tuple) else self.tr(pt, env)]
            self.side.append(z3.ForAll(zs, self.tr(f(*vs), env), patterns=ps))

    def rd(self, s):
        return z3.Function('rd' + s, U, z3.IntSort(), self.sort(s))

    def tr_fo(self, x, env):
        op, a = x.op, x.a
        if op == 'poly':
            r = None
            for m, c in a:
                q = z3.RealVal(str(c)) if x.sort == 'R' else z3.IntVal(int(c))
                conds = []
                for at_, e in m:
                    if at_.op == 'iv':
                        conds.append(self.tr(at_.a[0], env))
                        continue
                    y = self.num(at_, env, x.sort)
                    for _ in range(abs(e)):
                        q = q * y if e > 0 else q / y
                if conds:
                    q = z3.If(z3.And(*conds), q, z3.RealVal(0) if x.sort == 'R' else z3.IntVal(0))
                r = q if r is None else r + q
            return z3.IntVal(0) if r is None else r
        if op == 'at':
            return self.rd(x.sort)(self.tr(a[0], env), self.tr(a[1], env))
        if op == 'app' and a[0] == 'len':
            return z3.Function('len', U, z3.IntSort())(self.tr(a[1], env))
        if op == 'fld':
            return z3.Function('fld_%s_%s' % (a[1], x.sort), U, self.sort(x.sort))(self.tr(a[0], env))
        if op == 'app' and (a[0][:1] == '@' or a[0] in NATIVE):
            self.background(a[0])
            return self.fn(a[0], list(a[1:]), x.sort, env)
        if op in ('lam', 'filter', 'first') or op == 'var' and x.sort == 'V':
            return self.define(x, env)
        return None

    def sort(self, s):
        return SORTS.get(s, U)

    def atom(self, x, env):
        """opaque atom, parameterised by the z3-bound variables it mentions"""
        deps = [b for b in env if b in x.fv]
        if not deps:
            k = x
            if k not in self.c:
                self.c[k] = z3.Const('c%d' % x.id, self.sort(x.sort))
                self.axioms(x, self.c[k])
            return self.c[k]
        body = x
        ph = {b: t.var('@%d' % i, b.sort) for i, b in enumerate(deps)}
        key = t.subst(x, ph)
        if key not in self.funs:
            self.funs[key] = z3.Function('f%d' % key.id, *[self.sort(b.sort) for b in deps], self.sort(x.sort))
        return self.funs[key](*[env[b] for b in deps])

    def axioms(self, x, c):
        if x.op == 'app' and x.a[0] == 'exp':
            self.side.append(c > 0)
        if x.op == 'app' and x.a[0] == 'sqrt':
            self.side.append(c >= 0)
            self.side.append(z3.Implies(self.tr(x.a[1], {}) >= 0, c * c == self.tr(x.a[1], {})))
        if x.op == 'app' and x.a[0] in ('len', 'rows', 'cols', 'pow2'):
            self.side.append(c >= (1 if x.a[0] == 'pow2' else 0))
        if x.op == 'app' and x.a[0] in ('cdf', 'pdf'):
            self.side.append(c > 0)
        if x.op == 'app' and x.a[0] == 'trunc':
            w = self.tr(x.a[1], {})
            self.side.append(z3.If(w >= 0, z3.And(c >= 0, z3.ToReal(c) <= w, w < z3.ToReal(c) + 1), z3.And(c <= 0, z3.ToReal(c) >= w, w > z3.ToReal(c) - 1)))
            for y in t.denominators(x.a[1]):
                b, q = self.num(y, {}, 'R'), self.num(t.mul(y, x.a[1]), {}, 'R')
                self.side.append(z3.Implies(b > 0, (w >= 0) == (q >= 0)))
                self.side.append(z3.Implies(b < 0, (w >= 0) == (q <= 0)))
        if x.op == 'first':
            n = self.tr(x.a[0], {})
            self.side.append(z3.And(c >= 0, z3.Implies(n >= 0, c <= n)))
            self.side.append(z3.Implies(c < n, self.tr(t.subst(x.a[2], {x.a[1]: x}), {})))
            self.side.append(self.tr(t.forall_(x, x.a[1], t.lnot(x.a[2])), {}))

    def fn(self, name, args, ret, env):
        sig = (name, tuple(a.sort for a in args), ret)
        if sig not in self.funs:
            self.funs[sig] = z3.Function('%s_%d' % (name.replace('@', 'f.'), len(self.funs)), *[self.sort(a.sort) for a in args],
                                         self.sort(ret))
        return self.funs[sig](*[self.tr(a, env) for a in args])

    def tr(self, x, env):
        op, a = x.op, x.a
        if op in ('var', 'bv') and x in env:
            return env[x]
        if self.fol:
            r = self.tr_fo(x, env)
            if r is not None:
                return r
        if op == 'poly':
            r = None
            for m, c in a:
                q = z3.RealVal(str(c)) if x.sort == 'R' else z3.IntVal(int(c))
                for at_, e in m:
                    y = self.num(at_, env, x.sort)
                    if e > 0:
                        for _ in range(e):
                            q = q * y
                    else:
                        for _ in range(-e):
                            q = q / y
                r = q if r is None else r + q
            if r is None:
                r = z3.IntVal(0)
            return r
        if op == 'pol':
            return self.tr(a[0], env)
        if op == 'iv':
            return z3.If(self.tr(a[0], env), z3.IntVal(1), z3.IntVal(0))
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'not':
            return z3.Not(self.tr(a[0], env))
        if op == 'and':
            return z3.And(*[self.tr(y, env) for y in a])
        if op == 'or':
            return z3.Or(*[self.tr(y, env) for y in a])
        if op == 'lt0':
            return self.tr(a[0], env) < 0
        if op == 'eq0':
            return self.tr(a[0], env) == 0
        if op == 'eqo':
            if a[0].op == 'str' and a[1].op == 'str':
                return z3.BoolVal(a[0] is a[1])
            return self.tr(a[0], env) == self.tr(a[1], env)
        if op == 'ite':
            return z3.If(self.tr(a[0], env), self.tr(a[1], env), self.tr(a[2], env))
        if op == 'str':
            return z3.StringVal(a[0])
        if op == 'at' and a[0].op == 'app' and a[0].a[0] not in ('call',) and all(isinstance(y, T) and y.sort in 'IRB' for y in a[0].a[1:]):
            return self.fn('at ' + a[0].a[0], list(a[0].a[1:]) + [a[1]], x.sort, env)
        if op == 'at':
            if a[0].op == 'var' or not (a[0].fv & set(env)):
                return self.fn('at%d' % a[0].id, [a[1]], x.sort, env)
            return self.atom(x, env)
        if op == 'at2' and not (a[0].fv & set(env)):
            return self.fn('at%d' % a[0].id, [a[1], a[2]], x.sort, env)
        if op == 'app' and len(a) > 1 and all(isinstance(y, T) and y.sort in 'IRB' for y in a[1:]):
            r = self.fn(a[0], list(a[1:]), x.sort, env)
            if x not in self.c:
                self.c[x] = r
                if not (x.fv & set(env)):
                    self.axioms(x, r)
                if a[0] in ('exp', 'cdf', 'pdf') and x.fv & set(env):
                    pass
            return r
        if op == 'forall':
            b = a[1]
            v = z3.Int('q%d_%d' % (b.a[0], x.id))
            e2 = dict(env)
            e2[b] = v
            if a[0] is t.ALL:
                b = self.tr(a[2], e2)
                return z3.ForAll([v], b, patterns=triggers(b, v))
            n = self.tr(a[0], env)
            return z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < n), self.tr(a[2], e2)))
        return self.atom(x, env)

    def num(self, x, env, want):
        r = self.tr(x, env)
        if want == 'R' and r.sort() == z3.IntSort():
            r = z3.ToReal(r)
        return r


U = z3.DeclareSort('Obj')
SORTS = {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort(), 'S': z3.StringSort()}


def opaque_under(b):
    """the quantified body mentions functions z3 sees as opaque"""
    seen = set()

    def go(x):
        if x in seen:
            return False
        seen.add(x)
        if x.op in ('first', 'ms', 'prod', 'filter') or (x.op == 'fld' and any(v.op == 'bv' for v in x.fv)) or (x.op == 'at' and x.a[0].op not in ('var', 'app', 'fld')):
            return True
        if x.op == 'app' and x.fv and any(isinstance(y, T) and y.sort not in 'IRB' for y in x.a[1:]):
            return True
        return any(go(y) for y in sub_terms(x))
    return go(b)


def instances(ctx, goal):
    """quantified facts about opaque functions, instantiated at the index variables in sight"""
    fs = [f for f in ctx.facts if f.op == 'forall' and opaque_under(f.a[2])]
    if not fs:
        return []
    vs = sorted({v for f in list(ctx.facts) + [goal] for v in f.fv if v.op == 'var' and v.sort == 'I' and v.a[0].startswith('k!')},
                key=lambda v: v.id)[-5:]
    places = {}     # vector -> positions it is read at

    def reads(x, seen):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'at' and not any(v.op == 'bv' for v in x.fv) and (x.a[1].op == 'at' or x.a[1].op == 'poly' and len(x.a[1].a) > 1):
            places.setdefault(x.a[0], {})[x.a[1]] = 1
        for y in sub_terms(x):
            reads(y, seen)
    seen = set()
    for f in list(ctx.facts) + [goal]:
        reads(f, seen)

    def matched(b, v):
        """positions in sight at which a vector the body reads at v is read"""
        got, seen = {}, set()

        def go(x):
            if x in seen or v not in x.fv:
                return
            seen.add(x)
            if x.op == 'at' and x.a[1] is v:
                got.update(places.get(x.a[0], {}))
            for y in sub_terms(x):
                go(y)
        if places:
            go(b)
        return [e for e in got if e not in vs][:4]
    out = []

    def go(n, f, guards, depth):
        """the body of a quantified fact at every index variable in sight, nested quantifiers too"""
        for v in vs + matched(f.a[2], f.a[1]):
            gs = guards + [t.le(0, v), t.lt(v, n)]
            b = t.subst(f.a[2], {f.a[1]: v})
            for c in (b.a if b.op == 'and' else (b,)):
                if depth and c.op == 'forall':
                    go(c.a[0], c, gs, depth - 1)
                elif len(out) < 200:
                    out.append(t.implies(t.land(*gs), c))
    for f in fs:
        go(f.a[0], f, [], 1)
    return out


def load(s, z, ctx, goal, inst=True):
    for f in ctx.facts:
        s.add(z.tr(f, {}))
    if inst and not z.fol:
        for f in instances(ctx, goal):
            s.add(z.tr(f, {}))
    s.add(z3.Not(z.tr(goal, {})))
    while z.todo:
        z.axiomatise(*z.todo.pop())
    for x in z.side:
        s.add(x)


def smt(ctx, goal, timeout=2000, want_model=False):
    """'proved' | 'refuted' | 'unknown' for ctx |= goal"""
    z = Z(fo(goal) or any(fo(f) for f in ctx.facts))
    s = z3.Solver()
    s.set('timeout', timeout)
    if z.fol:
        s.set('smt.mbqi', False)
        want_model = False
    t0 = time.time()
    try:
        load(s, z, ctx, goal)
        r = s.check()
    except z3.Z3Exception as e:
        STAT['time'] += time.time() - t0
        STAT['z3err'] = STAT.get('z3err', 0) + 1
        STAT['z3last'] = str(e)
        return ('unknown', None)
    STAT['time'] += time.time() - t0
    if r == z3.unsat:
        STAT['z3'] += 1
        return ('proved', None)
    if r == z3.sat:
        m = None
        if want_model:
            md = s.model()
            m = {}
            for k, c in z.c.items():
                try:
                    m[k] = md.eval(c, model_completion=True)
                except Exception:
                    pass
        return ('refuted', m)
    return ('unknown', None)


def cvc5_check(ctx, goal, timeout=3000):
    """second opinion through SMT-LIB"""
    import subprocess
    z = Z(fo(goal) or any(fo(f) for f in ctx.facts))
    s = z3.Solver()
    try:
        load(s, z, ctx, goal, False)
        txt = '(set-logic ALL)\n' + s.to_smt2()
    except z3.Z3Exception:
        return 'unknown'
    t0 = time.time()
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--lang=smt2'], input=txt, capture_output=True, text=True,
                           timeout=timeout / 1000 + 5)
        out = p.stdout.strip().splitlines()
    except Exception:
        out = []
    STAT['time'] += time.time() - t0
    if out and out[0] == 'unsat':
        STAT['cvc5'] += 1
        return 'proved'
    if out and out[0] == 'sat':
        return 'refuted'
    return 'unknown'


def vecs(x, seen=None):
    return frozenset(v for v in x.fv if v.op == 'var' and v.sort in 'VMO')


def quantified(f):
    return f.op == 'forall' or f.op in ('not', 'and', 'or') and any(quantified(y) for y in sub_terms(f))


def plain(ctx):
    """without the facts about sets"""
    return Ctx([f for f in ctx.facts if not fo(f)], ctx.rw) if any(fo(f) for f in ctx.facts) else ctx


def relevant(ctx, c):
    """without the quantified facts about vectors the condition does not mention, directly or through other quantified facts"""
    qs = [f for f in ctx.facts if quantified(f)]
    if not qs or any(fo(f) for f in ctx.facts):
        return ctx
    have = set(vecs(c))
    for f in ctx.facts:
        if not quantified(f):
            have |= vecs(f)
    if not have:
        keep = set()
    else:
        keep = {f for f in qs if vecs(f) & have}
    if len(keep) == len(qs):
        return ctx
    return Ctx(tuple(f for f in ctx.facts if not quantified(f) or f in keep), ctx.rw)


_dec = {}


def decide(ctx, c, timeout=400):
    """TRUE / FALSE / None for a condition under ctx"""
    if c is TRUE or c is FALSE:
        return c
    k = (ctx.facts, c)
    if k in _dec:
        return _dec[k]
    r = None
    if c in ctx.facts:
        r = TRUE
    elif t.lnot(c) in ctx.facts:
        r = FALSE
    elif fo(c):
        pass
    else:
        cx = relevant(plain(ctx), c)
        if smt(cx, c, timeout)[0] == 'proved':
            r = TRUE
        elif smt(cx, t.lnot(c), timeout)[0] == 'proved':
            r = FALSE
    _dec[k] = r
    return r


# ------------------------------------------------------------------ simplification under a context
def simp(x, ctx, memo=None):
    """rewrite with facts: decide conditions, also below binders (with their ranges as facts)"""
    if memo is None:
        memo = {}
    if x in memo:
        return memo[x]
    r = _simp(x, ctx, memo)
    memo[x] = r
    return r


def has_cond(x, seen=None):
    seen = set() if seen is None else seen
    if x in seen:
        return False
    seen.add(x)
    if x.op == 'app' and x.a[0] == 'det':
        return True
    if x.op in ('iv', 'ite', 'lt0', 'eq0', 'eqo', 'first', 'filter', 'forall'):
        return True
    return any(has_cond(y, seen) for y in sub_terms(x))


def sub_terms(x):
    def walk(a):
        for y in a:
            if isinstance(y, T):
                yield y
            elif isinstance(y, tuple):
                yield from walk(y)
    return walk(x.a)


def _simp(x, ctx, memo):
    op, a = x.op, x.a
    if op in ('var', 'bv', 'str', 'true', 'false', 'obj'):
        return x
    if not has_cond(x):
        return x
    S = lambda y: simp(y, ctx, memo)
    if op == 'forall':
        if x in ctx.facts:
            return TRUE
        if t.lnot(x) in ctx.facts:
            return FALSE
    if op in ('lt0', 'eq0', 'eqo'):
        y = t.lt0(S(a[0])) if op == 'lt0' else t.eq0(S(a[0])) if op == 'eq0' else t.eq(S(a[0]), S(a[1]))
        d = decide(ctx, y)
        return d if d is not None else y
    if op == 'not':
        return t.lnot(S(a[0]))
    if op == 'and':
        return t.land(*[S(y) for y in a])
    if op == 'or':
        return t.lor(*[S(y) for y in a])
    if op == 'iv':
        return t.iv(S(a[0]))
    if op == 'ite':
        c = S(a[0])
        if c is TRUE:
            return S(a[1])
        if c is FALSE:
            return S(a[2])
        return t.ite(c, simp(a[1], ctx.plus(c)), simp(a[2], ctx.plus(t.lnot(c))))
    if op == 'poly':
        r = []
        for m, c in a:
            # other brackets of the monomial are facts while its remaining factors are simplified
            ivs = [at_ for at_, e in m if at_.op == 'iv']
            p = [t.num(c)]
            rest = []
            cx = ctx
            dead = False
            for at_ in ivs:
                q = simp(at_, cx)
                if q is ZERO:
                    dead = True
                    break
                p.append(q)
                if q is not ONE:
                    cx = cx.plus(at_.a[0])
            if dead:
                continue
            for at_, e in m:
                if at_.op != 'iv':
                    p.append(t.powi(simp(at_, cx, memo if cx is ctx else None), e))
            r.append(t.mul(*p))
        return t.add(*r)
    if op == 'ms':
        rs, bs, b = a
        fr = {y: t.fresh('m', 'I') for y in bs}
        cx = ctx
        rr = []
        for y, r0 in zip(bs, rs):
            r1 = simp(t.subst(r0, fr), cx)
            rr.append((fr[y], r1))
            cx = cx.plus(t.le(0, fr[y]), t.lt(fr[y], r1))
        body = simp(t.subst(b, fr), cx)
        for f, r1 in reversed(rr):
            body = t.sum_(r1, f, body)
        return body
    if op == 'pol':
        return simp(a[0], ctx, memo)
    if op == 'app':
        if a[0] == 'det' and decide(ctx, t.eq(t.rows(a[1]), 0)) is TRUE:
            return ONE
        return t.rebuild_app(x, [S(y) for y in a[1:]])
    if op == 'at':
        return t.at(S(a[0]), S(a[1]))
    if op == 'at2':
        return t.at2(S(a[0]), S(a[1]), S(a[2]))
    if op == 'fld':
        return t.fld(S(a[0]), a[1], x.sort)
    if op == 'rec':
        return t.rec(a[0], {n: S(v) for n, v in a[1]})
    if op == 'lam':
        f = t.fresh('m', 'I')
        n = S(a[0])
        return t.lam_(n, f, simp(t.subst(a[2], {a[1]: f}), ctx.plus(t.le(0, f), t.lt(f, n))))
    if op == 'mlam':
        f, g = t.fresh('m', 'I'), t.fresh('m', 'I')
        n, m = S(a[0]), S(a[1])
        return t.mlam_(n, m, f, g, simp(t.subst(a[4], {a[2]: f, a[3]: g}),
                                        ctx.plus(t.le(0, f), t.lt(f, n), t.le(0, g), t.lt(g, m))))
    if op in ('prod', 'forall', 'first', 'filter'):
        f = t.fresh('m', 'I')
        n = S(a[0])
        b = simp(t.subst(a[2], {a[1]: f}), ctx if n is t.ALL else ctx.plus(t.le(0, f), t.lt(f, n)))
        if op == 'prod':
            return t.prod_(n, f, b)
        if op == 'forall':
            return t.forall_(n, f, b)
        if op == 'first':
            return t.first_(n, f, b)
        return t.filter_(n, f, dict(b.a[1])['c'], dict(b.a[1])['e'])
    return x


def find_conds(x, out, seen):
    """undecided atomic conditions outside binders, smallest first"""
    if x in seen:
        return
    seen.add(x)
    if x.op in ('lt0', 'eq0', 'eqo'):
        out.append(x)
    if x.op in ('lam', 'mlam', 'ms', 'prod', 'forall', 'first', 'filter'):
        for y in sub_terms(x):
            if not any(z.op == 'bv' for z in y.fv):
                find_conds(y, out, seen)
            else:
                find_closed_conds(y, out, seen)
        return
    for y in sub_terms(x):
        find_conds(y, out, seen)


def find_closed_conds(x, out, seen):
    if x in seen:
        return
    seen.add(x)
    if x.op in ('lt0', 'eq0', 'eqo') and not any(z.op == 'bv' for z in x.fv):
        out.append(x)
    for y in sub_terms(x):
        find_closed_conds(y, out, seen)


def find_foralls(x, out, seen):
    """quantified conditions a value depends on"""
    if x in seen:
        return
    seen.add(x)
    if x.op == 'forall' and not any(z.op == 'bv' for z in x.fv):
        out.append(x)
        return
    for y in sub_terms(x):
        find_foralls(y, out, seen)


class Result:
    def __init__(self, status, how='', detail=''):
        self.status, self.how, self.detail = status, how, detail

    def __repr__(self):
        return '%s(%s)%s' % (self.status, self.how, self.detail and ': ' + self.detail[:2000])


def prove(ctx, goal, depth=0, budget=None):
    """decide ctx |= goal"""
    if budget is None:
        budget = {'splits': 200, 't_end': time.time() + 30}
    if goal is TRUE:
        STAT['algebra'] += depth == 0
        return Result('proved', 'algebra')
    if goal.op == 'and':
        res = [prove(ctx, g, depth + 1, budget) for g in goal.a]
        bad = [r for r in res if r.status != 'proved']
        if not bad:
            return Result('proved', '+'.join(sorted(set(r.how for r in res))))
        for r in bad:
            if r.status == 'refuted':
                return r
        return bad[0]
    if fo(goal):
        return prove_fo(ctx, goal, budget)
    if any(fo(f) for f in ctx.facts):
        r = prove(plain(ctx), goal, depth, {'splits': 50, 't_end': time.time() + 10})
        return r if r.status == 'proved' else prove_fo(ctx, goal, budget)
    if goal.op == 'forall':
        f = t.fresh('k', 'I')
        n = goal.a[0]
        r = last_of(n, ctx)
        if r is not None:
            x = prove(ctx, t.subst(goal.a[2], {goal.a[1]: r}), depth + 1, budget)
            if x.status == 'proved':
                g = t.forall_(r, f, t.subst(goal.a[2], {goal.a[1]: f}))
                return x if g in ctx.facts else prove(ctx.plus(t.le(0, f), t.lt(f, r)), t.subst(goal.a[2], {goal.a[1]: f}), depth + 1, budget)
            return x
        return prove(ctx.plus(t.le(0, f), t.lt(f, n)), t.subst(goal.a[2], {goal.a[1]: f}), depth + 1, budget)
    if goal.op == 'eq0':
        return prove_eq(ctx, goal.a[0], ZERO, depth, budget)
    if goal.op == 'eqo':
        r = prove_eq(ctx, goal.a[0], goal.a[1], depth, budget)
        if r.status != 'proved' and goal.a[0].sort == 'S' and smt(ctx, goal, 1000)[0] == 'proved':
            return Result('proved', 'z3')
        return r
    if goal.op == 'or':
        # try: assume negation of all but one
        gs = [g for g in goal.a if g.op in ('eq0', 'eqo', 'forall', 'and')]
        gs.sort(key=lambda g: {'forall': 0, 'and': 2}.get(g.op, 1))
        r0 = None
        for g in gs[:3]:
            others = [t.lnot(h) for h in goal.a if h is not g]
            r = prove(ctx.plus(*others), g, depth + 1, budget)
            if r.status == 'proved' or len(gs) == 1:
                return r
            r0 = r0 or r
            if depth > 2:
                break
        if r0 is not None:
            if smt(ctx, goal, 1000)[0] == 'proved':
                return Result('proved', 'z3')
            return r0
    g = simp(goal, ctx)
    if g is TRUE:
        return Result('proved', 'z3')
    c = choice(g)
    if c is not None and budget['splits'] > 0 and depth < 14:
        budget['splits'] -= 1
        for f in (c, t.lnot(c)):
            h = Ctx((f,), ctx.rw)
            h = Ctx(tuple(simp(x, h) if choice(x) is not None else x for x in ctx.facts) + (f,), ctx.rw)
            r = prove(h, simp(g, h), depth + 1, budget)
            if r.status != 'proved':
                return r
        return Result('proved', 'z3')
    r, m = smt(ctx, g, 4000, True)
    if r == 'proved':
        return Result('proved', 'z3')
    if r == 'unknown':
        r2 = cvc5_check(ctx, g)
        if r2 == 'proved':
            return Result('proved', 'cvc5')
        r = r2 if r2 == 'refuted' else r
    return Result('refuted' if r == 'refuted' and fully(ctx, g) else 'unknown', 'z3', show_cex(ctx, g, m))


def generating(f, pos=True, under=False):
    """says that for everything something else exists: solvers may go on for ever with it"""
    if f.op == 'forall':
        return under and not pos or generating(f.a[2], pos, under or pos)
    if f.op == 'not':
        return generating(f.a[0], not pos, under)
    if f.op in ('and', 'or'):
        return any(generating(y, pos, under) for y in f.a)
    return False


def branch(x, seen=None):
    """a condition on symbols about sets that values in x depend on"""
    seen = set() if seen is None else seen
    if x in seen:
        return None
    seen.add(x)
    if x.op in ('ite', 'iv') and x.a[0].op == 'app' and fo(x.a[0]) and not any(z.op == 'bv' for z in x.a[0].fv):
        return x.a[0]
    for y in sub_terms(x):
        r = branch(y, seen)
        if r is not None:
            return r
    return None


def prove_fo(ctx, goal, budget):
    """quantified facts about sets: left to the solvers, one conjunct at a time"""
    if goal.op == 'forall':
        f = t.fresh('k', 'I')
        rng = () if goal.a[0] is t.ALL else (t.le(0, f), t.lt(f, goal.a[0]))
        return prove_fo(ctx.plus(*rng), t.subst(goal.a[2], {goal.a[1]: f}), budget)
    if goal.op == 'and':
        for g in goal.a:
            r = prove_fo(ctx, g, budget)
            if r.status != 'proved':
                return r
        return r
    if goal.op == 'or':
        g = [x for x in goal.a if x.op in ('forall', 'and')]
        if g:
            return prove_fo(ctx.plus(*[t.lnot(x) for x in goal.a if x is not g[0]]), g[0], budget)
    if goal is TRUE or goal in ctx.facts:
        return Result('proved', 'algebra')
    q = branch(goal)
    if q is not None:
        for v in (TRUE, FALSE):
            m = {q: v}
            c2 = Ctx([t.replace(f, m, True) for f in ctx.facts], ctx.rw)
            if FALSE in c2.facts:
                continue
            r = prove_fo(c2.plus(q if v is TRUE else t.lnot(q)), t.replace(goal, m, True), budget)
            if r.status != 'proved':
                return r
        return r
    gens = [f for f in ctx.facts if generating(f)]
    base = [f for f in ctx.facts if f not in gens]
    tries = [(Ctx(base), 1500), (ctx, 1500)] + [(Ctx(base + [f]), 2000) for f in gens if len(gens) > 1] + [(ctx, 6000)] if gens else [(ctx, 5000)]
    for cx, ms in tries:
        if smt(cx, goal, ms)[0] == 'proved':
            return Result('proved', 'z3')
    for cx, ms in tries[:1] + tries[-1:]:
        if cvc5_check(cx, goal, 6000) == 'proved':
            return Result('proved', 'cvc5')
    if os.environ.get('FODEBUG'):
        print('GOAL', t.show(goal)[:3000], flush=True)
        t0 = time.time()
        print('  longer:', smt(ctx, goal, int(os.environ['FODEBUG']))[0], round(time.time() - t0, 1), len(ctx.facts), flush=True)
        if os.environ.get('FOSMT'):
            z = Z(True)
            sv = z3.Solver()
            load(sv, z, ctx, goal, False)
            open('%s.%d.smt2' % (os.environ['FOSMT'], t.fresh('q', 'I').id), 'w').write('(set-logic ALL)\n' + sv.to_smt2())
        if os.environ.get('FODUMP'):
            for i, f in enumerate(ctx.facts):
                print('   F%d' % i, t.show(f)[:700])
    return Result('unknown', 'z3', show_cex(ctx, goal, None))


def choice(g):
    """condition of a choice between objects (opaque for the solvers)"""
    seen = set()

    def go(x):
        if x in seen:
            return None
        seen.add(x)
        if x.op == 'ite' and x.sort not in 'IRB' and not any(v.op == 'bv' for v in x.a[0].fv):
            return x.a[0]
        for y in sub_terms(x):
            r = go(y)
            if r is not None:
                return r
        return None
    return go(g)


def show_cex(ctx, g, m):
    s = 'goal %s\n  under %s' % (t.show(g), '; '.join(t.show(f) for f in ctx.facts[-20:]))
    if m:
        s += '\n  model ' + ', '.join('%s=%s' % (t.show(k), v) for k, v in list(m.items())[:20] if k.op == 'var')
    return s


def fully(ctx, g):
    """no opaque function whose meaning the solver does not know"""
    seen = set()

    def ok(x):
        if x in seen:
            return True
        seen.add(x)
        if x.op in ('ms', 'prod', 'first', 'filter', 'lam', 'mlam', 'obj'):
            return False
        if x.op == 'app':
            return False
        return all(ok(y) for y in sub_terms(x))
    return ok(g) and all(ok(f) for f in ctx.facts if f.fv & g.fv)


def prove_eq(ctx, a, b, depth=0, budget=None):
    if budget is None:
        budget = {'splits': 200, 't_end': time.time() + 30}
    if a is b:
        return Result('proved', 'algebra')
    if a.op == 'filter' and b.op == 'filter' and a.a[0] is b.a[0]:
        i = t.fresh('k', 'I')
        c2 = ctx.plus(t.le(0, i), t.lt(i, a.a[0]))
        p, q = (dict(t.subst(x.a[2], {x.a[1]: i}).a[1]) for x in (a, b))
        for g in (t.implies(p['c'], q['c']), t.implies(q['c'], p['c'])):
            r = prove(c2, g, depth + 1, budget)
            if r.status != 'proved':
                return r
        return prove_eq(c2.plus(p['c']), p['e'], q['e'], depth + 1, budget)
    if a.sort == 'V' and b.sort == 'V':
        r = prove_eq(ctx, t.length(a), t.length(b), depth + 1, budget)
        if r.status != 'proved':
            r.detail = 'lengths differ: ' + r.detail
            return r
        i = t.fresh('k', 'I')
        return prove_eq(ctx.plus(t.le(0, i), t.lt(i, t.length(a))), t.at(a, i), t.at(b, i), depth + 1, budget)
    if a.sort == 'M' and b.sort == 'M':
        for f in (t.rows, t.cols):
            r = prove_eq(ctx, f(a), f(b), depth + 1, budget)
            if r.status != 'proved':
                r.detail = 'shapes differ: ' + r.detail
                return r
        i, j = t.fresh('k', 'I'), t.fresh('k', 'I')
        return prove_eq(ctx.plus(t.le(0, i), t.lt(i, t.rows(a)), t.le(0, j), t.lt(j, t.cols(a))),
                        t.at2(a, i, j), t.at2(b, i, j), depth + 1, budget)
    if a.op == 'rec' and b.op == 'rec':
        if a.a[0] != b.a[0] or [n for n, _ in a.a[1]] != [n for n, _ in b.a[1]]:
            return Result('unknown', '', 'different records %s %s' % (a, b))
        hows = set()
        for (n, x), (_, y) in zip(a.a[1], b.a[1]):
            r = prove_eq(ctx, x, y, depth + 1, budget)
            if r.status != 'proved':
                r.detail = 'field %s: ' % n + r.detail
                return r
            hows.add(r.how)
        return Result('proved', '+'.join(sorted(hows)))
    if a.sort in 'IRB' and b.sort in 'IRB':
        if a.sort == 'B' and b.sort == 'B':
            return prove(ctx, t.land(t.implies(a, b), t.implies(b, a)), depth + 1, budget)
        d = t.sub(a, b)
        return prove_zero(ctx, d, budget)
    # other sorts: split on conditions, then z3
    d = simp(a, ctx), simp(b, ctx)
    if d[0] is d[1]:
        return Result('proved', 'z3')
    cs = []
    find_conds(d[0], cs, set())
    find_conds(d[1], cs, set())
    if cs and budget['splits'] > 0 and depth < 12:
        budget['splits'] -= 1
        c = cs[0]
        for f in (c, t.lnot(c)):
            r = prove_eq(ctx.plus(f), d[0], d[1], depth + 1, budget)
            if r.status != 'proved':
                return r
        return Result('proved', 'z3')
    x, y = d
    if x.op == y.op and x.op in ('at', 'at2', 'fld', 'app') and len(x.a) == len(y.a) and depth < 12 and \
            all(isinstance(p, T) == isinstance(q, T) and (isinstance(p, T) or p == q) for p, q in zip(x.a, y.a)):
        for p, q in zip(x.a, y.a):
            if isinstance(p, T) and p.sort == q.sort and prove_eq(ctx, p, q, depth + 1, budget).status != 'proved':
                break
            if isinstance(p, T) and p.sort != q.sort:
                break
        else:
            return Result('proved', 'z3')
    return Result('unknown', '', '%s =? %s' % (d[0], d[1]))


def last_of(n, ctx):
    """n - 1 for a range 0..n-1 that ends after a counter of the context"""
    if n.op != 'poly' or n.sort != 'I':
        return None
    c = dict(n.a).get((), 0)
    if c < 1 or t.is_num(n):
        return None
    r = t.sub(n, 1)
    if not any(v.op == 'var' and v.a[0].startswith('k!') for v in r.fv):
        return None
    return r if decide(ctx, t.le(0, r)) is TRUE else None


def peel(d, ctx):
    """split the last term off sums and products over 0..k (k a counter of the context)"""
    last = lambda n: last_of(n, ctx)

    def atom(x):
        if x.op == 'ms':
            rs, bs, b = x.a
            for q, (y, n) in enumerate(zip(bs, rs)):
                if any(z.op == 'bv' for z in n.fv):
                    continue
                r = last(n)
                if r is None:
                    continue
                fr = {z: t.fresh('m', 'I') for z in bs}
                body = t.subst(b, fr)
                lo = body
                hi = t.subst(body, {fr[y]: r})
                for z, m in reversed(list(zip(bs, rs))):
                    mm = t.subst(m, fr)
                    lo = t.sum_(r if z is y else mm, fr[z], lo)
                    if z is not y:
                        hi = t.sum_(t.subst(mm, {fr[y]: r}), fr[z], hi)
                return peel(t.add(lo, hi), ctx)
        if x.op == 'iv' and x.a[0].op == 'forall':
            y = x.a[0]
            r = last(y.a[0])
            if r is not None:
                f = t.fresh('m', 'I')
                return t.iv(t.land(t.forall_(r, f, t.subst(y.a[2], {y.a[1]: f})), t.subst(y.a[2], {y.a[1]: r})))
        if x.op == 'prod':
            r = last(x.a[0])
            if r is not None:
                f = t.fresh('m', 'I')
                b = t.subst(x.a[2], {x.a[1]: f})
                return t.mul(t.prod_(r, f, b), t.subst(b, {f: r}))
        return None
    if d.op != 'poly':
        return d
    out = []
    hit = False
    for m, c in d.a:
        p = [t.num(c)]
        for a, e in m:
            y = atom(a) if e > 0 and a.op in ('ms', 'prod') else None
            hit = hit or y is not None
            p.append(t.powi(a if y is None else y, e))
        out.append(t.mul(*p))
    return t.add(*out) if hit else d


def split_ranges(d, ctx):
    """SUM over n is SUM over q plus SUM over n - q (shifted) when the summand asks whether its index is below q"""
    def conds(x, y, out, seen):
        if x in seen or y not in x.fv:
            return
        seen.add(x)
        if x.op == 'lt0':
            p = t.pdict(x.a[0])
            c = [k for m, k in p.items() if m == ((y, 1),)]
            if c and abs(c[0]) == 1:
                rest = t.sub(x.a[0], t.mul(t.num(c[0]), y))
                if not any(v.op == 'bv' for v in rest.fv):
                    out.append(t.mul(t.num(-1), rest) if c[0] == 1 else t.add(rest, 1))   # y < q, or not (y < q)
            return
        for z in sub_terms(x):
            conds(z, y, out, seen)

    def atom(x):
        rs, bs, b = x.a
        for y, n in zip(bs, rs):
            if any(v.op == 'bv' for v in n.fv) or any(y in r.fv for r in rs):
                continue
            qs = []
            conds(b, y, qs, set())
            for q in dict.fromkeys(qs):
                if decide(ctx, t.le(0, q)) is TRUE and decide(ctx, t.le(q, n)) is TRUE:
                    fr = {z: t.fresh('m', 'I') for z in bs}
                    out = []
                    for size, off in ((q, ZERO), (t.sub(n, q), q)):
                        body = t.subst(b, dict(fr, **{}))
                        body = t.subst(body, {fr[y]: t.add(fr[y], off)})
                        for z, m in reversed(list(zip(bs, rs))):
                            body = t.sum_(size if z is y else t.subst(m, fr), fr[z], body)
                        out.append(simp(body, ctx))
                    return t.add(*out)
        return None
    return map_atoms(d, lambda a: atom(a) if a.op == 'ms' else None)


def map_atoms(d, f):
    """rewrites factors of the monomials of d; d itself if none changes"""
    if d.op != 'poly':
        return d
    out, hit = [], False
    for m, c in d.a:
        p = [t.num(c)]
        for a, e in m:
            y = f(a) if e > 0 else None
            hit = hit or y is not None
            p.append(t.powi(a if y is None else y, e))
        out.append(t.mul(*p))
    return t.add(*out) if hit else d


def pointwise(ctx, d, budget):
    """sums over the same range whose summands cancel for every index"""
    if d.op != 'poly' or budget.get('nested', 0) > 1:
        return d
    groups, rest = {}, []
    for m, c in d.a:
        sums = [a for a, e in m if a.op == 'ms' and e == 1 and len(a.a[1]) == 1]
        if len(sums) != 1:
            rest.append((m, c))
            continue
        groups.setdefault(sums[0].a[0], []).append((m, c, sums[0]))
    keep = [t.mul(t.num(c), *[t.powi(a, e) for a, e in m]) for m, c in rest]
    hit = False
    for rs, l in groups.items():
        ok = False
        if len(l) > 1:
            k = t.fresh('k', 'I')
            body = t.add(*[t.mul(t.num(c), t.subst(x.a[2], {x.a[1][0]: k}), *[t.powi(a, e) for a, e in m if a is not x]) for m, c, x in l])
            b2 = dict(budget, splits=min(budget['splits'], 40), nested=budget.get('nested', 0) + 1)
            ok = prove_zero(ctx.plus(t.le(0, k), t.lt(k, rs[0])), body, b2).status == 'proved'
        if ok:
            hit = True
        else:
            keep += [t.mul(t.num(c), *[t.powi(a, e) for a, e in m]) for m, c, x in l]
    return t.add(*keep) if hit else d


def merge_sums(x):
    """SUM(r*[c]) + SUM(r*[not c]) is SUM(r), also inside the arguments of functions"""
    if x.op == 'app' and x.a[0] not in ('call',):
        ys = [merge_sums(y) if y.op in ('poly', 'app', 'ms') else y for y in x.a[1:]]
        return t.rebuild_app(x, ys) if any(a is not b for a, b in zip(ys, x.a[1:])) else x
    if x.op != 'poly':
        return x
    y = t.add(*[t.mul(t.num(c), *[t.powi(merge_sums(a) if a.op == 'app' else a, e) for a, e in m]) for m, c in x.a])
    if y.op != 'poly':
        return y
    d = dict(y.a)
    for m, c in y.a:
        for a, e in m:
            if a.op != 'ms' or e != 1:
                continue
            rs, bs, b = a.a
            fr = {z: t.fresh('m', 'I') for z in bs}
            items = t._monoitems(t.subst(b, fr))
            rest = [f for f in m if f[0] is not a]
            for g, ge in items:
                if g.op != 'iv' or g.a[0].op not in ('lt0', 'eq0'):
                    continue
                p = g.a[0].a[0]
                if g.a[0].op == 'lt0' and p.sort != 'I':
                    continue
                qs = (p, t.neg(p)) if g.a[0].op == 'eq0' else (t.sub(-1, p),)
                out = [t.powi(h, he) for h, he in items if h is not g]

                def node(*more):
                    z = t.mul(*out, *more)
                    for w, r in reversed(list(zip(bs, rs))):
                        z = t.sum_(t.subst(r, fr), fr[w], z)
                    return z
                ks = []
                for q in qs:
                    z = node(t.iv(t.lt0(q)))
                    if z.op != 'ms':
                        break
                    k = tuple(sorted(rest + [(z, 1)], key=lambda w: w[0].id))
                    if d.get(k) != c or k == m:
                        break
                    ks.append(k)
                if len(ks) == len(qs):
                    left = t.mkpoly({k: v for k, v in d.items() if k != m and k not in ks})
                    return merge_sums(t.add(left, t.mul(t.num(c), node(), *[t.powi(h, he) for h, he in rest])))
    return y


def orient(x):
    """integer brackets written in one direction: [q < 0] becomes 1 - [-1-q < 0] when the leading sign of q is negative"""
    if x.op == 'app' and x.a[0] not in ('call',):
        ys = [orient(y) if y.op in ('poly', 'app', 'ms') else y for y in x.a[1:]]
        return t.rebuild_app(x, ys) if any(a is not b for a, b in zip(ys, x.a[1:])) else x
    if x.op == 'poly':
        return t.add(*[t.mul(t.num(c), *[t.powi(orient(a) if a.op in ('app', 'ms', 'iv') else a, e) for a, e in m]) for m, c in x.a])
    if x.op == 'ms':
        rs, bs, b = x.a
        fr = {z: t.fresh('m', 'I') for z in bs}
        z = orient(t.subst(b, fr))
        for w, r in reversed(list(zip(bs, rs))):
            z = t.sum_(t.subst(r, fr), fr[w], z)
        return z
    if x.op == 'iv' and x.a[0].op == 'lt0' and x.a[0].a[0].sort == 'I':
        q = x.a[0].a[0]
        p = t.sub(-1, q)
        # the direction must not depend on the names of bound variables: compare the two printed forms
        if t.show(p) < t.show(q):
            return t.sub(ONE, t._mk('iv', (t._mk('lt0', (p,), 'B'),), 'I'))
    return x


def prove_zero(ctx, d, budget):
    if d is ZERO:
        return Result('proved', 'algebra')
    if ctx.rw:
        d = _rewrite(simp(d, ctx), ctx)
        if d is ZERO or t.is_zero(d):
            return Result('proved', 'z3')
    d = peel(d, ctx)
    if d is ZERO or t.is_zero(d):
        return Result('proved', 'algebra')
    d = merge_sums(simp(d, ctx))
    if d is ZERO or t.is_zero(d):
        return Result('proved', 'z3')
    if time.time() > budget['t_end']:
        return Result('unknown', 'time', t.show(d)[:500])
    d2 = split_ranges(d, ctx)
    if d2 is not d and budget['splits'] > 0:
        budget['splits'] -= 1
        return prove_zero(ctx, d2, budget)
    cs = []
    find_conds(d, cs, set())
    if not cs:
        find_foralls(d, cs, set())
    if cs and budget['splits'] > 0:
        budget['splits'] -= 1
        c = min(cs, key=lambda x: x.id)
        out = 'z3'
        for f in (c, t.lnot(c)):
            cx = ctx.plus(f)
            if decide(ctx, t.lnot(f)) is TRUE:
                continue
            d2 = d
            if f.op == 'eq0':
                s = solve_for(f.a[0])
                if s:
                    d2 = t.subst(d, {s[0]: s[1]})
                    cx = Ctx([t.subst(x, {s[0]: s[1]}) for x in cx.facts] + [f], cx.rw)
            r = prove_zero(cx, d2, budget)
            if r.status != 'proved':
                return r
        return Result('proved', out)
    # substitute equalities of the context
    for f in ctx.facts + tight(ctx.facts):
        if f.op == 'eq0':
            s = solve_for(f.a[0])
            if s and s[0] in d.fv:
                cx = Ctx([y for y in (t.subst(x, {s[0]: s[1]}) for x in ctx.facts) if y is not TRUE] + [f], ctx.rw)
                return prove_zero(cx, t.subst(d, {s[0]: s[1]}), budget)
    for u, v in same_vectors(ctx):
        if u in d.fv:
            return prove_zero(ctx, t.subst(d, {u: v}), budget)
    if smt(ctx, FALSE, 500)[0] == 'proved':
        return Result('proved', 'z3')
    d2 = congruence(d, ctx, budget)
    if d2 is not d:
        return prove_zero(ctx, d2, budget)
    d2 = merge_sums(orient(d))
    if d2 is ZERO or t.is_zero(d2):
        return Result('proved', 'algebra')
    d2 = pointwise(ctx, d, budget)
    if d2 is not d:
        return prove_zero(ctx, d2, budget)
    r, m = smt(ctx, t.eq0(d), 3000, True)
    if r == 'proved':
        return Result('proved', 'z3')
    if r == 'unknown' and cvc5_check(ctx, t.eq0(d), 2000) == 'proved':
        return Result('proved', 'cvc5')
    return Result('refuted' if r == 'refuted' and fully(ctx, t.eq0(d)) else 'unknown', 'z3', show_cex(ctx, t.eq0(d), m))


def tight(facts):
    """integers squeezed between two bounds"""
    ps = [f.a[0] for f in facts if f.op == 'lt0' and f.a[0].sort == 'I']
    have = set(ps)
    return tuple(t.eq0(t.add(p, 1)) for p in ps if t.sub(-2, p) in have)


def same_vectors(ctx):
    """unknown vectors the context says have the same size and the same elements"""
    for f in ctx.facts:
        if f.op != 'forall' or f.a[2].op != 'eq0':
            continue
        k = f.a[1]
        d = t.pdict(f.a[2].a[0])
        if len(d) != 2:
            continue
        (m1, c1), (m2, c2) = d.items()
        if not (len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1 and c1 == -c2):
            continue
        x, y = m1[0][0], m2[0][0]
        if not all(z.op == 'at' and z.a[1] is k and z.a[0].op in ('var', 'app') for z in (x, y)):
            continue
        u, v = sorted((x.a[0], y.a[0]), key=lambda z: z.id)
        if u.op != 'var':
            u, v = v, u
        if u.op == 'var' and all(decide(ctx, t.eq(t.length(z), f.a[0])) is TRUE for z in (u, v)):
            yield u, v


def congruence(d, ctx, budget):
    """equal matrices have equal inverses and determinants: unify matrix arguments that are provably equal"""
    ms = {}

    def walk(x, seen):
        if x in seen:
            return
        seen.add(x)
        if x.op == 'app' and x.a[0] in ('inv', 'det', 'call') and not any(v.op == 'bv' for v in x.fv):
            for y in x.a[1:]:
                if y.sort in 'VM' and y.op in ('mlam', 'lam', 'var'):
                    ms.setdefault((x.a[0], y.sort), set()).add(y)
        for y in sub_terms(x):
            walk(y, seen)
    walk(d, set())
    for (_, srt), ys in ms.items():
        ys = sorted(ys, key=lambda y: y.id)
        for i, x in enumerate(ys):
            for y in ys[i + 1:]:
                k = (x, y, ctx.facts)
                if budget['splits'] <= 0 or k in budget.setdefault('tried', set()):
                    continue
                budget['tried'].add(k)
                if x.op == 'var' and y.op == 'var':
                    continue
                if prove_eq(ctx, x, y, 1, dict(budget, splits=40)).status == 'proved':
                    a, b = (x, y) if x.op == 'var' or y.op != 'var' else (y, x)
                    r = t.replace(d, {b: a})
                    if r is not d:
                        return r
    return d


def solve_for(p):
    """variable with coefficient +-1 occurring only linearly"""
    d = t.pdict(p)
    for m, c in d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'var' and abs(c) == 1:
            v = m[0][0]
            rest = t.sub(p, t.mul(t.num(c), v))
            if v in rest.fv:
                continue
            val = t.mul(t.num(-1 / c), rest)
            if v.sort == 'I' and val.sort != 'I':
                continue
            return v, val
    return None


def _rewrite(d, ctx):
    for f in ctx.rw:
        d = f(d)
    return d
