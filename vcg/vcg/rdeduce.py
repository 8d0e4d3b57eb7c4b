"""Contracts on the R functions of the package, and their verification on the parse trees of the current sources."""
import glob
import hashlib
import json
import os
import subprocess
import time
import traceback

from . import terms as t, prover, numeval, frontend
from .terms import T, TRUE, FALSE, ZERO, ONE, tm
from .cxx import Ob, Unsupported
from . import rlang
from .rlang import Interp, Num, Sparse, Lst, SLst, Obj, Chr, NULL, Clo, PyFun, RStop, RReturn, Env, Infeasible, Under, sc, lgl

RSPECS = []


class RSpec:
    def __init__(self, fn, props, fname, cases, use, name, heavy):
        self.fn, self.props, self.fname, self.cases, self.use, self.name, self.heavy = fn, props, fname, cases, use, name, heavy


def rspec(fname, props, cases=(None,), use=True, name=None, heavy=1):
    def deco(fn):
        s = RSpec(fn, props.split(), fname, cases, use, name or 'R ' + fname, heavy)
        RSPECS.append(s)
        return fn
    return deco


def rprog():
    fs = sorted(glob.glob(frontend.REPO + '/R/*.R'))
    h = hashlib.sha256(open(os.path.dirname(os.path.abspath(__file__)) + '/rparse.R', 'rb').read())
    for p in fs:
        h.update(p.encode() + open(p, 'rb').read())
    os.makedirs(frontend.CACHE + '/ast', exist_ok=True)
    out = frontend.CACHE + '/ast/r-%s.json' % h.hexdigest()[:32]
    if not os.path.exists(out):
        r = subprocess.run(['Rscript', '--vanilla', os.path.dirname(os.path.abspath(__file__)) + '/rparse.R'] + fs, capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError('rparse: ' + r.stderr[-800:])
        json.loads(r.stdout)
        with open(out + '.%d' % os.getpid(), 'w') as f:
            f.write(r.stdout)
        os.replace(out + '.%d' % os.getpid(), out)
    return json.load(open(out))


class RC:
    def __init__(self, mode, I, fn, env, case=None):
        self.mode, self.I, self.f, self.env, self.case = mode, I, fn, env, case
        self.values = {}
        self.result, self.stopped = None, None
        self.out = []
        self.allowed = set()
        self.warned = self.stop_said = False
        self.mark_ = 0
        self.rw = []
        self.sampler = None

    # ---- before
    def arg(self, name, make=None):
        if self.mode == 'verify':
            if name not in self.values:
                v = make() if callable(make) and not isinstance(make, (PyFun, Clo)) else make
                self.values[name] = v
            return self.values[name]
        v = self.env.vars.get(name)
        if isinstance(v, rlang.Promise):
            v = self.I.force(v)
        return v

    def req(self, cond, text=''):
        if self.mode == 'verify':
            self.I.facts.append(cond)
        else:
            self.I.oblige('precondition', cond, '%s requires %s' % (self.f, text or t.show(cond)[:100]))

    def fact(self, cond):
        if self.mode == 'verify':
            self.I.facts.append(cond)

    def extern(self, name, fn, text):
        """what is assumed of a function outside the package"""
        if self.mode == 'verify':
            self.I.overrides[name] = self.I.externs[name] = fn
            self.I.assumed.add('%s: %s' % (name, text))

    def invariant(self, fn):
        if self.mode == 'verify':
            self.I.invariants.append(fn)

    # ---- after
    def returns(self, v, text='result'):
        if self.mode == 'use':
            self.result = v
            return
        if self.stopped is not None:
            return
        self.same(self.result, v, text)

    def same(self, a, b, text):
        if self.mode != 'verify':
            return
        try:
            gs = rlang.equal_goals(self.I, a, b)
        except Unsupported as e:
            gs = [(FALSE, ' (%s)' % e)]
        for g, p in gs:
            self.goal('post', g, text + p)

    def goal(self, kind, g, text, *facts):
        ctx = self.I.ctx()
        while isinstance(g, Under):
            ctx = ctx.plus(g.c)
            g = g.g
        if facts:
            ctx = ctx.plus(*facts)
        self.out.append(Ob(kind, ctx, g, (self.f, None), text))

    def ensure(self, cond, text):
        if self.mode == 'verify':
            if self.stopped is None:
                self.goal('post', tm(cond), text)
        else:
            self.I.facts.append(cond)

    def lemma(self, cond, text, *facts):
        if self.mode == 'verify':
            self.goal('lemma', cond, text, *facts)

    def stops(self, cond, text=None):
        """stops with an error exactly when cond"""
        cond = tm(cond)
        if self.mode == 'use':
            if self.I.truth(cond):
                raise RStop(Chr(['error in ' + self.f]))
            return
        self.stop_said = True
        self.goal('stops', cond if self.stopped is not None else t.lnot(cond), text or 'stops with an error exactly when %s' % t.show(cond)[:150])

    def warns(self, cond, text=None):
        cond = tm(cond)
        if self.mode == 'use':
            if self.I.truth(cond):
                self.I.effects.append(('warning', t.strc('?')))
            return
        self.warned = True
        if self.stopped is None:
            w = any(e[0] == 'warning' for e in self.I.effects[self.mark_:])
            self.goal('post', cond if w else t.lnot(cond), text or 'warns exactly when %s' % t.show(cond)[:150])

    def effects(self, *kinds):
        self.allowed |= set(kinds)
        if self.mode == 'use':
            pass

    def call(self, fn, *args, **kw):
        """calls the function the code returned; -> value, or RStop"""
        self.mark_ = len(self.I.effects)
        before = self.snapshot(fn)
        try:
            return self.I.apply(fn, list(args), kw)
        except RStop as s:
            return s

    def snapshot(self, fn):
        return None


def contract_table(used):
    tab = {}
    for s in RSPECS:
        if s.use:
            tab[s.fname] = make(s)
    return tab


def make(s):
    def con(I, fn, env):
        c = RC('use', I, s.fname, env)
        g = s.fn(c)
        next(g)
        try:
            next(g)
        except StopIteration:
            pass
        if c.result is None:
            raise Unsupported('contract of %s gives no result here' % s.fname)
        return c.result
    return con


def run_path(prog, s, case, choices):
    t._distinct.clear()
    t._symm.clear()
    t._ufun.clear()
    t._ufun_rules[:] = t._ufun_always
    I = Interp(prog, contract_table(None), choices)
    I.verifying = s.fname
    I.where = s.fname
    if s.fname not in prog:
        raise Unsupported('function %s is not in the package' % s.fname)
    f = prog[s.fname]
    fn = Clo(f['p'], f['b'], I.globals, s.fname)
    c = RC('verify', I, s.fname, None, case)
    g = s.fn(c)
    next(g)
    if prover.smt(prover.Ctx(I.facts), FALSE, 1000)[0] == 'proved':
        raise Unsupported('contradictory preconditions')
    unknown = [n for n in c.values if n not in [p[0] for p in fn.params] and '...' not in [p[0] for p in fn.params]]
    if unknown:
        raise Unsupported('no argument %s' % unknown)
    ok = True
    try:
        c.result = I.apply(fn, [], c.values)
    except RStop as e:
        c.stopped = e
    try:
        next(g)
    except StopIteration:
        pass
    if os.environ.get('VACUITY'):
        c.goal('post', FALSE, 'VACUITY')       # has to stay unproved on some path
    eff = [e for e in I.effects if e[0] not in c.allowed and not (e[0] == 'warning' and c.warned)]
    eff = [e for e in eff if not (e[0] == 'assign')] + [e for e in eff if e[0] == 'assign' and e in I.effects[c.mark_:] and c.mark_]
    if c.stopped is None:
        c.goal('post', TRUE if not eff else FALSE,
               'draws no random numbers, prints nothing, warns of nothing and assigns nothing outside' + (': %s' % (eff[:3],) if eff else ''))
    if not c.stop_said:
        c.goal('stops', TRUE if c.stopped is None else FALSE, 'stops with no error')
    return I, c


def rverify(prog, s, case, tier):
    name = s.name + ('[%s]' % (case,) if case is not None else '')
    res, assumed, called = [], set(), set()
    todo, npaths = [[]], 0
    cnt = {}
    allobs = []
    paths_ok = True
    try:
        while todo:
            ch = todo.pop()
            n0 = len(ch)
            npaths += 1
            if npaths > 200:
                raise Unsupported('too many paths')
            try:
                I, c = run_path(prog, s, case, ch)
            except Infeasible:
                continue
            assumed |= I.assumed
            called |= I.calls
            for k in range(len(I.choices) - 1, n0 - 1, -1):
                if I.choices[k]:
                    todo.append(I.choices[:k] + [False])
            rows, loops_ok = discharge(s, name, I.obs + c.out, cnt, c)
            res += rows
    except Unsupported as e:
        return [dict(name='%s/supported' % name, function=s.fname, status='unknown', kind='supported', why='outside the supported subset: %s' % e)], set(), set()
    except StopIteration:
        return [dict(name='%s/contract' % name, function=s.fname, status='unknown', kind='supported', why='contract ended early')], set(), set()
    except TimeoutError:
        raise
    except Exception:
        return [dict(name='%s/supported' % name, function=s.fname, status='unknown', kind='supported', why=traceback.format_exc()[-700:])], set(), set()
    return res, assumed, called


def discharge(s, name, obs, cnt, c):
    from . import deduce
    res, pend, loops_ok = [], [], True
    for o in obs:
        key = '%s/%s: %s' % (name, o.kind, o.text[:110]) if o.kind in ('post', 'lemma', 'stops') else \
            '%s/%s in %s: %s' % (name, o.kind, o.where[0], o.text[:90])
        cnt[key] = cnt.get(key, 0) + 1
        nm = key if cnt[key] == 1 else '%s #%d' % (key, cnt[key])
        ctx, goal = o.ctx, o.goal
        while isinstance(goal, Under):
            ctx, goal = ctx.plus(goal.c), goal.g
        ctx = prover.Ctx(ctx.facts, tuple(c.rw))
        o.ctx, o.goal = ctx, goal
        t1 = time.time()
        try:
            r = deduce.prove_goal(ctx, goal)
        except (t.Blowup, RecursionError, NotImplementedError) as e:
            r = prover.Result('unknown', 'engine', repr(e))
        d = dict(name=nm, function='R:' + s.fname, kind=o.kind, status='proved' if r.status == 'proved' else 'unknown', how=r.how, seconds=round(time.time() - t1, 2))
        if r.status != 'proved':
            d['why'] = r.detail[:1500]
            pend.append((d, o))
            if o.kind in ('loop-init', 'loop-step'):
                loops_ok = False
        res.append(d)
    for d, o in pend:
        if not loops_ok or o.kind not in ('post', 'stops'):
            continue
        try:
            cex = numeval.refute(o.ctx, deduce.goal_term(o.goal), tries=600, sampler=c.sampler, seconds=10)
        except Exception as e:
            d['why'] = (d.get('why', '') + ' numeric: %r' % e)[:2000]
            continue
        if cex is not None:
            d['status'] = 'refuted'
            d['counterexample'] = cex
            d['why'] = 'counterexample: %s; %s' % (cex[:800], d.get('why', ''))
    return res, loops_ok
