"""Deductive part of a check: contracts on the real functions, obligations, verdicts.

A contract is a generator: before its yield it states preconditions, after it postconditions.
In verify mode the yield runs the body of the real function on symbolic arguments; in use mode (a caller is
being verified) it stands for the call, the preconditions become obligations of the caller and only the
postconditions are known afterwards."""
import importlib
import glob
import hashlib
import json
import multiprocessing as mpc
import os
import re
import signal
import sys
import time
import traceback

if __name__ == '__main__':
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PY = '/opt/veriftools/pyvenv/bin/python'


def run(prop, tier='quick'):
    """entry for check.py (any python): runs the verifier in the tooling venv"""
    import subprocess
    out = ROOT + '/.cache/ded-%s-%d.json' % (prop, os.getpid())
    os.makedirs(ROOT + '/.cache', exist_ok=True)
    lim = 420 if tier == 'quick' else 1500
    p = subprocess.Popen([PY if os.path.exists(PY) else 'python3-vt', os.path.abspath(__file__), prop, tier, out],
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        log, _ = p.communicate(timeout=lim)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise RuntimeError('verifier exceeded %d s' % lim)
    try:
        r = json.load(open(out))
    except OSError:
        raise RuntimeError('verifier: ' + log[-1500:])
    os.remove(out)
    return r


SPECS = []
TRUST = {}       # external name -> statement of what is assumed


class Spec:
    def __init__(self, fn, props, fname, np, pred, cases, use, name, heavy):
        self.fn, self.props, self.fname, self.np, self.pred = fn, props, fname, np, pred
        self.cases, self.use, self.name, self.heavy = cases, use, name, heavy


def spec(fname, props, np=None, pred=None, cases=(None,), use=True, name=None, heavy=1):
    def deco(fn):
        s = Spec(fn, props.split() if isinstance(props, str) else props, fname, np, pred, cases, use, name or fname, heavy)
        SPECS.append(s)
        return fn
    return deco


if __name__ == '__main__' or True:
    try:
        from . import terms as t, prover, cxx, frontend, numeval
        from .terms import T, TRUE, FALSE, ZERO, ONE
        from .cxx import LV, State, Exec, Program, Unsupported, Ob
    except ImportError:
        if __name__ == '__main__':
            from vcg import terms as t, prover, cxx, frontend, numeval
            from vcg.terms import T, TRUE, FALSE, ZERO, ONE
            from vcg.cxx import LV, State, Exec, Program, Unsupported, Ob


class C:
    """the contract seen by its specification"""

    def __init__(self, mode, ex, st, f, args, this, case=None):
        self.mode, self.ex, self.st, self.f, self.args, self.thisl, self.case = mode, ex, st, f, args, this, case
        self.pre = None
        self.result = None
        self.posted = []
        self.named = {}
        self.out = []        # obligations of the postcondition
        self.threw = False
        self.sampler = None
        self.rw = []

    # ---- values
    def a(self, i):
        """value of argument i at entry"""
        x = self.args[i]
        if isinstance(x, LV):
            return self.ex.get(self.pre, x)
        return x

    def now(self, i):
        x = self.args[i]
        return self.ex.get(self.st, x) if isinstance(x, LV) else x

    def this(self):
        return self.ex.get(self.pre, self.thisl)

    def this_now(self):
        return self.ex.get(self.st, self.thisl)

    def m(self, name):
        """member at entry"""
        return self.ex.get(self.pre, self.thisl + ('f', name))

    def setarg(self, i, v):
        """verify mode setup: the symbolic argument is v"""
        if isinstance(self.args[i], LV):
            self.st.env[self.args[i].root] = v
            self.pre.env[self.args[i].root] = v
        else:
            self.args[i] = v

    def build(self, cls, *args):
        """an object made by the real constructor"""
        ex = self.ex
        fs = [f for f in ex.p.byname.get(cls + '::' + cls.split('::')[-1], []) if f.get('body') and len(f['params']) == len(args)
              and all(esort_ok(p['t'], a) for p, a in zip(f['params'], args))]
        if len(fs) != 1:
            raise Unsupported('constructor of %s' % cls)
        ars = [ex.alloc(self.st, a, 'carg') if p['t'].get('ref') else a for p, a in zip(fs[0]['params'], args)]
        return ex.construct_with(self.st, cls, fs[0], ars)

    def distinct(self, v, text='no item listed twice'):
        """precondition: the elements of v are pairwise different"""
        n = t.length(v)
        self.req(t.forall(n, lambda k: t.forall(k, lambda l: t.lnot(t.eq(t.at(v, k), t.at(v, l))))), text)
        t._distinct.add(v)

    def within(self, v, n, text='positions exist'):
        self.req(t.forall(t.length(v), lambda k: t.land(t.le(0, t.at(v, k)), t.lt(t.at(v, k), n))), text)

    def setthis(self, v):
        self.st.env[self.thisl.root] = v
        self.pre.env[self.thisl.root] = v

    def fun(self, i, sort='R'):
        """function argument i as a function on terms: unknown in verify mode, the caller's closure in use mode"""
        f = self.a(i)
        from vcg.cxx import unwrap, Closure
        if self.mode == 'verify' or not isinstance(unwrap(f), Closure):
            return lambda *x: t.app('call', f, *x, sort=sort)
        return closure_function(self.ex, self.st, f, [q['t'] for q in unwrap(f).params])

    def loop(self, match, inv, shape=None):
        """invariant of a loop: match(function, names of what an iteration changes); inv(k, values of those after k iterations, state) lists
        (text, formula); shape(name, value before) may give the form of an unknown value"""
        if self.mode == 'verify':
            self.ex.invariants.append((match, shape or (lambda name, v: None), inv))

    def value(self, i, *xs):
        """value of function argument i at the given point; it must leave the state alone"""
        from vcg.cxx import unwrap, Closure
        from vcg import loops
        f = self.a(i)
        if not isinstance(unwrap(f), Closure):
            return t.app('call', f, *xs)
        s1 = self.st.copy()
        r = self.ex.apply_function(s1, f, [self.ex.alloc(s1, x, 'arg') if q['t'].get('ref') else x for q, x in zip(unwrap(f).params, xs)], None)
        if isinstance(r, LV):
            r = self.ex.get(s1, r)
        for root in self.st.env:
            lf = []
            loops.leaves(self.ex, self.st.env[root], s1.env[root], LV(root), lf)
            if lf:
                raise Unsupported('function argument changes the state')
        return r

    # ---- clauses
    def req(self, cond, text=''):
        if self.mode == 'verify':
            self.ex.facts.append(cond)
        else:
            self.ex.oblige('precondition', self.st, cond, '%s requires %s' % (self.f['name'], text or t.show(cond)[:120]))

    def fact(self, cond):
        """something already proved elsewhere (a lemma), usable in this verification"""
        if self.mode == 'verify':
            self.ex.facts.append(cond)

    def returns(self, v, text=None):
        v = t.tm(v)
        if self.mode == 'verify':
            self.ensure(eqt(self.result, v), text or 'result')
        else:
            self.result = v

    def post(self, i, v, text=None):
        self.posted.append(i)
        if self.mode == 'verify':
            self.ensure(eqt(self.now(i), v), text or 'argument %d' % i)
        else:
            self.ex.put(self.st, self.args[i], v)

    def post_this(self, path, v, text=None):
        lv = self.thisl
        for p in ([path] if isinstance(path, str) else path):
            lv = lv + ('f', p)
        self.posted.append(('this', path))
        if self.mode == 'verify':
            self.ensure(eqt(self.ex.get(self.st, lv), v), text or 'member %s' % path)
        else:
            self.ex.put(self.st, lv, v)

    def ensure(self, goal, text):
        if self.mode == 'verify':
            self.out.append(Ob('post', self.ex.ctx(self.st), goal, (self.f['name'], None), text))
        else:
            self.ex.facts.append(t.implies(self.st.pc, goal))

    def lemma(self, goal, text, *facts):
        """property-level consequence, proved in verify mode only"""
        if self.mode == 'verify':
            self.out.append(Ob('lemma', prover.Ctx(list(self.ex.facts) + list(facts)), goal, (self.f['name'], None), text))

    def may_throw(self):
        """nothing is said about when it throws; what is said of the state holds when it does not"""
        if self.mode == 'verify':
            self.threw = True
        else:
            u = t.fresh('thrown', 'B')
            self.ex.throws.append((t.land(self.st.pc, u), 'std::exception'))
            self.st.pc = t.land(self.st.pc, t.lnot(u))

    def throws(self, cond, ty=None):
        """throws exactly when cond"""
        if self.mode == 'verify':
            got = t.lor(*[c for c, _ in self.ex.throws]) if self.ex.throws else FALSE
            self.out.append(Ob('throws', prover.Ctx(self.ex.facts), t.land(t.implies(got, cond), t.implies(cond, got)),
                               (self.f['name'], None), 'throws exactly when %s' % t.show(cond)[:200]))
            self.threw = True
        else:
            self.ex.throws.append((t.land(self.st.pc, cond), ty or 'std::exception'))
            self.st.pc = t.land(self.st.pc, t.lnot(cond))


def closure_function(ex, st, f, tys):
    """value of a closure as a function of its arguments, when it does not depend on how often it was called before:
    two calls in sequence, each with unknown arguments, must agree (they may write to captured variables)"""
    from vcg import loops
    z1, z2 = [[t.fresh('arg', {'real': 'R', 'int': 'I'}.get(y['k'], 'O')) for y in tys] for _ in '12']
    if any(z.sort == 'O' for z in z1):
        raise Unsupported('closure argument')
    s1 = st.copy()
    r1 = ex.apply_function(s1, f, z1, None)
    s2 = s1.copy()
    r2 = ex.apply_function(s2, f, z2, None)
    m = dict(zip(z1, z2))
    r1, r2 = [ex.get(x, r) if isinstance(r, LV) else r for x, r in ((s1, r1), (s2, r2))]

    def agree(a, b):
        a = t.subst(a, m)
        return a is b or a.sort in 'RI' and t.is_zero(t.sub(a, b)) or \
            a.sort in 'RIBVM' and prover.prove_eq(ex.ctx(st), a, b).status == 'proved'
    if not agree(r1, r2):
        raise Unsupported('closure depends on earlier calls')
    for r in st.env:
        lf = []
        loops.leaves(ex, st.env[r], s1.env[r], LV(r), lf)
        loops.leaves(ex, s1.env[r], s2.env[r], LV(r), lf)
        for lv in lf:
            if not agree(ex.get(s1, lv), ex.get(s2, lv)):
                raise Unsupported('closure leaves a state behind that depends on earlier calls')
            was = t.fresh('called', 'B')
            z = {a: t.fresh('last', a.sort) for a in z1}
            ex.put(st, lv, ex.ite(was, t.subst(ex.get(s1, lv), z), ex.get(st, lv)))
    return lambda *x: t.subst(r1, dict(zip(z1, [t.tm(y) for y in x])))


def esort_ok(ty, v):
    if v.sort == 'S':
        return ty['k'] == 'rec' and ty['n'] == 'std::basic_string'
    if v.op == 'rec':
        return ty['k'] == 'rec' and ty['n'] == v.a[0]
    return True


def eqt(a, b):
    if a is None:
        return FALSE
    a, b = t.tm(a), t.tm(b)
    if a.sort in 'IRBS' and b.sort in 'IRBS':
        return t.eq(a, b)
    if a is b:
        return TRUE
    return Goal(a, b)


class Goal:
    """equality of two compound values"""

    def __init__(self, a, b):
        self.a, self.b = a, b


def contract_table(prog):
    tab = {}
    for s in SPECS:
        if s.use:
            tab.setdefault(s.fname, []).append(s)

    def make(ss):
        def con(ex, st, f, args, this):
            for s in ss:
                if s.np is not None and len(f['params']) != s.np:
                    continue
                if s.pred and not s.pred(f):
                    continue
                args2 = [x if isinstance(x, LV) else ex.alloc(st, x, 'arg') if p['t'].get('ref') else x for x, p in zip(args, f['params'])]
                v = getattr(ex, 'verifying', None)
                if v is not None and v.fname == s.fname and ex.depth == 0:
                    return NotImplemented       # the function under verification itself: its body
                c = C('use', ex, st, f, args2, this)
                c.pre = st.copy()
                g = s.fn(c)
                next(g)
                try:
                    next(g)
                except StopIteration:
                    pass
                return c.result
            return NotImplemented
        return con
    return {n: make(ss) for n, ss in tab.items()}


def verify(prog, s, case, tier):
    """-> list of obligation dicts"""
    t._distinct.clear()
    t._symm.clear()
    t._ufun.clear()
    t._ufun_rules[:] = t._ufun_always
    ex = Exec(prog, contracts=contract_table(prog))
    ex.verifying = s
    st = State()
    name = s.name + ('[%s]' % (case,) if case is not None else '')
    res = []
    t0 = time.time()
    try:
        f = prog.find(s.fname, s.np, s.pred)
        this = None
        args = []
        if f.get('cls') and not f.get('ctor'):
            this = ex.alloc(st, ex.symbolic({'k': 'rec', 'n': f['cls'], 'repo': True}, 'this'), 'this')
        for q in f['params']:
            v = ex.symbolic(q['t'], q['n'] or 'p%d' % len(args))
            args.append(ex.alloc(st, v, q['n']) if q['t'].get('ref') else v)
        c = C('verify', ex, st, f, args, this, case)
        c.pre = st.copy()
        g = s.fn(c)
        next(g)
        c.pre = st.copy()
        for k, b in enumerate(c.args):
            pass
        # vacuity: the preconditions are satisfiable
        if prover.smt(prover.Ctx(ex.facts), FALSE, 1000)[0] == 'proved':
            raise Unsupported('contradictory preconditions')
        if f.get('ctor') and this is None:
            v = ex.construct_with(st, f['cls'], f, c.args)
            c.result = v
        else:
            c.result = ex.call_function(st, f, c.args, c.thisl)
        try:
            next(g)
        except StopIteration:
            pass
        if os.environ.get('VACUITY'):
            c.ensure(FALSE, 'VACUITY')       # has to stay unproved
        # frame
        for k, x in enumerate(c.args):
            if isinstance(x, LV) and k not in c.posted and x.root in c.pre.env:
                if st.env[x.root] is not c.pre.env[x.root]:
                    c.ensure(eqt(c.now(k), c.a(k)), 'argument %d is left unchanged' % k)
        if c.thisl is not None and not any(isinstance(p, tuple) for p in c.posted):
            if c.this_now() is not c.this():
                c.ensure(eqt(c.this_now(), c.this()), 'object is left unchanged')
        elif c.thisl is not None:
            ps = [p[1] if isinstance(p[1], str) else p[1][0] for p in c.posted if isinstance(p, tuple)]
            a, b = c.this(), c.this_now()
            if a.op == 'rec' and b.op == 'rec':
                db = dict(b.a[1])
                for n, v in a.a[1]:
                    if n not in ps and db[n] is not v:
                        c.ensure(eqt(db[n], v), 'member %s is left unchanged' % n)
        if not c.threw:
            got = t.lor(*[x for x, _ in ex.throws]) if ex.throws else FALSE
            if got is not FALSE:
                c.out.append(Ob('throws', prover.Ctx(ex.facts), t.lnot(got), (f['name'], None), 'throws nothing'))
    except Unsupported as e:
        if os.environ.get("TRACE"):
            traceback.print_exc()
        return [dict(name='%s/supported' % name, function=s.fname, status='unknown', kind='supported', why='outside the supported subset: %s' % e)], set(), set()
    except StopIteration:
        return [dict(name='%s/contract' % name, function=s.fname, status='unknown', kind='supported', why='contract ended early')], set(), set()
    except Exception:
        return [dict(name='%s/supported' % name, function=s.fname, status='unknown', kind='supported', why=traceback.format_exc()[-500:])], set(), set()
    obs = ex.obs + c.out
    cnt = {}
    loops_ok = True
    pend = []
    for o in obs:
        key = '%s/%s: %s' % (name, o.kind, o.text[:110]) if o.kind in ('post', 'lemma', 'throws') else \
            '%s/%s in %s: %s' % (name, o.kind, o.where[0], o.text[:90])
        cnt[key] = cnt.get(key, 0) + 1
        nm = key if cnt[key] == 1 else '%s #%d' % (key, cnt[key])
        o.ctx = prover.Ctx(o.ctx.facts, tuple(c.rw))
        t1 = time.time()
        try:
            r = prove_goal(o.ctx, o.goal)
        except (t.Blowup, RecursionError, NotImplementedError) as e:
            r = prover.Result('unknown', 'engine', repr(e))
        d = dict(name=nm, function=s.fname, kind=o.kind, status='proved' if r.status == 'proved' else 'unknown', how=r.how,
                 seconds=round(time.time() - t1, 2))
        if r.status != 'proved':
            d['why'] = r.detail[:1500]
            pend.append((d, o))
            if o.kind in ('loop-init', 'loop-step', 'termination'):
                loops_ok = False
        res.append(d)
    for d, o in pend:
        if not loops_ok or o.kind in ('loop-init', 'loop-step', 'termination'):
            continue
        goal = o.goal
        try:
            cex = numeval.refute(o.ctx, goal_term(goal), tries=600, sampler=c.sampler, seconds=15)
        except Exception as e:
            d['why'] = (d.get('why', '') + ' numeric: %r' % e)[:2000]
            continue
        if cex is not None:
            d['status'] = 'refuted'
            d['counterexample'] = cex
            d['why'] = 'counterexample: %s; %s' % (cex[:800], d.get('why', ''))
    return res, set(ex.assumed), ex.called | ex.used_contracts


def prove_goal(ctx, goal):
    if isinstance(goal, Goal):
        return prover.prove_eq(ctx, goal.a, goal.b)
    return prover.prove(ctx, goal)


def goal_term(g):
    return t._mk('eqo', (g.a, g.b), 'B') if isinstance(g, Goal) else g


class Contracts:
    """finds the module contracts_X in vcg/contracts/X.py, so that contract files can import one another"""
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.startswith('contracts_'):
            import importlib.util
            return importlib.util.spec_from_file_location(name, ROOT + '/vcg/contracts/%s.py' % name[10:])


def load():
    import importlib
    if Contracts not in sys.meta_path:
        sys.meta_path.append(Contracts)
    for p in sorted(glob.glob(ROOT + '/vcg/contracts/*.py')):
        importlib.import_module('contracts_' + os.path.basename(p)[:-3])


def canon(x, ids):
    """parse tree without positions; identifiers numbered in order of appearance"""
    if isinstance(x, dict):
        return {k: ids.setdefault(v, len(ids)) if k == 'id' and isinstance(v, int) else canon(v, ids) for k, v in sorted(x.items())
                if k not in ('l', 'file', 'fid')}
    if isinstance(x, list):
        return [canon(y, ids) for y in x]
    return x


def digest(k, fname, called):
    """identifies the parse trees of the functions a proof went through"""
    h = hashlib.sha256()
    for n in sorted(set(called) | {fname}):
        if k < len(SPECS):
            fs = [f for f in PROG.byname.get(n, [])]
            r = PROG.recs.get(n.rsplit('::', 1)[0], {})
            h.update(json.dumps([n, sorted(json.dumps(canon(f, {}), sort_keys=True) for f in fs), canon(r, {})], sort_keys=True).encode())
        else:
            h.update(json.dumps([n, canon(RPROG.get(n) if isinstance(RPROG, dict) else n, {})], sort_keys=True).encode())
    return h.hexdigest()[:24]


ACCEPTED = ROOT + '/known/accepted.json'


def accepted():
    try:
        return json.load(open(ACCEPTED))
    except (OSError, ValueError):
        return {}


SAFETY = ('bounds', 'size', 'range', 'precondition', 'termination', 'loop-init', 'loop-step', 'supported', 'divide', 'cast')


def work(job):
    k, case, tier = job
    s = SPECS[k] if k < len(SPECS) else rdeduce.RSPECS[k - len(SPECS)]
    st0 = dict(prover.STAT)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    signal.alarm(300 if tier == 'quick' else 1200)
    try:
        obs, assumed, called = verify(PROG, s, case, tier) if k < len(SPECS) else rdeduce.rverify(RPROG, s, case, tier)
    except TimeoutError:
        obs, assumed, called = [dict(name='%s/time' % s.name, function=s.fname, kind='supported', status='unknown', why='time limit')], set(), set()
    finally:
        signal.alarm(0)
    dg = digest(k, s.fname, called)
    full = s.name + ('[%s]' % (case,) if case is not None else '')
    for o in obs:
        o['proof'] = full
        o['digest'] = dg
    st = {n: v - st0.get(n, 0) for n, v in prover.STAT.items() if isinstance(v, (int, float))}
    return k, case, obs, sorted(assumed), sorted(called), st, time.time() - t0


def anchored(prop):
    """functions of the files the property is anchored in"""
    files = []
    for l in open(ROOT + '/properties.jsonl'):
        p = json.loads(l)
        if p['id'] == prop:
            files = [os.path.basename(f) for f in p['anchors']['files']]
    out = set()
    if PROG:
        for n, fs in PROG.byname.items():
            for f in fs:
                if f.get('body') and os.path.basename(str(f.get('file', ''))) in files:
                    out.add(n)
    if RPROG:
        for f in files:
            if f.endswith('.R') and os.path.exists(frontend.REPO + '/R/' + f):
                out |= {'R:' + n for n in re.findall(r'^[`"]?([^\s`"]+)[`"]?\s*<-\s*function', open(frontend.REPO + '/R/' + f).read(), re.M)}
    return out


def main():
    prop, tier, out = sys.argv[1:4]
    global PROG, RPROG
    PROG = RPROG = None

    def onalarm(*a):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, onalarm)
    load()
    only = os.environ.get('SPEC')
    jobs = []
    allspecs = SPECS + rdeduce.RSPECS
    for k, s in enumerate(allspecs):
        if k >= len(SPECS) and prop == 'C17':
            continue
        if prop in s.props or s.props and prop in ('C17', 'ALL'):
            if only and only not in s.name:
                continue
            for case in s.cases:
                jobs.append((k, case, tier))
    jobs.sort(key=lambda j: -allspecs[j[0]].heavy)
    if any(j[0] < len(SPECS) for j in jobs):
        PROG = Program(frontend.ast())
    if any(j[0] >= len(SPECS) for j in jobs):
        RPROG = rdeduce.rprog()
    rs = []
    if len(jobs) > 1 and not os.environ.get('SERIAL'):
        with mpc.Pool(8) as pool:
            for r in pool.imap_unordered(work, jobs, chunksize=1):
                rs.append(r)
    else:
        rs = [work(j) for j in jobs]
    rs.sort(key=lambda r: (r[0], str(r[1])))
    obs, funs, assumed, stat, used = [], {}, set(), {}, set()
    for k, case, o, a, c, st, sec in rs:
        s = allspecs[k]
        if prop == 'C17' and prop not in s.props:
            o = [x for x in o if x['kind'] in SAFETY]
        obs += o
        funs.setdefault(s.fname if k < len(SPECS) else 'R:' + s.fname, []).append(case)
        assumed |= set(a)
        used |= {(k < len(SPECS), n) for n in c}
        for n, v in st.items():
            stat[n] = stat.get(n, 0) + v
        if os.environ.get('VERBOSE'):
            bad = [x for x in o if x['status'] != 'proved']
            print('%-60s %3d obligations, %d open  %.1f s' % (s.name + ('[%s]' % (case,) if case is not None else ''), len(o), len(bad), sec))
            for x in bad:
                print('    ', x['status'], x['name'][:200], '\n         ', x.get('why', '')[:int(os.environ['VERBOSE']) * 900])
    d = dict(obligations=obs, functions=sorted(funs), by_backend={n: v for n, v in stat.items() if n in ('z3', 'cvc5', 'algebra')},
             solver_s=round(stat.get('time', 0), 2), trusted=sorted(assumed), assumptions=ASSUME.get(prop, []), level='proof')
    acc = accepted()
    for x in obs:
        x['same'] = acc.get(x['proof']) == x['digest']
    d['executed'] = sorted(('' if x else 'R:') + n for x, n in used if ('' if x else 'R:') + n not in funs)
    elsewhere = {('' if k < len(SPECS) else 'R:') + x.fname for k, x in enumerate(allspecs) if x.props}
    d['bounded_only'] = sorted(n for n in anchored(prop) if n not in funs and n not in d['executed'] and n not in elsewhere)
    d['verified_by_other_properties'] = sorted(n for n in anchored(prop) if n in elsewhere and n not in funs)
    if os.environ.get('VERBOSE'):
        print('executed:', d['executed'], '\nbounded only:', d['bounded_only'])
    if out != '-':
        json.dump(d, open(out, 'w'))
    print('%s: %d/%d' % (prop, sum(x['status'] == 'proved' for x in obs), len(obs)))


ASSUME = {}

if __name__ == '__main__':
    # contracts import vcg.deduce: make it this module
    import vcg
    sys.modules['vcg.deduce'] = sys.modules['__main__']
    vcg.deduce = sys.modules['__main__']
    from vcg import rdeduce
    main()
