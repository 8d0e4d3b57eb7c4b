#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree.

1. deductive part  (vcg): obligations generated from the current sources, discharged by the solvers;
2. conformance part: executable twins of the contracts run against the real code (bounded).
Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=.." otherwise."""
import json, os, re, signal, subprocess, sys, time, concurrent.futures as cf, traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT + '/vcg')
from vcg import build

TIER = os.environ.get('VERIF_TIER', 'quick')
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
REPLAY = ROOT + '/.cache/replay'

# property -> conformance drivers: (kind, name, extra args, scale at quick, sanitizer, normal seconds)
CXX = lambda n, scale=1.0, san=False, extra=(), t=20: dict(kind='cxx', name=n, scale=scale, san=san, extra=list(extra), t=t)
R = lambda n, scale=1.0, t=30: dict(kind='r', name=n, scale=scale, san=False, extra=[], t=t)
DRIVERS = {
    'C01': [CXX('c01')], 'C02': [CXX('c02')], 'C03': [CXX('c03')], 'C04': [CXX('c04')], 'C05': [CXX('c05')],
    'C06': [CXX('c06')], 'C07': [CXX('c07')], 'C08': [CXX('c08')],
    'C17': [CXX('c17', .4, True, [ph], 60) for ph in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'own')],
}
for _i in (9, 10, 11, 12, 13, 14, 15, 16):
    if os.path.exists(ROOT + '/harness/r/c%02d.R' % _i):
        DRIVERS['C%02d' % _i] = [R('c%02d.R' % _i)]


PROOF_ONLY = ('supported', 'loop-init', 'loop-step', 'precondition', 'termination')      # C17: steps of a proof, not accesses or conversions


def known_findings(prop):
    out = []
    try:
        for line in open(ROOT + '/known/findings.txt'):
            m = re.match(r'finding: property=(\S+) kind=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return out


class Result:
    def __init__(self):
        self.cases = self.checks = self.skipped = 0
        self.groups = {}
        self.fails = []      # (kind, message, replay command)
        self.samples = []
        self.notes = []
        self.runs = 0


def parse(out, res, cmd):
    done = False
    for line in out.splitlines():
        if line.startswith('FAIL '):
            m = re.match(r'FAIL (\S+) :: (.*)', line)
            res.fails.append((m.group(1), m.group(2), cmd) if m else ('unparsed', line, cmd))
        elif line.startswith('SUMMARY '):
            done = True
            v = dict(x.split('=') for x in line.split()[1:] if '=' in x)
            res.cases += int(float(v.get('cases', 0))); res.checks += int(float(v.get('checks', 0))); res.skipped += int(float(v.get('skipped', 0)))
            res.summary_fails = int(v.get('fails', 0))
        elif line.startswith('GROUP '):
            p = line.split()
            res.groups[p[1]] = res.groups.get(p[1], 0) + int(p[2])
        elif line.startswith('SAMPLE '):
            if len(res.samples) < 8:
                res.samples.append(line[7:400])
    return done


def run_driver(drv, seed, scale, limit):
    """Run one driver; returns a Result.  Failing to build is not a verdict about the property."""
    res = Result()
    try:
        if drv['kind'] == 'cxx':
            exe = build.driver(drv['name'], build.SAN if drv['san'] else build.PLAIN)
            cmd = [exe, str(seed), repr(scale)] + drv['extra']
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=0:strict_init_order=1',
                       UBSAN_OPTIONS='print_stacktrace=1')
            shown = '%spython3 %s/vcg/vcg/build.py %s %d %r %s' % ('SAN=1 ' if drv['san'] else '', ROOT, drv['name'], seed, scale, ' '.join(drv['extra']))
        else:
            env = dict(build.r_env(), VERIF_HARNESS=ROOT + '/harness/r')
            cmd = ['Rscript', '--vanilla', '%s/harness/r/%s' % (ROOT, drv['name']), str(seed), repr(scale)]
            shown = 'VERIF_HARNESS=%s/harness/r python3 %s/vcg/vcg/build.py %s %d %r' % (ROOT, ROOT, drv['name'], seed, scale)
    except build.BuildError as e:
        res.notes.append('could not build %s against the current tree: %s' % (drv['name'], str(e)[-1500:]))
        return res
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, start_new_session=True, cwd='/')
    try:
        out, err = p.communicate(timeout=limit)
        hung = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        hung = True
    res.runs = 1
    done = parse(out, res, shown)
    tag = drv['name'].split('.')[0].upper()
    if hung:
        last = [l for l in out.splitlines() if l.startswith('AT ')]
        res.fails.append((tag + '-does-not-finish', 'still running after %d s (it takes about %d s) %s' % (limit, drv['t'], last[-1] if last else ''), shown))
    elif not done:
        sanm = re.search(r'(ERROR: AddressSanitizer:[^\n]*|[^\n]*runtime error:[^\n]*|[^\n]*Assertion [^\n]*|terminate called[^\n]*(?:\n[^\n]*)?)', err)
        what = sanm.group(1) if sanm else ('ended with code %s: %s' % (p.returncode, err.strip()[-600:]))
        frames = re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]*/repo/[^\n]*)', err)[:4]
        res.fails.append((tag + '-crash', what.replace('\n', ' ') + (' at ' + ' < '.join(frames) if frames else ''), shown + '\n' + err[-4000:]))
    elif getattr(res, 'summary_fails', 0) and not res.fails:
        res.fails.append((tag + '-fails', '%d failures' % res.summary_fails, shown))
    return res


def conformance(prop, seeds, scale_mult=1.0):
    jobs = [(d, s, d['scale'] * scale_mult) for d in DRIVERS.get(prop, []) for s in seeds]
    tot = Result()
    if not jobs:
        return tot
    # build once before running in parallel
    kinds = {(d['kind'], d['name'] if d['kind'] == 'cxx' else '', d['san']) for d, _, _ in jobs}
    for k, n, san in kinds:
        try:
            build.driver(n, build.SAN if san else build.PLAIN) if k == 'cxx' else build.rlib()
        except build.BuildError as e:
            tot.notes.append('could not build: ' + str(e)[-1500:])
            return tot
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(lambda j: run_driver(j[0], j[1], j[2], 30 + 12 * j[0]['t'] * max(1, j[2] / j[0]['scale'])), jobs))
    for r in rs:
        tot.cases += r.cases; tot.checks += r.checks; tot.skipped += r.skipped; tot.fails += r.fails; tot.notes += r.notes; tot.runs += r.runs
        for g, n in r.groups.items():
            tot.groups[g] = tot.groups.get(g, 0) + n
        tot.samples += r.samples
    return tot


def write_replay(prop, n, text):
    os.makedirs(REPLAY, exist_ok=True)
    p = '%s/%s-%d.txt' % (REPLAY, prop, n)
    with open(p, 'w') as f:
        f.write(text + '\n')
    return p


def main():
    prop = sys.argv[1]
    t0 = time.time()
    violations = []
    ded = None
    ded_note = None
    try:
        from vcg import deduce
        ded = deduce.run(prop, TIER)
    except ImportError:
        ded_note = 'no deductive part'
    except Exception:
        ded_note = 'deductive part did not run: ' + traceback.format_exc()[-1500:]
    seeds = [SEED] if TIER == 'quick' else [SEED + 1000 * k for k in range(12)]
    res = conformance(prop, seeds, 1.0 if TIER == 'quick' else 3.0)
    failed = [o for o in ded['obligations'] if o['status'] == 'refuted'] if ded else []
    undis = [o for o in ded['obligations'] if o['status'] not in ('proved', 'refuted')] if ded else []
    # Not provable any more = the property's obligation fails, unless the verifier only gave up: on a function outside its
    # subset (the bounded stand-in decides), or on source text whose proof it accepted before (time ran out).
    alarms = [o for o in undis if o['kind'] not in (PROOF_ONLY if prop == 'C17' else ('supported',)) and not o.get('same')]
    if (failed or undis) and not res.fails and TIER == 'quick' and DRIVERS.get(prop):
        # an obligation is not discharged: look harder for a failing input
        more = conformance(prop, [SEED + 7 * k for k in (1, 2, 3)], 2.0)
        res.cases += more.cases; res.checks += more.checks; res.fails += more.fails; res.runs += more.runs; res.notes += more.notes
    known = known_findings(prop)
    seen_known, new = {}, []
    for kind, msg, cmd in res.fails:
        k = [x for x in known if x[0] == kind]
        if k:
            seen_known[kind] = k[0][1]
        else:
            new.append((kind, msg, cmd))
    for kind, msg in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, msg))
    kinds = {}
    for kind, msg, cmd in new:
        kinds.setdefault(kind, (msg, cmd))
    n = 0
    for kind, (msg, cmd) in kinds.items():
        n += 1
        path = write_replay(prop, n, 'property %s\nkind %s\n%s\nreplay (runs the real code): %s' % (prop, kind, msg, cmd))
        print('%s: %s' % (kind, msg[:600]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        violations.append(kind)
    if not violations:
        bad = [o for o in failed + alarms if o['name'] not in [k[0] for k in known]]
        for o in failed + alarms:
            if o['name'] in [k[0] for k in known]:
                print('KNOWN-FINDING: property=%s %s' % (prop, o['name']))
        byfn = {}
        for o in bad:
            byfn.setdefault(o.get('function'), []).append(o)
        for fn, os_ in byfn.items():
            n += 1
            path = write_replay(prop, n, 'property %s\n' % prop + '\n'.join('obligation %s of %s failed (%s)\n%s' % (o['name'], fn, o['status'], json.dumps(o, indent=1)) for o in os_))
            for o in os_[:6]:
                print('failed obligation: %s (%s)' % (o['name'], 'refuted' if o['status'] == 'refuted' else 'not provable'))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
            violations += [o['name'] for o in os_]
    else:
        for o in (failed + alarms)[:12]:
            print('also failed obligation: %s' % o['name'])
    # evidence
    from vcg import evidence
    evidence.write(ROOT, prop, TIER, SEED, ded, ded_note, res, sorted(seen_known), violations, time.time() - t0)
    print('%s %s: %s; conformance %d runs, %d cases, %d checks, %d skipped; %d violations; %.1f s' % (
        prop, TIER, ('%d/%d obligations discharged' % (sum(o['status'] == 'proved' for o in ded['obligations']), len(ded['obligations']))) if ded else ded_note.splitlines()[0],
        res.runs, res.cases, res.checks, res.skipped, len(violations), time.time() - t0))
    if undis:
        print('note: not discharged: ' + '; '.join('%s%s' % (o['name'], ' (accepted before on this very source)' if o.get('same') else '') for o in undis)[:1500])
    for x in res.notes[:3]:
        print('note: ' + x)
    return 1 if violations else 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 0 if os.environ.get('VERIF_STRICT') is None else 2
    sys.exit(rc)
