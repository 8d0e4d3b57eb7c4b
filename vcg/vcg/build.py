"""Compile /repo's current C++ sources (outside /repo) for the conformance drivers.

Objects are cached under /verif/.cache by the hash of what the preprocessor can see
(the source, every header of /repo, the flags); a fresh sandbox simply recompiles."""
import hashlib, os, subprocess, sys, concurrent.futures, glob, shutil, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(ROOT, '.cache')
RLIB = '/usr/lib/R/site-library'
INC = ['-I' + ROOT + '/harness/shim', '-I' + REPO + '/inst/include',
       '-isystem', RLIB + '/RcppEigen/include', '-isystem', RLIB + '/BH/include']
BASE = ['-std=gnu++14', '-w', '-g0']
PLAIN = BASE + ['-O1']
SAN = BASE + ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
              '-fsanitize=float-cast-overflow', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']


class BuildError(Exception):
    pass


def _headers_hash():
    h = hashlib.sha256()
    for d in (REPO + '/inst/include', ROOT + '/harness/shim', ROOT + '/harness/cxx'):
        for p in sorted(glob.glob(d + '/**/*', recursive=True)):
            if os.path.isfile(p) and p.endswith(('.h', '.hpp')):
                h.update(p[len(d):].encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()


def core_sources():
    return sorted(p for p in glob.glob(REPO + '/src/*.cpp') if not os.path.basename(p).startswith('Rcpp'))


def _compile(args):
    src, flags, hh = args
    key = hashlib.sha256((hh + ' '.join(flags)).encode() + open(src, 'rb').read()).hexdigest()[:40]
    out = '%s/obj/%s.o' % (CACHE, key)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid() + os.path.basename(src)
        r = subprocess.run(['g++'] + flags + INC + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return (src, None, r.stdout[-3000:])
        os.replace(tmp, out)
    return (src, out, '')


def driver(name, flags=PLAIN):
    """Build harness/cxx/<name>.cpp against the current core; returns the path of the program."""
    hh = _headers_hash()
    src = '%s/harness/cxx/%s.cpp' % (ROOT, name)
    jobs = [(src, flags + ['-I' + ROOT + '/harness/cxx'], hh)] + [(s, flags, hh) for s in core_sources()]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(_compile, jobs))
    bad = [r for r in res if r[1] is None]
    if bad:
        raise BuildError('\n'.join('%s:\n%s' % (b[0], b[2]) for b in bad))
    objs = [r[1] for r in res]
    key = hashlib.sha256(' '.join(objs + flags).encode()).hexdigest()[:40]
    exe = '%s/bin/%s-%s' % (CACHE, name, key)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run(['g++'] + flags + objs + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout[-3000:])
        os.replace(tmp, exe)
    return exe


def rlib():
    """Install the R package of /repo's current tree (R code and compiled core) into the cache;
    returns the library directory."""
    h = hashlib.sha256()
    files = []
    for top in ('R', 'src', 'inst', 'data', 'DESCRIPTION', 'NAMESPACE'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files.append(p)
        for d, _, fs in sorted(os.walk(p)):
            files += [os.path.join(d, f) for f in sorted(fs) if not f.endswith(('.o', '.so', '.d'))]
    for f in files:
        h.update(f[len(REPO):].encode())
        h.update(open(f, 'rb').read())
    key = h.hexdigest()[:40]
    lib = '%s/rlib/%s' % (CACHE, key)
    if os.path.exists(lib + '/glmmsr/libs/glmmsr.so'):
        return lib
    work = tempfile.mkdtemp(prefix='glmmsr-build-')
    try:
        for f in files:
            dst = work + '/pkg' + f[len(REPO):]
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copy(f, dst)
        with open(work + '/mk', 'w') as f:
            for v in ('CXXFLAGS', 'CXX11FLAGS', 'CXX14FLAGS', 'CXX17FLAGS'):
                f.write(v + '=-O1 -g0 -w\n')
        os.makedirs(work + '/lib')
        env = dict(os.environ, R_MAKEVARS_USER=work + '/mk', MAKEFLAGS='-j8', R_LIBS='', R_LIBS_USER='NULL')
        r = subprocess.run(['R', 'CMD', 'INSTALL', '--no-docs', '--no-test-load', '--no-byte-compile', '--library=' + work + '/lib', work + '/pkg'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=work)
        if r.returncode or not os.path.exists(work + '/lib/glmmsr/libs/glmmsr.so'):
            raise BuildError(r.stdout[-3000:])
        os.makedirs(os.path.dirname(lib), exist_ok=True)
        if not os.path.exists(lib):
            try:
                shutil.move(work + '/lib', lib)
            except OSError:
                pass
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return lib


def r_env():
    return dict(os.environ, R_LIBS=rlib(), R_LIBS_USER='NULL', R_ENVIRON_USER='', R_PROFILE_USER='', TZ='UTC',
                OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', LC_ALL='C.UTF-8')


if __name__ == '__main__' and sys.argv[1].endswith('.R'):
    sys.exit(subprocess.run(['Rscript', '--vanilla', '%s/harness/r/%s' % (ROOT, sys.argv[1])] + sys.argv[2:], env=r_env()).returncode)

if __name__ == '__main__':
    exe = driver(sys.argv[1], SAN if os.environ.get('SAN') else PLAIN)
    sys.exit(subprocess.run([exe] + sys.argv[2:]).returncode)
