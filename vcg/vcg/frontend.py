"""Parse trees of /repo's current C++ core, extracted by cxx2json on every run."""
import glob
import hashlib
import json
import os
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = ROOT + '/.cache'
SITE = '/usr/lib/R/site-library'


def sources():
    return sorted(p for p in glob.glob(REPO + '/src/*.cpp') if not os.path.basename(p).startswith('Rcpp'))


def tool():
    b = ROOT + '/vcg/bin/cxx2json'
    src = ROOT + '/vcg/cxx2json.cpp'
    try:
        if subprocess.run([b, '--version'], capture_output=True).returncode in (0, 1, 2):
            return b
    except OSError:
        pass
    os.makedirs(CACHE, exist_ok=True)
    o = CACHE + '/cxx2json'
    if not os.path.exists(o):
        subprocess.check_call(['clang++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', o,
                               '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '/usr/lib/llvm-18/lib/libLLVM-18.so'])
    return o


def ast():
    h = hashlib.sha256()
    for p in sources() + sorted(glob.glob(REPO + '/inst/include/**/*.h', recursive=True)) + \
            sorted(glob.glob(ROOT + '/harness/shim/**/*', recursive=True)) + [ROOT + '/vcg/cxx2json.cpp']:
        if os.path.isfile(p):
            h.update(p.encode() + open(p, 'rb').read())
    os.makedirs(CACHE + '/ast', exist_ok=True)
    out = CACHE + '/ast/%s.json' % h.hexdigest()[:32]
    if os.path.exists(out):
        return json.load(open(out))
    with tempfile.TemporaryDirectory() as d:
        u = d + '/unity.cpp'
        with open(u, 'w') as f:
            for p in sources():
                f.write('#include "%s"\n' % p)
        r = subprocess.run([tool(), REPO + '/', u, '--', '-std=gnu++17', '-w', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18',
                            '-I' + ROOT + '/harness/shim', '-I' + REPO + '/inst/include',
                            '-isystem', SITE + '/RcppEigen/include', '-isystem', SITE + '/BH/include'],
                           capture_output=True, text=True)
        if r.returncode != 0 or not r.stdout.startswith('{'):
            raise RuntimeError('cxx2json: ' + r.stderr[-1500:])
        js = json.loads(r.stdout)
        tmp = out + '.%d' % os.getpid()
        with open(tmp, 'w') as f:
            f.write(r.stdout)
        os.replace(tmp, out)
    return js
