"""Builds the simulator from /repo's working tree together with the offline
stand-ins for its missing third party parts.  The build directory is keyed on the
content of every source file, so that a build is never reused for another tree
(mtimes are not trusted); ccache, when present, makes a rebuild cheap."""
import hashlib, os, shutil, subprocess, sys, time, fcntl, sysconfig

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SHIM = os.path.join(VERIF, 'shim')


def _files(root, subdirs):
    for s in subdirs:
        p = os.path.join(root, s)
        if os.path.isfile(p):
            yield p
            continue
        for d, dirs, files in os.walk(p):
            dirs.sort()
            dirs[:] = [x for x in dirs if x not in ('__pycache__', '.git')]
            for f in sorted(files):
                yield os.path.join(d, f)


def _digest(root, subdirs, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in _files(root, subdirs):
        h.update(os.path.relpath(p, root).encode() + b'\0')
        try:
            with open(p, 'rb') as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            pass
    return h.hexdigest()[:20]


def run(cmd, log, cwd=None, env=None):
    with open(log, 'ab') as lf:
        lf.write((' '.join(cmd) + '\n').encode())
        lf.flush()
        r = subprocess.run(cmd, stdout=lf, stderr=subprocess.STDOUT, cwd=cwd, env=env)
    if r.returncode:
        sys.stderr.write(open(log, errors='replace').read()[-6000:])
        raise RuntimeError('build step failed: ' + ' '.join(cmd))


class Paths:
    pass


def ccache_env():
    env = dict(os.environ)
    env['CCACHE_DIR'] = os.path.join(BUILD, 'ccache')
    env['CCACHE_MAXSIZE'] = '2G'
    env['CCACHE_NOHASHDIR'] = '1'
    env['CCACHE_BASEDIR'] = BUILD
    env['CCACHE_COMPILERCHECK'] = 'content'
    env.pop('CCACHE_DISABLE', None)
    return env


def _prune(prefix, keep):
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith(prefix)]
    ds.sort(key=lambda d: os.path.getmtime(d), reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


VARIANTS = {
    'std': dict(cxx='-O1 -DNDEBUG', extra='-fvisibility=hidden -w'),
    'asan': dict(cxx='-O1 -g -DNDEBUG', extra='-fvisibility=hidden -w -fno-omit-frame-pointer -fsanitize=address'),
}


def ensure(variant='std', targets=('devsim_py3', 'modelcomp')):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock.' + variant), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _ensure(variant, targets)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _ensure(variant, targets):
    t0 = time.time()
    env = ccache_env()
    have_ccache = shutil.which('ccache') is not None
    shim_key = _digest(SHIM, ['.'])
    src_key = _digest(REPO, ['CMakeLists.txt', 'cmake', 'src', 'external/getrf', 'scripts'],
                      shim_key + variant + repr(sorted(VARIANTS[variant].items())))
    out = os.path.join(BUILD, '%s-%s' % (variant, src_key))
    done = os.path.join(out, '.done')
    p = Paths()
    p.root = out
    p.pkgroot = os.path.join(out, 'pkg')
    p.mkl = os.path.join(out, 'libmkl_rt.so')
    p.getrf = os.path.join(out, 'libgetrf.a')
    p.modelcomp = os.path.join(out, 'modelcomp')
    p.cached = os.path.exists(done)
    if not p.cached:
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        log = os.path.join(out, 'build.log')
        cxx = (['ccache', 'g++'] if have_ccache else ['g++'])
        # shims
        jobs = []
        run(cxx + ['-std=c++17', '-O1', '-fPIC', '-w', '-fvisibility=hidden', '-c', SHIM + '/symdiff/symdiff.cc', '-o', out + '/symdiff.o',
                   '-I' + SHIM + '/symdiff'], log, env=env)
        run(['ar', 'rcs', out + '/libsymdiff.a', out + '/symdiff.o'], log)
        run(['g++', '-std=c++17', '-O2', '-fPIC', '-shared', '-w', SHIM + '/mathlib/mathlib.cc', '-o', p.mkl], log, env=env)
        # quad precision getrf
        g = os.path.join(out, 'getrf')
        run(['cmake', '-S', REPO + '/external/getrf', '-B', g, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RELEASE',
             '-DCMAKE_Fortran_FLAGS=-freal-8-real-16 -ffixed-line-length-0 -fPIC'], log)
        run(['ninja', '-C', g], log)
        shutil.copy(os.path.join(g, 'libgetrf.a'), p.getrf)
        if os.path.exists(os.path.join(g, 'getrftest')):
            shutil.copy(os.path.join(g, 'getrftest'), out)
        v = VARIANTS[variant]
        b = os.path.join(out, 'b')
        inc = sysconfig.get_paths()['include']
        if not os.path.exists(os.path.join(inc, 'Python.h')):
            inc = '/usr/include/python3.12'
        cm = ['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=release',
              '-DCMAKE_CXX_FLAGS_RELEASE=' + v['cxx'], '-DCMAKE_CXX_FLAGS=' + v['extra'],
              '-DCMAKE_CXX_COMPILER=g++', '-DCMAKE_POSITION_INDEPENDENT_CODE=ON', '-DDEVSIM_EXTENDED_PRECISION=ON',
              '-DMKL_PARDISO=ON', '-DPYTHON3=ON', '-DPYTHON3_INCLUDE=' + inc,
              '-DFLEX=/usr/bin/flex', '-DBISON=/usr/bin/bison', '-DBOOST_INCLUDE=/usr/include',
              '-DQUADMATH_ARCHIVE=-lquadmath', '-DEXTENDED_BLAS_ARCHIVE=' + p.getrf,
              '-DSYMDIFF_INCLUDE=' + SHIM + '/symdiff', '-DSYMDIFF_ARCHIVE=' + out + '/libsymdiff.a']
        if have_ccache:
            cm += ['-DCMAKE_CXX_COMPILER_LAUNCHER=ccache', '-DCMAKE_C_COMPILER_LAUNCHER=ccache']
        run(cm, log, env=env)
        run(['ninja', '-C', b] + list(targets), log, env=env)
        for d, _, fs in os.walk(b):
            for f in fs:
                if f == 'devsim_py3.so':
                    os.makedirs(p.pkgroot + '/devsim', exist_ok=True)
                    shutil.copy(os.path.join(d, f), p.pkgroot + '/devsim/devsim_py3.so')
                elif f == 'modelcomp':
                    shutil.copy(os.path.join(d, f), p.modelcomp)
        shutil.rmtree(b, ignore_errors=True)
        shutil.rmtree(g, ignore_errors=True)
        open(done, 'w').close()
    # the Python side always comes straight from the working tree
    pk = os.path.join(p.pkgroot, 'devsim')
    shutil.copy(REPO + '/dist/__init__.py', pk + '/__init__.py')
    for n in ('python_packages', 'umfpack'):
        l = os.path.join(pk, n)
        shutil.rmtree(l, ignore_errors=True)
        if os.path.isdir(os.path.join(REPO, n)):
            shutil.copytree(os.path.join(REPO, n), l, ignore=shutil.ignore_patterns('__pycache__'))
    os.utime(out)
    _prune(variant + '-', 2)
    p.build_s = time.time() - t0
    return p


def sim_env(p, **kw):
    env = dict(os.environ)
    env['PYTHONPATH'] = p.pkgroot + ':' + os.path.join(VERIF, 'lib') + ':' + os.path.join(VERIF, 'checks')
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['DEVSIM_MATH_LIBS'] = p.mkl
    env['OMP_NUM_THREADS'] = env['OPENBLAS_NUM_THREADS'] = '1'
    env['VERIF_MODELCOMP'] = p.modelcomp
    env['VERIF_BUILD_OUT'] = p.root
    env['MALLOC_PERTURB_'] = '165'
    env.update(kw)
    return env


if __name__ == '__main__':
    for v in sys.argv[1:] or ['std']:
        p = ensure(v)
        print(v, 'cached' if p.cached else 'built', p.root, '%.1fs' % p.build_s)
