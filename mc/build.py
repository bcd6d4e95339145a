"""Builds the library under test from /repo's current working tree, unmodified, in several variants.

Nothing is written in /repo.  The result goes to /verif/.cache/<hash of everything that went in>/."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')


class BuildError(Exception):
    pass


def make_vars():
    """Source list and flags from the project's own Makefile."""
    mk = 'include Makefile\nverif_print:\n\t@echo "SRC=$(SRC)"\n\t@echo "OPT=$(OPT)"\n'
    env = {k: v for k, v in os.environ.items() if not k.startswith('MAKE')}
    try:
        out = subprocess.run(['make', '-s', '-f', '-', 'verif_print'], input=mk, text=True, cwd=os.path.join(REPO, 'src'),
                             capture_output=True, env=env, timeout=60, check=True).stdout
        d = dict(line.split('=', 1) for line in out.splitlines() if '=' in line)
        src, opt = d['SRC'].split(), d['OPT'].split()
        if src:
            return src, opt
    except Exception:
        pass
    src = sorted(os.path.basename(f) for f in glob.glob(os.path.join(REPO, 'src', '*.c')))
    return src, ['-fopenmp', '-O3']


def inputs():
    files = sorted(glob.glob(os.path.join(REPO, 'src', '*')) + glob.glob(os.path.join(REPO, 'pyregpt', '*.py')) +
                   glob.glob(os.path.join(HERE, 'env', '*')) + glob.glob(os.path.join(HERE, 'sched', '*')) + [os.path.abspath(__file__)])
    return [f for f in files if os.path.isfile(f)]


def content_hash():
    h = hashlib.sha256()
    for f in inputs():
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


WRAP = ['malloc', 'calloc', 'realloc', 'free', 'aligned_alloc', 'posix_memalign', 'memcpy', 'memmove', 'memset']
CLOCK = ['time', 'clock', 'omp_get_wtime', 'gettimeofday', 'clock_gettime', 'malloc', 'calloc', 'realloc']
VARIANTS = {
    # name: (extra compile flags, dropped flags, extra link flags, flags dropped when linking, environment sources: compiled without the extra flags)
    'plain': ([], [], [], [], ['env/cuba_env.c']),
    'asan': (['-fsanitize=address', '-fno-omit-frame-pointer', '-g', '-O1'], ['-O3', '-O2'], ['-fsanitize=address'], [], ['env/cuba_env.c']),
    'clock': ([], [], ['-Wl,--wrap=' + f for f in CLOCK], [], ['env/cuba_env.c', 'env/clock.c']),
    'sched': (['-fsanitize=thread', '-fno-omit-frame-pointer', '-g', '-O1', '-fopenmp'], ['-O3', '-O2'], ['-Wl,-Bsymbolic', '-pthread'] + ['-Wl,--wrap=' + f for f in WRAP], ['-fopenmp', '-fsanitize=thread'],
              ['env/cuba_env.c', 'sched/sched.c']),
}


def _run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-4000:]))
    return p.stdout


def build(variant='plain'):
    """Returns the directory to put on sys.path: it holds a copy of the package and the library built for `variant`."""
    h = content_hash()
    os.makedirs(CACHE, exist_ok=True)
    top = os.path.join(CACHE, h)
    dest = os.path.join(top, variant)
    if os.path.exists(os.path.join(dest, 'ok')):
        os.utime(top)
        return dest
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, 'ok')):
            return dest
        prune(h)
        shutil.rmtree(dest, ignore_errors=True)
        pkg = os.path.join(dest, 'pyregpt')
        os.makedirs(os.path.join(pkg, 'lib'))
        for f in glob.glob(os.path.join(REPO, 'pyregpt', '*.py')):
            shutil.copy(f, pkg)
        cflags, drop, ldflags, nolink, extra = VARIANTS[variant]
        cc = 'gcc'
        src, opt = make_vars()
        opt = [o for o in opt if o not in drop]
        obj = os.path.join(dest, 'obj')
        os.makedirs(obj)
        procs = []
        for s in src + extra:
            path = os.path.join(HERE, s) if s in extra else os.path.join(REPO, 'src', s)
            o = os.path.join(obj, os.path.basename(s)[:-2] + '.o')
            cmd = [cc] + (['-O2', '-g', '-pthread', '-fno-builtin', '-fno-tree-loop-distribute-patterns'] if variant == 'sched' and s in extra else opt + cflags) + ['-w', '-I' + os.path.join(HERE, 'env'), '-fPIC', '-o', o, '-c', path]
            procs.append((cmd, o, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        for cmd, o, p in procs:
            err = p.communicate()[1]
            if p.returncode:
                raise BuildError('%s\n%s' % (' '.join(cmd), err[-4000:]))
        _run([cc] + [f for f in opt + cflags if f not in nolink] + ['-shared'] + [o for _, o, _ in procs] + ldflags + ['-lm', '-o', os.path.join(pkg, 'lib', 'regpt.so')])
        shutil.rmtree(obj)
        open(os.path.join(dest, 'ok'), 'w').close()
    return dest


def prune(keep):
    dirs = [d for d in glob.glob(os.path.join(CACHE, '*')) if os.path.isdir(d) and os.path.basename(d) != keep]
    for d in sorted(dirs, key=os.path.getmtime)[:-3]:
        if time.time() - os.path.getmtime(d) > 1200:   # another check may be using it
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    for v in sys.argv[1:] or ['plain', 'asan', 'sched']:
        print(v, build(v))
