"""Common machinery: worker pool with crash/hang attribution, violations, evidence, loading of the library under test."""
import ctypes, itertools, json, math, os, pickle, select, signal, struct, sys, time, traceback
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import build as _build


def load(variant='plain', cwd=None):
    """Imports a fresh copy of the package under test (only ever in a worker process)."""
    d = _build.build(variant)
    sys.path.insert(0, d)
    import pyregpt.pyregpt as m
    assert m.__file__.startswith(d), m.__file__
    return m


def lib(m):
    """Handle on the loaded library (same mapping as the package's)."""
    return ctypes.CDLL(lib_path(m))


def lib_path(m):
    return os.path.join(os.path.dirname(m.__file__), 'lib', 'regpt.so')


class Viol(Exception):
    pass


class Ctx(object):

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.violations = []
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.level = 'model_checking'
        self.counts = {}
        self.errors = []

    @property
    def quick(self):
        return self.tier == 'quick'

    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def violation(self, what, replay=None):
        self.violations.append({'what': what, 'replay': replay})

    def check(self, cond, what, replay=None):
        if not cond:
            self.violation(what, replay)
        return cond

    # -- worker pool ---------------------------------------------------------------------------------------------
    def pmap(self, func, items, timeout=120, nproc=8, setup=None, variant='plain', crash_ok=None, env=None):
        """func(state, item) -> result, run in forked workers that each load the library first (state=setup(module)).

        Returns the list of results (None where a worker died).  A worker that dies or hangs on an item is re-run alone on
        that item; if it dies again it is a violation of the property being checked (`crash`)."""
        items = list(items)
        results = [None] * len(items)
        if not items:
            return results
        _build.build(variant)
        nproc = max(1, min(nproc, len(items)))
        qr, qw = os.pipe()                    # queue of indices, in order: a worker takes the next one when it is free
        os.set_blocking(qw, False)
        queue = [0]

        def feed():
            while queue[0] < len(items):
                try:
                    n = os.write(qw, b''.join(struct.pack('I', i) for i in range(queue[0], min(queue[0] + 256, len(items)))))
                except BlockingIOError:
                    return
                queue[0] += n // 4
            if queue[0] == len(items):
                os.close(qw)
                queue[0] += 1

        feed()
        live = {}

        def launch(idx, limit):
            r, w = os.pipe()
            sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    if queue[0] <= len(items):
                        os.close(qw)
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(devnull, 1)
                    os.setpgid(0, 0)
                    for k, v in (env or {}).items():
                        os.environ[k] = v
                    self._child(func, items, qr if idx is None else idx, w, setup, variant)
                    code = 0
                except BaseException:
                    try:
                        self._send(w, ('error', None, traceback.format_exc()))
                    except Exception:
                        pass
                finally:
                    os._exit(code)
            os.close(w)
            live[r] = dict(pid=pid, idx=idx, buf=b'', cur=None, t=time.time(), limit=limit)

        for _ in range(nproc):
            launch(None, timeout)
        retried = set()
        bad = 0
        while live:
            late = time.time() - self.t0 > (150 if self.quick else 500)
            if bad >= 12 or len(self.violations) >= 12 or late and (bad or self.violations) and not known_findings(self.prop):
                # enough to report; what is left could take long on code this broken
                for r, st in live.items():
                    try:
                        os.killpg(st['pid'], signal.SIGKILL)
                    except OSError:
                        os.kill(st['pid'], signal.SIGKILL)
                    os.waitpid(st['pid'], 0)
                    os.close(r)
                break
            ready, _, _ = select.select(list(live), [], [], 1.0)
            now = time.time()
            for r in list(live):
                if r not in live:
                    continue
                st = live[r]
                eof = False
                if r in ready:
                    data = os.read(r, 1 << 20)
                    if not data:
                        eof = True
                    st['buf'] += data
                    while len(st['buf']) >= 8:
                        n = struct.unpack('Q', st['buf'][:8])[0]
                        if len(st['buf']) < 8 + n:
                            break
                        kind, i, val = pickle.loads(st['buf'][8:8 + n])
                        st['buf'] = st['buf'][8 + n:]
                        st['t'] = now
                        if kind == 'start':
                            st['cur'] = i
                        elif kind == 'done':
                            results[i] = val
                            if isinstance(val, dict) and val.get('viol'):
                                bad += 1
                            st['cur'] = None
                        elif kind == 'error':
                            self.errors.append(val)
                hung = (now - st['t'] > st['limit']) and not eof
                if hung:
                    try:
                        os.killpg(st['pid'], signal.SIGKILL)
                    except OSError:
                        os.kill(st['pid'], signal.SIGKILL)
                if eof or hung:
                    _, status = os.waitpid(st['pid'], 0)
                    os.close(r)
                    del live[r]
                    i = st['cur']
                    if i is not None:
                        if i not in retried:
                            retried.add(i)
                            launch([i], st['limit'] * 2)   # replay before report
                        else:
                            what = 'does not return' if hung else 'process dies (%s)' % _status(status)
                            if crash_ok is None or not crash_ok(items[i]):
                                self.violation('%s on %s' % (what, _short(items[i])), {'item': _short(items[i], 4000), 'crash': True})
                        if st['idx'] is None:
                            launch(None, timeout)
                    elif not (os.WIFEXITED(status) and os.WEXITSTATUS(status) in (0, 1)):
                        self.errors.append('worker ended early: %s' % _status(status))
            feed()
        os.close(qr)
        if queue[0] <= len(items):
            os.close(qw)
        return results

    def _send(self, w, obj):
        b = pickle.dumps(obj, protocol=4)
        b = struct.pack('Q', len(b)) + b
        while b:
            n = os.write(w, b)
            b = b[n:]

    def _child(self, func, items, idx, w, setup, variant):
        m = load(variant)
        np.seterr(all='ignore')
        import warnings
        warnings.simplefilter('ignore')
        state = setup(m) if setup else m
        for i in (idx if isinstance(idx, list) else _take(idx)):
            self._send(w, ('start', i, None))
            try:
                res = func(state, items[i])
            except Exception:
                # an exception of the code under test that the check did not expect is a violation, reported by the caller
                res = {'viol': ['unexpected exception: ' + traceback.format_exc()[-1500:]], 'exc': True}
            self._send(w, ('done', i, res))

    def collect(self, items, results, label=''):
        """Standard post-processing: results are dicts with 'viol' (list of str) and counters under 'n'."""
        for it, res in zip(items, results):
            if res is None:
                continue
            for v in res.get('viol', []):
                self.violation((label + ': ' if label else '') + v, {'item': _short(it, 4000), 'what': v})
            for k, n in res.get('n', {}).items():
                self.count(k, n)
            for s in res.get('samples', []):
                self.sample(s)

    # -- the end ---------------------------------------------------------------------------------------------------
    def finish(self):
        if self.errors and not self.violations:
            sys.stderr.write('HARNESS ERROR\n' + '\n'.join(str(e) for e in self.errors[:5]) + '\n')
            return 2
        known = known_findings(self.prop)
        shown, new = set(), []
        for v in self.violations:
            hit = [k for k in known if k['match'] in v['what']]
            if hit:
                for k in hit:
                    if k['match'] not in shown:
                        shown.add(k['match'])
                        print('KNOWN-FINDING: property=%s %s' % (self.prop, k['text']))
            else:
                new.append(v)
        cov = dict(self.cov)
        cov.update(self.counts)
        cov['samples'] = self.samples[:6] or ['none']
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=_js)
        if new:
            rdir = os.path.join(VERIF, 'replays')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, '%s.json' % self.prop)
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'tier': self.tier, 'how': 'rerun: /usr/bin/python3 /verif/mc/run.py %s %s (deterministic enumeration; the item names the case)' % (self.prop, self.tier),
                           'violations': new[:50]}, f, indent=1, default=_js)
            for v in new[:8]:
                sys.stdout.write('  ' + v['what'][:600] + '\n')
            if len(new) > 8:
                print('  ... %d violations in all' % len(new))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('%s %s: held on everything explored: %s (%.1f s)' % (self.prop, self.tier, {k: v for k, v in cov.items() if isinstance(v, (int, float, bool))}, time.time() - self.t0))
        return 0


def _take(q):
    while True:
        b = os.read(q, 4)
        if len(b) < 4:
            return
        yield struct.unpack('I', b)[0]


def _status(s):
    if os.WIFSIGNALED(s):
        return 'signal %d' % os.WTERMSIG(s)
    return 'exit %d' % os.WEXITSTATUS(s)


def _short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def _js(o):
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.generic):
        return o.item()
    return repr(o)


def known_findings(prop):
    """Lines 'finding: property=<id> match=<text in quotes> <description>' of the committed file."""
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('finding: property=%s ' % prop):
                body = line.split(' ', 2)[2].strip()
                q = body.index('match="') + 7
                e = body.index('"', q)
                out.append({'match': body[q:e], 'text': body[e + 1:].strip()})
    return out
