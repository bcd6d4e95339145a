"""Runs with the address sanitizer preloaded: reads sequences of operations (one JSON line each), runs each in a fork, answers with one JSON line each."""
import json, os, signal, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import h, scen, memdrive, warnings
import numpy as np


def main():
    log = sys.argv[1]
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
    m = h.load('asan')
    np.seterr(all='ignore')
    warnings.simplefilter('ignore')
    out.write('ready\n')
    out.flush()
    for line in sys.stdin:
        ops = json.loads(line)
        if os.path.exists(log):
            os.unlink(log)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(fd, 2)
                signal.alarm(100)
                d = tempfile.mkdtemp(prefix='vm', dir='/tmp')
                os.chdir(d)
                try:
                    memdrive.sequence(m, [tuple(o) for o in ops])
                    code = 0
                except Exception:
                    import traceback
                    traceback.print_exc()
                    code = 3
                finally:
                    os.chdir('/')
                    for f in os.listdir(d):
                        os.unlink(os.path.join(d, f))
                    os.rmdir(d)
            finally:
                os._exit(code)
        os.close(w)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        text = ''
        if st:
            try:
                text = open(log, errors='replace').read()
            except OSError:
                pass
            keep = [l.strip() for l in text.splitlines() if 'ERROR' in l or 'regpt' in l or '.c:' in l or 'Error' in l or ' of size ' in l]
            text = ' | '.join(keep[:7])[:700] or text[-400:]
        out.write(json.dumps([st, text]) + '\n')
        out.flush()


main()
