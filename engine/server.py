"""Runs cases on the real package: one JSON job per line on stdin, one JSON answer per line on stdout."""
import json
import os
import select
import signal
import sys
import time


def main():
    repo = sys.argv[1]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.path.insert(0, here)
    sys.path.insert(0, repo)
    ready = None
    try:
        import copulae
        if not os.path.abspath(copulae.__file__).startswith(os.path.abspath(repo)):
            raise ImportError('copulae comes from ' + copulae.__file__)
        from engine import concctx, registry
        registry.load()
    except BaseException as e:
        ready = f'{type(e).__name__}: {e}'
    out.write(json.dumps(dict(ready=ready)) + '\n')
    out.flush()
    if ready is not None:
        return
    for line in sys.stdin:
        job = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    res = concctx.run(registry.CASES[job['case']], job['env'], job.get('slack', 1.0), job.get('exact'))
                except BaseException as e:
                    res = dict(status='error', failures=[], why=f'{type(e).__name__}: {e}')
                with os.fdopen(w, 'w') as f:
                    f.write(json.dumps(res))
            finally:
                os._exit(0)
        os.close(w)
        buf = b''
        end = time.time() + job.get('timeout', 30)
        while True:
            left = end - time.time()
            if left <= 0:
                break
            if not select.select([r], [], [], left)[0]:
                break
            d = os.read(r, 65536)
            if not d:
                break
            buf += d
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        try:
            res = json.loads(buf)
        except ValueError:
            res = dict(status='error', failures=[], why='no answer (crash or time out)')
        out.write(json.dumps(dict(id=job.get('id'), **res)) + '\n')
        out.flush()


main()
