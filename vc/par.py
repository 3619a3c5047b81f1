"""fork-based pool: z3 terms are shared with the children by fork, only small results come back"""
import os, sys, time, pickle, select, signal

NPROC = int(os.environ.get('VC_PROCS', '8'))


def run(tasks, wall=60.0, nproc=None):
    """tasks: list of callables returning something picklable.  Result i is None when the
    task died or ran out of its wall time."""
    nproc = nproc or NPROC
    res = [None] * len(tasks)
    if not tasks:
        return res
    if len(tasks) == 1 and False:
        return [tasks[0]()]
    todo = list(range(len(tasks)))[::-1]
    live = {}   # fd -> (pid, idx, deadline, buf)
    sys.stdout.flush()
    sys.stderr.flush()
    while todo or live:
        while todo and len(live) < nproc:
            i = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    for fd in list(live):
                        try:
                            os.close(fd)
                        except OSError:
                            pass
                    try:
                        out = tasks[i]()
                        data = pickle.dumps(('ok', out))
                    except BaseException as e:
                        import traceback
                        data = pickle.dumps(('err', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc())))
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            wl = wall[i] if isinstance(wall, list) else wall
            live[r] = [pid, i, time.time() + wl, b'']
        now = time.time()
        to = max(0.0, min(v[2] for v in live.values()) - now)
        rd, _, _ = select.select(list(live), [], [], min(to + 0.01, 5.0))
        for fd in rd:
            d = os.read(fd, 65536)
            if d:
                live[fd][3] += d
            else:
                pid, i, dl, buf = live.pop(fd)
                os.close(fd)
                os.waitpid(pid, 0)
                if buf:
                    try:
                        st, val = pickle.loads(buf)
                        if st == 'ok':
                            res[i] = val
                        else:
                            res[i] = ('EXC', val)
                    except Exception:
                        pass
        now = time.time()
        for fd in list(live):
            if live[fd][2] < now:
                pid, i, dl, buf = live.pop(fd)
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
    return res
