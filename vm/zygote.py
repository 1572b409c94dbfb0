"""A server process forked before any decomposition ran; every request is executed in a fresh fork of it (pristine module state)."""
import os, pickle, signal
from multiprocessing import Pipe

_Z = {}


def _serve(conn, run):
    signal.alarm(0)
    while True:
        try:
            reqs = conn.recv()
        except EOFError:
            os._exit(0)
        out = []
        for q in reqs:
            a, b = Pipe(False)
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        res = ("ok", run(*q))
                    except Exception as e:
                        res = ("exc", "%s: %s" % (type(e).__name__, e))
                    b.send_bytes(pickle.dumps(res))
                finally:
                    os._exit(0)
            b.close()
            try:
                out.append(pickle.loads(a.recv_bytes()))
            except EOFError:
                out.append(("exc", "died"))
            a.close()
            os.waitpid(pid, 0)
        conn.send(out)


def ask(run, reqs):
    """Results of run(*req) for every request, each computed in a pristine process. Must first be called before anything else ran."""
    me = os.getpid()
    if me not in _Z:
        _Z.clear()
        a, b = Pipe(True)
        pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            a.close()
            _serve(b, run)
        b.close()
        _Z[me] = a
    _Z[me].send(list(reqs))
    return _Z[me].recv()
