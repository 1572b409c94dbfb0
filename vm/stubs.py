"""Instrumented trial decomposers for the ensemble methods.  They are handed in through the documented `ext_EMD` argument, log every call
(also from worker processes) to an append-only file, can delay calls and can raise."""
import hashlib, os, pickle, time
import numpy as np


class Fault(Exception):
    pass


# one fault class per ordinary exception type, so that a handler for any of them would swallow it
# (StopIteration is left out: it is the iterator protocol's signal, see DESIGN.md)
FAULTS = [Fault]
for _b in (ValueError, RuntimeError, ZeroDivisionError, FloatingPointError, OverflowError, IndexError, KeyError, TypeError, AttributeError,
           AssertionError, MemoryError, OSError, TimeoutError, EOFError, BrokenPipeError, NotImplementedError, np.linalg.LinAlgError, UserWarning):
    _c = type("Fault" + _b.__name__, (Fault, _b), {"__module__": __name__})
    globals()[_c.__name__] = _c
    FAULTS.append(_c)


def digest(x):
    return hashlib.md5(np.ascontiguousarray(np.asarray(x, dtype=np.float64)).tobytes()).digest()


def u01(x, salt):
    return int.from_bytes(hashlib.md5(digest(x) + salt.encode()).digest()[:4], "little") / 2 ** 32


class Base:
    """log: path or None; delay: largest delay in seconds, a function of the input only; fail: set of input digests that raise; failat: 1-based call number (in the creating process) that raises; mark: file created when a fault is raised"""

    def __init__(self, log=None, delay=0., fail=(), failat=0, mark=None, error=Fault):
        self.log, self.delay, self.fail, self.failat, self.mark = log, delay, set(fail), failat, mark
        self.error = error
        self.pid = os.getpid()
        self.calls = 0
        self.imfs = self.residue = self.last = None

    def emd(self, S, T=None, max_imf=-1):
        t0 = time.time()
        self.calls += 1
        if self.delay:
            time.sleep(self.delay * u01(S, "delay"))
        bad = digest(S) in self.fail or (self.failat and self.calls == self.failat and os.getpid() == self.pid)
        out = None if bad else self.compute(S, T, max_imf)
        if self.log:
            rec = pickle.dumps((os.getpid(), t0, time.time(), np.array(S, dtype=np.float64), None if T is None else np.array(T), max_imf, str(np.asarray(S).dtype)))
            fd = os.open(self.log, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            try:
                os.write(fd, rec)
            finally:
                os.close(fd)
        if bad:
            if self.mark:
                open(self.mark, "a").close()
            raise self.error("injected fault")
        return out

    __call__ = emd

    def get_imfs_and_residue(self):
        return self.imfs, self.residue


class Synthetic(Base):
    """rows are a known function of the input: 0..4 components"""
    lo = 1

    @classmethod
    def rows(cls, S, max_imf):
        k = cls.lo + int(u01(S, "k") * 4)
        if max_imf > 0:
            k = min(k, max_imf)
        return np.array([np.asarray(S, float) * (j + 1) + 10 * j for j in range(k)]).reshape(k, len(S))

    @classmethod
    def trend(cls, S, max_imf):
        return .5 * np.asarray(S, float) - 3

    def compute(self, S, T, max_imf):
        self.last = (np.array(S), max_imf)
        self.imfs = self.rows(S, max_imf)
        self.residue = self.trend(S, max_imf)
        return self.rows(S, max_imf)

    def get_imfs_and_trend(self):
        S, m = self.last
        return self.rows(S, m), self.trend(S, m)


class Sparse(Synthetic):
    """some trials yield no component at all"""
    lo = 0


class Real(Base):
    def __init__(self, cfg=None, **kw):
        super().__init__(**kw)
        from PyEMD import EMD
        self.e = EMD(**(cfg or {}))
        self.cfg = cfg or {}

    def compute(self, S, T, max_imf):
        out = self.e.emd(S, T, max_imf=max_imf)
        self.imfs, self.residue = self.e.get_imfs_and_residue()
        return out

    def get_imfs_and_trend(self):
        return self.e.get_imfs_and_trend()


def read_log(path):
    out = []
    if os.path.exists(path):
        with open(path, "rb") as f:
            while True:
                try:
                    out.append(pickle.load(f))
                except EOFError:
                    break
    return out


def children():
    """pids of live (non-zombie) direct children of this process"""
    me = os.getpid()
    out = []
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                st = open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if int(st[1]) == me and st[0] not in "ZX":
                out.append(int(d))
    return out


def leaked(before, wait=20.):
    """children that are still alive `wait` seconds after garbage collection"""
    import gc
    end = time.time() + wait
    while True:
        gc.collect()
        left = [p for p in children() if p not in before]
        if not left or time.time() > end:
            return left
        time.sleep(.05)
