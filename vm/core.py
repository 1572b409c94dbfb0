"""Runner: drives one property's workload over forked workers and turns monitor reports into a verdict.

A check module (checks/cXX.py) provides
  CASES   {"quick": n, "thorough": m}   number of generated cases
  RULE    text for the evidence file
  case(c) runs the real code on one generated case and reports through `c`
and optionally setup(tier) (before forking), TIMEOUT (seconds per case), WORKERS, MIN_NONTRIVIAL.
"""
import hashlib, importlib, json, multiprocessing as mp, os, random, signal, sys, time, traceback
from multiprocessing import connection
import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    def __init__(self, msg, key="", **data):
        super().__init__(msg)
        self.msg, self.key, self.data = msg, key, data


class Inconclusive(Exception):
    """The case could not be judged (counted, never a verdict)."""


class CaseTimeout(BaseException):
    pass


def jsonable(x, depth=0):
    if isinstance(x, np.ndarray):
        if x.size <= 4000:
            return {"dtype": str(x.dtype), "shape": list(x.shape), "data": [jsonable(v, 9) for v in x.ravel().tolist()]}
        return {"dtype": str(x.dtype), "shape": list(x.shape), "head": [jsonable(v, 9) for v in x.ravel()[:50].tolist()]}
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return float(x) if np.isfinite(x) else repr(float(x))
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in x]
    return repr(x)[:500]


class Case:
    def __init__(self, prop, seed, idx, tier, acc):
        self.prop, self.seed, self.idx, self.tier = prop, seed, idx, tier
        h = hashlib.sha256(("%s/%d/%s/%d" % (prop, seed, "case", idx)).encode()).digest()
        self.rng = np.random.default_rng(int.from_bytes(h[:8], "little"))
        self.data = {}
        self.acc = acc

    # --- reporting -------------------------------------------------------------------
    def note(self, **kw):
        """Remember the inputs of the case for the replay file."""
        self.data.update(kw)

    def ev(self, n=1):
        self.acc["evaluations"] += n

    def count(self, name, n=1):
        self.acc["counters"][name] = self.acc["counters"].get(name, 0) + n

    def maxi(self, name, v):
        v = float(v)
        if v > self.acc["max"].get(name, -np.inf):
            self.acc["max"][name] = v

    def sig(self, *parts):
        """Signature of a distinct non-trivial observation."""
        self.acc["sigs"].add(hashlib.md5(repr(parts).encode()).digest()[:8])

    def sample(self, **kw):
        if len(self.acc["samples"]) < 2:
            self.acc["samples"].append(jsonable(dict(case=self.idx, **kw)))

    def fail(self, msg, key="", **data):
        raise Violation(msg, key, **data)

    def check(self, ok, msg, **data):
        if not ok:
            raise Violation(msg, **data)

    def raises(self, exc, fn, msg):
        """fn must raise one of exc (or a subclass)."""
        try:
            r = fn()
        except exc:
            return
        except CaseTimeout:
            raise
        raise Violation(msg, result=r)


def new_acc():
    return dict(evaluations=0, counters={}, max={}, sigs=set(), samples=[], cases=0)


def merge(a, b):
    a["evaluations"] += b["evaluations"]
    a["cases"] += b["cases"]
    for k, v in b["counters"].items():
        a["counters"][k] = a["counters"].get(k, 0) + v
    for k, v in b["max"].items():
        a["max"][k] = max(v, a["max"].get(k, -np.inf))
    a["sigs"] |= b["sigs"]
    a["samples"] += b["samples"]


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, prop, seed, idx, tier, timeout, acc):
    """returns (status, info): ok | violation | timeout"""
    c = Case(prop, seed, idx, tier, acc)
    random.seed(idx)
    np.random.seed(idx % 2**32)
    np.seterr(all="ignore")
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(timeout))
    try:
        mod.case(c)
        status, info = "ok", None
    except Violation as v:
        status, info = "violation", dict(msg=v.msg, key=v.key, data=jsonable(dict(c.data, **v.data)))
    except Inconclusive as v:
        c.count("inconclusive: " + str(v))
        status, info = "ok", None
    except CaseTimeout:
        status, info = "timeout", dict(msg="did not finish within %d s" % timeout, key="timeout", data=jsonable(c.data),
                                       trace=traceback.format_exc()[-3000:])
    except MemoryError:
        c.count("inconclusive: memory")
        status, info = "ok", None
    except Exception as e:
        status, info = "violation", dict(msg="unexpected %s: %s" % (type(e).__name__, str(e)[:300]), key="exc:" + type(e).__name__,
                                         data=jsonable(c.data), trace=traceback.format_exc()[-4000:])
    finally:
        signal.alarm(0)
    if (status == "timeout" or status == "violation" and info["key"].startswith("exc:")) and diverged(c):
        # sifting itself is unstable on this input (known finding, DESIGN.md): no statement about it
        c.count("inconclusive: sifting diverges, in the model too")
        status, info = "ok", None
    acc["cases"] += 1
    return status, info


def diverged(c):
    d = c.data
    if not (isinstance(d.get("cfg"), dict) and isinstance(d.get("S"), np.ndarray) and d["S"].ndim == 1 and "spline_kind" in d["cfg"]):
        return False
    from vm import ref
    try:
        return ref.diverges(d["S"], d["cfg"], d.get("T"), d.get("max_imf", -1) or -1)
    except Exception:
        return False


def worker(mod, prop, seed, tier, n, timeout, counter, stop, slot, conn, w, deadline):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    acc = new_acc()
    while not stop.value and time.time() < deadline:
        with counter.get_lock():
            idx = counter.value
            counter.value += 1
        if idx >= n:
            break
        slot[2 * w], slot[2 * w + 1] = idx, time.time()
        status, info = run_case(mod, prop, seed, idx, tier, timeout, acc)
        slot[2 * w] = -1
        if status != "ok":
            stop.value = 1
            conn.send((status, idx, info))
    conn.send(("done", None, acc))
    conn.close()
    os._exit(0)


def _alone(mod, prop, seed, idx, tier, timeout, conn):
    acc = new_acc()
    conn.send(run_case(mod, prop, seed, idx, tier, timeout, acc))
    conn.close()
    os._exit(0)


def run_alone(mod, prop, seed, idx, tier, timeout):
    """Run one case in a process of its own; returns (status, info)."""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=_alone, args=(mod, prop, seed, idx, tier, timeout, b))
    p.start()
    b.close()
    res = ("timeout", dict(msg="did not finish within %d s, not even when run alone" % timeout, key="timeout", data={}))
    if a.poll(timeout + 90):
        try:
            res = a.recv()
        except EOFError:
            p.join(5)
            res = ("crash", dict(msg="process died with exit code %s" % p.exitcode, key="crash", data={}))
    p.kill()
    p.join()
    return res


def known_findings(prop):
    out = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        line = line.strip()
        if line.startswith("KNOWN-FINDING: property=%s " % prop):
            key = line.split("key=", 1)[1].split(" ", 1)[0]
            out.append((key, line))
    return out


def main():
    prop, tier = sys.argv[1].upper(), sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    level = {p["property"]: p["level"] for p in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}.get(prop, "exploration")
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    found = []
    acc = new_acc()
    mod = None
    import logging
    logging.disable(logging.CRITICAL)
    try:
        import PyEMD
        assert os.path.realpath(PyEMD.__file__).startswith(os.path.realpath(REPO) + "/"), PyEMD.__file__
        mod = importlib.import_module("checks." + prop.lower())
        if hasattr(mod, "setup"):
            mod.setup(tier)
    except Exception as e:
        tb = traceback.format_exc()
        # a tree whose modules cannot even be imported/compiled breaks every property; errors in our own files do not
        frames = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(REPO + "/") for f in frames) or isinstance(e, (ImportError, AttributeError)):
            found.append((-1, dict(msg="cannot load the code under test: %r" % (e,), key="load", data={}, trace=tb[-4000:])))
        else:
            sys.stderr.write(tb)
            sys.exit(2)

    if tier == "replay":
        rep = json.load(open(sys.argv[3]))
        tier = rep["tier"]
        status, info = run_case(mod, prop, rep["seed"], rep["case"], tier, 600, acc)
        print(status, json.dumps(info)[:4000] if info else "")
        sys.exit(0 if status == "ok" else 1)

    if mod is not None and not found:
        n = int(mod.CASES[tier])
        if os.environ.get("VERIF_CASES"):
            n = int(os.environ["VERIF_CASES"])
        timeout = getattr(mod, "TIMEOUT", 90)
        nw = min(getattr(mod, "WORKERS", 8), n)
        deadline = t0 + getattr(mod, "BUDGET", {"quick": 420, "thorough": 3000})[tier]
        ctx = mp.get_context("fork")
        counter, stop = ctx.Value("l", 0), ctx.Value("i", 0)
        slot = ctx.Array("d", [-1.0] * (2 * nw), lock=False)
        procs, conns = [], {}
        for w in range(nw):
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(mod, prop, seed, tier, n, timeout, counter, stop, slot, b, w, deadline))
            p.start()
            b.close()
            procs.append(p)
            conns[a] = w
        suspects = []
        while conns:
            for a in connection.wait(list(conns), timeout=1.0):
                w = conns[a]
                try:
                    kind, idx, info = a.recv()
                except EOFError:
                    del conns[a]
                    procs[w].join(5)
                    if slot[2 * w] >= 0:
                        suspects.append(int(slot[2 * w]))
                        stop.value = 1
                    continue
                if kind == "done":
                    merge(acc, info)
                    del conns[a]
                elif kind == "violation":
                    found.append((idx, info))
                else:
                    suspects.append(idx)
            now = time.time()
            for a, w in list(conns.items()):
                if slot[2 * w] >= 0 and now - slot[2 * w + 1] > timeout + 90:  # stuck in native code
                    suspects.append(int(slot[2 * w]))
                    stop.value = 1
                    procs[w].kill()
                    procs[w].join()
                    del conns[a]
            if found and stop.value and now - t0 > 5:
                # others only finish their current case; do not wait long for them
                if not hasattr(main, "_t"):
                    main._t = now
                if now - main._t > 20:
                    for a, w in list(conns.items()):
                        procs[w].kill()
                        del conns[a]
        for p in procs:
            p.join(10)
            if p.is_alive():
                p.kill()
        if not found:
            for idx in suspects[:1]:
                status, info = run_alone(mod, prop, seed, idx, tier, 2 * timeout)
                if status == "ok":
                    acc["counters"]["slow case passed alone"] = acc["counters"].get("slow case passed alone", 0) + 1
                else:
                    found.append((idx, info))

    known = known_findings(prop)
    for key, line in known:
        print(line)
    bad = [(i, f) for i, f in found if f.get("key") not in {k for k, _ in known if k}]
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(evaluations=int(acc["evaluations"]), distinct_nontrivial=len(acc["sigs"]),
                            rule=getattr(mod, "RULE", ""), samples=acc["samples"][:4], cases=acc["cases"],
                            counters=dict(sorted(acc["counters"].items())), maxima=acc["max"]),
              wall_s=round(time.time() - t0, 2), violations=len(bad))
    if hasattr(mod, "EXHAUSTIVE"):
        ev["coverage"]["exhaustive_part"] = mod.EXHAUSTIVE
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    print("%s %s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs %s" % (
        prop, tier, seed, acc["cases"], acc["evaluations"], len(acc["sigs"]), time.time() - t0, json.dumps(ev["coverage"]["counters"])))
    if bad:
        idx, info = bad[0]
        path = os.path.join(evdir, "replay", "%s-%s-%d-%d.json" % (prop, tier, seed, idx))
        json.dump(dict(property=prop, tier=tier, seed=seed, case=idx, **info), open(path, "w"), indent=1)
        print("violated: " + info["msg"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if len(acc["sigs"]) < getattr(mod, "MIN_NONTRIVIAL", 5):
        print("INCONCLUSIVE: too few monitored events")
        sys.exit(2)
    sys.exit(0)

