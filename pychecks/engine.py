"""Runs Hypothesis properties in forked workers and writes a summary check.py turns into evidence.

A property module registers tests with @prop(...). Every random choice comes from Hypothesis seeded with
VERIF_SEED, the test's name and the worker's number; no example database is kept. A failing test is shrunk
by Hypothesis, and its reproduction blob becomes the replay file. A crash of the extension ends the worker;
the example under way is then re-run from its pickled draw in the parent's children.
"""
import argparse, base64, hashlib, importlib, json, os, pickle, signal, sys, tempfile, time, traceback

sys.path.append(os.environ["VERIF_HYP"])
import warnings
warnings.filterwarnings("ignore")
import hypothesis
from hypothesis import HealthCheck, Phase, Verbosity, given, seed as hseed, settings, strategies as st
from hypothesis.errors import UnsatisfiedAssumption

REG = []


class Failure(Exception):
    def __init__(self, key, msg):
        super().__init__(f"[{key}] {msg}")
        self.key = key
        self.msg = msg


def require(cond, key, msg=""):
    if not cond:
        raise Failure(key, msg() if callable(msg) else str(msg))


class G:
    """What a test draws from and reports to."""

    def __init__(self, data, stats):
        self.data = data
        self.stats = stats
        self.nt = False
        self.notes = []
        self.labels = set()
        self.trace = []

    def draw(self, s, what=None):
        v = self.data.draw(s)
        self.trace.append(v)
        return v

    def i(self, lo, hi):
        return self.draw(st.integers(lo, hi))

    def b(self):
        return self.draw(st.booleans())

    def draw_subset(self, l):
        r = [x for x in l if self.b()]
        return r or [self.pick(l)]

    def chance(self, percent):
        return self.draw(st.integers(0, 99)) >= 100 - percent

    def f(self, lo, hi):
        return self.draw(st.floats(lo, hi, allow_nan=False, allow_infinity=False, width=64))

    def pick(self, l):
        return self.draw(st.sampled_from(list(l)))

    def rng(self):
        import numpy as np
        return np.random.default_rng(self.draw(st.integers(0, 2**32 - 1)))

    def nontrivial(self, yes=True):
        self.nt = self.nt or bool(yes)

    def label(self, s):
        self.labels.add(s)

    def note(self, *a):
        self.notes.append(" ".join(str(x) for x in a)[:700])


def prop(pid, name, quick, thorough):
    def deco(fn):
        REG.append(dict(prop=pid, name=name, quick=quick, thorough=thorough, fn=fn))
        return fn
    return deco


def derive(seed, name, w):
    return int.from_bytes(hashlib.sha256(f"{seed}/{name}/{w}".encode()).digest()[:6], "big")


def make(t, seed, w, n, stats, known, deadline, cur):
    fn = t["fn"]

    def body(data):
        if time.time() > deadline and not stats.get("failing"):
            hypothesis.assume(False)
        g = G(data, stats)
        cur["g"] = g
        stats["cases"] += 1
        try:
            fn(g)
        except Failure as e:
            if e.key in known:
                stats["known"][e.key] = stats["known"].get(e.key, 0) + 1
                return
            stats["failing"] = True
            cur["last"] = (e.key, e.msg, g.notes)
            raise
        except UnsatisfiedAssumption:
            stats["discarded"] += 1
            raise
        except (hypothesis.errors.HypothesisException, hypothesis.errors.StopTest):
            raise
        except BaseException as e:
            if type(e).__name__ == "StopTest" or type(e).__module__.startswith("hypothesis"):
                raise
            stats["failing"] = True
            tb = traceback.format_exc().splitlines()
            cur["last"] = ("unexpected-exception", f"{type(e).__name__}: {e} @ {' | '.join(x.strip() for x in tb[-6:])}", g.notes)
            raise
        for l in g.labels:
            stats["labels"][l] = stats["labels"].get(l, 0) + 1
        if g.nt:
            h = hashlib.sha1(repr(g.trace).encode()).hexdigest()
            if h not in stats["hashes"]:
                stats["hashes"][h] = 1
                if len(stats["samples"]) < 2:
                    stats["samples"].append("; ".join(g.notes)[:1500])

    test = given(st.data())(body)
    return test


# slow cases (whole pipeline runs): shrinking is bounded so that a failure is always reported in time
import hypothesis.internal.conjecture.engine as _hce
_hce.MAX_SHRINKING_SECONDS = 60

COMMON = dict(database=None, deadline=None, derandomize=False, print_blob=True, report_multiple_bugs=False,
              verbosity=Verbosity.quiet,
              suppress_health_check=list(HealthCheck))


def worker(t, seed, w, n, known, out, deadline):
    stats = dict(cases=0, discarded=0, hashes={}, labels={}, known={}, samples=[])
    cur = {}
    res = dict(stats=stats)
    test = make(t, seed, w, n, stats, known, deadline, cur)
    s = settings(max_examples=n, phases=(Phase.generate, Phase.shrink), **COMMON)
    try:
        hseed(derive(seed, t["name"], w))(s(test))()
    except hypothesis.errors.Unsatisfiable:
        pass
    except BaseException as e:
        if "last" not in cur and time.time() > deadline and isinstance(e, hypothesis.errors.HypothesisException):
            pass  # cases refused because the time is over look like a flaky test
        elif "last" in cur:
            key, msg, notes = cur["last"]
            blob = None
            for line in list(getattr(e, "__notes__", [])):
                if "reproduce_failure(" in line:
                    blob = line[line.index("reproduce_failure(") + len("reproduce_failure("):].split(")")[0]
            res["failure"] = dict(key=key, message=msg + " | case: " + "; ".join(notes), blob=blob,
                                  worker=w, n=n)
        else:
            res["failure"] = dict(key="engine", message=traceback.format_exc()[-1500:], blob=None, worker=w, n=n, engine=True)
    json.dump(res, open(out, "w"), default=str)


def fork_run(fn, timeout):
    """runs fn() in a child, returns (status, timed_out)"""
    pid = os.fork()
    if pid == 0:
        try:
            fn()
            os._exit(0)
        except BaseException:
            traceback.print_exc()
            os._exit(77)
    t0 = time.time()
    while True:
        p, s = os.waitpid(pid, os.WNOHANG)
        if p:
            return s, False
        if time.time() - t0 > timeout:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return -9, True
        time.sleep(0.01)


def run_blob(t, blob, known, out):
    """replays a Hypothesis blob in a child; returns failure dict or None"""
    def child():
        stats = dict(cases=0, discarded=0, hashes={}, labels={}, known={}, samples=[])
        cur = {}
        test = make(t, 0, 0, 1, stats, known, time.time() + 1e9, cur)
        s = settings(max_examples=1, **COMMON)
        ver, b = eval("(" + blob + ",)")
        r = None
        try:
            hypothesis.reproduce_failure(ver, b)(s(test))()
        except BaseException as e:
            if "last" in cur:
                key, msg, notes = cur["last"]
                r = dict(key=key, message=msg + " | case: " + "; ".join(notes))
        json.dump(r, open(out, "w"))
    if os.path.exists(out):
        os.unlink(out)
    s, to = fork_run(child, 300)
    if to:
        return dict(key="hang", message="the case did not finish")
    if not os.path.exists(out):
        return dict(key="crash", message=f"the process ended with status {s}")
    return json.load(open(out))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--known")
    ap.add_argument("--budget", type=float, default=1e9)
    ap.add_argument("--scale", type=float, default=1)
    ap.add_argument("--only", default="")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--replay")
    ap.add_argument("--modules", nargs="*", default=[])
    a = ap.parse_args()
    sys.modules["engine"] = sys.modules["__main__"]
    for m in a.modules:
        importlib.import_module(m)
    known_all = set(open(a.known).read().split("\n")) if a.known else set()
    tmp = tempfile.mkdtemp(prefix="vpy_")
    results = []
    if a.replay:
        rec = json.load(open(a.replay))
        t = [x for x in REG if x["name"] == rec["test"]][0]
        if rec.get("blob"):
            r = run_blob(t, rec["blob"], set(), f"{tmp}/o")
        else:
            s, to = fork_run(lambda: worker(t, rec["seed"], rec["worker"], rec["n"], set(), f"{tmp}/o", time.time() + 600), 700)
            r = json.load(open(f"{tmp}/o")).get("failure") if os.path.exists(f"{tmp}/o") else dict(key="crash", message=str(s))
        print("FAILED" if r else "PASSED", r or "")
        return 1 if r else 0
    for t in REG:
        if t["prop"] != a.prop or (a.only and a.only != t["name"]):
            continue
        t0 = time.time()
        planned = max(1, int((t["thorough"] if a.tier == "thorough" else t["quick"]) * a.scale))
        W = min(a.workers, planned)
        known = {k.split("/")[2] for k in known_all if k.startswith(f"{t['prop']}/{t['name']}/")}
        per = [planned // W + (1 if k < planned % W else 0) for k in range(W)]
        pids = {}
        deadline = t0 + a.budget
        for w in range(W):
            out = f"{tmp}/{t['name']}_{w}"
            pid = os.fork()
            if pid == 0:
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                os.dup2(os.open(out + ".err", os.O_WRONLY | os.O_CREAT), 2)
                try:
                    worker(t, a.seed, w, per[w], known, out, deadline)
                    os._exit(0)
                except BaseException:
                    traceback.print_exc()
                    sys.stderr.flush()
                finally:
                    os._exit(5)
            pids[pid] = w
        status = {}
        hard = deadline + 120
        while pids:
            p, s = os.waitpid(-1, os.WNOHANG)
            if p:
                status[pids.pop(p)] = s
            else:
                if time.time() > hard:
                    for p in list(pids):
                        os.kill(p, signal.SIGKILL)
                        os.waitpid(p, 0)
                        status[pids.pop(p)] = -9
                time.sleep(0.01)
        agg = dict(name=t["name"], planned=planned, cases=0, discarded=0, nontrivial=0, labels={}, known={}, samples=[])
        hashes, fails = set(), []
        for w in range(W):
            out = f"{tmp}/{t['name']}_{w}"
            if not os.path.exists(out):
                err = open(out + ".err").read()[-800:] if os.path.exists(out + ".err") else ""
                fails.append(dict(key="crash", message=f"worker ended with status {status.get(w)} {err}", blob=None, worker=w, n=per[w]))
                continue
            r = json.load(open(out))
            s = r["stats"]
            agg["cases"] += s["cases"]
            agg["discarded"] += s["discarded"]
            hashes.update(s["hashes"])
            for k, v in s["labels"].items():
                agg["labels"][k] = agg["labels"].get(k, 0) + v
            for k, v in s["known"].items():
                agg["known"][k] = agg["known"].get(k, 0) + v
            if len(agg["samples"]) < 4:
                agg["samples"] += s["samples"]
            if "failure" in r:
                fails.append(r["failure"])
        agg["nontrivial"] = len(hashes)
        if fails:
            f = sorted(fails, key=lambda x: len(x["message"]))[0]
            again = 0
            for _ in range(3):
                if f.get("blob"):
                    again += run_blob(t, f["blob"], known, f"{tmp}/rb") is not None
                else:
                    o = f"{tmp}/again"
                    if os.path.exists(o):
                        os.unlink(o)
                    fork_run(lambda: worker(t, a.seed, f["worker"], f["n"], known, o, time.time() + 600), 700)
                    again += (not os.path.exists(o)) or ("failure" in json.load(open(o)))
            f["reproduced"] = again
            agg["failure"] = f
        agg["wall_s"] = time.time() - t0
        results.append(agg)
    json.dump(dict(tests=results), open(a.out, "w"))
    import shutil
    shutil.rmtree(tmp)
    return 0


if __name__ == "__main__":
    sys.exit(main())
