"""Search engine: runs the sub-checks of a property over generated cases.

A property module defines
    ID, RULE (what counts as non-trivial) and SUBS = [Sub(...), ...].
Each Sub has a Hypothesis strategy producing a *case* (a plain Python literal) and a function
fn(case, t) that raises Violation when the oracle is contradicted.
"""
import ast
import contextlib
import hashlib
import json
import os
import pickle
import resource
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
OUT = os.environ.get("VERIF_OUT") or VERIF
PKG = os.path.join(REPO, "dustmaker") + os.sep

NPROC = int(os.environ.get("VERIF_JOBS", "8"))
MEM_LIMIT = 3 << 30


class Violation(AssertionError):
    """The oracle was contradicted."""


class _Abort(BaseException):
    """Stop a shard (deadline or shrink budget reached)."""


class _HangSuspect(BaseException):
    """Per-case timer fired."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, what):
    """Compare canonical views and point at the first difference."""
    if got == want:
        return
    raise Violation("%s differs: %s" % (what, first_diff(got, want)))


def first_diff(got, want, path=""):
    if type(got) is type(want) and isinstance(got, dict):
        for k in want:
            if k not in got:
                return "%s[%r] missing (expected %s)" % (path, k, short(want[k]))
            if got[k] != want[k]:
                return first_diff(got[k], want[k], "%s[%r]" % (path, k))
        for k in got:
            if k not in want:
                return "%s[%r] unexpected (%s)" % (path, k, short(got[k]))
    if type(got) is type(want) and isinstance(got, (list, tuple)):
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                return first_diff(a, b, "%s[%d]" % (path, i))
        return "%s length %d, expected %d" % (path, len(got), len(want))
    return "%s got %s, expected %s" % (path, short(got), short(want))


def short(v, n=300):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


@contextlib.contextmanager
def observing(what="result"):
    """Inspecting objects made by the code under test: anything odd about them is its fault."""
    try:
        yield
    except (Violation, MemoryError, _Abort, _HangSuspect):
        raise
    except Exception as e:  # noqa
        raise Violation("%s is malformed: %s: %s" % (what, type(e).__name__, e)) from e


def raises(exc, what, fn, *args, **kwargs):
    """fn must raise one of exc; returns the exception."""
    try:
        r = fn(*args, **kwargs)
    except exc as e:
        return e
    except (Violation, MemoryError):
        raise
    except Exception as e:
        raise Violation("%s: raised %s (%s) instead of %s" % (what, type(e).__name__, e, _names(exc))) from e
    raise Violation("%s: accepted (returned %s) instead of raising %s" % (what, short(r, 80), _names(exc)))


def _names(exc):
    return "/".join(x.__name__ for x in exc) if isinstance(exc, tuple) else exc.__name__


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough=None, max_shards=8):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough or quick * 12
        self.max_shards = max_shards


class Tracker:
    """Per-shard statistics."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial_digests = set()
        self.labels = {}
        self.samples = []
        self._nt = False

    def begin(self):
        self._nt = False

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def nontrivial(self, cond=True):
        if cond:
            self._nt = True

    def end(self, case):
        self.evaluations += 1
        if self._nt:
            r = repr(case)
            d = hashlib.blake2b(r.encode("utf-8", "backslashreplace"), digest_size=8).digest()
            if d not in self.nontrivial_digests:
                self.nontrivial_digests.add(d)
                if len(self.samples) < 2 and len(r) < 3000 or len(self.samples) < 1:
                    self.samples.append(r if len(r) <= 1500 else r[:1500] + "...")


# ---------------------------------------------------------------------------------------------
# running one case


def _in_sut(tb):
    while tb is not None:
        fname = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fname.startswith(PKG):
            return True
        tb = tb.tb_next
    return False


LINE_BUDGET = 120_000_000


def _run_with_line_budget(fn, case, t):
    """Re-run a suspected hang under a deterministic budget of executed source lines."""
    mon = sys.monitoring
    tool = mon.DEBUGGER_ID
    count = [0]

    def on_line(code, line):
        if not code.co_filename.startswith(PKG):
            return mon.DISABLE
        count[0] += 1
        if count[0] > LINE_BUDGET:
            count[0] = 0
            raise Violation("does not terminate: more than %d source lines executed" % LINE_BUDGET)

    mon.use_tool_id(tool, "verif")
    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)
    try:
        fn(case, t)
    finally:
        mon.set_events(tool, 0)
        mon.register_callback(tool, mon.events.LINE, None)
        mon.free_tool_id(tool)


_HANG = {"limit": 20.0}


def run_case(fn, case, t):
    """Run the oracle on one case. Raises Violation, or lets harness errors through."""
    t.begin()

    def on_alarm(_sig, _frm):
        raise _HangSuspect()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, _HANG["limit"])
    try:
        try:
            try:
                fn(case, t)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except _HangSuspect:
            signal.signal(signal.SIGALRM, signal.SIG_IGN)
            t.label("slow-case")
            try:
                _run_with_line_budget(fn, case, t)
            except Violation:
                _HANG["limit"] = 4.0
                raise
    except Violation:
        raise
    except (_Abort, _HangSuspect):
        raise
    except Exception as e:
        if _is_hypothesis_control(e):
            raise
        if _in_sut(e.__traceback__):
            loc = _sut_location(e.__traceback__)
            raise Violation("unexpected %s from dustmaker (%s): %s" % (type(e).__name__, loc, e)) from e
        if isinstance(e, (AttributeError, LookupError, TypeError, ValueError, ArithmeticError)):
            # What the code handed out cannot be used as documented (a missing attribute or enum member, None for a number ...).
            at = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation("result cannot be used as documented: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(at.filename), at.lineno)) from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    t.end(case)


def _is_hypothesis_control(e):
    return type(e).__module__.startswith("hypothesis")


def _sut_location(tb):
    loc = "?"
    while tb is not None:
        fname = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fname.startswith(PKG):
            loc = "%s:%s" % (fname[len(PKG):], tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return loc


# ---------------------------------------------------------------------------------------------
# shards


def _shard_seed(prop, sub, shard, seed):
    h = hashlib.sha256(("%s/%s/%d/%d" % (prop, sub, shard, seed)).encode()).digest()
    return int.from_bytes(h[:8], "little")


def run_shard(prop_id, sub, shard, n, seed, deadline, fuzz_seconds=0):
    """Runs in a worker process; returns a picklable result."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    t = Tracker()
    state = {"fail": None, "msg": None, "first": None, "case": None, "err": None}
    shrink_budget = 40.0

    def body(case):
        now = time.monotonic()
        if now > deadline:
            raise _Abort()
        if state["first"] is not None and now - state["first"] > shrink_budget:
            raise _Abort()
        state["case"] = case
        try:
            run_case(sub.fn, case, t)
        except Violation as e:
            if state["first"] is None:
                state["first"] = time.monotonic()
            r = repr(case)
            if state["fail"] is None or len(r) <= len(state["fail"]):
                state["fail"], state["msg"] = r, str(e)
                state["tb"] = "".join(traceback.format_exception(e))[-4000:]
            raise

    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink],
        report_multiple_bugs=False, print_blob=False,
        verbosity=hypothesis.Verbosity.quiet,
    )(given(sub.strategy() if callable(sub.strategy) else sub.strategy)(body))
    test = hypothesis.seed(_shard_seed(prop_id, sub.name, shard, seed))(test)
    stopped = False
    try:
        test()
    except _Abort:
        stopped = state["fail"] is None
    except Violation:
        pass
    except BaseException as e:
        if state["fail"] is None:
            state["err"] = "".join(traceback.format_exception(e))[-6000:]
            state["err_case"] = short(state["case"], 2000)
    return {
        "sub": sub.name, "shard": shard, "evaluations": t.evaluations,
        "digests": t.nontrivial_digests, "labels": t.labels, "samples": t.samples,
        "fail": state["fail"], "msg": state["msg"], "tb": state.get("tb"),
        "err": state["err"], "err_case": state.get("err_case"), "stopped": stopped,
    }


def _worker(path, args):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except Exception:
        pass
    # stdout/stderr of the code under test must not reach the check's own output
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    try:
        res = run_shard(*args)
    except BaseException as e:
        res = {"sub": args[1].name, "shard": args[2], "evaluations": 0, "digests": set(), "labels": {},
               "samples": [], "fail": None, "msg": None, "tb": None,
               "err": "".join(traceback.format_exception(e))[-6000:], "err_case": None, "stopped": False}
    with open(path + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(path + ".tmp", path)
    os._exit(0)


def run_property(mod, tier, seed):
    start = time.monotonic()
    limit = float(os.environ.get("VERIF_DEADLINE", "600" if tier == "quick" else "3000"))
    deadline = start + limit
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    only = os.environ.get("VERIF_SUB")
    tasks = []
    for sub in mod.SUBS:
        if only and sub.name != only:
            continue
        total = max(1, int((2 * sub.quick if tier == "quick" else sub.thorough) * scale))
        shards = max(1, min(sub.max_shards, NPROC, total))
        for s in range(shards):
            n = total // shards + (1 if s < total % shards else 0)
            tasks.append((mod.ID, sub, s, n, seed, deadline))
    # interleave so that every sub-check starts early
    tasks.sort(key=lambda a: a[2])
    results, running, violation, died = [], {}, None, []
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        # scratch files of workers that are killed go away with the run
        tempfile.tempdir = os.environ["TMPDIR"] = os.path.join(tmp, "scratch")
        os.mkdir(tempfile.tempdir)
        i = 0
        pending = list(tasks)
        while pending or running:
            while pending and len(running) < NPROC and violation is None:
                args = pending.pop(0)
                path = os.path.join(tmp, "r%d" % i)
                i += 1
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0)
                    except OSError:
                        pass
                    _worker(path, args)
                running[pid] = (path, args)
            if violation is not None:
                pending = []
            pid, status = os.waitpid(-1, 0)
            if pid not in running:
                continue
            path, args = running.pop(pid)
            if os.path.exists(path):
                with open(path, "rb") as f:
                    res = pickle.load(f)
                results.append(res)
                if res["fail"] is not None and violation is None:
                    violation = res
                    for p in running:
                        try:
                            os.kill(p, signal.SIGKILL)
                        except OSError:
                            pass
            elif violation is None:
                died.append("%s shard %d: worker died (status %d)" % (args[1].name, args[2], status))
        if tier != "quick" and violation is None:
            violation = fuzz_phase(mod, seed, tmp, only, deadline, results, died)
    wall = time.monotonic() - start
    return finish(mod, tier, seed, results, violation, died, wall)


FUZZ_SECONDS = 120


def fuzz_phase(mod, seed, tmp, only, deadline, results, died):
    """Thorough tier: coverage-guided search behind the same strategies and oracles (fuzzer.py)."""
    secs = float(os.environ.get("VERIF_FUZZ", FUZZ_SECONDS))
    subs = [s for s in mod.SUBS if not only or s.name == only]
    # at least two processes per sub-check, more when there are cores to spare
    rounds = max(2, NPROC // len(subs))
    pending = [(s, seed * 100 + r) for r in range(rounds) for s in subs] if secs > 0 else []
    running, violation = {}, None
    while (pending or running) and violation is None:
        while pending and len(running) < NPROC and time.monotonic() < deadline:
            s, fseed = pending.pop(0)
            path = os.path.join(tmp, "f-%s-%d" % (s.name, fseed))
            p = subprocess.Popen([sys.executable, "-B", os.path.join(VERIF, "harness", "fuzzer.py"), mod.ID, s.name, str(fseed), str(secs), path],
                                 cwd=VERIF, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                 stderr=None if os.environ.get("VERIF_DEBUG") else subprocess.DEVNULL)
            running[p] = (path, s)
        if not running:
            break
        time.sleep(0.5)
        for p in [p for p in running if p.poll() is not None]:
            path, s = running.pop(p)
            if os.path.exists(path):
                with open(path, "rb") as f:
                    res = pickle.load(f)
                results.append(res)
                if res["fail"] is not None and violation is None:
                    violation = res
            else:
                died.append("%s: fuzzer died (status %d)" % (s.name, p.returncode))
    for p in running:
        p.kill()
    return violation


def finish(mod, tier, seed, results, violation, died, wall):
    digests, labels, samples, evals, per_sub = set(), {}, [], 0, {}
    for r in sorted(results, key=lambda r: (r["sub"], str(r["shard"]))):
        evals += r["evaluations"]
        digests |= {(r["sub"], d) for d in r["digests"]}
        for k, v in r["labels"].items():
            key = r["sub"] + ":" + k
            labels[key] = labels.get(key, 0) + v
        ps = per_sub.setdefault(r["sub"], {"evaluations": 0, "samples": []})
        ps["evaluations"] += r["evaluations"]
        if len(ps["samples"]) < 2:
            ps["samples"] += r["samples"][: 2 - len(ps["samples"])]
    for k, ps in per_sub.items():
        samples += ["%s: %s" % (k, s) for s in ps["samples"]]
    errors = [r for r in results if r["err"]] if violation is None else []
    ev = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": len(digests), "rule": mod.RULE,
            "samples": samples[:12] or ["(none)"],
            "per_subcheck": {k: v["evaluations"] for k, v in per_sub.items()},
            "labels": dict(sorted(labels.items())),
            "stopped_early": sorted({r["sub"] for r in results if r["stopped"]}),
        },
        "wall_s": round(wall, 2),
        "violations": [],
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
    }
    code = 0
    if violation is not None:
        rdir = os.path.join(OUT, "replays")
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, "%s-%s.json" % (mod.ID, violation["sub"]))
        with open(rpath, "w") as f:
            json.dump({"property": mod.ID, "sub": violation["sub"], "case": violation["fail"],
                       "message": violation["msg"], "seed": seed, "shard": violation["shard"],
                       "trace": violation["tb"]}, f, indent=1)
        ev["violations"] = [{"sub": violation["sub"], "message": violation["msg"][:2000],
                             "replay": rpath, "case": violation["fail"][:2000]}]
        print("%s/%s: %s" % (mod.ID, violation["sub"], violation["msg"][:1500]))
        print("case: %s" % violation["fail"][:1500])
        print("VIOLATION property=%s replay=%s" % (mod.ID, rpath))
        code = 1
    elif errors or died:
        for r in errors[:3]:
            sys.stderr.write("HARNESS ERROR in %s/%s shard %s\n%s\ncase: %s\n" % (
                mod.ID, r["sub"], r["shard"], r["err"], r["err_case"]))
        for d in died:
            sys.stderr.write("HARNESS ERROR %s %s\n" % (mod.ID, d))
        code = 2
    edir = os.path.join(OUT, "evidence")
    os.makedirs(edir, exist_ok=True)
    tmp = os.path.join(edir, ".%s.tmp" % mod.ID)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(edir, "%s.json" % mod.ID))
    if code == 0:
        print("%s: held on %d cases (%d distinct non-trivial) in %.1fs" % (mod.ID, evals, len(digests), wall))
    sys.stdout.flush()
    return code


def replay(mod, path):
    with open(path) as f:
        d = json.load(f)
    sub = next(s for s in mod.SUBS if s.name == d["sub"])
    case = ast.literal_eval(d["case"])
    try:
        run_case(sub.fn, case, Tracker())
    except Violation as e:
        traceback.print_exception(e)
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        return 1
    print("%s: replayed case holds" % mod.ID)
    return 0
