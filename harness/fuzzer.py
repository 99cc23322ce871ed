"""Coverage-guided phase of the thorough tier: atheris (libFuzzer) mutates the byte string behind a
Hypothesis strategy, with dustmaker's bytecode instrumented for edge coverage and comparisons.

usage: python -m harness.fuzzer PROPERTY SUB SEED SECONDS RESULT
"""
import importlib
import os
import pickle
import random
import resource
import shutil
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, REPO)


def shrink(buf, attempt, budget):
    """Greedy removal of chunks and zeroing of bytes while the case still fails."""
    end = time.monotonic() + budget
    size = max(1, len(buf) // 2)
    while size and time.monotonic() < end:
        i, progress = 0, False
        while i < len(buf) and time.monotonic() < end:
            cand = buf[:i] + buf[i + size:]
            zero = buf[:i] + bytes(min(size, len(buf) - i)) + buf[i + size:]
            if attempt(cand):
                buf, progress = cand, True
            elif zero != buf and attempt(zero):
                buf, progress = zero, True
                i += size
            else:
                i += size
        if not progress or size == 1:
            if size == 1:
                break
            size //= 2
    return buf


def main():
    pid, sub_name, seed, seconds, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    import atheris
    with atheris.instrument_imports(include=["dustmaker"], enable_loader_override=False):
        import dustmaker  # noqa
        import dustmaker.cmd.main  # noqa
    from harness import engine
    import hypothesis
    from hypothesis import HealthCheck, given, settings
    mod = importlib.import_module("harness.props." + pid)
    sub = next(s for s in mod.SUBS if s.name == sub_name)
    t = engine.Tracker()
    work = tempfile.mkdtemp(prefix="verif-fuzz-")
    state = {"fail": None, "msg": None, "tb": None, "case": None}

    def body(case):
        state["case"] = case
        try:
            engine.run_case(sub.fn, case, t)
        except engine.Violation as e:
            r = repr(case)
            if state["fail"] is None or len(r) <= len(state["fail"]):
                state["fail"], state["msg"] = r, str(e)
                state["tb"] = "".join(traceback.format_exception(e))[-4000:]
            raise

    test = settings(max_examples=1, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                    verbosity=hypothesis.Verbosity.quiet)(given(sub.strategy() if callable(sub.strategy) else sub.strategy)(body))
    one = test.hypothesis.fuzz_one_input
    end = time.monotonic() + seconds

    def finish(err=None):
        res = {"sub": sub_name, "shard": "fuzz-%d" % seed, "evaluations": t.evaluations, "digests": t.nontrivial_digests,
               "labels": dict(t.labels, **{"coverage-guided": t.evaluations}), "samples": t.samples, "fail": state["fail"],
               "msg": state["msg"], "tb": state["tb"], "err": err,
               "err_case": engine.short(state["case"], 2000) if err else None, "stopped": False}
        with open(out + ".tmp", "wb") as f:
            pickle.dump(res, f)
        os.rename(out + ".tmp", out)
        shutil.rmtree(work, ignore_errors=True)
        os._exit(0)

    def attempt(buf):
        try:
            one(buf)
        except engine.Violation:
            return True
        except Exception:  # noqa
            pass
        return False

    def target(buf):
        if time.monotonic() > end:
            finish()
        try:
            one(buf)
        except engine.Violation:
            shrink(buf, attempt, 40)
            finish()
        except BaseException as e:  # noqa
            finish("".join(traceback.format_exception(e))[-6000:])

    # libFuzzer starts from tiny inputs; the strategies want a few hundred bytes
    rnd = random.Random("%s/%s/%d" % (pid, sub_name, seed))
    corpus = os.path.join(work, "corpus")
    os.mkdir(corpus)
    for i in range(40):
        with open(os.path.join(corpus, "%d" % i), "wb") as f:
            f.write(rnd.randbytes(rnd.choice([64, 256, 1024, 4096])))
    atheris.Setup([sys.argv[0], "-seed=%d" % (seed & 0x7FFFFFFF or 1), "-max_len=8192", "-len_control=0", "-timeout=0",
                   "-rss_limit_mb=0", "-artifact_prefix=%s/" % work, "-verbosity=0", "-print_final_stats=0",
                   "-max_total_time=%d" % int(seconds + 120), corpus], target)
    atheris.Fuzz()
    finish()


if __name__ == "__main__":
    main()
