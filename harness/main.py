import importlib
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, REPO)


def main():
    from harness import engine
    import dustmaker

    if not os.path.realpath(dustmaker.__file__).startswith(REPO + os.sep):
        sys.stderr.write("dustmaker imported from %s, not %s\n" % (dustmaker.__file__, REPO))
        return 2
    pid = sys.argv[1]
    mod = importlib.import_module("harness.props." + pid)
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return engine.replay(mod, sys.argv[3])
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    return engine.run_property(mod, tier, seed)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
