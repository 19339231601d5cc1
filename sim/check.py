"""python -m sim.check PROP [--tier quick|thorough] | replay FILE | determinism PROP [n] | setup"""
import os
import sys
import traceback

from . import runner, stage


def main(argv):
    if argv[0] == "replay":
        return runner.replay(argv[1])
    base = int(os.environ.get("VERIF_SEED", "1") or 1)
    if argv[0] == "determinism":
        return runner.determinism(argv[1], base, int(argv[2]) if len(argv) > 2 else 100)
    if argv[0] == "setup":
        stage.setup()
        return 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    kw = {}
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]
        elif argv[i] == "--runs":
            kw["n_runs"] = int(argv[i + 1])
        elif argv[i] == "--wall":
            kw["wall"] = float(argv[i + 1])
        elif argv[i] == "--only":
            kw["only"] = [int(x) for x in argv[i + 1].split(",")]
        elif argv[i] == "-v":
            kw["verbose"] = True
            i -= 1
        i += 2
    if tier not in ("quick", "thorough"):
        tier = "quick"
    return runner.check(prop, tier, base, **kw)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    os._exit(code)
