import importlib
import json
import os
import sys
import traceback


def main(argv):
    if not argv:
        sys.stderr.write("usage: check Cxx [--replay FILE] [--thorough]\n")
        return 2
    if argv[0] == "--selftest":
        from . import env, tree  # noqa: F401
        print("ready: paramz from %s" % env.REPO)
        return 0
    prop = argv[0].upper()
    if "--thorough" in argv:
        os.environ["VERIF_TIER"] = "thorough"
    from . import env  # noqa: F401  (imports the code under test)
    from .report import Report, Violation
    mod = importlib.import_module("checks." + prop.lower())
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rec = json.load(f)
        try:
            replay(mod, rec["replay"])
        except Violation as v:
            print("VIOLATION property=%s replay=%s" % (prop, argv[argv.index("--replay") + 1]))
            print("  " + v.msg)
            return 1
        print("%s: replay did not violate" % prop)
        return 0
    report = Report(prop, mod.LEVEL)
    report.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
    real, sys.stdout = sys.stdout, open(os.devnull, "w")   # the library prints
    try:
        mod.run(report)
    finally:
        sys.stdout = real
    return report.finish()


def detuple(x):
    return tuple(detuple(y) for y in x) if isinstance(x, list) else x


def replay(mod, payload):
    from .explore import guarded, run_history
    if "history" in payload:
        system = mod.systems()[payload["system"]]
        hist = [detuple(o) for o in payload["history"]]
        run_history(system, hist, check=True)
    else:
        fn = mod.case_functions()[payload["system"]]
        guarded(fn, "case", detuple(payload["case"]))


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
