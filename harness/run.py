"""Run one property's check:  run.py C06 [quick|thorough]."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402


UNREADABLE = (TypeError, ValueError, LookupError, ArithmeticError)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if os.environ.get("VERIF_CHILD") != "1":
        env = dict(os.environ)
        env.update(common.ENV)
        env["VERIF_CHILD"] = "1"
        os.execve(sys.executable, [sys.executable, *sys.argv], env)
    sys.path.insert(0, common.REPO_SRC)
    mod = importlib.import_module(prop.lower())
    check = common.Check(prop, tier, seed, getattr(mod, "LEVEL", "model_checking"))
    try:
        mod.run(check)
        rc = check.finish()
    except common.MachineryError as exc:
        print("MACHINERY ERROR:", exc)
        rc = 2
    except Exception as exc:  # noqa: BLE001
        traceback.print_exc()
        frames = traceback.extract_tb(exc.__traceback__)
        inside = [f for f in frames if f.filename.startswith(common.REPO_SRC)]
        if inside:
            # the drivers only make valid calls outside a recorded event
            last = inside[-1]
            check.report(f"valid call raised {type(exc).__name__} in {last.name}",
                         {"traceback": traceback.format_exc()})
            rc = check.finish()
        elif isinstance(exc, UNREADABLE):
            # the drivers read everything the specification allows the code to return; a result
            # they cannot read (missing, of another type or shape) is outside the specification
            check.report(f"result outside the specification ({type(exc).__name__})",
                         {"traceback": traceback.format_exc()})
            rc = check.finish()
        else:
            rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


main()
