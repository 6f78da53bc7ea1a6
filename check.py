"""entry point: check.py PROPERTY [quick|thorough] | check.py PROPERTY --replay FILE"""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.environ.get("MC_REPO", "/repo"), HERE]


def main():
    prop = sys.argv[1]
    if prop == "--selftest":
        import multidict, numpy, pandas, pdr  # noqa: the interpreter the checks need is there

        print("pdr from", os.path.dirname(pdr.__file__), "numpy", numpy.__version__, "pandas", pandas.__version__)
        return 0
    arg = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    from mc import core

    try:
        module = importlib.import_module(f"checks.{prop.lower()}")
        if arg == "--replay":
            return core.replay(prop, module, sys.argv[3])
        return core.run_check(prop, module, arg)
    except Exception:
        # the code under test could not even be imported / driven
        traceback.print_exc(file=sys.stdout)
        path = os.path.join(HERE, "evidence", f"{prop}-error.txt")
        with open(path, "w") as f:
            f.write(traceback.format_exc())
        print(f"VIOLATION property={prop} replay={path}")
        return 1


if __name__ == "__main__":
    sys.exit(main())
