"""python3-vt run.py Cxx [--tier quick|thorough] [--sub a,b] [--scale x] [--verbose] [--replay FILE]"""

import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


def boot():
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, *sys.argv])
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.path[:0] = [HERE, REPO]


if __name__ == "__main__":
    boot()
    try:
        import dissect.cstruct

        if not os.path.abspath(dissect.cstruct.__file__).startswith(os.path.abspath(REPO) + os.sep):
            raise ImportError(f"not the code under test: {dissect.cstruct.__file__}")
        from lib import harness

        prop = sys.argv[1]
        rc = harness.main(prop, importlib.import_module(f"checks.{prop.lower()}"), sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
