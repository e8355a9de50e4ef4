"""
Replays a counterexample against the unmodified code of /repo.

Usage: /opt/venv/bin/python replay.py FILE

Exit status: 0 when the property holds for the recorded input, 1 when it is violated, 3 when the input does not satisfy
the assumptions of the harness.
"""

import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

sys.dont_write_bytecode = True
sys.path[:] = [REPO, HERE] + [p for p in sys.path if p not in (REPO, HERE)]


def main() -> int:
    with open(sys.argv[1], "r") as f:
        data = json.load(f)
    from symex import api

    importlib.import_module(data["module"])
    h = api.HARNESSES[(data["property"], data["harness"])]
    env = api.ConcreteEnv(data["inputs"])
    try:
        h.fn(env, **data["params"])
    except api.ReplayAssumption:
        print("ASSUMPTION not satisfied")
        return 3
    except api.ReplayViolation as ex:
        print(f"VIOLATED: {ex}")
        return 1
    except Exception:
        print("VIOLATED: exception escapes from the code under test")
        traceback.print_exc(file=sys.stdout)
        return 1
    print("HOLDS")
    return 0


if __name__ == "__main__":
    sys.exit(main())
