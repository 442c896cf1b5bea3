import argparse
import importlib
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--case", help="a JSON case, evaluated like a replay file's")
    a = ap.parse_args()
    from . import core
    from .checks import REGISTRY
    modname, cls = REGISTRY[a.id]
    check = getattr(importlib.import_module("tfv.checks." + modname), cls)()
    if a.case:
        import json
        import tempfile
        with tempfile.NamedTemporaryFile("w", suffix=".json") as fp:
            json.dump({"case": json.loads(a.case)}, fp)
            fp.flush()
            return core.replay(check, fp.name)
    if a.replay:
        return core.replay(check, os.path.abspath(a.replay))
    return core.main(check, a.tier, a.seed)


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
