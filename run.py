"Runs one check: run.py ID [--replay FILE]"

import os
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent
REPO = os.environ.get("VERIF_REPO", "/repo")


def main() -> int:
    # one interpreter state for all runs: no bytecode in /repo, no hash randomization, UTC
    wanted = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC", "PYTHONUTF8": "1"}
    if any(os.environ.get(k) != v for k, v in wanted.items()):
        os.environ.update(wanted)
        os.environ.pop("PYTHONPATH", None)
        os.execv(sys.executable, [sys.executable, *sys.argv])
    sys.dont_write_bytecode = True
    sys.path[:0] = [REPO, str(ROOT)]
    os.chdir(ROOT)

    from pbt import core

    check_id = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return core.replay(check_id, sys.argv[3])
    try:
        return core.run_check(check_id)
    except Exception:
        import traceback

        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
