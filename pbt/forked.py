"Runs functions in forked processes that inherit the state of the current one and leave it untouched."

import enum
import gc
import json
import os
import signal
import sys
import traceback
from typing import Any, Callable

from .core import Discard, HarnessError, Violation, short, unexpected

LIMIT = 30.0


def in_fork(fn: Callable[[], Any], limit: float = LIMIT) -> Any:
    "Returns what the function returns (a JSON-compatible object) when run in a child process."

    reader, writer = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            gc.disable()
            os.close(reader)
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_VIRTUAL, limit)
            try:
                data = json.dumps({"result": fn()}).encode("ascii")
            except (Violation, Discard, HarnessError):
                data = json.dumps({"error": traceback.format_exc()}).encode("ascii")
            except BaseException as ex:
                key, text = "violation", unexpected(ex)
                if text is None:
                    key, text = "error", traceback.format_exc()
                data = json.dumps({key: text}).encode("ascii")
            with os.fdopen(writer, "wb") as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(writer)
    with os.fdopen(reader, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) == signal.SIGVTALRM:
            return {"endless": limit}
        return {"signal": os.WTERMSIG(status)}
    if not data:
        raise HarnessError("forked process gave no answer")
    message = json.loads(data)
    if "error" in message:
        raise HarnessError(message["error"])
    if "violation" in message:
        raise Violation(message["violation"])
    return message["result"]


def broken(answer: dict[str, Any]) -> Exception:
    "What it means that the forked process has been ended by a signal."

    if answer.get("signal") == signal.SIGKILL:
        return HarnessError(str(answer))  # out of memory, say
    return Violation(f"the process does not come to an end or crashes: {answer}")


def describe(obj: Any, label: Callable[[type], str], depth: int = 12) -> str:
    """
    Text that is the same for equal values of the same types.

    :param label: Tells apart generated classes of the same name.
    """

    if depth <= 0:
        return "..."
    t = type(obj)
    if isinstance(obj, enum.Enum):
        return f"{label(t)}.{obj.name}"
    if isinstance(obj, (list, tuple)) and not hasattr(t, "_fields"):
        return f"{t.__name__}[{', '.join(describe(x, label, depth - 1) for x in obj)}]"
    if isinstance(obj, (set, frozenset)):
        return f"{t.__name__}{{{', '.join(sorted(describe(x, label, depth - 1) for x in obj))}}}"
    if isinstance(obj, dict):
        return f"{t.__name__}{{{', '.join(f'{describe(k, label, depth - 1)}: {describe(v, label, depth - 1)}' for k, v in obj.items())}}}"
    if t.__module__.startswith("vt"):
        from .world import extras, member_names

        names = member_names(t)
        pairs = ((n, getattr(obj, n, "<missing>")) for n in [*names, *sorted(extras(obj, names))])
        return f"{label(t)}({', '.join(f'{n}={describe(x, label, depth - 1)}' for n, x in pairs)})"
    if t is object:
        return "object"
    if t.__repr__ is object.__repr__:  # shows the address
        pairs = ((n, x) for n, x in sorted(getattr(obj, "__dict__", {}).items()))
        return f"{t.__name__}({', '.join(f'{n}={describe(x, label, depth - 1)}' for n, x in pairs)})"
    return f"{t.__name__}:{short(obj, 2000)}"
