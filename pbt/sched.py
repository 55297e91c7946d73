"""
Runs functions of the library in several threads under a deterministic schedule.

Exactly one managed thread runs at a time. A thread gives way at chosen points, when it waits for a lock, and when it ends.
Points are counted in steps: the library is imported with a call to `_step_` put before each statement and after each
call, subscript, attribute access and comparison within functions, which changes nothing but gives the scheduler a say.
(CPython 3.12 may crash when several threads trace instructions, hence no `sys.settrace`.) Import this module before the
library, since locks the library makes are replaced by ones that the scheduler knows of.
"""

import _thread
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import sys
import threading
import time
from typing import Any, Callable, Optional

SHARED = (
    "dict", "list", "set", "defaultdict", "OrderedDict", "WeakKeyDictionary", "WeakValueDictionary", "CoopLock", "_local",
    "_lru_cache_wrapper",
)
FREE_AFTER = 3.0  # seconds without progress, if a thread waits for something the scheduler does not know of
STUCK_AFTER = 30.0

_current: Optional["Scheduler"] = None
_original_lock = threading.Lock
_original_rlock = threading.RLock


class Deadlock(BaseException):
    pass


class CoopLock:
    "Lock (or re-entrant lock) that tells the scheduler when a thread must wait."

    def __init__(self, reentrant: bool) -> None:
        self.reentrant = reentrant
        self.owner: Optional[int] = None
        self.depth = 0

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        me = _thread.get_ident()
        while True:
            if self.owner is None or self.reentrant and self.owner == me:
                self.owner = me
                self.depth += 1
                return True
            if not blocking:
                return False
            if _current is None or not _current.wait_for(self):
                if timeout >= 0:
                    return False
                if _current is None:
                    raise RuntimeError("lock is held outside of a schedule")
                raise Deadlock()

    def release(self) -> None:
        if self.owner is None or self.reentrant and self.owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    __enter__ = acquire

    def __exit__(self, *args: Any) -> None:
        self.release()

    def locked(self) -> bool:
        return self.owner is not None

    def _is_owned(self) -> bool:
        return self.owner == _thread.get_ident()


def _from_library() -> bool:
    frame = sys._getframe(2)
    while frame is not None and frame.f_globals.get("__name__") in ("threading", "queue"):
        frame = frame.f_back  # type: ignore
    return frame is not None and str(frame.f_globals.get("__name__", "")).startswith("strong_typing")


def install() -> None:
    if any(name.split(".")[0] == "strong_typing" for name in sys.modules):
        raise RuntimeError("library is already imported")
    threading.Lock = lambda: CoopLock(False) if _from_library() else _original_lock()  # type: ignore
    threading.RLock = lambda: CoopLock(True) if _from_library() else _original_rlock()  # type: ignore
    sys.meta_path.insert(0, Finder())


# --- instrumentation ---

_functions: list[tuple[str, frozenset[str]]] = []  # module and names used


class Instrument(ast.NodeTransformer):
    def __init__(self, module: str) -> None:
        self.module = module
        self.function: Optional[int] = None

    def visit_FunctionDef(self, node: Any) -> Any:
        outer = self.function
        if outer is None:
            names = frozenset(n.id for n in ast.walk(node) if isinstance(n, ast.Name))
            self.function = len(_functions)
            _functions.append((self.module, names))
        body = []
        for i, statement in enumerate(node.body):
            is_doc = i == 0 and isinstance(statement, ast.Expr) and isinstance(statement.value, ast.Constant)
            body.extend([statement] if is_doc else self.statements([statement]))
        node.body = body
        self.function = outer
        return node

    def visit_ClassDef(self, node: Any) -> Any:
        outer, self.function = self.function, None
        self.generic_visit(node)
        self.function = outer
        return node

    def visit_Lambda(self, node: Any) -> Any:
        if self.function is not None:
            node.body = self.visit(node.body)
        return node

    def statements(self, nodes: list[Any]) -> list[Any]:
        result = []
        for node in nodes:
            new = self.visit(node)
            if not isinstance(node, (ast.Global, ast.Nonlocal, ast.FunctionDef, ast.ClassDef)):
                result.append(ast.copy_location(ast.Expr(self.wrap(ast.Constant(None), node)), node))
            result.append(new)
        return result

    def generic_visit(self, node: Any) -> Any:
        if self.function is None:
            return super().generic_visit(node)
        for name, old in ast.iter_fields(node):
            if name in ("annotation", "returns", "decorator_list", "pattern", "type_params"):
                continue
            if isinstance(old, list):
                if old and isinstance(old[0], ast.stmt):
                    setattr(node, name, self.statements(old))
                else:
                    setattr(node, name, [self.visit(x) if isinstance(x, ast.AST) else x for x in old])
            elif isinstance(old, ast.AST):
                setattr(node, name, self.visit(old))
        if isinstance(node, (ast.Call, ast.Subscript, ast.Attribute, ast.Compare)) and isinstance(getattr(node, "ctx", ast.Load()), ast.Load):
            return self.wrap(node, node)
        return node

    def wrap(self, value: Any, at: Any) -> Any:
        call = ast.Call(ast.Name("_step_", ast.Load()), [value, ast.Constant(self.function)], [])
        return ast.fix_missing_locations(ast.copy_location(call, at))


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname: str) -> Any:
        path = self.get_filename(fullname)
        tree = Instrument(fullname).visit(ast.parse(self.get_data(path), path))
        return compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True)

    def exec_module(self, module: Any) -> None:
        module.__dict__["_step_"] = step
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name: str, path: Any, target: Any = None) -> Any:
        if name.split(".")[0] != "strong_typing":
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def step(value: Any, function: int) -> Any:
    if _current is not None:
        me = _current.idents.get(_thread.get_ident())
        if me is not None:
            _current.step(me, function)
    return value


class Scheduler:
    """
    :param tasks: Functions to run, one per thread.
    :param plan: Segments (thread, number of steps); after the last one threads run to their end in order.
    """

    def __init__(self, tasks: list[Callable[[], Any]], plan: list[tuple[int, int]]) -> None:
        self.tasks = tasks
        self.plan = list(plan)
        self.gates = [_thread.allocate_lock() for _ in tasks]
        for gate in self.gates:
            gate.acquire()
        self.state = ["ready" for _ in tasks]
        self.waiting: list[Optional[CoopLock]] = [None for _ in tasks]
        self.idents: dict[int, int] = {}
        self.results: list[Any] = [None for _ in tasks]
        self.counts = [0 for _ in tasks]
        self.hot: list[list[int]] = [[] for _ in tasks]
        self.switches = 0
        self.blocked = 0
        self.quota = 0
        self.free = False
        self.dead = False
        self.progress = time.monotonic()
        self.finished = threading.Event()
        self.hot_functions: dict[int, bool] = {}

    # --- control ---

    def runnable(self) -> list[int]:
        return [i for i, s in enumerate(self.state) if s == "ready" and (self.waiting[i] is None or not self.waiting[i].locked())]  # type: ignore

    def choose(self, me: int) -> Optional[int]:
        "Next thread to run when the current one cannot or should not go on."

        ready = self.runnable()
        while self.plan:
            target, count = self.plan.pop(0)
            if target in ready and count > 0:
                self.quota = count
                return target
        self.quota = -1
        return ready[0] if ready else None

    def switch(self, me: int, target: Optional[int], wait: bool) -> None:
        if target == me:
            return
        self.switches += 1
        if target is not None:
            self.gates[target].release()
        if wait:
            self.gates[me].acquire()
            if self.dead:
                raise Deadlock()

    def step(self, me: int, function: int) -> None:
        if self.is_hot(function):
            self.hot[me].append(self.counts[me])
        self.counts[me] += 1
        self.progress = time.monotonic()
        if self.free or self.quota < 0:
            return
        self.quota -= 1
        if self.quota <= 0:
            self.switch(me, self.choose(me), True)

    def wait_for(self, lock: CoopLock) -> bool:
        ident = _thread.get_ident()
        if ident not in self.idents:
            return False
        me = self.idents[ident]
        if self.free:
            time.sleep(0.001)
            return time.monotonic() - self.progress < STUCK_AFTER / 2
        self.blocked += 1
        self.waiting[me] = lock
        target = self.choose(me)
        if target is None:
            self.dead = True
            for i, gate in enumerate(self.gates):
                if i != me and self.state[i] == "ready":
                    self.gates[i].release()
            return False
        self.switch(me, target, True)
        self.waiting[me] = None
        return True

    # --- threads ---

    def is_hot(self, function: int) -> bool:
        "Whether a function refers to state that threads share (a hint where to switch)."

        known = self.hot_functions.get(function)
        if known is None:
            module, names = _functions[function]
            scope = sys.modules[module].__dict__
            known = any(
                type(scope.get(name)).__name__ in SHARED for name in names if name in scope
            )
            self.hot_functions[function] = known
        return known

    def thread(self, me: int) -> None:
        self.idents[_thread.get_ident()] = me
        self.gates[me].acquire()
        try:
            if self.dead:
                raise Deadlock()
            self.results[me] = self.tasks[me]()
        except Deadlock:
            self.results[me] = "deadlock"
        except BaseException as ex:  # tasks report errors by themselves
            self.results[me] = f"harness: {ex!r}"
        self.state[me] = "done"
        if all(s == "done" for s in self.state):
            self.finished.set()
        elif not self.dead and not self.free:
            target = self.choose(me)
            if target is not None:
                self.switch(me, target, False)
            elif any(s == "ready" for s in self.state):
                self.dead = True
                for i, s in enumerate(self.state):
                    if s == "ready":
                        self.gates[i].release()

    def run(self) -> list[Any]:
        global _current
        _current = self
        threads = [threading.Thread(target=self.thread, args=(i,), daemon=True) for i in range(len(self.tasks))]
        for t in threads:
            t.start()
        first = self.choose(-1)
        assert first is not None
        self.gates[first].release()
        while not self.finished.wait(0.2):
            idle = time.monotonic() - self.progress
            if idle > FREE_AFTER and not self.free:
                self.free = True
                for i, s in enumerate(self.state):
                    if s == "ready":
                        try:
                            self.gates[i].release()
                        except RuntimeError:
                            pass
            if idle > STUCK_AFTER:
                break
        _current = None
        return [r if self.state[i] == "done" else "stuck" for i, r in enumerate(self.results)]
