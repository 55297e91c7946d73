"""
Harness: runs generated cases against the code in /repo, shrinks failures, writes evidence and replay files.

A check module in `pbt.checks` defines

    ID      property identifier
    RULE    how cases are made and what makes one non-trivial (text, goes to the evidence file)
    PARTS   list of `Part`, each with a strategy of *cases* (plain Python literals) and a function judging one case
    probes  optional list of `Probe` for known findings

Outcomes: exit 0 (held), exit 1 with a VIOLATION line, any other exit is a harness error.
"""

import ast
import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import resource
import signal
import sys
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable, Optional

ROOT = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
EVIDENCE = ROOT / "evidence"
REPLAYS = EVIDENCE / "replay"


# processor time (not wall-clock time) that a single small case may take, and memory available to a worker
CASE_LIMIT = 60.0
MEMORY_LIMIT = 6 * 2**30


class Violation(Exception):
    "The property does not hold for the case."


class Discard(Exception):
    "The case lies outside the domain of the property."


class HarnessError(Exception):
    pass


@dataclass
class Outcome:
    "Result of calling the code under test."

    value: Any = None
    error: Optional[BaseException] = None

    @property
    def ok(self) -> bool:
        return self.error is None

    def describe(self) -> str:
        if self.error is not None:
            return f"raised {type(self.error).__name__}: {short(str(self.error))}"
        return f"returned {short(self.value)}"


def short(obj: Any, limit: int = 400) -> str:
    try:
        text = obj if isinstance(obj, str) else repr(obj)
    except Exception as ex:  # repr() of half-initialized objects
        text = f"<{type(obj).__name__}: repr failed with {type(ex).__name__}>"
    return text if len(text) <= limit else text[: limit - 3] + "..."


class Answered:
    "Whether the code under test has been called in the current case."

    yet = False


def call(fn: Callable[..., Any], *args: Any, **kwargs: Any) -> Outcome:
    "Calls the code under test; every exception becomes part of the observed outcome."

    Answered.yet = True
    try:
        return Outcome(value=fn(*args, **kwargs))
    except Exception as ex:
        return Outcome(error=ex)


def must(fn: Callable[..., Any], *args: Any, **kwargs: Any) -> Any:
    "Calls the code under test where the property says that it succeeds."

    Answered.yet = True
    try:
        return fn(*args, **kwargs)
    except Exception as ex:
        name = getattr(fn, "__qualname__", repr(fn))
        where = "".join(traceback.format_exception_only(type(ex), ex)).strip()
        raise Violation(f"{name}({', '.join(short(a, 160) for a in args)}) raised {short(where)}") from ex


def require(condition: bool, message: Any, *args: Any) -> None:
    if not condition:
        text = message() if callable(message) else message
        raise Violation(text.format(*(short(a) for a in args)) if args else text)


class Stats:
    "Collects what was generated."

    def __init__(self) -> None:
        self.evaluations = 0
        self.discarded = 0
        self.hashes: set[int] = set()
        self.labels: Counter[str] = Counter()
        self.samples: list[str] = []
        self._nontrivial = False

    def label(self, *names: str) -> None:
        for name in names:
            self.labels[name] += 1

    def nontrivial(self, condition: bool = True) -> None:
        "Marks the current case as non-trivial."

        if condition:
            self._nontrivial = True

    def begin(self) -> None:
        self._nontrivial = False

    def end(self, part: str, case: Any) -> None:
        self.evaluations += 1
        if self._nontrivial:
            text = f"{part}: {case!r}"
            digest = int.from_bytes(hashlib.blake2b(text.encode("utf-8", "surrogatepass"), digest_size=8).digest(), "big")
            if digest not in self.hashes:
                self.hashes.add(digest)
                # keep a sample now and then
                if len(text) <= 1500 and len(self.samples) < 8 and len(self.hashes) % 61 == 5:
                    self.samples.append(text)


@dataclass
class Part:
    """
    :param name: Identifies the part in replay files.
    :param strategy: Zero-argument function that returns a Hypothesis strategy for cases.
    :param run: Judges one case, raises `Violation` if the property fails.
    :param quick: Number of cases in the quick tier (over all shards).
    :param thorough: Number of cases in the thorough tier.
    :param exhaustive: Zero-argument function that yields cases to run in addition (a finite list).
    """

    name: str
    strategy: Optional[Callable[[], Any]]
    run: Callable[[Any, Stats], None]
    quick: int = 1000
    thorough: int = 20000
    exhaustive: Optional[Callable[[], Any]] = None


@dataclass
class Probe:
    """
    Re-examines a known finding.

    :param key: Identifier in the known-findings file.
    :param run: Returns a description if the finding is still present or None if it is not.
    """

    key: str
    run: Callable[[], Optional[str]]


def load_check(check_id: str) -> Any:
    return importlib.import_module(f"pbt.checks.{check_id.lower()}")


@dataclass
class ShardResult:
    part: str
    stats: Any
    failure: Optional[tuple[str, str]] = None  # repr of case, message
    error: Optional[str] = None
    timed_out: bool = False
    wall: float = 0.0


class _Endless(BaseException):
    pass


def _on_timer(signum: int, frame: Any) -> None:
    raise _Endless()


def escaped_from_repo(ex: BaseException) -> bool:
    "True if the innermost Python frame of the harness called into the library and the library raised."

    tb = ex.__traceback__
    last = None
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(str(ROOT / "pbt")):
            last = False
        elif name.startswith(str(REPO / "strong_typing")):
            last = True
        tb = tb.tb_next
    return bool(last)


def unexpected(ex: BaseException) -> Optional[str]:
    """
    What an exception that the judging function did not expect says about the code under test, if anything: it comes out
    of the library, or it is due to an answer of the library that has not the shape that every answer should have.
    """

    name = short("".join(traceback.format_exception_only(type(ex), ex)).strip())
    if escaped_from_repo(ex):
        return f"unexpected exception: {name}"
    if Answered.yet and isinstance(ex, Exception) and not isinstance(ex, (OSError, MemoryError, HarnessError)):
        where = traceback.extract_tb(ex.__traceback__)[-1]
        return f"an answer is not of the expected form: {name} ({Path(where.filename).name}: {where.line})"
    return None


def judge(part: Part, case: Any, stats: Stats) -> None:
    stats.begin()
    Answered.yet = False
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_LIMIT)
    try:
        part.run(case, stats)
    except Discard:
        stats.discarded += 1
        return
    except (Violation, HarnessError):
        raise
    except Exception as ex:
        message = unexpected(ex)
        if message is not None:
            raise Violation(message) from ex
        raise
    except _Endless:
        raise Violation(f"case does not terminate within {CASE_LIMIT} s of processor time") from None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    stats.end(part.name, case)


def run_shard(check_id: str, part_name: str, shard: int, shards: int, seed: int, count: int, budget: float) -> ShardResult:
    sys.setrecursionlimit(5000)
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    import hypothesis.internal.conjecture.engine as engine

    engine.MAX_SHRINKING_SECONDS = 60

    start = time.monotonic()
    stats = Stats()
    module = load_check(check_id)
    part = next(p for p in module.PARTS if p.name == part_name)
    last: dict[str, Any] = {}
    result = ShardResult(part=part_name, stats=stats)

    try:
        if part.exhaustive is not None:
            for index, case in enumerate(part.exhaustive()):
                if index % shards != shard:
                    continue
                try:
                    judge(part, case, stats)
                except Violation as ex:
                    result.failure = (repr(case), str(ex))
                    result.wall = time.monotonic() - start
                    return result

        if part.strategy is not None and count > 0:

            def test(case: Any) -> None:
                if not last and time.monotonic() - start > budget:
                    result.timed_out = True
                    return
                try:
                    judge(part, case, stats)
                except Violation as ex:
                    last["case"] = repr(case)
                    last["message"] = str(ex)
                    raise

            # deterministic: seeded by VERIF_SEED, the part, and the shard
            offset = int.from_bytes(hashlib.blake2b(f"{check_id}/{part_name}/{shard}".encode(), digest_size=4).digest(), "big")
            wrapped = hypothesis.seed(seed * 2**32 + offset)(
                settings(
                    max_examples=count,
                    deadline=None,
                    database=None,
                    report_multiple_bugs=False,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.generate, Phase.target, Phase.shrink),
                    print_blob=False,
                )(given(part.strategy())(test))
            )
            try:
                wrapped()
            except Violation:
                result.failure = (last["case"], last["message"])
            except hypothesis.errors.Flaky:
                # the shrunk case did not fail when run again; the failure itself was observed
                result.failure = (last["case"], last["message"] + " [depends on history]")
    except Exception:
        result.error = traceback.format_exc()
    result.wall = time.monotonic() - start
    return result


def _worker(connection: Any, args: tuple[Any, ...]) -> None:
    sys.stdout = open(os.devnull, "w")
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    result = run_shard(*args)
    connection.send(result)
    connection.close()


def run_tasks(tasks: list[tuple[Any, ...]], cpus: int) -> list[ShardResult]:
    "Runs shards in processes of their own; stops at the first failure."

    context = multiprocessing.get_context("fork")
    results: list[ShardResult] = []
    queue = list(tasks)
    running: dict[Any, tuple[Any, tuple[Any, ...]]] = {}
    stop = False
    while queue and not stop or running:
        while queue and len(running) < cpus and not stop:
            task = queue.pop(0)
            reader, writer = context.Pipe(duplex=False)
            process = context.Process(target=_worker, args=(writer, task), daemon=True)
            process.start()
            writer.close()
            running[reader] = (process, task)
        for reader in multiprocessing.connection.wait(list(running), timeout=5):
            process, task = running.pop(reader)
            try:
                result = reader.recv()
            except EOFError:
                process.join()
                result = ShardResult(part=task[1], stats=Stats(), error=f"worker for {task} ended with code {process.exitcode}")
            reader.close()
            process.join()
            results.append(result)
            if result.failure is not None:
                stop = True  # one minimal reproduction is enough
        if stop:
            for process, _ in running.values():
                process.kill()
                process.join()
            running.clear()
    return results


def known_findings() -> list[dict[str, str]]:
    path = ROOT / "known_findings.jsonl"
    if not path.exists():
        return []
    return [json.loads(line) for line in path.read_text(encoding="utf-8").splitlines() if line.strip().startswith("{")]


def replay_file(check_id: str, part: str, case: str, message: str) -> Path:
    REPLAYS.mkdir(parents=True, exist_ok=True)
    digest = hashlib.blake2b(f"{part}{case}".encode("utf-8", "surrogatepass"), digest_size=6).hexdigest()
    path = REPLAYS / f"{check_id}-{part}-{digest}.txt"
    path.write_text(
        f"# property: {check_id}\n# part: {part}\n# replay: python3-vt run.py {check_id} --replay {path}\n"
        + "".join(f"# {line}\n" for line in message.splitlines())
        + case
        + "\n",
        encoding="utf-8",
        errors="surrogatepass",
    )
    return path


def replay(check_id: str, path: str) -> int:
    text = Path(path).read_text(encoding="utf-8", errors="surrogatepass")
    lines = text.split("\n")
    part_name = next(line.removeprefix("# part: ") for line in lines if line.startswith("# part: "))
    body = [i for i, line in enumerate(lines) if not line.startswith("#")]
    case = ast.literal_eval("\n".join(lines[body[0] :]).strip())
    module = load_check(check_id)
    part = next(p for p in module.PARTS if p.name == part_name)
    stats = Stats()
    try:
        judge(part, case, stats)
    except Violation as ex:
        print(f"{ex}")
        print(f"VIOLATION property={check_id} replay={path}")
        return 1
    print(f"replay of {path}: property {check_id} holds")
    return 0


def run_check(check_id: str) -> int:
    start = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    budget = float(os.environ.get("VERIF_BUDGET", "400" if tier == "quick" else "3000"))
    module = load_check(check_id)
    only = os.environ.get("VERIF_PART")

    # known findings are re-examined, never skipped silently
    findings = [f for f in known_findings() if f.get("property") == check_id]
    listed = {f["key"]: f for f in findings if f["status"] == "known"}
    fixed = {f["key"]: f for f in findings if f["status"] == "fixed"}
    violations: list[str] = []
    known_lines: list[str] = []
    for probe in getattr(module, "probes", []):
        present = probe.run()
        if present is None:
            continue
        if probe.key in listed:
            known_lines.append(f"KNOWN-FINDING: property={check_id} {listed[probe.key]['what']}")
        else:
            violations.append(str(replay_file(check_id, "probe", repr(probe.key), present)))
            print(f"{check_id}: {present}")
    for line in known_lines:
        print(line)

    cpus = min(int(os.environ.get("VERIF_JOBS", "0")) or len(os.sched_getaffinity(0)), 8)
    shards = 8  # fixed, so that what is generated does not depend on the number of processors
    tasks = []
    for part in module.PARTS:
        if only and part.name != only:
            continue
        total = int((part.quick if tier == "quick" else part.thorough) * scale)
        per_shard = (total + shards - 1) // shards if part.strategy is not None else 0
        for shard in range(shards):
            tasks.append((check_id, part.name, shard, shards, seed, per_shard, budget))

    if getattr(module, "before_run", None):
        module.before_run()
    results = run_tasks(tasks, cpus)

    errors = [r for r in results if r.error is not None]
    labels: Counter[str] = Counter()
    hashes: set[int] = set()
    samples: list[str] = []
    evaluations = discarded = 0
    parts: dict[str, dict[str, Any]] = {}
    for r in sorted(results, key=lambda r: r.part):
        evaluations += r.stats.evaluations
        discarded += r.stats.discarded
        labels.update(r.stats.labels)
        hashes |= r.stats.hashes
        entry = parts.setdefault(r.part, {"evaluations": 0, "distinct_nontrivial": 0, "seconds": 0.0, "cut_short": 0})
        entry["evaluations"] += r.stats.evaluations
        entry["distinct_nontrivial"] += len(r.stats.hashes)
        entry["seconds"] = round(entry["seconds"] + r.wall, 2)
        entry["cut_short"] += int(r.timed_out)
        have = sum(1 for s in samples if s.startswith(r.part + ":"))
        if have < 4:
            samples.extend(r.stats.samples[have : have + 1] or r.stats.samples[:1])

    status = 0
    for r in results:
        if r.failure is not None:
            case, message = r.failure
            path = replay_file(check_id, r.part, case, message)
            print(f"{check_id}/{r.part}: {message}")
            print(f"  case: {short(case, 2000)}")
            violations.append(str(path))
    for path in violations:
        print(f"VIOLATION property={check_id} replay={path}")
        status = 1

    if errors and status == 0:
        print(errors[0].error, file=sys.stderr)
        status = 2

    level = getattr(module, "LEVEL", "exploration")
    evidence = {
        "property": check_id,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(hashes),
            "rule": module.RULE,
            "samples": list(dict.fromkeys(samples))[:16],
            "discarded": discarded,
            "parts": parts,
            "labels": dict(sorted(labels.items())),
            "known_findings_present": len(known_lines),
            "fixed_findings_guarded": len(fixed),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - start, 2),
        "violations": len(violations),
    }
    EVIDENCE.mkdir(exist_ok=True)
    (EVIDENCE / f"{check_id}.json").write_text(json.dumps(evidence, indent=1, ensure_ascii=True) + "\n")
    print(
        f"{check_id}: {evaluations} cases, {len(hashes)} distinct non-trivial, {discarded} outside the domain, "
        f"{len(violations)} violations, {evidence['wall_s']} s"
    )
    return status
