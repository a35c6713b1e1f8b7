"""Bounded exhaustive explorer.

A check is a list of *spaces*.  A space is a finite, deterministically ordered set of cases (`cases()`, a generator) and
a function `run(case, rec)` that drives the real code through the case and judges what it did against an oracle.  The
engine enumerates every case of every space, split over forked workers, and aggregates what was covered.

Nothing is sampled: the only ways a case is not executed are a violation (a worker stops after a few) or the global
deadline, and both are reported (`exhaustive` is false then).
"""

from __future__ import annotations

import gc
import hashlib
import json
import os
import pickle
import signal
import sys
import time
import traceback
import typing as t

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("DATABIND_SRC", "/repo/databind/src")

TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1

#: Give up waiting for a single case after this many seconds (a case takes milliseconds).
CASE_TIMEOUT = 60
#: Stop enumerating (reporting partial coverage) after this many seconds.
DEADLINE = {"quick": 600.0, "thorough": 6 * 3600.0}
MAX_VIOLATIONS_PER_WORKER = 3


def thorough() -> bool:
    return TIER == "thorough"


def setup_path() -> None:
    sys.dont_write_bytecode = True
    if REPO_SRC in sys.path:
        sys.path.remove(REPO_SRC)
    sys.path.insert(0, REPO_SRC)
    import warnings

    warnings.simplefilter("ignore")
    import logging

    logging.disable(logging.CRITICAL)


def h64(obj: t.Any) -> int:
    return int.from_bytes(hashlib.blake2b(repr(obj).encode("utf8", "backslashreplace"), digest_size=8).digest(), "big")


class Violation(t.NamedTuple):
    space: str
    index: int
    case: str
    message: str
    data: t.Any = None


class CaseTimeout(BaseException):
    pass


class Recorder:
    """Collects what a worker covered."""

    def __init__(self) -> None:
        self.states: t.Set[int] = set()
        self.transitions = 0
        self.validated = 0
        self.outcomes: t.Dict[str, int] = {}
        self.violations: t.List[Violation] = []
        self.samples: t.List[t.Any] = []
        self.counters: t.Dict[str, int] = {}
        self._space = ""
        self._index = 0
        self._case: t.Any = None
        self._case_failed = False

    def state(self, key: t.Any) -> None:
        """Record a distinct state (an abstract state of the model or an observed state of the code)."""
        self.states.add(h64(key))

    def trans(self, n: int = 1) -> None:
        """Record *n* executed transitions (calls of the real code)."""
        self.transitions += n

    def ok(self, n: int = 1) -> None:
        """Record *n* traces of the model whose result was compared with, and equal to, what the real code did."""
        self.validated += n

    def outcome(self, label: str, n: int = 1) -> None:
        self.outcomes[label] = self.outcomes.get(label, 0) + n

    def count(self, label: str, n: int = 1) -> None:
        self.counters[label] = self.counters.get(label, 0) + n

    def sample(self, obj: t.Any) -> None:
        if len(self.samples) < 40:
            self.samples.append(obj)

    def fail(self, message: str, data: t.Any = None) -> None:
        if self._case_failed:
            return
        self._case_failed = True
        self.violations.append(Violation(self._space, self._index, short(self._case, 1500), str(message)[:4000], data))


def short(obj: t.Any, n: int = 300) -> str:
    try:
        s = obj if isinstance(obj, str) else repr(obj)
    except Exception as exc:  # pragma: no cover
        s = f"<unprintable {type(obj).__name__}: {exc!r}>"
    return s if len(s) <= n else s[: n - 3] + "..."


class Space:
    """A finite set of cases.  *cases* returns a fresh iterator; *run* judges one case.

    *chunk* is the granularity in which cases are dealt to workers.  *serial* spaces run in the parent's single worker
    with index 0 (for cases that fork or start processes themselves).
    """

    def __init__(
        self,
        name: str,
        cases: t.Callable[[], t.Iterable[t.Any]],
        run: t.Callable[[t.Any, Recorder], None],
        bound: str = "",
        chunk: int = 1,
        timeout: int = CASE_TIMEOUT,
    ) -> None:
        self.name = name
        self.cases = cases
        self.run = run
        self.bound = bound
        self.chunk = chunk
        self.timeout = timeout


def _on_alarm(signum: int, frame: t.Any) -> None:
    raise CaseTimeout()


def _run_case(space: Space, index: int, case: t.Any, rec: Recorder) -> None:
    rec._space, rec._index, rec._case, rec._case_failed = space.name, index, case, False
    signal.setitimer(signal.ITIMER_REAL, space.timeout)
    try:
        space.run(case, rec)
    except CaseTimeout:
        rec.fail(f"the case did not finish within {space.timeout} s (non-termination)")
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException:
        rec.fail("unexpected exception:\n" + traceback.format_exc()[-3500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(spaces: t.List[Space], wid: int, n: int, deadline: float) -> t.Dict[str, t.Any]:
    rec = Recorder()
    signal.signal(signal.SIGALRM, _on_alarm)
    done: t.Dict[str, int] = {}
    complete = True
    for space in spaces:
        k = 0
        for index, case in enumerate(space.cases()):
            if (index // space.chunk) % n != wid:
                continue
            if len(rec.violations) >= MAX_VIOLATIONS_PER_WORKER or time.time() > deadline:
                complete = False
                break
            _run_case(space, index, case, rec)
            k += 1
            if k <= 2 and wid == 0:
                rec.sample({"space": space.name, "case": short(case, 400)})
        done[space.name] = k
        if not complete:
            break
    return {
        "states": rec.states,
        "transitions": rec.transitions,
        "validated": rec.validated,
        "outcomes": rec.outcomes,
        "counters": rec.counters,
        "violations": rec.violations,
        "samples": rec.samples,
        "done": done,
        "complete": complete,
    }


def explore(spaces: t.List[Space], workers: t.Optional[int] = None) -> t.Dict[str, t.Any]:
    n = workers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    deadline = time.time() + DEADLINE[TIER]
    procs: t.List[t.Tuple[int, int]] = []
    sys.stdout.flush()
    sys.stderr.flush()
    gc.collect()
    gc.freeze()
    for wid in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for rr, _ in [(p[1], 0) for p in procs]:
                    os.close(rr)
                try:
                    result: t.Any = _worker(spaces, wid, n, deadline)
                except BaseException:
                    result = {"crash": traceback.format_exc()}
                with os.fdopen(w, "wb") as fp:
                    pickle.dump(result, fp, protocol=pickle.HIGHEST_PROTOCOL)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        procs.append((pid, r))

    total: t.Dict[str, t.Any] = {
        "states": set(),
        "transitions": 0,
        "validated": 0,
        "outcomes": {},
        "counters": {},
        "violations": [],
        "samples": [],
        "done": {},
        "complete": True,
        "crash": None,
    }
    for pid, r in procs:
        with os.fdopen(r, "rb") as fp:
            blob = fp.read()
        _, status = os.waitpid(pid, 0)
        if not blob:
            total["crash"] = f"a worker ended with status {status} without a result"
            total["complete"] = False
            continue
        res = pickle.loads(blob)
        if "crash" in res:
            total["crash"] = res["crash"]
            total["complete"] = False
            continue
        total["states"] |= res["states"]
        total["transitions"] += res["transitions"]
        total["validated"] += res["validated"]
        for key in ("outcomes", "counters", "done"):
            for k, v in res[key].items():
                total[key][k] = total[key].get(k, 0) + v
        total["violations"] += res["violations"]
        total["samples"] += res["samples"]
        total["complete"] &= res["complete"]
    total["violations"].sort(key=lambda v: (v.space, v.index))
    total["workers"] = n
    return total


# -- known findings ----------------------------------------------------------------------------------------------------


def load_known(prop: str) -> t.List[str]:
    """Open findings of a property: lines `open: property=<id> <identifier> :: <description>`."""
    path = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as fp:
            for line in fp:
                line = line.strip()
                if line.startswith(f"open: property={prop} "):
                    out.append(line[len(f"open: property={prop} ") :])
    return out


def broken_module() -> t.Any:
    """Stands for a check of which the module could not be imported (called while the exception is handled)."""
    import types

    trace = traceback.format_exc()

    def run(case: t.Any, rec: Recorder) -> None:
        rec.fail("the code under test failed while the types of the check were defined:\n" + trace[-3500:])

    return types.SimpleNamespace(spaces=lambda: [Space("definitions", lambda: [None], run)], ASSUMPTIONS=[])


# -- command line ------------------------------------------------------------------------------------------------------


def main(prop: str, module: t.Any, argv: t.List[str]) -> int:
    import argparse

    ap = argparse.ArgumentParser(prog=f"run.py {prop}")
    ap.add_argument("--replay", help="re-execute the case recorded in a replay file")
    ap.add_argument("--space", help="only explore the spaces whose name contains this")
    ap.add_argument("--case", type=int, help="only run the case with this index (with --space)")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--tier", choices=["quick", "thorough"])
    args = ap.parse_args(argv)

    global TIER
    if args.tier:
        TIER = args.tier
        os.environ["VERIF_TIER"] = args.tier
    replay = None
    if args.replay:
        with open(args.replay) as fp:
            replay = json.load(fp)
        TIER = replay["tier"]
        args.space, args.case = replay["space"], replay["index"]

    start = time.time()
    try:
        spaces: t.List[Space] = module.spaces()
    except Exception:
        spaces = broken_module().spaces()
    if replay:
        spaces = [s for s in spaces if s.name == replay["space"]]
    elif args.space:
        spaces = [s for s in spaces if args.space in s.name]

    if args.case is not None:
        signal.signal(signal.SIGALRM, _on_alarm)
        rec = Recorder()
        for space in spaces:
            for index, case in enumerate(space.cases()):
                if index == args.case:
                    print(f"replaying {space.name}[{index}]: {short(case, 3000)}")
                    _run_case(space, index, case, rec)
                    break
        for v in rec.violations:
            print(v.message)
        print("reproduced" if rec.violations else "no violation")
        return 1 if rec.violations else 0

    total = explore(spaces, args.workers)
    if total["crash"] and "databind/src/databind" in total["crash"]:
        # The cases could not be enumerated because the code under test failed to define the types they need.
        total["violations"].append(Violation("enumeration", 0, "", total["crash"]))
    known = load_known(prop)
    violations = []
    for v in total["violations"]:
        ident = f"{v.space}:{v.case}"
        hit = [k for k in known if k.split(" :: ")[0] == ident]
        if hit:
            print(f"KNOWN-FINDING: property={prop} {hit[0]}")
        else:
            violations.append(v)

    wall = time.time() - start
    partial = bool(args.space or args.case is not None)
    exhaustive = bool(total["complete"] and not total["crash"] and not partial)
    coverage: t.Dict[str, t.Any] = {
        "states": len(total["states"]),
        "transitions": total["transitions"],
        "traces_validated_against_impl": total["validated"],
        "samples": total["samples"][:30],
        "exhaustive": exhaustive,
        "cases_per_space": total["done"],
        "bounds": {s.name: s.bound for s in spaces},
        "distinct_outcomes": dict(sorted(total["outcomes"].items(), key=lambda kv: -kv[1])[:40]),
        "workers": total["workers"],
    }
    if total["counters"]:
        coverage["counters"] = total["counters"]
    evidence = {
        "property": prop,
        "tier": TIER,
        "seed": SEED,
        "level": "model_checking",
        "coverage": coverage,
        "assumptions": list(getattr(module, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3),
        "violations": len(violations),
    }
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if not partial:
        tmp = os.path.join(evdir, f".{prop}.{os.getpid()}.tmp")
        with open(tmp, "w") as fp:
            json.dump(evidence, fp, indent=1, default=repr)
        os.replace(tmp, os.path.join(evdir, f"{prop}.json"))

    print(
        f"{prop} [{TIER}] cases={sum(total['done'].values())} states={len(total['states'])} "
        f"transitions={total['transitions']} validated={total['validated']} exhaustive={exhaustive} wall={wall:.1f}s"
    )
    for name, cnt in total["done"].items():
        print(f"  {name}: {cnt} cases")
    print("  outcomes:", dict(sorted(total["outcomes"].items(), key=lambda kv: -kv[1])[:12]))

    if violations:
        rdir = os.path.join(evdir, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(violations[:5]):
            path = os.path.join(rdir, f"{prop}-{i}.json")
            with open(path, "w") as fp:
                json.dump(
                    {
                        "property": prop,
                        "tier": TIER,
                        "space": v.space,
                        "index": v.index,
                        "case": v.case,
                        "message": v.message,
                        "data": v.data,
                        "how": f"python run.py {prop} --replay {path}",
                    },
                    fp,
                    indent=1,
                    default=repr,
                )
            print(f"\n{v.space}[{v.index}] {short(v.case, 600)}\n{short(v.message, 1500)}")
            print(f"VIOLATION property={prop} replay={os.path.relpath(path, VERIF)}")
        return 1
    if total["crash"]:
        print("error in a worker:\n" + str(total["crash"]))
        return 3
    return 0
