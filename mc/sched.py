"""A controlled scheduler for threads that run the real code, and the enumeration of their schedules.

Exactly one thread runs at a time.  Threads hand over control at *points*: the bytecode instructions of the code under
test that can touch something another thread can reach (instructions that only work on a frame's own locals and stack
commute with everything another thread does, so a switch before one of them is a switch before the next point), and
where a thread ends or waits for a lock.  A schedule is the list of deviations from the default (go on with the running
thread; when it ends or waits, the first one that can run), and `explore` enumerates all schedules with at most a given
number of preemptions.
"""

import dis
import gc
import os
import sys
import threading
import types
import typing as t

_real_lock = threading._allocate_lock  # type: ignore[attr-defined]
_RealThread = threading.Thread


# -- points ------------------------------------------------------------------------------------------------------------

#: Instructions that work on the frame's own locals, value stack and fresh objects only.  (Calls have events of their
#: own.)
LOCAL_OPS = {
    "CACHE", "NOP", "RESUME", "POP_TOP", "PUSH_NULL", "COPY", "SWAP", "LOAD_CONST", "LOAD_FAST", "LOAD_FAST_CHECK",
    "LOAD_FAST_AND_CLEAR", "STORE_FAST", "DELETE_FAST", "RETURN_VALUE", "RETURN_CONST", "JUMP_FORWARD", "JUMP_BACKWARD",
    "JUMP_BACKWARD_NO_INTERRUPT", "POP_JUMP_IF_TRUE", "POP_JUMP_IF_FALSE", "POP_JUMP_IF_NONE", "POP_JUMP_IF_NOT_NONE",
    "IS_OP", "UNARY_NOT", "BUILD_TUPLE", "BUILD_LIST", "BUILD_MAP", "BUILD_CONST_KEY_MAP", "BUILD_STRING", "BUILD_SLICE",
    "BUILD_SET", "MAKE_FUNCTION", "MAKE_CELL", "COPY_FREE_VARS", "LOAD_CLOSURE", "KW_NAMES", "EXTENDED_ARG",
    "PUSH_EXC_INFO", "POP_EXCEPT", "RERAISE", "RAISE_VARARGS", "CHECK_EXC_MATCH", "RETURN_GENERATOR", "YIELD_VALUE",
    "END_FOR", "END_SEND", "LIST_APPEND", "MAP_ADD", "SET_ADD", "CALL_INTRINSIC_1", "LOAD_ASSERTION_ERROR",
    "GET_YIELD_FROM_ITER", "LOAD_LOCALS", "LOAD_BUILD_CLASS", "CLEANUP_THROW", "SEND", "IMPORT_FROM", "IMPORT_NAME",
    "CALL", "CALL_FUNCTION_EX", "LOAD_SUPER_ATTR",
}  # fmt: skip

#: Calls that read nothing that can change.
PURE = {isinstance, issubclass, len, type, callable, id, t.cast, super, range, enumerate, zip}


class Written:
    """The names that functions of some code rebind: globals, attributes (outside of constructors) and closure cells."""

    def __init__(self, codes: t.Iterable[types.CodeType]) -> None:
        self.globals: t.Set[str] = set()
        self.attrs: t.Set[str] = set()
        self.cells: t.Set[str] = set()
        for code in codes:
            init = code.co_name in ("__init__", "__post_init__", "__new__")
            for ins in dis.get_instructions(code):
                if ins.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                    self.globals.add(ins.argval)
                elif ins.opname in ("STORE_ATTR", "DELETE_ATTR") and not init:
                    self.attrs.add(ins.argval)
                elif ins.opname in ("STORE_DEREF", "DELETE_DEREF") and ins.argval in code.co_freevars:
                    self.cells.add(ins.argval)
            if not init and {"setattr", "delattr", "__setattr__", "__dict__", "vars"} & set(code.co_names):
                self.attrs.update(c for c in code.co_consts if isinstance(c, str))
            if {"globals"} & set(code.co_names):
                self.globals.update(c for c in code.co_consts if isinstance(c, str))


def codes_of(prefix: str) -> t.List[types.CodeType]:
    """The code of all functions that are defined in the files under *prefix*."""
    out: t.List[types.CodeType] = []
    seen: t.Set[int] = set()

    def walk(code: types.CodeType) -> None:
        if id(code) not in seen:
            seen.add(id(code))
            out.append(code)
            for c in code.co_consts:
                if isinstance(c, types.CodeType):
                    walk(c)

    for obj in gc.get_objects():
        if isinstance(obj, types.FunctionType) and obj.__code__.co_filename.startswith(prefix):
            walk(obj.__code__)
    return out


TOOL = 4


class Points:
    """Has the instructions and calls of the code under test reported to the scheduler (in this process)."""

    def __init__(self, prefix: str) -> None:
        mon = sys.monitoring
        self.prefix = prefix
        codes = codes_of(prefix)
        written = Written(codes)
        self.offsets: t.Dict[types.CodeType, t.Set[int]] = {}
        for code in codes:
            self.offsets[code] = {ins.offset for ins in dis.get_instructions(code) if self.shared(ins, written)}
        mon.use_tool_id(TOOL, "mc")
        mon.register_callback(TOOL, mon.events.INSTRUCTION, self.on_instruction)
        mon.register_callback(TOOL, mon.events.CALL, self.on_call)
        for code in codes:
            mon.set_local_events(TOOL, code, mon.events.INSTRUCTION | mon.events.CALL)

    @staticmethod
    def shared(ins: dis.Instruction, written: Written) -> bool:
        op = ins.opname
        if op in LOCAL_OPS:
            return False
        if op in ("LOAD_GLOBAL", "LOAD_NAME"):
            return ins.argval in written.globals
        if op in ("LOAD_ATTR", "LOAD_METHOD"):
            return ins.argval in written.attrs
        if op in ("LOAD_DEREF", "STORE_DEREF"):
            return ins.argval in written.cells
        return True

    def on_instruction(self, code: types.CodeType, offset: int) -> t.Any:
        if offset not in self.offsets[code]:
            return sys.monitoring.DISABLE
        run = _current
        if run is not None:
            run.point(run.running)
        return None

    def on_call(self, code: types.CodeType, offset: int, fn: t.Any, arg0: t.Any) -> None:
        run = _current
        if run is None:
            return
        if isinstance(fn, types.MethodType):
            fn = fn.__func__
        if isinstance(fn, types.FunctionType):
            if fn.__code__ in self.offsets:
                return  # it has points of its own
        try:
            if fn in PURE:
                return
        except Exception:
            pass
        run.point(run.running)


# -- running one schedule ----------------------------------------------------------------------------------------------


class Deadlock(Exception):
    pass


class Step(t.NamedTuple):
    running: int
    others: t.Tuple[int, ...]  # that could run instead
    free: bool  # switching here is not a preemption


class Stop(BaseException):
    """Ends the threads of an abandoned run."""


_current: "t.Optional[Run]" = None
_tids: t.Dict[int, int] = {}


class Run:
    def __init__(self, bodies: t.Sequence[t.Callable[[], t.Any]], deviations: t.Mapping[int, int]) -> None:
        self.bodies = bodies
        self.deviations = deviations
        self.running = -1
        self.n = len(bodies)
        self.steps: t.List[Step] = []
        self.results: t.List[t.Any] = [None] * self.n
        self.state = ["ready"] * self.n  # ready, blocked, done
        self.gates = [_real_lock() for _ in range(self.n)]
        for g in self.gates:
            g.acquire()
        self.finished = _real_lock()
        self.finished.acquire()
        self.deadlock = False
        self.stopping = False
        self.diverged = False
        self.log: t.List[t.Any] = []

    # called by the running thread

    def point(self, tid: int) -> None:
        others = tuple(i for i in range(self.n) if i != tid and self.state[i] == "ready")
        k = len(self.steps)
        self.steps.append(Step(tid, others, False))
        to = self.deviations.get(k)
        if to is not None:
            if to not in others:
                self.diverged = True
                return
            self.switch(tid, to)

    def start(self, tid: int) -> None:
        self.running = tid
        self.gates[tid].release()

    def choose(self) -> t.Optional[int]:
        """The thread to run when the running one cannot."""
        ready = [i for i in range(self.n) if self.state[i] == "ready"]
        if not ready:
            return None
        if len(ready) > 1:
            k = len(self.steps)
            to = self.deviations.get(k, ready[0])
            if to not in ready:
                self.diverged = True
                to = ready[0]
            self.steps.append(Step(to, tuple(i for i in ready if i != to), True))
            return to
        return ready[0]

    def switch(self, tid: int, to: int) -> None:
        self.start(to)
        self.gates[tid].acquire()
        if self.stopping:
            raise Stop

    def block(self, tid: int) -> None:
        self.state[tid] = "blocked"
        to = self.choose()
        if to is None:
            self.deadlock = True
            self.stopping = True
            self.state[tid] = "ready"
            raise Stop
        self.switch(tid, to)

    def wake(self) -> None:
        for i in range(self.n):
            if self.state[i] == "blocked":
                self.state[i] = "ready"

    def end(self, tid: int) -> None:
        self.state[tid] = "done"
        if self.stopping:
            for i in range(self.n):
                if self.state[i] != "done":
                    self.start(i)
                    return
            self.finished.release()
            return
        to = self.choose()
        if to is not None:
            self.start(to)
        elif all(s == "done" for s in self.state):
            self.finished.release()
        else:
            self.deadlock = True
            self.stopping = True
            for i in range(self.n):
                if self.state[i] != "done":
                    self.start(i)
                    return

    # threads

    def thread(self, tid: int) -> None:
        ident = threading.get_ident()
        self.gates[tid].acquire()
        _tids[ident] = tid
        try:
            if self.stopping:
                raise Stop
            self.results[tid] = self.bodies[tid]()
        except Stop:
            self.results[tid] = "stopped"
        except BaseException as exc:  # bodies catch what they expect
            self.results[tid] = ("uncaught", type(exc).__name__, str(exc)[:300])
        finally:
            _tids.pop(ident, None)
            self.end(tid)

    def go(self) -> None:
        global _current
        _current = self
        try:
            pool = _pool(self.n)
            for i in range(self.n):
                pool[i].job = lambda i=i: self.thread(i)  # type: ignore[misc]
                pool[i].wake.release()
            first = self.choose()
            assert first is not None
            self.start(first)
            if not self.finished.acquire(timeout=30):
                raise RuntimeError("the threads of a schedule do not come to an end (a lock unknown to the scheduler?)")
            for i in range(self.n):
                pool[i].idle.acquire()
        finally:
            _current = None


class _Worker:
    """A thread that executes one job after the other."""

    def __init__(self) -> None:
        self.wake, self.idle = _real_lock(), _real_lock()
        self.wake.acquire()
        self.idle.acquire()
        self.job: t.Callable[[], None] = lambda: None
        _RealThread(target=self.loop, daemon=True).start()

    def loop(self) -> None:
        while True:
            self.wake.acquire()
            self.job()
            self.idle.release()


_workers: t.Dict[int, t.List[_Worker]] = {}


def _pool(n: int) -> t.List[_Worker]:
    pool = _workers.setdefault(os.getpid(), [])
    while len(pool) < n:
        pool.append(_Worker())
    return pool


# -- locks -------------------------------------------------------------------------------------------------------------


class CoopLock:
    """A lock that tells the scheduler when a thread has to wait (stands in for threading.Lock and RLock)."""

    reentrant = False

    def __init__(self) -> None:
        self._owner: t.Any = None
        self._count = 0
        self._real = _real_lock()

    def _me(self) -> t.Any:
        return threading.get_ident()

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        me = self._me()
        run, tid = _current, _tids.get(me)
        if run is None or tid is None:
            if self.reentrant and self._owner == me:
                self._count += 1
                return True
            if not self._real.acquire(blocking, timeout):
                return False
            self._owner, self._count = me, 1
            return True
        run.point(tid)
        while self._owner is not None:
            if self.reentrant and self._owner == me:
                self._count += 1
                return True
            if not blocking or timeout >= 0:
                return False
            run.block(tid)
        self._real.acquire(False)
        self._owner, self._count = me, 1
        return True

    def release(self) -> None:
        if self._owner is None or self.reentrant and self._owner != self._me():
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            self._real.release()
            if _current is not None:
                _current.wake()

    __enter__ = acquire

    def __exit__(self, *args: t.Any) -> None:
        self.release()

    def locked(self) -> bool:
        return self._owner is not None

    # for threading.Condition
    def _is_owned(self) -> bool:
        return self._owner == self._me()

    def _release_save(self) -> t.Any:
        state, self._count = self._count, 1
        self.release()
        return state

    def _acquire_restore(self, state: t.Any) -> None:
        self.acquire()
        self._count = state

    def _at_fork_reinit(self) -> None:
        self.__init__()  # type: ignore[misc]


class CoopRLock(CoopLock):
    reentrant = True


def install_locks() -> None:
    """To be called before the code under test is imported."""
    threading.Lock = CoopLock  # type: ignore[assignment,misc]
    threading.RLock = CoopRLock  # type: ignore[assignment]


# -- enumeration -------------------------------------------------------------------------------------------------------


def explore(
    make: t.Callable[[], t.Tuple[t.Sequence[t.Callable[[], t.Any]], t.Callable[[], t.Any]]],
    bound: int,
    judge: t.Callable[[t.Any, t.Mapping[int, int]], t.Optional[str]],
    part: t.Tuple[int, int] = (0, 1),
) -> t.Tuple[int, int, t.Optional[str]]:
    """Run every schedule with at most *bound* preemptions; returns how many, their steps, and the first complaint.

    With *part* = (i, n), only the i-th of n shares of the schedules below the default ones is run.
    """
    schedules = steps = 0
    stack: t.List[t.Tuple[t.Dict[int, int], int, int]] = [({}, -1, 0)]
    top = 0
    while stack:
        deviations, last, used = stack.pop()
        bodies, final = make()
        run = Run(bodies, deviations)
        run.go()
        schedules += 1
        steps += len(run.steps)
        if run.diverged:
            return schedules, steps, f"schedule {deviations}: the threads behave differently when they are run again"
        if run.deadlock:
            return schedules, steps, f"schedule {deviations}: deadlock"
        bad = judge((tuple(run.results), final()), deviations)
        if bad:
            return schedules, steps, f"schedule {deviations}: {bad}"
        for k in range(last + 1, len(run.steps)):
            step = run.steps[k]
            if not step.free and used >= bound:
                continue
            for to in step.others:
                if used == 0 and not step.free:
                    top += 1
                    if top % part[1] != part[0]:
                        continue
                stack.append(({**deviations, k: to}, k, used + (0 if step.free else 1)))
    return schedules, steps, None
