"""C12: converters are tried in registration order until one succeeds."""

import itertools
import typing as t

import databind.core as dc
from databind.json import JsonConverter, JsonModule, get_object_mapper

from mc import model as m
from mc.engine import Recorder, Space, thorough

ASSUMPTIONS = ["converters are instrumented; what they do is chosen by the case"]


class Boom(Exception):
    pass


class Deep(BaseException):
    pass


#: What a converter does: decline, fail, fail with a subclass, succeed, succeed with None, raise, convert a child.
OUTCOMES = ("decline", "fail", "nomatch", "ok", "none", "raise", "child")
FEW = ("decline", "fail", "ok")
#: Exceptions that are neither.
OTHERS: t.List[t.Callable[[], BaseException]] = [Boom, lambda: ValueError("v"), lambda: KeyError("k"), TypeError, AssertionError,
                                                 StopIteration, RecursionError, Deep, KeyboardInterrupt]  # fmt: skip


class Spy(dc.Converter):
    def __init__(self, name: t.Any, log: t.List[t.Any], plan: t.Dict[t.Any, str], other: t.Any = Boom) -> None:
        self.name, self.log, self.plan, self.other = name, log, plan, other
        self.raised: t.List[BaseException] = []

    def __repr__(self) -> str:
        return f"Spy({self.name})"

    def convert(self, ctx: dc.Context) -> t.Any:
        self.log.append((self.name, ctx.value))
        what = self.plan[self.name]
        if what == "child" and ctx.value:
            what = "decline"
        exc: BaseException
        if what == "ok":
            return ("result", self.name)
        if what == "none":
            return None
        if what == "child":
            return ("child", self.name, ctx.spawn(1, str, "k").convert())
        if what == "decline":
            raise NotImplementedError
        if what == "fail":
            exc = dc.ConversionError(self, ctx, f"failed {self.name}")
        elif what == "nomatch":
            exc = dc.NoMatchingConverter(self, ctx, [])
        else:
            exc = self.other()
        self.raised.append(exc)
        raise exc


class Dynamic(dc.Module):
    """Supplies its converters depending on the context."""

    def __init__(self, name: str, pick: t.Callable[[dc.Context], t.List[dc.Converter]]) -> None:
        super().__init__(name)
        self.pick = pick

    def get_converters(self, ctx: dc.Context) -> t.Iterator[dc.Converter]:
        yield from self.pick(ctx)
        yield from super().get_converters(ctx)


def simulate(order: t.List[Spy], plan: t.Dict[t.Any, str], value: int, log: t.List[t.Any]) -> t.Tuple[str, t.Any]:
    """("ok", result) | ("raise", name) | ("lone", name) | ("many", names) | ("child many"...)"""
    errors: t.List[t.Any] = []
    for spy in order:
        log.append((spy.name, value))
        what = plan[spy.name]
        if what == "child" and value:
            what = "decline"
        if what == "ok":
            return "ok", ("result", spy.name)
        if what == "none":
            return "ok", None
        if what == "raise":
            return "raise", spy.name
        if what in ("fail", "nomatch"):
            errors.append((spy.name, ("lone", spy.name)))
        if what == "child":
            kind, res = simulate(order, plan, 1, log)
            if kind == "ok":
                return "ok", ("child", spy.name, res)
            if kind == "raise":
                return kind, res
            errors.append((spy.name, (kind, res)))
    if len(errors) == 1:
        return errors[0][1]
    return "many", errors


def matches(rec: Recorder, spies: t.Dict[t.Any, Spy], want: t.Tuple[str, t.Any], exc: t.Optional[BaseException], what: t.Any) -> bool:
    kind, detail = want
    if kind == "lone":
        if not any(exc is x for x in spies[detail].raised):
            rec.fail(f"{what}: raised {exc!r}, not the lone error of {detail}")
            return False
        return True
    if kind == "raise":
        if exc is not spies[detail].raised[-1]:
            rec.fail(f"{what}: raised {exc!r}, not the exception of {detail}")
            return False
        return True
    if type(exc) is not dc.NoMatchingConverter:
        rec.fail(f"{what}: raised {exc!r} instead of NoMatchingConverter with {detail}")
        return False
    got = list(exc.errors)
    if len(got) != len(detail) or any(conv is not spies[name] for (conv, _), (name, _) in zip(got, detail)):
        rec.fail(f"{what}: NoMatchingConverter with the errors {got} instead of {detail}")
        return False
    return all(matches(rec, spies, sub, e, what) for (_, e), (_, sub) in zip(got, detail))


def run_and_compare(rec: Recorder, mapper: t.Any, order: t.List[Spy], log: t.List[t.Any], plan: t.Any, what: t.Any,
                    key: t.Any, direction: int = 0) -> bool:  # fmt: skip
    del log[:]
    spies = {s.name: s for s in order}
    for s in order:
        del s.raised[:]
    exp_log: t.List[t.Any] = []
    want = simulate(order, plan, 0, exp_log)
    rec.trans()
    rec.state(key)
    exc: t.Optional[BaseException] = None
    try:
        res = (mapper.deserialize if direction else mapper.serialize)(0, int)
    except BaseException as e:
        if type(e).__name__ == "CaseTimeout":
            raise
        exc = e
    rec.outcome(want[0])
    if log != exp_log:
        rec.fail(f"{what}: converters called: {log}; registered order: {exp_log}")
        return False
    if want[0] == "ok":
        if exc is not None or res != want[1]:
            rec.fail(f"{what}: {exc!r} or {res!r} instead of {want[1]!r}")
            return False
    elif exc is None:
        rec.fail(f"{what}: returned {res!r} instead of {want}")
        return False
    elif not matches(rec, spies, want, exc, what):
        return False
    rec.ok()
    return True


# -- registration sequences --------------------------------------------------------------------------------------------

#: (where: mapper or the n-th last module, what, first)
OPS: t.List[t.Tuple[str, str, bool]] = [
    (where, what, first)
    for where in ("top", "last", "previous")
    for what in ("leaf", "module", "dynamic", "again")
    for first in (False, True)
    if not (where == "previous" and what != "leaf") and not (where == "last" and what == "again")
]


def build(ops: t.Sequence[t.Tuple[str, str, bool]], log: t.List[t.Any], plan: t.Dict[t.Any, str]) -> t.Optional[t.Tuple[t.Any, t.List[Spy]]]:
    """Returns the mapper and the flat order by the model; None if the sequence is not applicable."""
    mapper: t.Any = dc.ObjectMapper()
    tree: t.List[t.Any] = []
    modules: t.List[t.Tuple[t.Any, t.List[t.Any]]] = []
    for n, (where, what, first) in enumerate(ops):
        target: t.Any
        if where == "top":
            target, node = mapper.module, tree
        else:
            k = 1 if where == "last" else 2
            if len(modules) < k:
                return None
            target, node = modules[-k]
        new: t.Any
        if what == "leaf":
            new = sub = Spy(n, log, plan)
        elif what == "module":
            new, sub = dc.Module(f"m{n}"), []
            modules.append((new, sub))
        elif what == "dynamic":
            spy = Spy(n, log, plan)
            # Always supplied; and another list for other contexts.
            new, sub = Dynamic(f"d{n}", lambda ctx, spy=spy: [spy] if ctx.datatype is not None else []), [spy]
            modules.append((new, sub))
        else:
            if not modules:
                return None
            new, sub = modules[-1]
        if n % 2 == 0 and not first:
            target.register(new)
        else:
            target.register(new, first=first)
        node.insert(0 if first else len(node), sub)
        if what == "dynamic":
            # Converters registered in the module follow, or precede, one another, after the supplied one.
            modules[-1] = (new, DynList(sub))
            node[node.index(sub)] = modules[-1][1]

    def flat(node: t.Any) -> t.Iterator[Spy]:
        for x in node:
            if isinstance(x, list):
                yield from flat(x)
            else:
                yield x

    return mapper, list(flat(tree))


class DynList(list):  # type: ignore[type-arg]
    """The first element is supplied dynamically and stays in front."""

    def insert(self, i: t.Any, x: t.Any) -> None:
        super().insert(max(i, 1), x)


def run_sequence(case: t.Any, rec: Recorder) -> None:
    ops, outcomes = case
    log: t.List[t.Any] = []
    plan: t.Dict[t.Any, str] = {}
    built = build(ops, log, plan)
    if built is None:
        return
    mapper, order = built
    names = list(dict.fromkeys(s.name for s in order))
    for combo in itertools.product(outcomes, repeat=len(names)):
        plan.clear()
        plan.update(zip(names, combo))
        if not run_and_compare(rec, mapper, order, log, plan, (ops, plan), (ops, combo), len(combo) % 2):
            return


def sequence_cases() -> t.Iterator[t.Any]:
    for k in (0, 1, 2, 3):
        for ops in itertools.product(OPS, repeat=k):
            yield ops, OUTCOMES
    for ops in itertools.product(OPS, repeat=4):
        yield ops, OUTCOMES if thorough() else FEW


def run_long(case: t.Any, rec: Recorder) -> None:
    """Longer lists of converters in one module, all outcomes."""
    n, firsts = case
    ops = [("top", "leaf", bool(f)) for f in firsts]
    run_sequence((ops, OUTCOMES if n < 5 else FEW + ("child",)), rec)


def long_cases() -> t.Iterator[t.Any]:
    for n in (4, 5) if not thorough() else (4, 5, 6, 7):
        for firsts in itertools.product((0, 1), repeat=n):
            yield n, firsts


# -- other exceptions --------------------------------------------------------------------------------------------------


def run_other(case: t.Any, rec: Recorder) -> None:
    """Any exception but the two known ones goes through, from every position, with the later converters not called."""
    n, pos, o, others, nested = case
    log: t.List[t.Any] = []
    plan = {i: others for i in range(n)}
    plan[pos] = "raise"
    mapper: t.Any = dc.ObjectMapper()
    target = mapper.module
    order = []
    for i in range(n):
        spy = Spy(i, log, plan, OTHERS[o])
        if nested and i == nested:
            mod = dc.Module("sub")
            target.register(mod)
            target = mod
        target.register(spy)
        order.append(spy)
    for direction in (0, 1):
        if not run_and_compare(rec, mapper, order, log, plan, case, (case, direction), direction):
            return


def other_cases() -> t.Iterator[t.Any]:
    for n in (1, 2, 3):
        for pos in range(n):
            for o in range(len(OTHERS)):
                for others in ("decline", "fail", "nomatch"):
                    for nested in range(n):
                        yield n, pos, o, others, nested


# -- registration between conversions ----------------------------------------------------------------------------------


def run_interleaved(case: t.Any, rec: Recorder) -> None:
    """Conversions between the registrations see the converters registered so far."""
    steps = case
    log: t.List[t.Any] = []
    plan: t.Dict[t.Any, str] = {}
    mapper: t.Any = dc.ObjectMapper()
    sub = dc.Module("sub")
    order: t.List[Spy] = []
    subs: t.List[Spy] = []
    where = None
    for n, (op, what) in enumerate(steps):
        plan[n] = what
        spy = Spy(n, log, plan)
        if op == "append":
            mapper.module.register(spy)
            order.append(spy)
        elif op == "prepend":
            mapper.module.register(spy, first=True)
            order.insert(0, spy)
        else:
            if where is None:
                mapper.module.register(sub)
                where = len(order)
                marker = Spy("marker", log, plan)
                order.append(marker)
            sub.register(spy, first=op == "sub first")
            subs.insert(0 if op == "sub first" else len(subs), spy)
        flat: t.List[Spy] = []
        for s in order:
            flat += subs if s.name == "marker" else [s]
        if not run_and_compare(rec, mapper, flat, log, plan, (steps, n), (steps[: n + 1],), n % 2):
            return


def interleaved_cases() -> t.Iterator[t.Any]:
    ops = [(op, w) for op in ("append", "prepend", "sub", "sub first") for w in FEW]
    for k in (3, 4) if thorough() else (3,):
        yield from itertools.product(ops, repeat=k)


# -- with the JSON module ----------------------------------------------------------------------------------------------


class Foo:
    pass


def run_json(case: t.Any, rec: Recorder) -> None:
    """User converters before and after the built-in ones, and one supplied by a setting on the hint."""
    before, after, setting, typ_name, direction = case
    typ, value, builtin = {"int": (int, 1, "ok"), "foo": (Foo, Foo(), None), "bad int": (int, "x", "fail"),
                           "list": (t.List[int], [1], "ok")}[typ_name]  # fmt: skip
    log: t.List[t.Any] = []
    plan: t.Dict[t.Any, str] = {}
    mapper = get_object_mapper()
    seq: t.List[t.Any] = []

    class Once(Spy):
        def convert(self, ctx: dc.Context) -> t.Any:
            if ctx.parent is not None:
                raise NotImplementedError
            return super().convert(ctx)

    for i, w in enumerate(before):
        plan["b%d" % i] = w
        mapper.module.register(Once("b%d" % i, log, plan), first=True)
        seq.insert(0, "b%d" % i)
    hint: t.Any = typ
    if setting:
        plan["s"] = setting
        hint = t.Annotated[typ, JsonConverter(Once("s", log, plan))]
        seq.append("s")
    if builtin:
        plan["builtin"] = builtin
        seq.append("builtin")
    for i, w in enumerate(after):
        plan["a%d" % i] = w
        mapper.module.register(Once("a%d" % i, log, plan))
        seq.append("a%d" % i)
    fails = 0
    result: t.Any = None
    called = []
    kind = "reject"
    for name in seq:
        if name != "builtin":
            called.append(name)
        w = plan[name]
        if w == "ok":
            kind, result = "ok", value if name == "builtin" else ("result", name)
            break
        if w == "raise":
            kind = "crash"
            break
        fails += w == "fail"
    got = m.attempt(mapper.deserialize if direction else mapper.serialize, value, hint)
    rec.trans()
    rec.state(case)
    rec.outcome(kind)
    if got.kind != kind or kind == "ok" and got.value != result or [x for x, _ in log] != called:
        return rec.fail(f"{case}: {got!r}, called {log}; expected {kind} {result!r} calling {called}")
    if kind == "reject" and fails != 1 and not isinstance(got.exc, dc.NoMatchingConverter):
        return rec.fail(f"{case}: {fails} errors, raised {got!r}")
    if kind == "reject" and fails > 1 and len(got.exc.errors) != fails:  # type: ignore[union-attr]
        return rec.fail(f"{case}: {fails} errors, reported {got.exc.errors}")  # type: ignore[union-attr]
    rec.ok()


def json_cases() -> t.Iterator[t.Any]:
    ws = ("decline", "fail", "ok", "raise")
    lists = [()] + [(w,) for w in ws] + list(itertools.product(ws, repeat=2))
    for before in lists:
        for after in lists:
            for setting in (None,) + ws:
                for typ in ("int", "foo", "bad int", "list"):
                    for direction in (0, 1):
                        if typ == "bad int" and not direction and False:
                            continue
                        yield before, after, setting, typ, direction


def run_nested_json(case: t.Any, rec: Recorder) -> None:
    """The JSON module nested at any place of a hierarchy of modules converts children by way of the whole hierarchy."""
    depth, pos, n, what = case
    mapper: t.Any = dc.ObjectMapper()
    target = mapper.module
    log: t.List[t.Any] = []

    class Ints(dc.Converter):
        def convert(self, ctx: dc.Context) -> t.Any:
            log.append(ctx.value)
            if ctx.value == 7:
                return "seven"
            if what == "fail" and isinstance(ctx.value, int):
                raise dc.ConversionError(self, ctx, "no")
            raise NotImplementedError

    for d in range(depth):
        if d == pos:
            target.register(Ints())
        mod = dc.Module(f"m{d}")
        target.register(mod)
        target = mod
    target.register(JsonModule())
    if pos >= depth:
        target.register(Ints(), first=pos == depth)
    before = pos <= depth
    for direction in (0, 1):
        del log[:]
        got = m.attempt(mapper.deserialize if direction else mapper.serialize, [7, n, 7], t.List[int])
        want = ["seven", n, "seven"] if before else [7, n, 7]
        want_log = [[7, n, 7], 7, n, 7] if before else []
        rec.trans()
        rec.state((case, direction))
        if got.kind != "ok" or got.value != want or log != want_log:
            return rec.fail(f"{case}: {got!r}, called with {log}; expected {want!r}, {want_log}")
        rec.ok()


def spaces() -> t.List[Space]:
    return [
        Space("sequences", sequence_cases, run_sequence,
              f"all sequences of up to four of {len(OPS)} registrations (leaf, module, dynamic module, same module again; first or "
              f"last; at the top or in a module) x all outcomes ({len(OUTCOMES)}; {len(OUTCOMES if thorough() else FEW)} for four)", chunk=8),
        Space("long", long_cases, run_long, "up to five (thorough: seven) converters, prepended or appended, x outcomes"),
        Space("other exceptions", other_cases, run_other, f"{len(OTHERS)} exception types x positions x nesting"),
        Space("interleaved", interleaved_cases, run_interleaved, "registrations alternating with conversions", chunk=8),
        Space("json", json_cases, run_json, "user converters around the built-in ones and a converter setting", chunk=16),
        Space("nested json", lambda: itertools.product((0, 1, 2), (0, 1, 2, 3), (1, 2), ("decline", "fail")), run_nested_json,
              "the JSON module in nested modules"),
    ]  # fmt: skip
