"""C03: dump emits exactly the documented JSON form of a value of the type, or raises ConversionError."""

import collections
import collections.abc
import copy
import dataclasses
import datetime as dt
import decimal
import pathlib
import typing as t
import uuid

from databind.json import dump

from mc import model as m
from mc import typespace as ts
from mc.engine import Recorder, Space, thorough
from nr.date import duration

ASSUMPTIONS = [
    "instances of strict subclasses of the requested class (other than bool for int), and Mapping implementations "
    "other than the runtime type of the hint, demand nothing",
    "int and float interchange where nothing is lost (README's conversion table)",
]


@dataclasses.dataclass
class Foreign:
    x: int = 0


class Weird:
    """Equal to everything, and not a value of any type."""

    def __eq__(self, other: t.Any) -> bool:
        return True

    __hash__ = None  # type: ignore[assignment]


class Hashed:
    def __repr__(self) -> str:
        return "Hashed()"


def sub(base: t.Any, *args: t.Any) -> t.Any:
    """An instance of a subclass."""
    return type(f"Sub{base.__name__}", (base,), {})(*args)


#: Instances of subclasses of what the types are made of.
SUBS: t.List[t.Any] = [
    sub(int, 1), sub(float, 1.5), sub(str, "a"), sub(bytes, b"ab"), sub(list, [1]), sub(tuple, (1,)), sub(dict, {"a": 1}),
    sub(set, {1}), sub(frozenset, {1}), sub(collections.deque, [1]), sub(decimal.Decimal, "1.5"), sub(dt.date, 2020, 1, 2),
    sub(dt.time, 1, 2, 3), sub(dt.datetime, 2020, 1, 2, 3, 4, 5), sub(uuid.UUID, m._U1), sub(pathlib.PurePosixPath, "a/b"),
    sub(pathlib.PosixPath, "a/b"), sub(duration), sub(Exception), sub(collections.namedtuple("P", "a"), 1),
]  # fmt: skip

#: Foreign objects; every type is tried with each at the top and (those of FEW) in every position of its values.
POOL: t.List[t.Any] = [
    None, True, False, 0, 1, -3, 2.0, 1.5, float("nan"), float("inf"), 10**400, "", "a", "1", "RED", b"", b"ab", [], [1],
    ["a"], [None], (), (1,), (1, 2), ("a", 1), set(), {1}, {"a"}, frozenset(), frozenset(["a"]), {}, {"a": 1},
    {"x": 1}, {1: 2}, collections.deque(), collections.deque([1]), collections.OrderedDict(),
    m.Color.RED, m.Level.LO, decimal.Decimal("1.5"), dt.date(2020, 1, 2), dt.time(1, 2, 3),
    dt.datetime(2020, 1, 2, 3, 4, 5), dt.timedelta(1), duration(days=1), uuid.UUID(m._U1), pathlib.Path("a/b"),
    pathlib.PurePosixPath("a/b"), Foreign(), Foreign, int, object(), Hashed(), Weird(), range(2), iter([1]), b"x".join,
    bytearray(b"ab"), memoryview(b"ab"), 1j, Ellipsis, {"a": 1}.keys(), {"a": 1}.items(), *SUBS,
]  # fmt: skip
FEW: t.List[t.Any] = [None, True, 7, 1.5, "zz", b"b", (1,), [], {}, {"x": 1}, Foreign(), Hashed(), Weird()]


def mutations(v: t.Any, pool: t.Sequence[t.Any]) -> t.Iterator[t.Any]:
    """All values that differ from *v* in one place (which is replaced by a foreign object, dropped or doubled)."""
    for a in pool:
        yield a
    tp = type(v)
    if isinstance(v, tuple) and hasattr(tp, "_fields"):
        for i in range(len(v)):
            for x in mutations(v[i], pool):
                yield tp(*v[:i], x, *v[i + 1 :])
    elif tp in (list, tuple, collections.deque):
        items = list(v)
        for i in range(len(items)):
            yield tp(items[:i] + items[i + 1 :])
            yield tp(items[: i + 1] + items[i:])
            for x in mutations(items[i], pool):
                yield tp(items[:i] + [x] + items[i + 1 :])
        if not items:
            for x in pool:
                yield tp([x])
    elif tp in (set, frozenset):
        for x in pool:
            if hashable(x):
                yield tp([x])
                yield tp(list(v) + [x])
    elif isinstance(v, dict):
        items = list(v.items())
        for i, (k, e) in enumerate(items):
            yield tp(items[:i] + items[i + 1 :])
            for x in mutations(e, pool):
                yield tp(items[:i] + [(k, x)] + items[i + 1 :])
            for x in pool:
                if hashable(x):
                    yield tp(items[:i] + [(x, e)] + items[i + 1 :])
        if not items:
            for x in pool:
                yield tp({"k": x})
                if hashable(x):
                    yield tp({x: 1})
    elif dataclasses.is_dataclass(v) and not isinstance(v, (type, duration)):
        for f in dataclasses.fields(v):
            for x in mutations(getattr(v, f.name), pool):
                c = copy.copy(v)
                object.__setattr__(c, f.name, x)
                yield c


def hashable(x: t.Any) -> bool:
    try:
        hash(x)
        return True
    except TypeError:
        return False


def only_json(v: t.Any) -> bool:
    if isinstance(v, dict):
        return type(v) is dict and all(only_json(x) for x in v.values())
    if isinstance(v, list):
        return type(v) is list and all(map(only_json, v))
    return v is None or type(v) in (bool, int, float, str)


def check(typ: m.T, depth: int, rec: Recorder) -> None:
    deep = thorough()
    pool = POOL if depth == 0 or (deep and depth == 1) else FEW
    vals = typ.vals()
    if depth >= 2 and not deep:
        vals = vals[1:3]
    seen: t.Set[t.Any] = set()
    if depth <= 1:
        for x in POOL:
            one(typ, x, rec)
    for v in ts.large(typ):
        one(typ, v, rec)
    for v in vals:
        one(typ, v, rec)
        for x in mutations(v, pool):
            c = (type(x), repr(x))
            if c in seen:
                continue
            seen.add(c)
            one(typ, x, rec)
            if rec._case_failed:
                return


def one(typ: m.T, v: t.Any, rec: Recorder) -> None:
    try:
        exp = m.expect(typ.enc, v)
    except TypeError:
        exp = m.Expected("unspec", None, ())
    got = m.attempt(dump, v, typ.hint)
    rec.trans()
    rec.state((typ.label, repr(v)[:200]))
    rec.outcome(f"model:{exp.kind} code:{got.kind}")
    bad = m.judge(exp, got)
    if bad:
        return rec.fail(f"dump({v!r}, {typ.label}) {bad}")
    if got.kind == "ok" and exp.kind == "ok" and not ("Any" in typ.label or "object" in typ.label):
        if not only_json(got.value):
            return rec.fail(f"dump({v!r}, {typ.label}) {got!r}, which is not made of JSON types only")
    if exp.kind != "unspec":
        rec.ok()


def spaces() -> t.List[Space]:
    deep = thorough()
    core = ts.core_indices()
    return ts.type_spaces(
        check,
        depth2_leaves=range(len(m.leaf_types())) if deep else core[:3],
        depth3_leaves=core[:1] if deep else (),
        depth3_wrappers=m.MAIN_WRAPPERS,
        unions=(2, 3) if deep else (2,),
        union_wraps=("", "List", "Opt") if deep else ("",),
    )
