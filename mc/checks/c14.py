"""C14: conversions are pure: inputs are not modified, nothing is shared, no history is remembered."""

import collections
import dataclasses
import datetime
import decimal
import enum
import gc
import itertools
import re
import types
import typing as t

import databind.core as dc
import databind.core.dataclasses as dbdc
from databind.core.union import ChainUnionMembers, StaticUnionMembers
from databind.json import JsonConverter, dump, dumps, get_object_mapper, load, loads

from mc import model as m
from mc import typespace as ts
from mc.engine import Recorder, Space, thorough
from mc.forktree import forked

ASSUMPTIONS = [
    "the values of Any are passed through and may be shared",
    "a fork of a process that made no conversion yet stands for a fresh process",
]

# -- identity and content ----------------------------------------------------------------------------------------------


def is_container(x: t.Any) -> bool:
    if isinstance(x, (list, dict, set, bytearray, collections.deque)):
        return True
    return dataclasses.is_dataclass(x) and not isinstance(x, type) and not type(x).__dataclass_params__.frozen  # type: ignore


def children(x: t.Any) -> t.List[t.Any]:
    if isinstance(x, t.Mapping):
        return [*x.keys(), *x.values()]
    if isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        return list(x)
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return [getattr(x, f.name) for f in dataclasses.fields(x) if hasattr(x, f.name)]
    return []


def containers(x: t.Any, out: t.Optional[t.Dict[int, t.Any]] = None) -> t.Dict[int, t.Any]:
    """The mutable containers reachable from *x*, by id."""
    out = {} if out is None else out
    if id(x) in out:
        return out
    if is_container(x):
        out[id(x)] = x
    for y in children(x):
        containers(y, out)
    return out


def scribble(x: t.Any) -> None:
    """Change every mutable container of a result."""
    for y in list(containers(x).values()):
        if isinstance(y, (list, collections.deque)):
            y.append("scribble")
        elif isinstance(y, dict):
            y["scribble"] = "scribble"
        elif isinstance(y, set):
            y.add("scribble")
        elif dataclasses.is_dataclass(y):
            for f in dataclasses.fields(y):
                object.__setattr__(y, f.name, "scribble")


# -- every type: all short histories of calls --------------------------------------------------------------------------


class Call(t.NamedTuple):
    load: bool
    arg: t.Any
    expected: m.Expected


def calls_of(typ: m.T, small: bool) -> t.List[Call]:
    out = []
    vals = typ.vals()
    vals = vals[:1] + vals[-1:] if len(vals) > 1 else vals
    for v in vals:
        exp = m.expect(typ.enc, v)
        out.append(Call(False, v, exp))
        if exp.kind == "ok":
            p = m.plain(exp.value)
            out.append(Call(True, p, m.expect(typ.dec, p)))
    bad = 0
    for p in m.payloads(typ, [None, 7, "zz", [], {}], 1):
        exp = m.expect(typ.dec, p)
        if exp.kind == "reject":
            out.append(Call(True, p, exp))
            bad += 1
            if bad >= (2 if small else 4):
                break
    foreign = object()
    out.append(Call(False, foreign, m.expect(typ.enc, foreign)))
    return [c for c in out if c.expected.kind != "unspec"]


def shape(v: t.Any) -> t.Any:
    return m.canon(v)


def check_type(typ: m.T, depth: int, rec: Recorder) -> None:
    calls = calls_of(typ, depth >= 2)
    shareable = "Any" in typ.label or "object" in typ.label
    befores = [shape(c.arg) for c in calls]
    kept: t.List[t.Tuple[t.Any, t.Any]] = []
    n = 3 if thorough() and depth <= 1 else 2
    for seq in itertools.product(range(len(calls)), repeat=n):
        mapper = get_object_mapper()
        for pos, i in enumerate(seq):
            c = calls[i]
            got = m.attempt(mapper.deserialize if c.load else mapper.serialize, c.arg, typ.hint)
            rec.trans()
            what = f"{'load' if c.load else 'dump'}({c.arg!r}, {typ.label}) after calls {seq[:pos]}"
            bad = m.judge(c.expected, got)
            if bad:
                return rec.fail(f"{what}: {bad}")
            if shape(c.arg) != befores[i]:
                return rec.fail(f"{what}: the input was changed to {c.arg!r}")
            if got.kind == "ok" and not shareable:
                mine = containers(got.value)
                shared = set(mine) & set(containers(c.arg))
                if shared:
                    return rec.fail(f"{what}: the result shares {[mine[s] for s in shared]!r} with the input")
                for old, _ in kept:
                    shared = set(mine) & set(containers(old))
                    if shared:
                        return rec.fail(f"{what}: the result shares {[mine[s] for s in shared]!r} with an earlier result")
                if pos == 0:
                    kept.append((got.value, shape(got.value)))
                else:
                    scribble(got.value)
            for old, was in kept:
                if shape(old) != was:
                    return rec.fail(f"{what}: an earlier result changed to {old!r}")
            rec.state((typ.label, seq[: pos + 1]))
            rec.ok()
        kept = kept[-2:]
    rec.outcome("ok", len(calls))


# -- interfering calls: all histories, each in a process of its own ----------------------------------------------------


def rec_class(name: str, fields: t.Dict[str, t.Any], **defaults: t.Any) -> t.Any:
    return dataclasses.dataclass(type(name, (), {"__annotations__": fields, "__module__": __name__, **defaults}))  # type: ignore


@dataclasses.dataclass
class A:
    x: int
    ys: t.List[int] = dataclasses.field(default_factory=list)
    m: t.Dict[str, t.List[int]] = dataclasses.field(default_factory=dict)
    s: str = "d"


@dataclasses.dataclass
class ASub(A):
    x: t.Annotated[str, dc.Alias("ex")]  # type: ignore[assignment]
    z: int = 0


@dc.ExtraKeys()
@dataclasses.dataclass
class Lax:
    a: A = dataclasses.field(default_factory=lambda: A(0))


@dataclasses.dataclass
class LaxSub(Lax):
    b: int = 1


T1 = t.TypeVar("T1")
T2 = t.TypeVar("T2")


@dataclasses.dataclass
class Box(t.Generic[T1]):
    v: T1
    vs: t.List[T1] = dataclasses.field(default_factory=list)


@dataclasses.dataclass
class Pair(Box[T2], t.Generic[T1, T2]):
    w: t.Optional[T1] = None


@dataclasses.dataclass
class Node:
    v: int
    next: "t.Optional[Node]" = None
    kids: "t.List[Node]" = dataclasses.field(default_factory=list)


# Two classes that share their qualified name.
SAME1 = rec_class("Same", {"p": int})
SAME2 = rec_class("Same", {"p": str, "q": t.Optional[int]}, q=None)


class Opaque:
    """Stands for the members of a union that is declared by the setting alone."""


def lazy_a() -> t.Any:
    return UA


def lazy_b() -> t.Any:
    return UB


@dataclasses.dataclass
class UA:
    k: int


@dataclasses.dataclass
class UB:
    k: t.List[str]


FORMATS = dc.DateFormat("%d.%m.%Y", "%Y/%m/%d", "%H:%M", "%d.%m.%Y %H:%M", ".ISO_8601")
PRECISE = dc.Precision(3)
LAZY = dc.Union({"a": lazy_a, "b": lazy_b})
LAZY_FLAT = dc.Union({"a": lazy_a, "b": UB}, style=dc.Union.FLAT, discriminator_key="t")
CHAIN = dc.Union(ChainUnionMembers(StaticUnionMembers({"a": lazy_a}), StaticUnionMembers({"a": UB, "b": UB})))


@dataclasses.dataclass
class Holder:
    u: t.Annotated[t.Union[UA, UB], LAZY]
    f: t.Optional[A] = None


@dataclasses.dataclass
class Flat:
    a: t.Annotated[A, dc.Flattened()]
    rest: t.Annotated[t.Dict[str, t.Any], dc.Remainder()]


@dataclasses.dataclass
class Inner:
    n: int
    deep: t.Dict[str, t.List[int]] = dataclasses.field(default_factory=dict)


@dataclasses.dataclass
class FlatTwo:
    i: t.Annotated[Inner, dc.Flattened()]
    o: int = 0


@dataclasses.dataclass
class U1:
    x: int = 0


@dataclasses.dataclass
class U2:
    x: int = 0
    y: int = 0


@dataclasses.dataclass
class U2Sub(U2):
    pass


@dataclasses.dataclass
class Inner0:
    x: int = 0


@dataclasses.dataclass
class Outer:
    i: Inner0
    j: int = 0


@dataclasses.dataclass
class OuterSparse:
    i: t.Annotated[Inner0, dc.SerializeDefaults(False)]
    j: int = 0


class Kind(enum.Enum):
    ONE: t.Annotated[int, dc.Alias("eins", "uno")] = 1
    TWO = 2


class TD(t.TypedDict, total=False):
    a: t.List[int]
    b: str


class NT(t.NamedTuple):
    a: int
    b: t.List[str]


@dbdc.dataclass
class DB:
    a: t.List[int] = dbdc.field(default_factory=list)
    b: int = dbdc.field()


@dataclasses.dataclass
class Dates:
    d: t.Annotated[datetime.date, dc.DateFormat("%d.%m.%Y")]
    e: datetime.date = datetime.date(2020, 1, 2)


class Custom(dc.Converter):
    def __init__(self) -> None:
        self.n = 0

    def convert(self, ctx: dc.Context) -> t.Any:
        if ctx.direction.is_deserialize():
            return A(int(ctx.value[1:]))
        return f"A{ctx.value.x}"


CUSTOM = JsonConverter(Custom())
PLUS = dc.ExtraKeys(True)
RECORDED: t.List[t.Any] = []
RECORDING = dc.ExtraKeys(True, recorder=lambda ctx, keys: RECORDED.append(sorted(keys)))
LOOSE = dc.Strict(False)
NODEF = dc.SerializeDefaults(False)
ALIAS = dc.Alias("other", "one")
FMT = dc.DateFormat("%Y/%m/%d")
ONCE: t.Dict[str, t.Any] = {"x": 1, "more": [1, {"z": [2]}], "ys": [3], "m": {"k": [4]}}

MAPPER = get_object_mapper()
MAPPER.settings.add_global(dc.Strict(False))
MAPPER.settings.add_local(A, dc.ExtraKeys())
MAPPER.settings.add_conditional(
    lambda ctx: ctx.parent is not None and ctx.datatype.type is datetime.date, [FMT]  # type: ignore[attr-defined]
)
SETTINGS: t.List[t.Any] = [FORMATS, PRECISE, PLUS, RECORDING, LOOSE, NODEF, ALIAS, FMT, LAZY, LAZY_FLAT, CUSTOM]
SETTING_LISTS: t.Dict[str, t.List[t.Any]] = {"loose": [LOOSE], "nodef": [NODEF], "extra": [PLUS], "recording": [RECORDING], "fmt": [FMT]}


def temp(k: int) -> t.Any:
    """Classes that come and go, so that their addresses are used again."""
    name = "Tmp"
    if k == 0:
        cls = rec_class(name, {"a": int})
        hint: t.Any = t.Annotated[cls, dc.ExtraKeys()]
        out = [load({"a": 1, "b": 2}, hint).a]
    elif k == 1:
        cls = rec_class(name, {"a": t.List[str], "b": int}, b=5)
        got = load({"a": ["x"]}, cls)
        out = [got.a, got.b, dump(got, cls)]
    elif k == 2:
        cls = dc.Alias("never") and rec_class(name, {"a": t.Annotated[str, dc.Alias("z")]})
        out = [dump(cls("v"), cls), load({"z": "w"}, cls).a]
    else:
        e = enum.Enum(name, {"a": 1})
        out = [dump(e.a, e), load("a", e) is e.a]  # type: ignore[attr-defined]
        cls = None
        del e
    del cls
    gc.collect()
    return out


#: If set, the mapper that all calls go through; otherwise every call has a mapper of its own.
ONE_MAPPER: t.Any = None


def one_load(*args: t.Any, **kw: t.Any) -> t.Any:
    return load(*args, **kw) if ONE_MAPPER is None else ONE_MAPPER.deserialize(*args, **kw)


def one_dump(*args: t.Any, **kw: t.Any) -> t.Any:
    return dump(*args, **kw) if ONE_MAPPER is None else ONE_MAPPER.serialize(*args, **kw)


class Op:
    def __init__(self, name: str, fn: t.Callable[..., t.Any], *args: t.Any, **kw: t.Any) -> None:
        self.name, self.fn, self.args, self.kw = name, fn, args, kw


def ops() -> t.List[Op]:
    xa = {"x": 1, "more": 2}
    fresh_a = A(3, [1], {"k": [2]}, "d")
    S = SETTING_LISTS
    shared = get_object_mapper()
    out = [
        Op("A", one_load, {"x": 1, "ys": [1], "m": {"k": [1]}}, A),
        Op("A defaults", one_load, {"x": 1}, A),
        Op("A extra", one_load, xa, A),
        Op("A extra hint", one_load, xa, t.Annotated[A, PLUS]),
        Op("A extra call", one_load, xa, A, settings=S["extra"]),
        Op("A extra recorded", one_load, xa, A, settings=S["recording"]),
        Op("A text", one_load, {"x": "1"}, A),
        Op("A text loose", one_load, {"x": "1"}, A, settings=S["loose"]),
        Op("A loose hint", one_load, {"k": ["1"]}, t.Dict[str, t.List[t.Annotated[int, LOOSE]]]),
        Op("dump A", one_dump, fresh_a, A),
        Op("dump A sparse", one_dump, fresh_a, A, settings=S["nodef"]),
        Op("dump A sparse hint", one_dump, fresh_a, t.Annotated[A, NODEF]),
        Op("dump A bad", one_dump, A("x"), A),  # type: ignore[arg-type]
        Op("ASub", one_load, {"ex": "1", "z": 3}, ASub),
        Op("ASub by base key", one_load, {"x": 1}, ASub),
        Op("dump ASub", one_dump, ASub("q"), ASub),
        Op("Lax", one_load, {"a": {"x": 1}, "q": 1}, Lax),
        Op("Lax nested extra", one_load, {"a": xa}, Lax),
        Op("LaxSub extra", one_load, {"q": 1}, LaxSub),
        Op("Box[int]", one_load, {"v": 1, "vs": [2]}, Box[int]),
        Op("Box[str]", one_load, {"v": "a"}, Box[str]),
        Op("Box[str] bad", one_load, {"v": 1}, Box[str]),
        Op("Pair", one_load, {"v": "s", "vs": ["t"], "w": 1}, Pair[int, str]),
        Op("Pair swapped", one_load, {"v": 1, "w": "s"}, Pair[str, int]),
        Op("dump Box[Any list]", one_dump, Box([1], [[2]]), Box[t.List[int]]),
        Op("Node", one_load, {"v": 1, "next": {"v": 2}, "kids": [{"v": 3, "kids": [{"v": 4}]}]}, Node),
        Op("Node bad", one_load, {"v": 1, "kids": [{"v": 2, "kids": [{"v": "x"}]}]}, Node),
        Op("dump Node", one_dump, Node(1, Node(2), [Node(3)]), Node),
        Op("Same1", one_load, {"p": 1}, SAME1),
        Op("Same2", one_load, {"p": "s"}, SAME2),
        Op("Same2 as Same1", one_load, {"p": "s"}, SAME1),
        Op("dump Same1 as Same2", one_dump, SAME1(1), SAME2),
        Op("lazy a", one_load, {"type": "a", "a": {"k": 1}}, t.Annotated[Opaque, LAZY]),
        Op("lazy b", one_load, {"type": "b", "b": {"k": ["s"]}}, t.Annotated[Opaque, LAZY]),
        Op("lazy c", one_load, {"type": "c", "c": {}}, t.Annotated[Opaque, LAZY]),
        Op("dump lazy b", one_dump, UB(["t"]), t.Annotated[Opaque, LAZY]),
        Op("dump lazy none", one_dump, A(1), t.Annotated[Opaque, LAZY]),
        Op("lazy flat", one_load, {"t": "a", "k": 1}, t.Annotated[Opaque, LAZY_FLAT]),
        Op("lazy flat bad", one_load, {"t": "b", "k": 1}, t.Annotated[Opaque, LAZY_FLAT]),
        Op("dump lazy flat", one_dump, UA(1), t.Annotated[Opaque, LAZY_FLAT]),
        Op("chain a", one_load, {"type": "a", "a": {"k": 1}}, t.Annotated[Opaque, CHAIN]),
        Op("dump chain b", one_dump, UB([]), t.Annotated[Opaque, CHAIN]),
        Op("Holder", one_load, {"u": {"type": "a", "a": {"k": 1}}, "f": {"x": 1}}, Holder),
        Op("Flat", one_load, ONCE, Flat),
        Op("Flat as A", one_load, ONCE, A),
        Op("dump Flat", one_dump, Flat(A(1, [2]), {"r": [1]}), Flat),
        Op("dump Flat clash", one_dump, Flat(A(1, [2]), {"x": [1]}), Flat),
        Op("FlatTwo", one_load, {"n": 1, "deep": {"d": [1]}}, FlatTwo),
        Op("dump FlatTwo", one_dump, FlatTwo(Inner(1, {"d": [1]})), FlatTwo),
        Op("Kind alias", one_load, ["uno", "TWO", "eins"], t.List[Kind]),
        Op("dump Kind", one_dump, Kind.ONE, Kind),
        Op("TD", one_load, {"a": [1], "b": "x"}, TD),
        Op("dump TD", one_dump, {"a": [1], "b": "x"}, TD),
        Op("NT", one_load, [1, ["x"]], NT),
        Op("dump NT", one_dump, NT(1, ["x"]), NT),
        Op("DB", one_load, {"b": 1}, DB),
        Op("dump DB", one_dump, DB([1], 2), DB),
        Op("Dates", one_load, {"d": "01.02.2003"}, Dates),
        Op("Dates call", one_load, {"d": "01.02.2003", "e": "2004/05/06"}, Dates, settings=S["fmt"]),
        Op("Dates wrong", one_load, {"d": "01.02.2003", "e": "2004/05/06"}, Dates),
        Op("dump Dates", one_dump, Dates(datetime.date(2003, 2, 1)), Dates),
        Op("dump Dates call", one_dump, Dates(datetime.date(2003, 2, 1)), Dates, settings=S["fmt"]),
        Op("format 1", one_load, "01.02.2003", t.Annotated[datetime.date, FORMATS]),
        Op("format 2", one_load, "2003/02/01", t.Annotated[datetime.date, FORMATS]),
        Op("format iso", one_load, "2003-02-01", t.Annotated[datetime.date, FORMATS]),
        Op("format none", one_load, "1.2.3.4", t.Annotated[datetime.date, FORMATS]),
        Op("format time", one_load, "12:34", t.Annotated[datetime.time, FORMATS]),
        Op("format time iso", one_load, "12:34:56", t.Annotated[datetime.time, FORMATS]),
        Op("format datetime", one_load, "01.02.2003 12:34", t.Annotated[datetime.datetime, FORMATS]),
        Op("dump format", one_dump, datetime.date(2003, 2, 1), t.Annotated[datetime.date, FORMATS]),
        Op("dump format datetime", one_dump, datetime.datetime(2003, 2, 1, 12), t.Annotated[datetime.datetime, FORMATS]),
        Op("custom hint", one_load, ["A5"], t.List[t.Annotated[A, CUSTOM]]),
        Op("dump custom hint", one_dump, [A(5)], t.List[t.Annotated[A, CUSTOM]]),
        Op("A as text", one_load, ["A5"], t.List[A]),
        Op("mapper", MAPPER.deserialize, {"x": "1", "q": 1}, A),
        Op("mapper dates", MAPPER.deserialize, {"d": "01.02.2003", "e": "2004/05/06"}, Dates),
        Op("mapper dump", MAPPER.serialize, Dates(datetime.date(2003, 2, 1)), Dates),
        Op("mapper call", MAPPER.deserialize, {"x": "1"}, A, settings=[dc.Strict(True, priority=dc.Priority.HIGH)]),
        Op("plain mapper", shared.deserialize, {"x": "1"}, A),
        Op("plain mapper 2", shared.deserialize, {"x": 1}, A),
        Op("decimal", one_load, "1.23456", decimal.Decimal),
        Op("decimal precision", one_dump, decimal.Decimal("1.23456"), t.Annotated[decimal.Decimal, PRECISE]),
        Op("load decimal precision", one_load, "1.23456", t.Annotated[decimal.Decimal, PRECISE]),
        Op("decimal plain", one_dump, decimal.Decimal("1.23456"), decimal.Decimal),
        Op("union", one_load, [1, "a", {"x": 1}], t.List[t.Union[int, str, A]]),
        Op("union other", one_load, ["a", 1], t.List[t.Union[str, int]]),
        Op("U1|U2 as U2", one_load, {"x": 1, "y": 2}, t.Union[U1, U2]),
        Op("U1|U2 as U1", one_load, {"x": 1}, t.Union[U1, U2]),
        Op("U1|U2 neither", one_load, {"z": 1}, t.Union[U1, U2]),
        Op("dump U1|U2 sub", one_dump, U2Sub(1, 2), t.Union[U1, U2]),
        Op("dump U1|U2", one_dump, U2(1, 2), t.Union[U1, U2]),
        Op("Outer sparse", one_dump, Outer(Inner0(), 0), t.Annotated[Outer, NODEF]),
        Op("Outer", one_dump, Outer(Inner0(), 0), Outer),
        Op("Outer sparse field", one_dump, OuterSparse(Inner0(), 0), OuterSparse),
        Op("set", one_load, [3, 1, 2], t.Set[int]),
        Op("dump set of text", lambda: sorted(one_dump({"b", "a"}, t.Set[str]))),  # type: ignore[arg-type]
        Op("dumps", dumps, fresh_a, A, indent=1, sort_keys=True),
        Op("loads", loads, '{"x": 1, "ys": [2]}', A),
        Op("unknown", one_load, "x", types.SimpleNamespace),
        Op("alias list", one_load, {"one": 1}, rec_class("AL", {"f": t.Annotated[int, ALIAS]})),
        Op("alias list 2", one_load, {"f": 1}, rec_class("AL", {"f": t.Annotated[int, dc.Alias("f")]})),
    ]  # fmt: skip
    out += [Op(f"temp {k}", temp, k) for k in range(4)]
    return out


_ops: t.Optional[t.List[Op]] = None


def the_ops() -> t.List[Op]:
    global _ops
    if _ops is None:
        _ops = ops()
    return _ops


def clean(text: str) -> str:
    return re.sub(r"0x[0-9a-f]+", "0x", text)


def settings_shape() -> t.Any:
    parts: t.List[t.Any] = []
    for s in SETTINGS:
        parts.append(sorted((k, clean(repr(v))) for k, v in vars(s).items() if not k.startswith("_")))
    parts.append([sorted(x for x in vars(c) if x in ("x", "ys", "__annotations__")) for c in (A, ASub, Lax, Box, Node)])
    parts.append([clean(repr(c.__annotations__)) for c in (A, ASub, Lax, LaxSub, Box, Node, Flat, FlatTwo, TD, NT, Dates)])
    parts.append([(k, [id(x) for x in v]) for k, v in SETTING_LISTS.items()])
    parts.append([id(x) for x in MAPPER.settings.global_settings])
    return parts


def perform(op: Op, hold: bool, kept: t.List[t.Any]) -> t.Tuple[t.Any, t.Optional[str]]:
    """Perform an op; returns its outcome and what it did wrong."""
    inputs = [x for x in op.args if is_container(x)] + list(op.kw.values())
    before = [shape(x) for x in op.args[:1]]
    sets = settings_shape()
    del RECORDED[:]
    got = m.attempt(op.fn, *op.args, **op.kw)
    if got.kind == "ok":
        outcome: t.Any = ("ok", repr(shape(got.value)))
    else:
        assert got.exc is not None
        path = m.error_path(got.exc) if isinstance(got.exc, dc.ConversionError) else None
        outcome = (got.kind, type(got.exc).__name__, repr(path), clean(str(got.exc)))
    outcome += (repr(RECORDED),)
    if [shape(x) for x in op.args[:1]] != before:
        return outcome, f"the input was changed to {op.args[0]!r}"
    if settings_shape() != sets:
        return outcome, "settings or classes were changed"
    bad = None
    if got.kind == "ok" and op.name not in ("Flat", "dump Flat") and not isinstance(got.value, str):
        mine = containers(got.value)
        for x in inputs:
            if set(mine) & set(containers(x)):
                bad = "the result shares containers with the input"
        for x, _ in kept:
            if set(mine) & set(containers(x)):
                bad = "the result shares containers with an earlier result"
    for x, was in kept:
        if shape(x) != was:
            bad = f"an earlier result was changed to {x!r}"
    if got.kind == "ok":
        if hold:
            kept.append((got.value, shape(got.value)))
        elif op.name not in ("Flat", "dump Flat"):  # share the values of Any
            scribble(got.value)
    return outcome, bad


_fresh: t.Dict[int, t.Any] = {}


def fresh(i: int) -> t.Any:
    """The outcome of an op in a process that did nothing else."""
    if i not in _fresh:
        _fresh[i] = forked(perform, the_ops()[i], True, [])
    return _fresh[i]


def explore(prefix: t.Tuple[int, ...], menu: t.Sequence[int], depth: int, hold: bool, kept: t.List[t.Any]) -> t.Tuple[int, t.Any]:
    """In the state after *prefix*: try every op, each in a fork, and go on from there."""
    n = 0
    for i in menu:

        def child(i: int = i) -> t.Tuple[int, t.Any]:
            mine = list(kept)
            outcome, bad = perform(the_ops()[i], hold, mine)
            seq = prefix + (i,)
            if bad is None and outcome != fresh(i)[0]:
                bad = f"outcome {outcome}; in a fresh process {fresh(i)[0]}"
            if bad:
                return 1, f"after {[the_ops()[j].name for j in prefix]}, {the_ops()[i].name!r}: {bad}"
            if depth > 1:
                k, b = explore(seq, menu, depth - 1, hold, mine)
                return k + 1, b
            return 1, None

        k, bad = forked(child)
        n += k
        if bad:
            return n, bad
    return n, None


def run_tree(case: t.Any, rec: Recorder) -> None:
    global ONE_MAPPER
    mode, first, menu, depth = case
    hold = mode == "kept"
    ONE_MAPPER = None  # what a call gives is judged by what it gives in a process and with a mapper that did nothing else
    for i in menu:
        fresh(i)
    bad = fresh(first)[1]
    if bad:
        return rec.fail(f"{the_ops()[first].name!r}: {bad}")

    def go() -> t.Tuple[int, t.Any]:
        global ONE_MAPPER
        if mode == "one mapper":
            ONE_MAPPER = get_object_mapper()
        kept: t.List[t.Any] = []
        outcome, bad = perform(the_ops()[first], hold, kept)
        if bad or outcome != fresh(first)[0]:
            return 1, bad or f"{the_ops()[first].name!r}: {outcome}; in another process {fresh(first)[0]}"
        k, bad = explore((first,), menu, depth - 1, hold, kept)
        return k + 1, bad

    n, bad = forked(go)
    rec.trans(n)
    rec.outcome(fresh(first)[0][0], n)
    if bad:
        return rec.fail(bad)
    rec.ok(n)
    rec.state((case[0], first, depth))
    rec.count("histories", n)


#: Ops on the same few classes, of which longer histories are explored.
TIGHT = ("A defaults", "A extra", "A extra hint", "A extra recorded", "A text loose", "dump A sparse", "dump A", "ASub", "Lax",
         "LaxSub extra", "Box[int]", "Box[str]", "Same1", "Same2", "lazy a", "dump lazy b", "Flat", "dump Node", "Dates call",
         "Dates wrong", "mapper", "plain mapper", "temp 0", "temp 1", "custom hint", "A as text", "U1|U2 as U2",
         "U1|U2 as U1")  # fmt: skip


def tree_cases() -> t.Iterator[t.Any]:
    every = tuple(range(len(the_ops())))
    tight = tuple(i for i in every if the_ops()[i].name in TIGHT)
    assert len(tight) == len(TIGHT)
    for mode in ("kept", "one mapper"):
        for first in every:
            yield mode, first, every, 3 if thorough() else 2
        for first in tight:
            yield mode, first, tight, 4 if thorough() else 3


def spaces() -> t.List[Space]:
    deep = thorough()
    core = ts.core_indices()
    return [
        Space("histories", tree_cases, run_tree,
              "all histories of 2 of the interfering calls and of 3 of the most related ones, with results kept and a mapper for each call, or results overwritten and one mapper",
              timeout=900),
    ] + ts.type_spaces(
        check_type,
        depth2_leaves=core if deep else core[:1],
        depth3_leaves=(),
        depth3_wrappers=(),
        unions=(2,),
    )  # fmt: skip
