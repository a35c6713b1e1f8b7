"""C19: annotations that are not settings in use never change a conversion."""

import abc
import dataclasses
import datetime as dt
import decimal
import enum
import itertools
import pathlib
import typing as t
import uuid

import databind.core as dc
from databind.json import JsonConverter, dump, load
from nr.date import duration

from mc import model as m
from mc import typespace as ts
from mc.checks import c03
from mc.engine import Recorder, Space, thorough

ASSUMPTIONS = [
    "a setting is not in use at a place where the documentation gives it no meaning: Alias, Required, Flattened and "
    "Remainder anywhere but directly on a field, formats and Precision on other types than theirs, ExtraKeys and "
    "SerializeDefaults on types without fields, settings of types unknown to databind anywhere",
    "metadata that Python itself does not accept in a hint (unhashable members of a union) is left out",
]


# -- the metadata ------------------------------------------------------------------------------------------------------


class OwnSetting(dc.Setting):
    def __init__(self) -> None:
        super().__init__()


class OwnLoud(dc.Setting):
    priority = dc.Priority.ULTIMATE

    def __init__(self) -> None:
        super().__init__()


class OwnClassSetting(dc.ClassDecoratorSetting):
    def __init__(self) -> None:
        super().__init__()


class Rude:
    """Metadata that takes part in nothing."""

    def __eq__(self, other: t.Any) -> bool:
        raise AssertionError("compared")

    def __hash__(self) -> int:
        return 1

    def __bool__(self) -> bool:
        raise AssertionError("truth value taken")

    def __repr__(self) -> str:
        return "Rude()"


class Yes:
    """Equal to everything."""

    priority = 99
    aliases = ("zz",)
    enabled = False

    def __eq__(self, other: t.Any) -> bool:
        return True

    def __hash__(self) -> int:
        return 1

    def __repr__(self) -> str:
        return "Yes()"


#: Foreign objects: harmless at any place of any hint.
FOREIGN: t.List[t.Tuple[str, t.Any]] = [
    ("text", "doc"), ("None", None), ("zero", 0), ("list", []), ("class", dc.Strict), ("Rude", Rude()), ("Yes", Yes()),
    ("own", OwnSetting()), ("ownloud", OwnLoud()), ("ownclass", OwnClassSetting()), ("lambda", lambda *a: None),
    ("type", int), ("hint", t.List[int]), ("ellipsis", ...), ("exc", ValueError("x")), ("docalias", {"alias": "zz"}),
]  # fmt: skip
FOREIGN_D = dict(FOREIGN)

#: Settings without a meaning at a place that is not a field.
UNUSED: t.List[t.Tuple[str, t.Any]] = [
    ("Alias", dc.Alias("zz")), ("Required", dc.Required()), ("Required0", dc.Required(False)),
    ("Remainder", dc.Remainder()), ("Flattened", dc.Flattened()),
]  # fmt: skip


def unused_for(typ: m.T) -> t.Iterator[t.Tuple[str, t.Any]]:
    """Settings that mean nothing to a type (wherever it occurs)."""
    x = m.unwrap(typ)
    while isinstance(x, m.OptT):
        x = m.unwrap(x.inner)
    if isinstance(x, m.UnionT):
        return  # the settings that matter are those of the members
    if not (isinstance(x, m.TableT) and x in (m.DateT, m.TimeT, m.DateTimeT)):
        yield "DateFormat", dc.DateFormat("%d/%m/%Y")
    if not isinstance(x, m.DecimalT):
        yield "Precision", dc.Precision(prec=1)
    if not isinstance(x, (m.RecT, m.TaggedT)):
        yield "ExtraKeys", dc.ExtraKeys()
        yield "SerializeDefaults", dc.SerializeDefaults(False)
    if not isinstance(x, (m.IntT, m.FloatT, m.BoolT, m.StrT, m.BytesT, m.DecimalT)):
        yield "Strict", dc.Strict(False)


# -- generated types ---------------------------------------------------------------------------------------------------


def both_ways(typ: m.T, depth: int, rec: Recorder) -> None:
    small = depth >= (2 if thorough() else 1)
    atoms = m.ATOMS if depth == 0 and thorough() else m.FEW_ATOMS[:-1:2] if small else m.FEW_ATOMS
    for p in m.payloads(typ, atoms, 1 if small else 2):
        exp = m.expect(typ.dec, p)
        got = m.attempt(load, p, typ.hint)
        rec.trans()
        rec.outcome(f"load model:{exp.kind} code:{got.kind}")
        bad = m.judge(exp, got)
        if bad:
            return rec.fail(f"load({p!r}, {typ.hint}) {bad}")
        rec.ok(exp.kind != "unspec")
        rec.state((typ.label, "load", m.short_canon(p)))
    vals = typ.vals() if depth == 0 else typ.vals()[:2] if depth == 1 else typ.vals()[1:2]
    pool = SPARSE if small else c03.FEW
    for v in [*vals, *(x for v in vals[:1] for x in c03.mutations(v, pool))]:
        try:
            exp = m.expect(typ.enc, v)
        except TypeError:
            continue
        got = m.attempt(dump, v, typ.hint)
        rec.trans()
        rec.outcome(f"dump model:{exp.kind} code:{got.kind}")
        bad = m.judge(exp, got)
        if bad:
            return rec.fail(f"dump({v!r}, {typ.hint}) {bad}")
        rec.ok(exp.kind != "unspec")
        rec.state((typ.label, "dump", repr(v)[:200]))


SPARSE: t.List[t.Any] = [None, 7, "zz", [], {"x": 1}, c03.Hashed()]


def annotated_chain(leaf: m.T, chain: t.Sequence[str], places: t.Sequence[int], meta: t.Any) -> t.Optional[m.T]:
    """The type built by *chain* over *leaf*; the types after *places* steps are annotated."""
    table = dict(m.wrappers())
    x: t.Optional[m.T] = leaf
    for i in range(len(chain) + 1):
        if i:
            assert x is not None
            x = table[chain[i - 1]](x)
            if x is None:
                return None
        if i in places:
            assert x is not None
            x = annotate(x, meta, field=i < len(chain))
            if x is None:
                return None
    return x


def annotate(x: m.T, meta: str, field: bool) -> t.Optional[m.T]:
    """*meta*: a name of FOREIGN; "unused" for all settings that mean nothing to the type; "stack" for several layers"""
    if meta == "unused":
        # A type in the middle of a chain may become the type of a field, where UNUSED has a meaning.
        items = [*unused_for(x)] + ([] if field else UNUSED)
        if not items:
            return None
        return m.AnnT(x, *(v for _, v in items), label="unused")
    if meta == "stack":
        return m.AnnT(m.AnnT(m.AnnT(x, "doc"), OwnSetting(), None), Rude(), label="stack")
    return m.AnnT(x, FOREIGN_D[meta], label=meta)


def run_chain(case: t.Any, rec: Recorder) -> None:
    leaf, chain, places, meta = case
    leaves = m.leaf_types()
    try:
        typ = annotated_chain(leaves[leaf], chain, places, meta)
    except TypeError as exc:
        if "unhashable" in str(exc):
            return rec.count("not a valid hint")
        raise
    if typ is None:
        return rec.count("constructor not applicable")
    both_ways(typ, len(chain), rec)


def run_noise(case: t.Any, rec: Recorder) -> None:
    leaf, chain, before, after = case
    m.NOISE = (tuple(FOREIGN_D[x] for x in before), tuple(FOREIGN_D[x] for x in after))
    try:
        typ = m.type_chain(m.leaf_types()[leaf], chain)
    finally:
        m.NOISE = ((), ())
    if typ is None:
        return rec.count("constructor not applicable")
    both_ways(typ, len(chain), rec)


def run_union(case: t.Any, rec: Recorder) -> None:
    idx, places, meta, outer = case
    mem = ts.union_members()
    members = []
    for k, i in enumerate(idx):
        x: t.Optional[m.T] = mem[i]
        if k in places:
            x = annotate(mem[i], meta, field=False)
            if x is None:
                return rec.count("no such setting")
        members.append(x)
    u: m.T = m.UnionT(*members)  # type: ignore[arg-type]
    if outer:
        u = m.AnnT(u, "doc", label="doc")
    if outer == "opt":
        u = m.AnnT(m.OptT(u), None, label="None")
    both_ways(u, 1, rec)


# -- settings in use next to metadata that is not ----------------------------------------------------------------------


@dataclasses.dataclass
class In:
    a: int
    b: t.Annotated[str, dc.Alias("bee")] = "b"


class Iface(abc.ABC):
    pass


@dataclasses.dataclass
class Impl(Iface):
    n: int = 3


@dataclasses.dataclass
class MemA:
    x: int


@dataclasses.dataclass
class MemB:
    x: int
    y: str = "q"


class Shift(dc.Converter):
    def convert(self, ctx: dc.Context) -> t.Any:
        if not isinstance(ctx.value, int):
            raise dc.ConversionError(self, ctx, "int expected")
        return ctx.value + (1 if ctx.direction.is_serialize() else -1)


_members = {"a": MemA, "b": MemB}

#: (name, type, settings in use, payloads, values)
HINTS: t.List[t.Tuple[str, t.Any, t.Tuple[t.Any, ...], t.List[t.Any], t.List[t.Any]]] = [
    ("lenient int", int, (dc.Strict(False),), ["1", 1, "x", 1.0, None, True], [1, "1", None]),
    ("lenient str", str, (dc.Strict(False),), ["1", 1, True, 1.5, None, []], ["1", 1]),
    ("lenient bool", bool, (dc.Strict(False),), ["yes", "no", "x", True, 1], [True, "yes"]),
    ("lenient decimal", decimal.Decimal, (dc.Strict(False),), ["1.5", 2, 1.5, "x"], [decimal.Decimal("1.50"), 1]),
    ("strict twice", int, (dc.Strict(True), dc.Strict(False)), ["1", 1, "x"], [1, "1"]),
    ("precision", decimal.Decimal, (dc.Precision(prec=2),), ["1.2345", "x", 1], [decimal.Decimal("1.2345")]),
    ("date format", dt.date, (dc.DateFormat("%d/%m/%Y"),), ["02/01/2020", "2020-01-02", 1], [dt.date(2020, 1, 2), 1]),
    ("time format", dt.time, (dc.DateFormat("%H.%M", "%H:%M"),), ["10.30", "10:30", "x"], [dt.time(10, 30)]),
    ("datetime format", dt.datetime, (dc.DateFormat("%d/%m/%Y %H:%M"),), ["02/01/2020 10:30", "2020-01-02", 1],
     [dt.datetime(2020, 1, 2, 10, 30), dt.date(2020, 1, 2)]),
    ("extra keys", In, (dc.ExtraKeys(),), [{"a": 1}, {"a": 1, "zz": 2}, {}, 1], [In(1), In(1, "c"), 1]),
    ("serialize defaults", In, (dc.SerializeDefaults(False),), [{"a": 1}, {"a": 1, "zz": 2}], [In(1), In(1, "c")]),
    ("two settings", In, (dc.ExtraKeys(), dc.SerializeDefaults(False)), [{"a": 1, "zz": 2}], [In(1), In(1, "c")]),
    ("optional extra", t.Optional[In], (dc.ExtraKeys(),), [None, {"a": 1, "zz": 2}, {}], [None, In(1), 1]),
    ("optional lenient", t.Optional[int], (dc.Strict(False),), [None, "1", "x"], [None, 1, "1"]),
    ("converter", int, (JsonConverter(Shift()),), [1, 7, "x", None], [1, "x"]),
    ("converter of any", t.Any, (JsonConverter(Shift()),), [1, "x"], [1, "x"]),
    ("converter of list", t.List[int], (JsonConverter(Shift()),), [1, [1], "x"], [1, [1]]),
    ("converter of optional", t.Optional[int], (JsonConverter(Shift()),), [1, "x", None], [1, "x", None]),
    ("deserialize as", Iface, (dc.DeserializeAs(Impl),), [{"n": 1}, {}, {"z": 1}, 1], [Impl(1), 1]),
    ("nested", t.Union[MemA, MemB], (dc.Union(_members),),
     [{"type": "a", "a": {"x": 1}}, {"type": "c"}, {"x": 1}, 1], [MemA(1), MemB(2), 1]),
    ("nested keys", t.Union[MemA, MemB], (dc.Union(_members, dc.Union.NESTED, "k", "w"),),
     [{"k": "a", "w": {"x": 1}}, {"type": "a", "a": {"x": 1}}], [MemA(1), MemB(2), 1]),
    ("flat", t.Any, (dc.Union(_members, dc.Union.FLAT),), [{"type": "b", "x": 1}, {"type": "c", "x": 1}, {"x": 1}],
     [MemA(1), MemB(2), 1]),
    ("keyed", t.Union[MemA, MemB], (dc.Union(_members, dc.Union.KEYED),), [{"b": {"x": 1}}, {"c": {"x": 1}}, {}],
     [MemA(1), MemB(2), 1]),
    ("best match", t.Union[MemA, MemB], (dc.Union(_members, dc.Union.BEST_MATCH),), [{"x": 1}, {"x": 1, "y": "a"}, 1],
     [MemA(1), MemB(2), 1]),
    ("optional union", t.Optional[t.Union[MemA, MemB]], (dc.Union(_members, dc.Union.KEYED),),
     [{"b": {"x": 1}}, None, {}], [MemA(1), None, 1]),
    ("plain union", t.Union[MemA, MemB], (), [{"x": 1}, {"x": 1, "y": "a"}, 1], [MemA(1), MemB(2), 1]),
    ("literal", t.Literal["a", 2, None], (), ["a", 2, None, 3, "b", []], ["a", 2, None, 3]),
    ("mapping", t.Dict[str, int], (), [{"a": 1}, {1: 1}, {"a": "x"}, 1], [{"a": 1}, {1: 1}, 1]),
    ("sequence", t.List[int], (), [[1], ["x"], 1], [[1], ["x"], (1,)]),
    ("tuple", t.Tuple[int, str], (), [[1, "a"], [1], 1], [(1, "a"), (1,)]),
    ("set", t.Set[int], (), [[1], ["x"], 1], [{1}, [1]]),
    ("enum", m.Color, (), ["RED", "green", "x", 1], [m.Color.RED, m.Color.GREEN, 1]),
    ("int enum", m.Level, (), [1, 10, 3, "LO"], [m.Level.LO, 1]),
    ("uuid", uuid.UUID, (), [m._U1, "x", 1], [uuid.UUID(m._U1), 1]),
    ("path", pathlib.Path, (), ["a/b", 1], [pathlib.Path("a/b"), "a"]),
    ("pure path", pathlib.PurePath, (), ["a/b", 1], [pathlib.PurePath("a/b"), "a"]),
    ("duration", duration, (), ["P1D", "x", 1], [duration(days=1), 1]),
    ("bytes", bytes, (), ["YQ==", b"a", 1], [b"a", "a"]),
    ("any", t.Any, (), [1, {"a": []}], [1, In]),
    ("object", object, (), [1, {"a": []}], [1, In]),
]  # fmt: skip
HINTS_D = {h[0]: h for h in HINTS}

#: The place of the hint.
PLACES: t.Dict[str, t.Tuple[t.Callable[[t.Any], t.Any], t.Callable[[t.Any], t.Any], t.Callable[[t.Any, t.Any], t.Any]]]
_id: t.Callable[..., t.Any] = lambda x: x


def _field(**kw: t.Any) -> t.Callable[[t.Any], t.Any]:
    def make(hint: t.Any) -> t.Any:
        return dataclasses.make_dataclass("Holder", [("f", hint, dataclasses.field(**kw)), ("g", int, 5)], kw_only=True)

    return make


X = t.TypeVar("X")


def _generic(hint: t.Any) -> t.Any:
    ns = {"__annotations__": {"f": X, "g": int}, "g": 5, "__module__": __name__}
    return dataclasses.dataclass(m._new_class("Holder", (t.Generic[X],), ns))[hint]  # type: ignore[index]


def _in_generic(hint: t.Any) -> t.Any:
    """The metadata is in the generic class, the type in its argument."""
    base, *meta = t.get_args(hint) if t.get_origin(hint) is t.Annotated else (hint,)
    ann = t.Annotated[(X, *meta)] if meta else X  # type: ignore[misc]
    ns = {"__annotations__": {"f": ann, "g": int}, "g": 5, "__module__": __name__}
    return dataclasses.dataclass(m._new_class("Holder", (t.Generic[X],), ns))[base]  # type: ignore[index]


def _tdict(hint: t.Any) -> t.Any:
    return t.TypedDict("Holder", {"f": hint, "g": int})  # type: ignore[operator,misc]


def _ntuple(hint: t.Any) -> t.Any:
    return t.NamedTuple("Holder", [("f", hint), ("g", int)])


def _rec_val(cls: t.Any, v: t.Any) -> t.Any:
    cls = t.get_origin(cls) or cls
    return cls(f=v, g=5)


_rec_load: t.Callable[[t.Any], t.Any] = lambda p: {"f": p, "g": 5}

PLACES = {
    "top": (_id, _id, lambda c, v: v),
    "list": (lambda h: t.List[h], lambda p: [p], lambda c, v: [v]),  # type: ignore[valid-type]
    "dict": (lambda h: t.Dict[str, h], lambda p: {"k": p}, lambda c, v: {"k": v}),  # type: ignore[valid-type,misc]
    "tuple": (lambda h: t.Tuple[int, h], lambda p: [1, p], lambda c, v: (1, v)),  # type: ignore[valid-type,misc]
    "optional": (lambda h: t.Optional[h], _id, lambda c, v: v),
    "field": (_field(), _rec_load, _rec_val),
    "typeddict": (_tdict, _rec_load, _rec_val),
    "namedtuple": (_ntuple, _rec_load, _rec_val),
    "generic": (_generic, _rec_load, _rec_val),
    "in generic": (_in_generic, _rec_load, _rec_val),
}


def image(v: t.Any) -> t.Any:
    """An image of a value in which classes defined for one hint each count as the same."""
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [image(x) for x in v])
    if isinstance(v, dict):
        return (type(v).__name__, [(image(k), image(x)) for k, x in v.items()])
    if type(v).__name__ == "Holder":
        return ("Holder", [(f.name, image(getattr(v, f.name))) for f in dataclasses.fields(v)])
    return m.canon(v)


def combine(base: t.Any, used: t.Sequence[t.Any], noise: t.Sequence[t.Any], gaps: t.Sequence[int], nest: int) -> t.Any:
    """The settings in *used* with the noise at the given gaps, the metadata from index *nest* on in an outer layer."""
    meta: t.List[t.Any] = []
    for i in range(len(used) + 1):
        meta += [x for x, g in zip(noise, gaps) if g == i]
        meta += used[i : i + 1]
    hint = base
    for part in (meta[:nest], meta[nest:]):
        if part:
            hint = t.Annotated[(hint, *part)]  # type: ignore[misc]
    return hint


def outcomes(place: str, hint: t.Any, payloads: t.List[t.Any], values: t.List[t.Any], rec: Recorder) -> t.Any:
    mk, wrap_p, wrap_v = PLACES[place]
    full = mk(hint)
    out: t.List[t.Any] = []
    for p in payloads:
        got = m.attempt(load, wrap_p(m.copy_json(p)), full)
        out.append(("load", repr(p), got.kind, image(got.value), type(got.exc) if got.kind == "crash" else None))
    for v in values:
        got = m.attempt(dump, wrap_v(full, v), full)
        out.append(("dump", repr(v), got.kind, image(got.value), type(got.exc) if got.kind == "crash" else None))
    rec.trans(len(out))
    return out


_plain: t.Dict[t.Any, t.Any] = {}


def run_mixed(case: t.Any, rec: Recorder) -> None:
    name, place, noise, gaps, nest = case
    _, base, used, payloads, values = HINTS_D[name]
    key = (name, place)
    if key not in _plain:
        _plain[key] = outcomes(place, combine(base, used, (), (), 0), payloads, values, rec)
    for cleanup in t._cleanups:  # type: ignore[attr-defined]
        cleanup()
    try:
        hint = combine(base, used, [FOREIGN_D[x] for x in noise], gaps, nest)
        got = outcomes(place, hint, payloads, values, rec)
    except TypeError as exc:
        if "unhashable" in str(exc):
            return rec.count("not a valid hint")
        raise
    rec.state((name, place, noise, gaps, nest))
    for a, b in zip(_plain[key], got):
        if a != b:
            return rec.fail(f"{name} at {place} as {hint}: {b}; without the irrelevant metadata: {a}")
    rec.ok(len(got))
    for x in got:
        rec.outcome(f"{x[0]} {x[2]}")


def mixed_cases(noise: t.Sequence[t.Sequence[str]], places: t.Sequence[str]) -> t.Iterator[t.Any]:
    for h in HINTS:
        k = len(h[2])
        for place in places:
            for ns in noise:
                for gaps in itertools.product(range(k + 1), repeat=len(ns)):
                    if list(gaps) != sorted(gaps) and len(set(ns)) < len(ns):
                        continue
                    for nest in range(k + len(ns) + 1):
                        yield (h[0], place, tuple(ns), gaps, nest)


# -- fields ------------------------------------------------------------------------------------------------------------

#: The settings of a field: (name, type, settings, dataclass field arguments, the object's payloads, field values)
FIELDS: t.List[t.Tuple[str, t.Any, t.Tuple[t.Any, ...], t.Dict[str, t.Any], t.List[t.Any], t.List[t.Any]]] = [
    ("plain", int, (), {}, [{"f": 1}, {}, {"f": "x"}, {"f": 1, "g": 2, "z": 1}], [1, "x"]),
    ("default", int, (), {"default": 9}, [{"f": 1}, {}, {"zz": 1}], [1, 9]),
    ("factory", t.List[int], (), {"default_factory": list}, [{"f": [1]}, {}, {"zz": 1}], [[1], []]),
    ("optional", t.Optional[int], (), {}, [{"f": 1}, {}, {"f": None}], [1, None]),
    ("alias", int, (dc.Alias("al", "a2"),), {}, [{"al": 1}, {"a2": 2}, {"f": 1}, {"al": 1, "a2": 2}, {"zz": 1}], [1]),
    ("two aliases", int, (dc.Alias("al"), dc.Alias("am")), {}, [{"al": 1}, {"am": 2}, {"f": 1}], [1]),
    ("required", t.Optional[int], (dc.Required(),), {"default": 3}, [{"f": 1}, {}, {"f": None}], [1, None, 3]),
    ("not required", t.Optional[int], (dc.Required(False),), {"default": 3}, [{"f": 1}, {}, {"f": None}], [1, None, 3]),
    ("flattened", In, (dc.Flattened(),), {}, [{"a": 1}, {"f": {"a": 1}}, {"a": 1, "bee": "x", "g": 2}, {}], [In(1), 1]),
    ("flattened off", In, (dc.Flattened(False),), {}, [{"a": 1}, {"f": {"a": 1}}, {}], [In(1), 1]),
    ("remainder", t.Dict[str, int], (dc.Remainder(),), {}, [{"a": 1, "g": 3}, {}, {"f": 1}, {"a": "x"}],
     [{"a": 1}, {"g": 1}, {}]),
    ("remainder off", t.Dict[str, int], (dc.Remainder(False),), {}, [{"a": 1}, {}, {"f": {"a": 1}}], [{"a": 1}, {}]),
    ("alias and strict", int, (dc.Alias("al"), dc.Strict(False)), {}, [{"al": "1"}, {"al": 1}, {"f": 1}, {}], [1, "1"]),
    ("alias and required", t.Optional[int], (dc.Alias("al"), dc.Required()), {}, [{"al": 1}, {"f": 1}, {}], [1, None]),
    ("extra inside", In, (dc.Alias("al"), dc.ExtraKeys()), {}, [{"al": {"a": 1, "z": 1}}, {"al": {"a": 1}, "z": 1}],
     [In(2)]),
    ("defaults inside", In, (dc.SerializeDefaults(False),), {}, [{"f": {"a": 1}}], [In(2), In(2, "x")]),
    ("flattened extra", In, (dc.Flattened(), dc.ExtraKeys()), {}, [{"a": 1, "z": 1}, {"a": 1}], [In(2)]),
]  # fmt: skip
FIELDS_D = {h[0]: h for h in FIELDS}
RECORDS = ("dataclass", "derived", "string", "typeddict", "namedtuple")


def record_of(kind: str, hint: t.Any, kw: t.Dict[str, t.Any], i: int) -> t.Any:
    fs = [("f", hint, dataclasses.field(**kw)), ("g", int, dataclasses.field(default=5))]
    if kind == "dataclass":
        return dataclasses.make_dataclass("Holder", fs, kw_only=True)
    if kind == "derived":
        # The base class declares the field with another meaning.
        base = dataclasses.make_dataclass(
            "Base", [("f", t.Annotated[str, dc.Alias("other"), dc.Required()]), ("g", str)], kw_only=True
        )
        return dataclasses.make_dataclass("Holder", fs, bases=(base,), kw_only=True)
    if kind == "string":
        globals()["_HINT"] = hint
        ns = {"__annotations__": {"f": "_HINT", "g": "int"}, "__module__": __name__, "f": fs[0][2], "g": 5}
        return dataclasses.dataclass(kw_only=True)(m._new_class("Holder", (), ns))
    if kind == "typeddict":
        return _tdict(hint)
    return _ntuple(hint)


def run_field(case: t.Any, rec: Recorder) -> None:
    name, kind, noise, gaps, nest = case
    _, base, used, kw, payloads, values = FIELDS_D[name]
    if kw and kind in ("typeddict", "namedtuple"):
        return rec.count("no defaults")
    if kind == "string" and {"list", "docalias"} & set(noise):
        return rec.count("not a valid hint")  # typeapi does not evaluate such forward references

    def all_outcomes(hint: t.Any) -> t.List[t.Any]:
        cls = record_of(kind, hint, kw, 0)
        out: t.List[t.Any] = []
        for wrap in (False, True):
            hnt = t.Annotated[cls, "w", None] if wrap else cls  # type: ignore[valid-type]
            for p in payloads:
                for q in (p, {**p, "g": 1}):
                    got = m.attempt(load, m.copy_json(q), hnt)
                    out.append(("load", repr(q), got.kind, image(got.value), type(got.exc) if got.kind == "crash" else None))
            for v in values:
                got = m.attempt(dump, cls(f=v, g=5), hnt)
                out.append(("dump", repr(v), got.kind, image(got.value), type(got.exc) if got.kind == "crash" else None))
        rec.trans(len(out))
        return out

    key = ("field", name, kind)
    if key not in _plain:
        _plain[key] = all_outcomes(combine(base, used, (), (), 0))
    hint = combine(base, used, [FOREIGN_D[x] for x in noise], gaps, nest)
    got = all_outcomes(hint)
    rec.state((name, kind, noise, gaps, nest))
    for a, b in zip(_plain[key], got):
        if a != b:
            return rec.fail(f"field {name} of a {kind} as {hint}: {b}; without the irrelevant metadata: {a}")
    rec.ok(len(got))
    for x in got:
        rec.outcome(f"{x[0]} {x[2]}")


def field_cases(noise: t.Sequence[t.Sequence[str]]) -> t.Iterator[t.Any]:
    for h in FIELDS:
        k = len(h[2])
        for kind in RECORDS:
            for ns in noise:
                for gaps in itertools.product(range(k + 1), repeat=len(ns)):
                    for nest in range(k + len(ns) + 1):
                        yield (h[0], kind, tuple(ns), gaps, nest)


# -- members of enumerations -------------------------------------------------------------------------------------------


def run_enum(case: t.Any, rec: Recorder) -> None:
    noise, gap, nest = case
    meta = [FOREIGN_D[x] for x in noise]
    hint = combine(int, (dc.Alias("one", "uno"),), meta, [gap] * len(meta), nest)
    ns_ann = {"ONE": hint, "TWO": t.Annotated[(int, *meta)]}  # type: ignore[misc]
    meta_cls: t.Any = type(m.Color)
    ns = meta_cls.__prepare__("E", (enum.Enum,))
    ns["__module__"] = __name__
    ns["__annotations__"] = ns_ann
    ns["ONE"] = 1
    ns["TWO"] = 2
    cls = meta_cls("E", (enum.Enum,), ns)
    for text, want in [("one", "ONE"), ("uno", "ONE"), ("ONE", "ONE"), ("TWO", "TWO"), ("zz", None), ("doc", None)]:
        got = m.attempt(load, text, cls)
        rec.trans()
        if (got.value.name if got.kind == "ok" else got.exc if got.kind == "crash" else None) != want:
            return rec.fail(f"member annotated as {hint}: load({text!r}) {got!r}, expected {want}")
    for member, text in [(cls.ONE, "one"), (cls.TWO, "TWO")]:
        got = m.attempt(dump, member, cls)
        rec.trans()
        if got.kind != "ok" or got.value != text:
            return rec.fail(f"member annotated as {hint}: dump({member!r}) {got!r}, expected {text!r}")
    rec.ok(8)
    rec.state(case)
    rec.outcome("enum ok")


# -- spaces ------------------------------------------------------------------------------------------------------------


def subsets(n: int) -> t.List[t.Tuple[int, ...]]:
    return [c for k in range(1, n + 1) for c in itertools.combinations(range(n), k)]


def spaces() -> t.List[Space]:
    deep = thorough()
    allw = ts.all_wrappers()
    core = ts.core_indices()
    leaves = range(len(m.leaf_types()))
    names = [n for n, _ in FOREIGN]
    few = ["text", "own", "Rude"]
    chain_meta = ["text", "unused", "stack"] if deep else ["unused", "stack"]
    singles = [(n,) for n in names]
    pairs = list(itertools.product(names if deep else few, repeat=2))
    some = pairs if deep else [("text", "own"), ("own", "Rude"), ("Yes", "None")]
    return [
        Space("leaf", lambda: ((i, (), (0,), n) for i in leaves for n in names + ["unused", "stack"]), run_chain,
              f"all leaf types x {len(names)} foreign objects, unused settings and stacked annotations"),
        Space("depth1", lambda: ((i, (w,), p, n) for i in leaves for w in allw for p in subsets(2)
                                 for n in (names + ["unused", "stack"] if deep else chain_meta)), run_chain,
              "all type constructors over all leaf types, every set of places annotated"),
        Space("depth2", lambda: ((i, c, p, n) for c in m.chains(2, allw) for i in (core if deep else core[:1])
                                 for p in (subsets(3) if deep else [(0, 1, 2)])
                                 for n in chain_meta), run_chain,
              "all pairs of type constructors, sets of places annotated"),
        Space("field noise", lambda: ((i, (w,), b, a) for i in (leaves if deep else core) for w in allw
                                      for b, a in noise_modes(names if deep else few)), run_noise,
              "metadata before and after the settings of every generated field and union"),
        Space("field noise 2", lambda: ((i, c, b, a) for c in m.chains(2, allw if deep else m.MAIN_WRAPPERS)
                                        for i in core[:2 if deep else 1] for b, a in [(("own", "text"), ("None",))]),
              run_noise, "as above for pairs of type constructors"),
        Space("union members", lambda: ((idx, p, n, o) for idx in itertools.permutations(range(13), 2)
                                        for p in subsets(2) for n in (chain_meta if deep else ["stack"])
                                        for o in (("", "ann", "opt") if deep else ("", "opt"))), run_union,
              "all pairs of union members, every set of members annotated"),
        Space("with settings", lambda: mixed_cases(singles + some, list(PLACES) if deep else ["top", "field"]),
              run_mixed, f"{len(HINTS)} hints with settings, one or two foreign objects at every gap of the metadata, "
              "every split into two layers"),
        Space("with settings at places", lambda: mixed_cases([("own",), ("text",), ("text", "Rude")], list(PLACES)),
              run_mixed, f"as above at {len(PLACES)} places"),
        Space("fields", lambda: field_cases(singles + (pairs if deep else [("own", "text")])), run_field,
              f"{len(FIELDS)} kinds of fields of {len(RECORDS)} kinds of records, foreign objects at every gap"),
        Space("enum members", lambda: ((ns, g, n) for ns in singles + pairs for g in (0, 1)
                                       for n in range(2 + len(ns))), run_enum,
              "annotations of enumeration members"),
    ]  # fmt: skip


def noise_modes(names: t.Sequence[str]) -> t.Iterator[t.Tuple[t.Tuple[str, ...], t.Tuple[str, ...]]]:
    for n in names:
        if n == "list":
            continue
        yield (n,), ()
        yield (), (n,)
        yield (n,), (n,)
