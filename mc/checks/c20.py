"""C20: converter and target overrides take effect exactly where declared."""

import abc
import collections
import dataclasses
import enum
import itertools
import typing as t

import databind.core as dc
import databind.core.dataclasses as dbdc
from databind.json import JsonConverter, dump, get_object_mapper, load

from mc import model as m
from mc import typespace as ts
from mc.checks import c03
from mc.engine import Recorder, Space, thorough

ASSUMPTIONS = [
    "a converter declines by raising NotImplementedError, as documented; what follows when it fails is C12",
    "flattening a field of which the converter does not produce a mapping demands nothing",
    "DeserializeAs is judged where it annotates a hint or is a local setting of the class of the hint",
]

SPARSE: t.List[t.Any] = [None, 7, "zz", "C|0", "C|99", [], {"x": 1}]
POOL: t.List[t.Any] = [None, 7, "zz", "C|0", (1,), [], {"x": 1}, c03.Foreign()]


# -- converters --------------------------------------------------------------------------------------------------------


def stripped(ctx: dc.Context) -> t.Any:
    h = ctx.datatype.hint
    return t.get_args(h)[0] if t.get_origin(h) is t.Annotated else h


class TableConverter(dc.Converter):
    """Converts the values of a table to and from "C|index" and declines everything else."""

    def __init__(self, vals: t.List[t.Any], mode: str, target: t.Any = None) -> None:
        self.vals, self.mode, self.target = vals, mode, target
        self.index = {m.canon(v): k for k, v in reversed(list(enumerate(vals)))}
        self.calls = 0

    def convert(self, ctx: dc.Context) -> t.Any:
        self.calls += 1
        if self.target is not None and stripped(ctx) != self.target:
            raise NotImplementedError
        return super().convert(ctx)

    def serialize(self, ctx: dc.Context) -> t.Any:
        k = self.index.get(m.canon(ctx.value))
        if k is None or self.mode not in ("both", "ser"):
            raise NotImplementedError
        return f"C|{k}"

    def deserialize(self, ctx: dc.Context) -> t.Any:
        p = ctx.value
        if self.mode in ("both", "deser") and type(p) is str and p.startswith("C|") and p[2:].isdigit():
            if int(p[2:]) < len(self.vals):
                return self.vals[int(p[2:])]
        raise NotImplementedError


class ConvT(m.AnnT):
    """An occurrence of *inner* for which a table converter is in effect."""

    def __init__(self, inner: m.T, conv: TableConverter, hint: t.Any) -> None:
        self.inner, self.conv, self.hint = inner, conv, hint
        self.label = f"conv<{conv.mode}>({inner.label})"
        self.hashable = inner.hashable
        self.textkey = inner.textkey

    def vals(self) -> t.List[t.Any]:
        return self.conv.vals

    def enc(self, v: t.Any, env: m.Env = m.ENV, loc: t.Dict[str, t.Any] = m.NOLOC) -> t.Any:
        k = self.conv.index.get(m.canon(v))
        if k is not None and self.conv.mode in ("both", "ser"):
            return f"C|{k}"
        return self.inner.enc(v, env, loc)

    def dec(self, p: t.Any, env: m.Env = m.ENV, loc: t.Dict[str, t.Any] = m.NOLOC) -> t.Any:
        if type(p) is str and self.conv.mode in ("both", "deser"):
            if p.startswith("C|") and p[2:].isdigit() and int(p[2:]) < len(self.conv.vals):
                return self.conv.vals[int(p[2:])]
        return self.inner.dec(p, env, loc)


class OpaqueT(m.T):
    """A class that no regular converter knows."""

    hashable = True

    def __init__(self, cls: t.Any = None) -> None:
        if cls is None:

            class Opaque:
                def __init__(self, x: int) -> None:
                    self.x = x

                def __canon__(self) -> t.Any:
                    return self.x

                def __eq__(self, other: t.Any) -> bool:
                    return type(other) is type(self) and self.x == other.x

                def __hash__(self) -> int:
                    return hash(self.x)

                def __repr__(self) -> str:
                    return f"Opaque({self.x})"

            cls = Opaque
        self.cls = self.hint = cls
        self.label = "Opaque"

    def pytype(self) -> t.Any:
        return self.cls

    def vals(self) -> t.List[t.Any]:
        return [self.cls(1), self.cls(2)]

    def enc(self, v: t.Any, env: m.Env = m.ENV, loc: t.Dict[str, t.Any] = m.NOLOC) -> t.Any:
        raise m.Rej

    def dec(self, p: t.Any, env: m.Env = m.ENV, loc: t.Dict[str, t.Any] = m.NOLOC) -> t.Any:
        raise m.Rej


# -- what is converted -------------------------------------------------------------------------------------------------


def rec_dataclass() -> m.T:
    return m.RecT("R", [m.F("p", m.INT), m.F("q", m.STR, default="q")])


def rec_frozen() -> m.T:
    return m.RecT("R", [m.F("p", m.INT)], frozen=True)


def rec_databind() -> m.T:
    ns = {"__annotations__": {"p": int, "q": str}, "__module__": m.MODULE, "p": 1}
    return m.RecT("R", [m.F("p", m.INT, default=1), m.F("q", m.STR)], cls=dbdc.dataclass(m._new_class("R", (), ns)))


def rec_derived() -> m.T:
    base = dataclasses.make_dataclass("Base", [("p", int)], module=m.MODULE)
    cls = dataclasses.make_dataclass("R", [("q", str)], bases=(base,), module=m.MODULE)
    return m.RecT("R", [m.F("p", m.INT), m.F("q", m.STR)], cls=cls)


def rec_extra() -> m.T:
    return m.RecT("R", [m.F("p", m.INT)], decorate=dc.ExtraKeys(), cls_loc={"extra": True})


def rec_generic() -> m.T:
    return m.generic_record("G", m.INT)


def rec_namedtuple() -> m.T:
    return m.RecT("R", [m.F("p", m.INT), m.F("q", m.STR)], kind="namedtuple")


def rec_typeddict() -> m.T:
    return m.RecT("R", [m.F("p", m.INT), m.F("q", m.STR)], kind="typeddict")


def enumeration() -> m.T:
    return m.EnumT(enum.Enum("E", ["ONE", "TWO"], module=m.MODULE), {}, "E")


def int_enumeration() -> m.T:
    return m.IntEnumT(enum.IntEnum("IE", ["ONE", "TWO"], module=m.MODULE), "IE")


#: Classes that may be decorated; each call makes a new one.
CLASSES: t.Dict[str, t.Callable[[], m.T]] = {
    "dataclass": rec_dataclass, "frozen": rec_frozen, "databind": rec_databind, "derived": rec_derived,
    "extra": rec_extra, "generic": rec_generic, "namedtuple": rec_namedtuple, "typeddict": rec_typeddict,
    "enum": enumeration, "intenum": int_enumeration, "opaque": OpaqueT,
}  # fmt: skip

SCALARS: t.Dict[str, t.Callable[[], m.T]] = {
    x.label: (lambda x=x: x) for x in m.leaf_types() if isinstance(x.hint, type) and x.hint not in (t.Any, object)  # type: ignore[misc]
}

HINTS: t.Dict[str, t.Callable[[], m.T]] = {
    **{x.label: (lambda x=x: x) for x in m.leaf_types()},  # type: ignore[misc]
    "list": lambda: m.SeqT("List", m.INT),
    "frozenset": lambda: m.SeqT("FrozenSet", m.STR),
    "tuple": lambda: m.TupleT(m.INT, m.STR),
    "dict": lambda: m.MapT("Dict", m.STR, m.INT),
    "optional": lambda: m.OptT(m.INT),
    "union": lambda: m.UnionT(m.INT, m.STR),
    "nested": lambda: m.TaggedT("nested", {"a": rec_dataclass(), "i": m.INT}),
    "flat": lambda: m.TaggedT("flat", {"a": rec_dataclass(), "b": rec_frozen()}),
    "annotated": lambda: m.AnnT(m.INT, "doc"),
    **CLASSES,
}

PLACEMENTS = ("class", "hint", "hint first", "call", "local", "conditional", "parent", "hint over class",
              "class under decline")  # fmt: skip
MODES = ("both", "ser", "deser", "decline")


class Setup(t.NamedTuple):
    typ: m.T
    conv: TableConverter
    load: t.Callable[..., t.Any]
    dump: t.Callable[..., t.Any]


def setting_of(conv: TableConverter, supply: str) -> JsonConverter:
    return JsonConverter(conv) if supply == "instance" else JsonConverter(lambda: conv)


def setup(target: str, placement: str, mode: str, supply: str) -> t.Optional[Setup]:
    def vals_of(x: m.T) -> t.List[t.Any]:
        return x.vals()[:3]

    if placement in ("class", "hint over class", "class under decline"):
        if target not in CLASSES:
            return None
        x = CLASSES[target]()
        cls = t.get_origin(x.hint) or x.hint
        conv = TableConverter(vals_of(x), mode)
        if placement == "class":
            setting_of(conv, supply)(cls)
            return Setup(ConvT(x, conv, x.hint), conv, load, dump)
        # The converter in the hint is in effect, that of the class is not.
        other = TableConverter(vals_of(x)[::-1], "both")
        setting_of(other, supply)(cls)
        if placement == "class under decline":
            conv.mode = "decline"
        hint = t.Annotated[x.hint, setting_of(conv, supply)]  # type: ignore[name-defined]
        return Setup(ConvT(x, conv, hint), conv, load, dump)
    if placement in ("hint", "hint first"):
        x = HINTS[target]()
        conv = TableConverter(vals_of(x), mode)
        s = setting_of(conv, supply)
        if placement == "hint":
            return Setup(ConvT(x, conv, t.Annotated[x.hint, s]), conv, load, dump)  # type: ignore[name-defined]
        if t.get_origin(x.hint) is not t.Annotated:
            return None
        base, *meta = t.get_args(x.hint)
        return Setup(ConvT(x, conv, t.Annotated[(base, s, *meta)]), conv, load, dump)  # type: ignore[misc]
    table = CLASSES if target in CLASSES else HINTS
    if target in ("int", "str", "bool", "annotated", "optional"):
        return None  # other parts of the types have these types, too
    if placement == "local" and target not in CLASSES and target not in SCALARS:
        return None
    x = table[target]()
    conv = TableConverter(vals_of(x), mode, stripped_hint(x.hint))
    s = setting_of(conv, supply)
    typ = ConvT(x, conv, x.hint)
    if placement == "call":
        return Setup(typ, conv, lambda p, h: load(p, h, settings=[s]), lambda v, h: dump(v, h, settings=[s]))
    settings = dc.Settings()
    if placement == "local":
        settings.add_local(t.get_origin(x.hint) or x.hint, s)
    elif placement == "conditional":
        settings.add_conditional(lambda ctx: stripped(ctx) == conv.target, s)
    elif placement == "parent":
        settings.add_global(s)
        settings = dc.Settings(settings)
    mapper = get_object_mapper(settings)
    return Setup(typ, conv, lambda p, h: mapper.deserialize(p, h), lambda v, h: mapper.serialize(v, h))


def stripped_hint(h: t.Any) -> t.Any:
    return t.get_args(h)[0] if t.get_origin(h) is t.Annotated else h


# -- judging -----------------------------------------------------------------------------------------------------------


def judge(typ: m.T, regular: t.Optional[m.T], s: t.Any, rec: Recorder, small: bool) -> bool:
    """Load and dump everything of interest; *regular* is the type without the override (for its payloads)."""
    seen = set()
    atoms = SPARSE[:4] if small else SPARSE
    n = 1 if small else 2
    for src in [typ] + ([regular] if regular is not None else []):
        for p in m.payloads(src, atoms, n):
            c = m.canon(p)
            if c in seen:
                continue
            seen.add(c)
            exp = m.expect(typ.dec, p)
            got = m.attempt(s.load, p, typ.hint)
            rec.trans()
            rec.outcome(f"load model:{exp.kind} code:{got.kind}")
            bad = m.judge(exp, got, crash=True)
            if bad:
                rec.fail(f"load({p!r}, {typ.label}) {bad}")
                return False
            rec.ok(exp.kind != "unspec")
            rec.state((typ.label, "load", m.short_canon(p)))
    vals = typ.vals()[: 2 if small else 4]
    for v in [*vals, *(x for v in vals[:1] for x in c03.mutations(v, POOL[:3] if small else POOL))]:
        try:
            exp = m.expect(typ.enc, v)
        except TypeError:
            continue
        got = m.attempt(s.dump, v, typ.hint)
        rec.trans()
        rec.outcome(f"dump model:{exp.kind} code:{got.kind}")
        bad = m.judge(exp, got, crash=True)
        if bad:
            rec.fail(f"dump({v!r}, {typ.label}) {bad}")
            return False
        rec.ok(exp.kind != "unspec")
        rec.state((typ.label, "dump", repr(v)[:200]))
    return True


def chain_over(x: m.T, chain: t.Sequence[str]) -> t.Optional[m.T]:
    if chain and chain[0] == "Pair":
        return None
    return m.type_chain(x, chain)


def run_converter(case: t.Any, rec: Recorder) -> None:
    target, placement, mode, supply, chain = case
    s = setup(target, placement, mode, supply)
    if s is None:
        return rec.count("not applicable")
    typ = m.type_chain(s.typ, chain)
    if typ is None:
        return rec.count("constructor not applicable")
    inner = s.typ.inner  # type: ignore[attr-defined]
    regular = None
    if not isinstance(inner, OpaqueT):
        regular = m.type_chain(inner, chain)
    for cleanup in t._cleanups:  # type: ignore[attr-defined]
        cleanup()
    judge(typ, regular, s, rec, bool(chain))


#: Occurrences side by side: one with the converter in its hint, one without.
PAIRS: t.Dict[str, t.Callable[[m.T, m.T], m.T]] = {
    "tuple": lambda a, b: m.TupleT(a, b),
    "tuple reversed": lambda a, b: m.TupleT(b, a),
    "fields": lambda a, b: m.RecT("Two", [m.F("a", a), m.F("b", b), m.F("c", m.SeqT("List", b))]),
    "fields reversed": lambda a, b: m.RecT("Two", [m.F("b", b), m.F("c", m.MapT("Dict", m.STR, a)), m.F("a", a)]),
    "typeddict": lambda a, b: m.RecT("Two", [m.F("b", b), m.F("a", a)], kind="typeddict"),
    "namedtuple": lambda a, b: m.RecT("Two", [m.F("a", a), m.F("b", b)], kind="namedtuple"),
    "inside": lambda a, b: m.TupleT(m.SeqT("List", a), m.SeqT("List", b)),
    "flattened": lambda a, b: m.RecT("Two", [m.F("b", b), m.F("i", m.RecT("I", [m.F("a", a)]), flat=True)]),
    "nested": lambda a, b: m.TaggedT("nested", {"a": m.RecT("MA", [m.F("x", a)]), "b": m.RecT("MB", [m.F("x", b)])}),
}  # fmt: skip


def run_pair(case: t.Any, rec: Recorder) -> None:
    target, placement, mode, shape = case
    s = setup(target, placement, mode, "instance")
    if s is None or placement == "hint over class":
        return rec.count("not applicable")
    inner = s.typ.inner  # type: ignore[attr-defined]
    typ = PAIRS[shape](s.typ, inner)
    judge(typ, PAIRS[shape](inner, inner), s, rec, True)


def run_family(case: t.Any, rec: Recorder) -> None:
    """A class with a converter, its base class, subclass and sibling, side by side in any order."""
    who, order, mode, how = case
    deco = dataclasses.dataclass
    base = deco(m._new_class("Base", (), {"__annotations__": {"x": int}, "__module__": m.MODULE}))
    mid = deco(m._new_class("Mid", (base,), {"__annotations__": {"y": int}, "y": 0, "__module__": m.MODULE}))
    sub = deco(m._new_class("Sub", (mid,), {"__annotations__": {}, "__module__": m.MODULE}))
    sib = deco(m._new_class("Sib", (base,), {"__annotations__": {}, "__module__": m.MODULE}))
    fx, fy = m.F("x", m.INT), m.F("y", m.INT, default=0)
    types: t.List[m.T] = [
        m.RecT("Base", [fx], cls=base), m.RecT("Mid", [fx, fy], cls=mid), m.RecT("Sub", [fx, fy], cls=sub),
        m.RecT("Sib", [fx], cls=sib),
    ]  # fmt: skip
    settings = dc.Settings()
    for k in who:
        x = types[k]
        conv = TableConverter(x.vals()[:2], mode)
        if how == "class":
            JsonConverter(conv)(x.hint)
        else:
            settings.add_local(x.hint, JsonConverter(conv))
        types[k] = ConvT(x, conv, x.hint)
    mapper = get_object_mapper(settings)

    class S:
        load = staticmethod(mapper.deserialize)
        dump = staticmethod(mapper.serialize)

    judge(m.TupleT(*[types[k] for k in order]), None, S, rec, True)
    judge(m.RecT("All", [m.F(f"f{k}", types[k]) for k in order]), None, S, rec, True)


# -- converters that delegate to methods -------------------------------------------------------------------------------


def run_methods(case: t.Any, rec: Recorder) -> None:
    """JsonConverter.using_classmethods(): every combination of its arguments, kind of class and place."""
    kind, ser, deser, stype, place, chain = case

    ns: t.Dict[str, t.Any] = {"__module__": m.MODULE}
    ns["to_text"] = lambda self: f"T|{self.x}"
    ns["to_text_static"] = staticmethod(lambda self: f"T|{self.x}")

    def parse(cls: t.Any, p: t.Any) -> t.Any:
        return cls(int(p[2:])) if isinstance(p, str) else cls(p)

    ns["of"] = classmethod(parse)
    ns["of_static"] = staticmethod(lambda p: parse(holder[0], p))
    holder: t.List[t.Any] = []
    if kind == "dataclass":
        cls = dataclasses.dataclass(m._new_class("R", (), {**ns, "__annotations__": {"x": int}}))
        inner: m.T = m.RecT("R", [m.F("x", m.INT)], cls=cls, instances=lambda r: [cls(1), cls(2)])
    else:
        opaque = OpaqueT().cls
        cls = m._new_class("R", (opaque,), ns)
        inner = OpaqueT(cls)
    holder.append(cls)
    setting = JsonConverter.using_classmethods(
        {"none": None, "str": str, "tuple": (str, int)}[stype], serialize=ser, deserialize=deser
    )
    hint: t.Any = cls
    if place == "class":
        setting(cls)
    else:
        hint = t.Annotated[cls, setting]  # type: ignore[valid-type]

    class MethodsT(m.T):
        hashable = inner.hashable
        textkey = True
        label = f"methods({inner.label})"

        def pytype(self) -> t.Any:
            return cls

        def vals(self) -> t.List[t.Any]:
            return inner.vals()

        def enc(self, v: t.Any, env: m.Env = m.ENV, loc: t.Dict[str, t.Any] = m.NOLOC) -> t.Any:
            return f"T|{v.x}" if ser and type(v) is cls else inner.enc(v, env, loc)

        def dec(self, p: t.Any, env: m.Env = m.ENV, loc: t.Dict[str, t.Any] = m.NOLOC) -> t.Any:
            if deser:
                if isinstance(p, str):
                    if p[:2] == "T|" and p[2:].isdigit():
                        return cls(int(p[2:]))
                    raise m.Unspec  # fails in the user's method
                if isinstance(p, int) and stype == "tuple":
                    return cls(p)
                if stype == "none":
                    raise m.Unspec
            return inner.dec(p, env, loc)

    typ = MethodsT()
    typ.hint = hint
    full = m.type_chain(typ, chain)
    if full is None:
        return rec.count("constructor not applicable")

    class S:
        load = staticmethod(load)
        dump = staticmethod(dump)

    regular = m.type_chain(inner, chain) if kind == "dataclass" else None
    judge(full, regular, S, rec, True)
    if ser and not chain:
        # Instances of subclasses are instances of the type. (Which method is called if they have their own, is left open.)
        sub = m._new_class("RSub", (cls,), {"__module__": m.MODULE})
        v = sub(5)
        for what, arg, h, want in (
            ("itself", v, hint, "T|5"),
            ("list", [v, v], t.List[hint], ["T|5", "T|5"]),
            ("dict", {"k": v}, t.Dict[str, hint], {"k": "T|5"}),
            ("optional", v, t.Optional[hint], "T|5"),
        ):
            got = m.attempt(dump, arg, h)
            rec.trans()
            if got.kind != "ok" or got.value != want:
                return rec.fail(f"dump of an instance of a subclass, {what}, {kind} {ser} {place}: {got!r}, expected {want!r}")
            rec.ok()


# -- DeserializeAs -----------------------------------------------------------------------------------------------------


class AsT(m.AnnT):
    """An occurrence of a hint that is converted as another type."""

    def __init__(self, target: m.T, hint: t.Any, label: str) -> None:
        super().__init__(target, "unused")
        self.hint = hint
        self.label = f"{label} as {target.label}"


class Iface(abc.ABC):
    @abc.abstractmethod
    def f(self) -> None:
        ...


@dataclasses.dataclass
class Declared:
    p: t.Any = "declared"
    other: int = 0


@dc.Union(style=dc.Union.FLAT)
class Tagged(abc.ABC):
    pass


@dc.Union.register(Tagged, "member")
@dataclasses.dataclass
class TaggedMember(Tagged):
    p: int = 1


@JsonConverter(TableConverter([], "both"))
class WithConverter:
    pass


class Constant(dc.Converter):
    def convert(self, ctx: dc.Context) -> t.Any:
        return "constant"


@JsonConverter(Constant())
class WithConstant:
    pass


@dc.ExtraKeys()
@dataclasses.dataclass
class DeclaredExtra:
    p: t.Any = "declared"


#: The declared types, of which nothing must be seen.
DECLARED: t.Dict[str, t.Any] = {
    "interface": Iface, "class": Declared, "extra": DeclaredExtra, "union class": Tagged, "converter": WithConverter,
    "constant": WithConstant, "Any": t.Any, "object": object, "int": int, "str": str, "bytes": bytes,
    "list": t.List[int], "dict": t.Dict[str, int], "tuple": t.Tuple[int, int], "union": t.Union[Declared, int],
    "tagged": t.Annotated[t.Any, dc.Union({"a": Declared})], "literal": t.Literal["a"], "enum": m.Color,
    "generic": t.Sequence[Declared],
}  # fmt: skip


def union_member() -> m.T:
    return m.RecT("TaggedMember", [m.F("p", m.INT, default=1)], cls=TaggedMember)


def converted() -> m.T:
    x = rec_dataclass()
    conv = TableConverter(x.vals()[:2], "both")
    JsonConverter(conv)(x.hint)
    return ConvT(x, conv, x.hint)


TARGETS: t.Dict[str, t.Callable[[], m.T]] = {
    **{k: v for k, v in CLASSES.items() if k != "opaque"},
    "member": union_member,
    "converted": converted,
    "list": lambda: m.SeqT("List", m.INT),
    "dict": lambda: m.MapT("Dict", m.STR, m.INT),
    "int": lambda: m.INT,
    "decimal": lambda: m.DECIMAL,
    "date": lambda: m.DateT,
    "nested": lambda: m.TaggedT("nested", {"a": rec_dataclass(), "i": m.INT}),
}


class Plain:
    load = staticmethod(load)
    dump = staticmethod(dump)


def run_as(case: t.Any, rec: Recorder) -> None:
    declared, target, shape, chain = case
    x = TARGETS[target]()
    decl = DECLARED[declared]
    s: t.Any = Plain
    setting = dc.DeserializeAs(x.hint)
    if shape == "hint":
        typ: m.T = AsT(x, t.Annotated[decl, setting], declared)  # type: ignore[valid-type]
    elif shape == "noise":
        typ = AsT(x, t.Annotated[decl, "doc", setting, None], declared)  # type: ignore[valid-type]
    elif shape == "optional":
        typ = AsT(m.OptT(x), t.Annotated[t.Optional[decl], setting], declared)  # type: ignore[valid-type]
    elif shape == "extra":
        if not isinstance(x, m.RecT) or x.kind == "namedtuple":
            return rec.count("not applicable")
        typ = AsT(x, t.Annotated[decl, setting, dc.ExtraKeys()], declared)  # type: ignore[valid-type]
        typ.loc = {"extra": True}  # type: ignore[attr-defined]
    elif shape == "local":
        if declared not in ("interface", "class"):
            return rec.count("not applicable")
        if target not in RECORD_TARGETS or target == "extra" or "NestedPlain" in chain:
            return rec.count("not applicable")
        settings = dc.Settings()
        settings.add_local(decl, setting)
        mapper = get_object_mapper(settings)

        class S:
            load = staticmethod(mapper.deserialize)
            dump = staticmethod(mapper.serialize)

        s = S
        typ = AsT(x, decl, declared)
    else:
        assert shape == "flattened"
        if not isinstance(x, m.RecT) or x.kind == "namedtuple":
            return rec.count("not applicable")
        inner = AsT(x, t.Annotated[decl, setting], declared)  # type: ignore[valid-type]
        typ = m.RecT("Flat", [m.F("k", m.INT), m.F("f", inner, flat=True)])
    full = m.type_chain(typ, chain)
    if full is None:
        return rec.count("constructor not applicable")
    for cleanup in t._cleanups:  # type: ignore[attr-defined]
        cleanup()
    judge(full, None, s, rec, len(chain) > 0)
    # The declared type on its own is as it always was.
    if shape != "local" and declared == "class" and not chain:
        own = m.RecT("Declared", [m.F("p", m.ANY, default="declared"), m.F("other", m.INT, default=0)], cls=Declared)
        judge(m.TupleT(typ, own), None, s, rec, True)
        judge(m.RecT("Both", [m.F("a", typ), m.F("b", own)]), None, s, rec, True)


RECORD_TARGETS = ("dataclass", "frozen", "databind", "derived", "extra", "generic", "member", "typeddict")


# -- methods that use any form -----------------------------------------------------------------------------------------

FORMS: t.List[t.Any] = [None, False, True, 0, 1, -1.5, "", "x", [], [1], [None], {}, {"x": 1}, {"type": "a"}, {"value": None}]


class Bag:
    """Holds its serialized form, which may be anything, and compares by it."""

    def __init__(self, form: t.Any) -> None:
        self.form = form

    def __eq__(self, other: t.Any) -> bool:
        return type(other) is type(self) and repr(other.form) == repr(self.form)

    def __repr__(self) -> str:
        return f"{type(self).__name__}({self.form!r})"

    def put(self) -> t.Any:
        return self.form

    @classmethod
    def take(cls, form: t.Any) -> t.Any:
        return cls(form)


def run_form(case: t.Any, rec: Recorder) -> None:
    n, falsy, accepted, placement, where = case
    form = FORMS[n]
    cls = type("Bagged", (Bag,), {"__len__": lambda self: 0} if falsy else {})
    types: t.Any = {"any": None, "own": type(form), "several": (str, type(form)), "other": complex}[accepted]
    setting = JsonConverter.using_classmethods(types, serialize="put", deserialize="take")
    hint: t.Any = cls
    settings = None
    if placement == "class":
        setting(cls)
    elif placement == "hint":
        hint = t.Annotated[cls, setting]
    else:
        settings = [dc.Strict(True)]
        mapper = get_object_mapper()
        mapper.settings.add_local(cls, setting)
    value, whole, holder = cls(form), form, hint
    if where == "list":
        value, whole, holder = [value, cls(form)], [form, form], t.List[hint]
    elif where == "dict":
        value, whole, holder = {"k": value}, {"k": form}, t.Dict[str, hint]  # type: ignore[valid-type]
    elif where == "optional":
        if form is None:
            return
        holder = t.Optional[hint]
    elif where == "field":
        rc = dataclasses.make_dataclass("Rc", [("f", hint), ("g", t.Optional[int], None)], module=m.MODULE)
        value, whole, holder = rc(value), {"f": form, "g": None}, rc
    de, se = (load, dump) if placement != "local" else (mapper.deserialize, mapper.serialize)
    for what, got, want in (
        ("dump", m.attempt(se, value, holder, settings=settings), whole),
        ("load", m.attempt(de, m.copy_json(whole), holder, settings=settings), value),
    ):
        rec.trans()
        rec.state((case, what))
        rec.outcome(f"form {got.kind}")
        declined = what == "load" and accepted == "other"
        if declined != (got.kind == "reject") or got.kind == "crash":
            return rec.fail(f"{what} of {want!r} by methods that take {accepted} in {where} ({placement}) gave {got!r}")
        if not declined and (repr(got.value) != repr(want) or got.value != want):
            return rec.fail(f"{what} by methods that take {accepted} in {where} ({placement}) gave {got!r} instead of {want!r}")
        rec.ok()


def form_cases() -> t.Iterator[t.Any]:
    return itertools.product(range(len(FORMS)), (False, True), ("any", "own", "several", "other"), ("class", "hint", "local"),
                             ("bare", "list", "dict", "optional", "field"))  # fmt: skip


# -- spaces ------------------------------------------------------------------------------------------------------------


def converter_cases(depth: int, deep: bool) -> t.Iterator[t.Any]:
    allw = ts.all_wrappers()
    for placement in PLACEMENTS:
        for target in HINTS:
            for mode in MODES:
                if placement == "class under decline" and mode != "decline":
                    continue
                for supply in ("instance", "function"):
                    if depth and supply == "function":
                        continue
                    for chain in m.chains(depth, allw):
                        yield target, placement, mode, supply, chain


def deep_cases(names: t.Sequence[str], targets: t.Sequence[str], modes: t.Sequence[str]) -> t.Iterator[t.Any]:
    for chain in m.chains(2, names):
        for target in targets:
            for placement in ("class", "hint", "call", "local") if thorough() else ("class", "hint"):
                for mode in modes:
                    yield target, placement, mode, "instance", chain


def spaces() -> t.List[Space]:
    deep = thorough()
    allw = ts.all_wrappers()
    fam = [c for k in (1, 2, 3) for c in itertools.combinations(range(4), k)]
    as_shapes = ("hint", "noise", "optional", "extra", "local", "flattened")
    return [
        Space("converter", lambda: converter_cases(0, deep), run_converter,
              f"{len(HINTS)} types x {len(PLACEMENTS)} placements x {len(MODES)} ways to decline x 2 suppliers"),
        Space("converter at places", lambda: (c for c in converter_cases(1, deep)
                                              if deep or c[2] in ("both", "decline") and c[0] in QUICK_TARGETS),
              run_converter, "as above under every type constructor"),
        Space("converter deep", lambda: deep_cases(allw if deep else m.MAIN_WRAPPERS,
                                                   ["dataclass", "UUID", "date", "opaque"] if deep else ["dataclass"],
                                                   MODES if deep else ["both"]), run_converter,
              "under pairs of type constructors"),
        Space("side by side", lambda: ((x, p, mo, s) for x in HINTS for p in ("hint", "hint first")
                                       for mo in (MODES if deep else ("both", "decline")) for s in PAIRS), run_pair,
              f"an occurrence with and one without the converter, {len(PAIRS)} shapes"),
        Space("family", lambda: ((w, o, mo, h) for w in fam for o in itertools.permutations(range(4))
                                 for mo in (MODES if deep else ("both",)) for h in ("class", "local")),
              run_family, "a class with its base, subclass and sibling: every subset with converters, every order"),
        Space("methods", lambda: ((k, se, de, st, pl, c) for k in ("dataclass", "opaque")
                                  for se in (None, "to_text", "to_text_static") for de in (None, "of", "of_static")
                                  for st in ("none", "str", "tuple") for pl in ("class", "hint")
                                  for c in [(), *((w,) for w in (allw if deep else m.MAIN_WRAPPERS))]), run_methods,
              "using_classmethods(): methods x serialized types x placements x type constructors"),
        Space("forms", form_cases, run_form,
              f"using_classmethods() with {len(FORMS)} forms of values x 4 accepted types x 3 placements x 5 positions"),
        Space("deserialize as", lambda: ((d, x, s, ()) for d in DECLARED for x in TARGETS for s in as_shapes), run_as,
              f"{len(DECLARED)} declared types x {len(TARGETS)} targets x {len(as_shapes)} placements"),
        Space("deserialize as at places", lambda: ((d, x, s, (w,)) for d in DECLARED for x in TARGETS
                                                   for s in as_shapes for w in allw
                                                   if deep or d in ("interface", "class", "union class", "Any")
                                                   and x in ("derived", "extra", "generic", "converted")), run_as,
              "as above under every type constructor"),
    ]  # fmt: skip


QUICK_TARGETS = ("dataclass", "generic", "namedtuple", "enum", "opaque", "UUID", "datetime", "list", "Any", "int",
                 "optional", "nested")  # fmt: skip
