"""The spaces of types that several checks enumerate: leaf types under chains of type constructors, and unions."""

import collections
import collections.abc
import dataclasses
import enum
import functools
import itertools
import typing as t

from mc import model as m
from mc import records
from mc.engine import Recorder, Space, thorough

CORE = ("int", "str", "bytes", "datetime", "Color", "float")


def all_wrappers() -> t.List[str]:
    return [w[0] for w in m.wrappers()]


def core_indices() -> t.List[int]:
    return [i for i, x in enumerate(m.leaf_types()) if x.label in CORE]


def chain_type(case: t.Any) -> t.Optional[m.T]:
    leaf, chain = case
    return m.type_chain(m.leaf_types()[leaf], chain)


def union_members() -> t.List[m.T]:
    return [
        m.INT, m.STR, m.BOOL, m.FLOAT, m.DECIMAL, m.DateT, m.UUIDT, m.COLOR, m.SeqT("List", m.INT),
        m.MapT("Dict", m.STR, m.INT), m.SeqT("FrozenSet", m.STR), m.RecT("A", [m.F("x", m.INT)]),
        m.RecT("B", [m.F("x", m.INT), m.F("y", m.STR, default="q")]),
    ]  # fmt: skip


def union_type(case: t.Any) -> m.T:
    idx, wrap = case
    mem = union_members()
    u: m.T = m.UnionT(*[mem[i] for i in idx])
    return m.SeqT("List", u) if wrap == "List" else m.OptT(u) if wrap == "Opt" else u


def union_cases(sizes: t.Sequence[int], wraps: t.Sequence[str]) -> t.Iterator[t.Any]:
    n = len(union_members())
    for k in sizes:
        for p in itertools.permutations(range(n), k):
            for w in wraps:
                yield (p, w)


# -- types outside the compositions ------------------------------------------------------------------------------------

#: Names that coincide with names the library, the record classes or Python use themselves.
NAMES = (
    "self", "cls", "value", "ctx", "context", "type", "key", "keys", "items", "values", "get", "fields", "default",
    "name", "datatype", "settings", "schema", "alias", "aliases", "kwargs", "args", "result", "constructor", "direction",
    "location", "parent", "pop", "update", "copy", "count", "index", "_private", "__dunder__", "X", "größe", "field", "str",
    "dict", "init", "MISSING", "required", "flattened", "a", "A",
)  # fmt: skip
#: Keys that only the functional form of a typed dict can have.
ODD_KEYS = ("a-b", "", " ", "class", "1", "$", "a.b", "None", "[0]", "a b")


class SE(enum.StrEnum):
    A = "a"
    B = "b"


class SM(str, enum.Enum):
    A = "B"
    B = "A"


class Doubled(enum.Enum):
    A = 1
    B = 1
    C = 2


class Objects(enum.Enum):
    A = (1, 2)
    B = None
    C = "A"
    name_ = 3


class Auto(enum.Enum):
    A = enum.auto()
    B = enum.auto()


class Fl(enum.Flag):
    A = 1
    B = 2


class Hooked(enum.Enum):
    """Has a lookup of its own, which names the member for everything."""

    A = 1
    B = 2

    @classmethod
    def _missing_(cls, value: t.Any) -> t.Any:
        return cls.A


class IntDoubled(enum.IntEnum):
    A = 1
    B = 1
    C = -2


class EnumAny(m.EnumT):
    """An enumeration without aliases whose members may be instances of other types, too."""

    def __init__(self, cls: t.Any) -> None:
        super().__init__(cls, {}, cls.__name__)

    def vals(self) -> t.List[t.Any]:
        return list(self.hint.__members__.values())


class SpelledT(m.AnnT):
    """The same type in another spelling."""

    def __init__(self, inner: m.T, hint: t.Any) -> None:
        self.inner, self.ann, self.loc, self.hint = inner, (), {}, hint
        self.label = f"{inner.label} as {hint}"
        self.hashable, self.textkey = inner.hashable, inner.textkey


class RefT(m.T):
    """A reference to a type that is yet to be made."""

    def __init__(self, hint: t.Any, label: str) -> None:
        self.hint, self.label, self.depth = hint, label, 0
        self.target: t.Any = None

    def vals(self) -> t.List[t.Any]:
        if self.depth >= 1:
            return self.end
        self.depth += 1
        try:
            return t.cast(t.List[t.Any], self.target.vals()[-2:])
        finally:
            self.depth -= 1

    end: t.List[t.Any] = []

    def enc(self, v: t.Any, env: m.Env = m.ENV, loc: t.Dict[str, t.Any] = m.NOLOC) -> t.Any:
        return self.target.enc(v, env, loc)

    def dec(self, p: t.Any, env: m.Env = m.ENV, loc: t.Dict[str, t.Any] = m.NOLOC) -> t.Any:
        return self.target.dec(p, env, loc)


@dataclasses.dataclass
class Node:
    v: int
    next: t.Optional["Node"] = None
    kids: t.List["Node"] = dataclasses.field(default_factory=list)


@dataclasses.dataclass
class Even:
    odd: t.Optional["Odd"] = None
    e: str = "e"


@dataclasses.dataclass
class Odd:
    even: t.Dict[str, "Even"]
    o: t.Tuple[int, ...] = ()


class Tree(t.TypedDict):
    label: str
    kids: t.List["Tree"]


def recursive() -> t.List[m.T]:
    node = RefT(Node, "Node")
    node.end = [Node(1), Node(-2, None, [])]
    node.target = m.RecT("Node", [
        m.F("v", m.INT), m.F("next", m.OptT(node), default=None), m.F("kids", m.SeqT("List", node), factory=list),
    ], cls=Node)  # fmt: skip
    even = RefT(Even, "Even")
    even.end = [Even()]
    odd = m.RecT("Odd", [m.F("even", m.MapT("Dict", m.STR, even)), m.F("o", m.SeqT("Tuple...", m.INT), default=())], cls=Odd)
    even.target = m.RecT("Even", [m.F("odd", m.OptT(odd), default=None), m.F("e", m.STR, default="e")], cls=Even)
    tree = RefT(Tree, "Tree")
    tree.end = [{"label": "", "kids": []}]
    tree.target = m.RecT("Tree", [m.F("label", m.STR), m.F("kids", m.SeqT("List", tree))], kind="typeddict", cls=Tree)
    return [node.target, even.target, odd, tree.target]


class ManyT(m.SeqT):
    """A collection with many items."""

    def vals(self) -> t.List[t.Any]:
        vs = self.item.vals()
        return [self.rt(vs[i % len(vs)] for i in range(17))]

    def large(self) -> t.List[t.Any]:
        vs = self.item.vals()
        return [self.rt(vs[i % len(vs)] for i in range(300))]


class ManyMapT(m.MapT):
    def sized(self, n: int) -> t.List[t.Any]:
        vs = self.val.vals()
        keys = [f"k{i * 7 % 300}" for i in range(300)] if self.key is m.STR else list(range(300, 0, -1))
        return [self.rt((k, vs[i % len(vs)]) for i, k in enumerate(keys[:n]))]

    def vals(self) -> t.List[t.Any]:
        return self.sized(17)

    def large(self) -> t.List[t.Any]:
        return self.sized(300)


class OneT(m.SeqT):
    def vals(self) -> t.List[t.Any]:
        return [self.rt([x]) for x in self.item.vals()[-2:]]


class OneMapT(m.MapT):
    def vals(self) -> t.List[t.Any]:
        return [self.rt([("k", x)]) for x in self.val.vals()[-2:]]


def large(typ: m.T) -> t.List[t.Any]:
    """Values with many items, which are too large to be mutated."""
    return typ.large() if hasattr(typ, "large") else []


#: Methods of a class that have no bearing on its conversions.
METHODS: t.Dict[str, t.Dict[str, t.Any]] = {
    "falsy": {"__bool__": lambda self: False},
    "empty": {"__len__": lambda self: 0},
    "container": {"__len__": lambda self: 0, "__iter__": lambda self: iter(()), "__contains__": lambda self, x: True},
    "mapping-like": {"keys": lambda self: ["q"], "__getitem__": lambda self, k: 5, "get": lambda self, k, d=None: 5},
    "text": {"__str__": lambda self: "text", "__repr__": lambda self: "repr"},
    "number": {"__int__": lambda self: 3, "__float__": lambda self: 3.0, "__index__": lambda self: 3},
    "callable": {"__call__": lambda self, *a, **k: 5},
    "attributes": {"__getattr__": lambda self, n: 5 if not n.startswith("__") else getattr(object(), n)},
    "hash": {"__hash__": lambda self: 1},
    "enum-like": {"name": "n", "value": 5, "_fields": ("x",), "__members__": {}, "__json__": lambda self: 5},
    "serializer": {"to_json": lambda self: 5, "from_json": classmethod(lambda cls, p: 5), "isoformat": lambda self: "2020-01-01"},
}


def with_methods(name: str, kind: str) -> m.T:
    """A record whose class has methods, used as a field of another record."""
    fields = [m.F("x", m.INT), m.F("zz", m.OptT(m.STR), default=None)]
    plain = records.build(kind, "Rec", fields)
    for k, v in METHODS[name].items():
        if k not in ("name", "value") or kind != "slots":
            setattr(plain.cls, k, v)
    return plain


def methods_types() -> t.Iterator[t.Callable[[], m.T]]:
    for name in METHODS:
        for kind in ("dataclass", "frozen", "databind", "inherited", "slots"):
            yield functools.partial(with_methods, name, kind)
            if kind != ("dataclass", "databind")[len(name) % 2]:
                continue
            yield lambda n=name, k=kind: m.RecT("Holder", [  # type: ignore[misc]
                m.F("r", with_methods(n, k)), m.F("o", m.OptT(with_methods(n, k)), default=None),
                m.F("l", m.SeqT("List", with_methods(n, k)), factory=list)])  # fmt: skip
            yield lambda n=name, k=kind: m.RecT("Holder", [m.F("fl", with_methods(n, k), flat=True), m.F("k", m.INT)])  # type: ignore[misc]
            for style in ("nested", "flat", "keyed"):
                yield lambda n=name, k=kind, s=style: m.TaggedT(s, {"m": with_methods(n, k), "s": m.RecT("S", [])})  # type: ignore[misc]


def one_of_ints(name: str, kind: str) -> m.T:
    typ = {"typeddict": m.SeqT("List", m.INT), "td_partial": m.OptT(m.STR)}.get(kind, m.INT)
    other = m.F("zz", m.STR) if kind.startswith("t") or kind == "namedtuple" else m.F("zz", m.STR, default="d")
    fields = [m.F(name, typ), other]
    if kind == "namedtuple":
        return m.RecT("Rec", fields, kind="namedtuple")
    return records.build(kind, "Rec", fields)


RECORD_KINDS = records.KINDS + ("namedtuple",)


@functools.lru_cache(None)
def extra_types() -> t.List[t.Tuple[str, t.Callable[[], m.T]]]:
    """(group, maker)"""
    out: t.List[t.Tuple[str, t.Callable[[], m.T]]] = []

    def add(group: str, *types: m.T) -> None:
        out.extend((group, lambda x=x: x) for x in types)

    for kind in RECORD_KINDS:
        for name in NAMES:
            if kind == "namedtuple" and name.startswith("_"):
                continue
            if kind == "generic" and name in ("__dunder__",):
                continue
            out.append(("field names", functools.partial(one_of_ints, name, kind)))
    for kind in ("typeddict", "td_partial"):
        for name in ODD_KEYS:
            out.append(("field names", functools.partial(one_of_ints, name, kind)))
    for name in NAMES + ODD_KEYS:
        # As an alias, next to a field whose own name is the key that the alias replaces.
        out.append(("aliases", lambda n=name: m.RecT("Rec", [m.F("qq", m.INT, alias=(n,)), m.F("zz", m.STR, default="d")])))
        out.append(("aliases", lambda n=name: m.RecT("Rec", [
            m.F("qq", m.INT, alias=("first", n)), m.F("zz", m.OptT(m.STR), alias=("z", n + "2"))])))
        # As the tag, the discriminator, the nesting key of a union and as the key of a remainder.
        a, b = m.RecT("A", [m.F("x", m.INT)]), m.RecT("B", [m.F("y", m.INT, default=1)])
        for style in ("nested", "flat", "keyed"):
            out.append(("tags", lambda s=style, n=name: m.TaggedT(s, {n: a, "other": b})))
            if style != "keyed" and name not in ("x", "y"):
                out.append(("tags", lambda s=style, n=name: m.TaggedT(s, {"a": a, "b": b}, disc=n)))
        out.append(("tags", lambda n=name: m.TaggedT("nested", {"a": a, "b": m.INT}, nest=n)))
        out.append(("tags", lambda n=name: m.TaggedT("nested", {n: a, "b": m.INT}, disc="kind", nest=n)))
        out.append(("keys", lambda n=name: m.MapT("Dict", m.LiteralT(n, "other"), m.INT)))
        out.append(("keys", lambda n=name: m.LiteralT(n, n + n)))
    add("enums", EnumAny(SE), EnumAny(SM), EnumAny(Doubled), EnumAny(Objects), EnumAny(Auto), EnumAny(Fl), EnumAny(Hooked))
    add("enums", m.IntEnumT(IntDoubled, "IntDoubled"))
    enums = [x() for g, x in out if g == "enums"]
    add("enums", *(m.SeqT("List", x) for x in enums), *(m.MapT("Dict", x, m.INT) for x in enums), *(m.OptT(x) for x in enums))
    add("literals", m.LiteralT(-1), m.LiteralT(0, "0"), m.LiteralT(""), m.LiteralT("a", "A"), m.LiteralT(None),
        m.LiteralT(1, "1", None), m.LiteralT("None", "null"), m.LiteralT(10**20))  # fmt: skip
    i, s, abc, co = m.INT, m.STR, collections.abc, collections
    for kind, hints in {
        "Sequence": [abc.Sequence[int]], "MutableSequence": [abc.MutableSequence[int]], "Collection": [abc.Collection[int]],
        "Deque": [co.deque[int]], "Tuple...": [tuple[int, ...]], "FrozenSet": [frozenset[int]], "AbstractSet": [abc.Set[int]],
        "MutableSet": [abc.MutableSet[int]],
    }.items():  # fmt: skip
        add("spellings", *(SpelledT(m.SeqT(kind, i), h) for h in hints))
    add("spellings", SpelledT(m.MapT("Mapping", s, i), abc.Mapping[str, int]), SpelledT(m.MapT("MutableMapping", s, i), abc.MutableMapping[str, int]),
        SpelledT(m.MapT("OrderedDict", s, i), co.OrderedDict[str, int]), SpelledT(m.OptT(i), int | None),
        SpelledT(m.OptT(i), None | int), SpelledT(m.OptT(i), t.Union[None, int]), SpelledT(m.UnionT(i, s), int | str), SpelledT(m.UnionT(s, i), str | int),
        SpelledT(m.OptT(m.SeqT("List", i)), list[int] | None), SpelledT(m.TupleT(i, s), tuple[int, str]), SpelledT(m.TupleT(), tuple[()]),
        SpelledT(m.OptT(m.UnionT(i, s)), int | str | None), SpelledT(m.OptT(m.UnionT(i, s)), int | None | str), SpelledT(m.OptT(m.UnionT(i, s)), t.Optional[int | str]),
        SpelledT(m.SeqT("List", m.OptT(i)), list[int | None]), SpelledT(m.MapT("Dict", s, m.OptT(i)), dict[str, None | int]))  # fmt: skip
    add("shapes", *(m.TupleT(*[(i, s, m.BOOL)[k % 3] for k in range(n)]) for n in range(6)))
    for kind in RECORD_KINDS:
        make = (lambda k=kind, n=0: m.RecT("Empty", wide(n, k), kind=k)) if kind == "namedtuple" else (
            lambda k=kind, n=0: records.build(k, "Empty", wide(n, k)))  # fmt: skip
        for n in (0, 1, 3, 10) + ((30,) if kind == "dataclass" else ()):
            if kind == "inherited" and n < 2:
                continue
            out.append(("shapes", functools.partial(make, n=n)))
    out.extend(("methods", mk) for mk in methods_types())
    add("recursive", *recursive())
    add("many", ManyT("List", i), ManyT("Set", i), ManyT("Tuple...", m.OptT(s)), ManyT("Deque", m.COLOR), ManyT("List", m.RecT("A", [m.F("x", i)])),
        ManyMapT("Dict", s, i), ManyMapT("OrderedDict", s, m.SeqT("List", s)), ManyMapT("Dict", i, s))  # fmt: skip
    deep: t.List[m.T] = [i, i, i, i, i, i]
    for k in range(24):
        deep = [OneT("List", deep[0]), OneMapT("Dict", s, deep[1]), m.RecT(f"D{k}", [m.F("x", deep[2])]), m.TupleT(deep[3]),
                m.OptT(deep[4]) if k % 2 else OneT("Tuple...", deep[4]), m.TaggedT("nested", {"m": m.RecT("M", [m.F("x", deep[5])]), "i": i})]  # fmt: skip
        for x in deep:
            x.label = x.label[:60]
        if k in (4, 23):
            add("deep", *deep)
    return out


def wide(n: int, kind: str) -> t.List[m.F]:
    types = (m.INT, m.STR, m.OptT(m.INT))
    plain = kind in ("typeddict", "td_partial", "namedtuple")
    return [m.F(f"f{k}", types[k % 3], **({} if plain or k % 2 else {"default": types[k % 3].vals()[0]})) for k in range(n)]


def extra_space(run: t.Callable[[m.T, int, Recorder], None], depth: int = 1) -> Space:
    def go(case: t.Any, rec: Recorder) -> None:
        run(extra_types()[case][1](), depth, rec)

    groups = collections.Counter(g for g, _ in extra_types())
    return Space("extra types", lambda: range(len(extra_types())), go, f"all of {dict(groups)}")


def type_spaces(
    run: t.Callable[[m.T, int, Recorder], None],
    depth2_leaves: t.Sequence[int],
    depth3_leaves: t.Sequence[int],
    depth3_wrappers: t.Sequence[str],
    unions: t.Sequence[int],
    union_wraps: t.Sequence[str] = ("",),
    extra: bool = True,
) -> t.List[Space]:
    """*run(type, depth, rec)* is called for every type of the spaces."""
    allw = all_wrappers()
    nleaf = len(m.leaf_types())

    def go(depth: int) -> t.Callable[[t.Any, Recorder], None]:
        def inner(case: t.Any, rec: Recorder) -> None:
            typ = chain_type(case)
            if typ is None:
                rec.count("constructor not applicable")
            else:
                run(typ, depth, rec)

        return inner

    out = [
        Space("leaf", lambda: ((i, ()) for i in range(nleaf)), go(0), "all leaf types"),
        Space("depth1", lambda: ((i, (w,)) for i in range(nleaf) for w in allw), go(1),
              f"all {len(allw)} type constructors over all {nleaf} leaf types"),
        Space("depth2", lambda: ((i, c) for c in m.chains(2, allw) for i in depth2_leaves), go(2),
              f"all pairs of type constructors over {len(depth2_leaves)} leaf types"),
    ]  # fmt: skip
    if depth3_leaves:
        out.append(
            Space("depth3", lambda: ((i, c) for c in m.chains(3, depth3_wrappers) for i in depth3_leaves), go(3),
                  f"all triples of {len(depth3_wrappers)} type constructors over {len(depth3_leaves)} leaf types")
        )  # fmt: skip
    if unions:
        out.append(
            Space("unions", lambda: union_cases(unions, union_wraps),
                  lambda case, rec: run(union_type(case), 1, rec),
                  f"all ordered selections of {list(unions)} of {len(union_members())} member types, {list(union_wraps)}")
        )  # fmt: skip
    if extra:
        out.append(extra_space(run))
    return out


__all__ = ["type_spaces", "union_members", "union_type", "union_cases", "chain_type", "thorough"]
