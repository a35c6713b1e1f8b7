"""Reference model of databind's JSON representation.

A type is a small AST node (`T`) that carries the real type hint (`hint`) and an executable specification of both
directions, written from the documentation and without using any databind code:

* `enc(v, env, loc)`  the documented JSON form of *v*, or `Rej` if *v* is not a value of the type;
* `dec(p, env, loc)`  the value the payload *p* stands for, or `Rej` if the representation does not admit it;
* `vals()`            a small, ordered alphabet of values, simplest first.

`Rej.path` is the path of the offending sub-value.  `Unspec` marks a corner that the documentation leaves open; the
checks then demand nothing.  *env* holds the settings of the call, *loc* those attached to this very occurrence.
"""

from __future__ import annotations

import base64
import collections
import collections.abc
import dataclasses
import datetime as dt
import decimal
import enum
import itertools
import math
import pathlib
import typing as t
import uuid

import databind.core as dc
from nr.date import duration

MODULE = __name__


class Rej(Exception):
    """The model rejects; *path* leads from the root to the offending place (see `path_matches`)."""

    def __init__(self, path: t.Tuple[t.Any, ...] = ()) -> None:
        super().__init__(path)
        self.path = path

    def under(self, key: t.Any) -> "Rej":
        return Rej((key,) + self.path)


class Unspec(Exception):
    """The documentation does not say what happens."""


class AltKey(t.NamedTuple):
    """A path element that may be reported under any of these names (field name or alias)."""

    names: t.Tuple[t.Any, ...]


class OptKey(t.NamedTuple):
    """A path element that may be missing from the reported path."""

    names: t.Tuple[t.Any, ...]


class AnyOrder(list):
    """Expected list, in any order (dumped sets)."""


class Obj(dict):
    """Expected object of a record: a plain dict, keys in any order."""


@dataclasses.dataclass(frozen=True)
class Env:
    strict: bool = True
    extra: bool = False
    serdef: bool = True


ENV = Env()
NOLOC: t.Dict[str, t.Any] = {}
NODEF = object()

#: Irrelevant metadata to put before and after the settings of every field and union that is built (see C19).
NOISE: t.Tuple[t.Tuple[t.Any, ...], t.Tuple[t.Any, ...]] = ((), ())


def noisy(ann: t.Sequence[t.Any]) -> t.List[t.Any]:
    return [*NOISE[0], *ann, *NOISE[1]]


# -- comparison --------------------------------------------------------------------------------------------------------


def canon(v: t.Any) -> t.Any:
    """A hashable image of *v* that keeps its runtime type at every level, and order where the type has one."""
    tp = type(v)
    if v is None or tp in (bool, int, str, bytes):
        return (tp, v)
    if tp is float:
        return (tp, repr(v))
    if isinstance(v, enum.Enum):
        return (tp, v.name)
    if tp is decimal.Decimal:
        return (tp, v.as_tuple())
    if isinstance(v, (dt.datetime, dt.time)):
        return (tp, v.replace(tzinfo=None).isoformat(), None if v.tzinfo is None else v.utcoffset())
    if isinstance(v, (dt.date, dt.timedelta, uuid.UUID, pathlib.PurePath)):
        return (tp, str(v))
    if isinstance(v, (list, tuple, collections.deque)):
        return (tp, tuple(canon(x) for x in v))
    if isinstance(v, (set, frozenset)):
        return (tp, frozenset(canon(x) for x in v))
    if isinstance(v, collections.abc.Mapping):
        return (tp, tuple((canon(k), canon(x)) for k, x in v.items()))
    if isinstance(v, duration):
        return (tp, str(v))
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return (tp, tuple((f.name, canon(getattr(v, f.name, "<unset>"))) for f in dataclasses.fields(v)))
    if isinstance(v, type):
        return ("type", v)
    state = getattr(v, "__canon__", None)
    if state is not None:
        return (tp, canon(state()))
    return ("object", tp, id(v))


def same(expected: t.Any, actual: t.Any) -> bool:
    """Strict equality of an expected (model) and an actual value."""
    te_ = type(expected)
    if te_ is Obj:
        return (
            type(actual) is dict
            and expected.keys() == actual.keys()
            and all(same(v, actual[k]) for k, v in expected.items())
        )
    if te_ is AnyOrder:
        if type(actual) is not list or len(actual) != len(expected):
            return False
        rest = list(actual)
        for e in expected:
            for i, a in enumerate(rest):
                if same(e, a):
                    del rest[i]
                    break
            else:
                return False
        return True
    if te_ is list:
        return type(actual) is list and len(actual) == len(expected) and all(map(same, expected, actual))
    if te_ is dict:
        return (
            type(actual) is dict
            and len(actual) == len(expected)
            and all(
                canon(k1) == canon(k2) and same(v1, v2)
                for (k1, v1), (k2, v2) in zip(expected.items(), actual.items())
            )
        )
    if te_ is not type(actual):
        return False
    return bool(canon(expected) == canon(actual))


def plain(e: t.Any) -> t.Any:
    """The expected JSON form as plain lists and dicts."""
    if isinstance(e, dict):
        return {k: plain(v) for k, v in e.items()}
    if isinstance(e, list):
        return [plain(v) for v in e]
    return e


def json_text_safe(e: t.Any) -> bool:
    """Whether the JSON form survives a trip through JSON text (object keys must be strings)."""
    if isinstance(e, dict):
        return all(type(k) is str for k in e) and all(map(json_text_safe, e.values()))
    if isinstance(e, list):
        return all(map(json_text_safe, e))
    return e is None or type(e) in (bool, int, float, str)


def path_matches(expected: t.Tuple[t.Any, ...], actual: t.Sequence[t.Any]) -> bool:
    def rec(i: int, j: int) -> bool:
        if i == len(expected):
            return j == len(actual)
        e = expected[i]
        if isinstance(e, OptKey):
            return rec(i + 1, j) or (j < len(actual) and actual[j] in e.names and rec(i + 1, j + 1))
        if j >= len(actual):
            return False
        a = actual[j]
        if isinstance(e, AltKey):
            hit = any(type(a) is type(n) and a == n for n in e.names)
        else:
            hit = type(a) is type(e) and a == e
        return hit and rec(i + 1, j + 1)

    return rec(0, 0)


# -- base --------------------------------------------------------------------------------------------------------------


class T:
    hint: t.Any
    label: str
    hashable = False
    #: Encodes to a JSON string, injectively: can be used as a mapping key that survives JSON text.
    textkey = False

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        raise NotImplementedError

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        raise NotImplementedError

    def vals(self) -> t.List[t.Any]:
        raise NotImplementedError

    def pytype(self) -> t.Any:
        """The class that values of the type have (for unions)."""
        raise NotImplementedError

    def __repr__(self) -> str:
        return self.label


# -- scalars -----------------------------------------------------------------------------------------------------------


def _subclassed(v: t.Any, *types: type) -> None:
    if any(isinstance(v, x) and type(v) is not x for x in types) and not isinstance(v, bool):
        raise Unspec


class IntT(T):
    hint, label, hashable = int, "int", True

    def pytype(self) -> t.Any:
        return int

    def vals(self) -> t.List[t.Any]:
        return [0, 1, -7, 2**70]

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        _subclassed(v, int, float)
        if type(v) is int:
            return v
        if type(v) is float and math.isfinite(v) and v == math.floor(v):
            return int(v)
        raise Rej

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        strict = loc.get("strict", env.strict)
        if type(p) is str and not strict:
            return int_from_text(p)
        return self.enc(p)


def int_from_text(s: str) -> int:
    body = s.strip()
    sign = 1
    if body[:1] in ("+", "-"):
        sign = -1 if body[0] == "-" else 1
        body = body[1:]
    if "_" in body or not body.isascii():
        raise Unspec
    if not body or any(c not in "0123456789" for c in body):
        raise Rej
    n = 0
    for c in body:
        n = n * 10 + "0123456789".index(c)
    return sign * n


_MAXFLOAT = 1.7976931348623157e308


class FloatT(T):
    hint, label, hashable = float, "float", True

    def pytype(self) -> t.Any:
        return float

    def vals(self) -> t.List[t.Any]:
        return [1.5, 2.0, -0.0, 1e300, float("inf"), float("nan")]

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        _subclassed(v, int, float)
        if type(v) is float:
            return v
        if type(v) is int:
            if abs(v) > int(_MAXFLOAT):
                raise Rej
            return v / 1
        raise Rej

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        strict = loc.get("strict", env.strict)
        if type(p) is str and not strict:
            if "_" in p:
                raise Unspec
            try:
                return float(p)
            except ValueError:
                raise Rej
        return self.enc(p)


class BoolT(T):
    hint, label, hashable = bool, "bool", True

    def pytype(self) -> t.Any:
        return bool

    def vals(self) -> t.List[t.Any]:
        return [False, True]

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        if type(v) is bool:
            return v
        raise Rej

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        strict = loc.get("strict", env.strict)
        if type(p) is str and not strict:
            if p.lower() in ("yes", "true", "on", "enabled"):
                return True
            if p.lower() in ("no", "false", "off", "disabled"):
                return False
            raise Rej
        return self.enc(p)


class StrT(T):
    hint, label, hashable, textkey = str, "str", True, True

    def pytype(self) -> t.Any:
        return str

    def vals(self) -> t.List[t.Any]:
        return ["", "a", 'ü\n"', "1"]

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        _subclassed(v, str)
        if type(v) is str:
            return v
        raise Rej

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        strict = loc.get("strict", env.strict)
        if type(p) in (int, float, bool) and not strict:
            return str(p)
        return self.enc(p)


_B64 = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")


class BytesT(T):
    hint, label, hashable, textkey = bytes, "bytes", True, True

    def pytype(self) -> t.Any:
        return bytes

    def vals(self) -> t.List[t.Any]:
        return [b"abc", b"", b"\x00\xff"]

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        if type(v) is bytes:
            return base64.b64encode(v).decode("ascii")
        _subclassed(v, bytes)
        raise Rej

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        if type(p) is bytes:
            return p
        if type(p) is not str:
            raise Rej
        body = p.rstrip("=")
        if any(c not in _B64 for c in body):
            raise Unspec  # Python's decoder discards foreign characters.
        if len(p) % 4 != 0 or len(body) % 4 == 1 or len(p) - len(body) > 2:
            if len(p) - len(body) > (4 - len(body) % 4) % 4:
                raise Unspec  # excess padding
            raise Rej
        return base64.b64decode(p)


class DecimalT(T):
    hint, label, hashable, textkey = decimal.Decimal, "Decimal", True, True

    def pytype(self) -> t.Any:
        return decimal.Decimal

    def vals(self) -> t.List[t.Any]:
        D = decimal.Decimal
        return [D("1.50"), D("0"), D("-0"), D("1E+5"), D("12345678901234567890123456789012345678.9"), D("NaN")]

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        if type(v) is decimal.Decimal:
            return str(v)
        if isinstance(v, decimal.Decimal):
            raise Unspec
        raise Rej

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        strict = loc.get("strict", env.strict)
        if isinstance(p, (int, float)) and type(p) not in (int, float) and not strict:
            raise Unspec  # bool, IntEnum
        if isinstance(p, str) and type(p) is not str:
            raise Unspec
        if type(p) is str or (type(p) in (int, float) and not strict):
            try:
                d = decimal.Decimal(p)
            except decimal.DecimalException:
                raise Rej
            prec = loc.get("prec")
            return d if prec is None else +decimal.Context(prec=prec).plus(d)
        raise Rej


class TableT(T):
    """A scalar given by a finite table value <-> text, plus further texts it accepts and rejects."""

    hashable = True
    textkey = True

    def __init__(
        self,
        hint: t.Any,
        table: t.List[t.Tuple[t.Any, str]],
        more: t.Dict[str, t.Any],
        bad: t.Sequence[str],
        label: str,
        total: t.Optional[t.Callable[[str], t.Any]] = None,
    ) -> None:
        self.hint = hint
        self.table = table
        self.more = more
        self.bad = list(bad)
        self.label = label
        self.total = total
        self._enc = {canon(v): s for v, s in table}
        self._dec = {**{s: v for v, s in table}, **more}

    def pytype(self) -> t.Any:
        return self.hint

    def vals(self) -> t.List[t.Any]:
        return [v for v, _ in self.table]

    def texts(self) -> t.List[str]:
        return [s for _, s in self.table] + list(self.more) + self.bad

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        c = canon(v)
        if c in self._enc:
            return self._enc[c]
        if isinstance(v, self.hint):
            raise Unspec
        raise Rej

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        if type(p) is str:
            if p in self._dec:
                return self._dec[p]
            if self.total:
                return self.total(p)
            if p in self.bad or not any(c.isdigit() for c in p):
                raise Rej
            raise Unspec
        if isinstance(p, (self.hint, str)):
            raise Unspec
        if self.hint is duration and isinstance(p, collections.abc.Mapping):
            raise Unspec  # nr.date.duration happens to be a dataclass
        raise Rej


def _tz(h: float) -> dt.timezone:
    return dt.timezone(dt.timedelta(hours=h))


_BADNUM = ["", "a", "ü\n\"", "1", "-1", "true", "None", "zz"]

DateT = TableT(
    dt.date,
    [
        (dt.date(2020, 1, 2), "2020-01-02"),
        (dt.date(1, 1, 1), "0001-01-01"),
        (dt.date(9999, 12, 31), "9999-12-31"),
        (dt.date(2024, 2, 29), "2024-02-29"),
    ],
    {"2021": dt.date(2021, 1, 1), "2021-03": dt.date(2021, 3, 1), "20210304": dt.date(2021, 3, 4)},
    _BADNUM + ["2021-3-4", "2021-13-01", "2021-02-30", "2020-01-02T00:00", "2020-01-02 ", "2020-01-02x", "0000-01-01"],
    "date",
)
TimeT = TableT(
    dt.time,
    [
        (dt.time(1, 2, 3), "01:02:03.0"),
        (dt.time(0, 0), "00:00:00.0"),
        (dt.time(23, 59, 59, 999999), "23:59:59.999999"),
        (dt.time(1, 2, 3, 4000), "01:02:03.004"),
        (dt.time(1, 2, 3, 500000, tzinfo=dt.timezone.utc), "01:02:03.5Z"),
        (dt.time(1, 2, tzinfo=_tz(5.5)), "01:02:00.0+05:30"),
    ],
    {
        "04": dt.time(4),
        "04:05": dt.time(4, 5),
        "04:05:06": dt.time(4, 5, 6),
        "0405": dt.time(4, 5),
        "040506": dt.time(4, 5, 6),
        "04:05-08:00": dt.time(4, 5, tzinfo=_tz(-8)),
        "04:05Z": dt.time(4, 5, tzinfo=dt.timezone.utc),
    },
    _BADNUM + ["24:00", "1:02", "01:60", "01:02:61", "2020-01-02", "01:02 "],
    "time",
)
DateTimeT = TableT(
    dt.datetime,
    [
        (dt.datetime(2020, 1, 2, 3, 4, 5), "2020-01-02T03:04:05.0"),
        (dt.datetime(1, 1, 1), "0001-01-01T00:00:00.0"),
        (dt.datetime(9999, 12, 31, 23, 59, 59, 999999), "9999-12-31T23:59:59.999999"),
        (dt.datetime(2020, 1, 2, 3, 4, 5, 6, tzinfo=dt.timezone.utc), "2020-01-02T03:04:05.000006Z"),
        (dt.datetime(2020, 1, 2, 3, 4, 5, 120000, tzinfo=_tz(-8)), "2020-01-02T03:04:05.12-08:00"),
    ],
    {
        "2020-01-02T03:04": dt.datetime(2020, 1, 2, 3, 4),
        "2020-01-02T03:04:05+05:30": dt.datetime(2020, 1, 2, 3, 4, 5, tzinfo=_tz(5.5)),
        "20200102T030405Z": dt.datetime(2020, 1, 2, 3, 4, 5, tzinfo=dt.timezone.utc),
    },
    _BADNUM + ["2020-01-02", "2020-01-02 03:04", "2020-01-02T25:00", "2020-02-30T00:00", "03:04"],
    "datetime",
)
DurationT = TableT(
    duration,
    [
        (duration(days=1), "P1D"),
        (duration(1, 2, 3, 4, 5, 6, 7, 500000), "P1Y2M3W4DT5H6M7,5S"),
        (duration(seconds=3), "PT3S"),
        (duration(hours=1), "PT1H"),
    ],
    {"P2W": duration(weeks=2)},
    _BADNUM + ["1D", "P1X", "PT1", "P1DT1D"],
    "duration",
)
DurationT.hashable = False
_U1 = "12345678-1234-5678-1234-567812345678"
_U2 = "00000000-0000-0000-0000-000000000000"
UUIDT = TableT(
    uuid.UUID,
    [(uuid.UUID(_U1), _U1), (uuid.UUID(_U2), _U2)],
    {_U1.replace("-", ""): uuid.UUID(_U1), _U1.upper(): uuid.UUID(_U1)},
    _BADNUM + [_U1[:-1], "g" + _U1[1:]],
    "UUID",
)
PathT = TableT(
    pathlib.Path, [(pathlib.Path("a/b"), "a/b"), (pathlib.Path("/x"), "/x"), (pathlib.Path("."), ".")], {}, [], "Path",
    total=pathlib.Path,
)
PurePathT = TableT(
    pathlib.PurePosixPath,
    [(pathlib.PurePosixPath("a/b"), "a/b"), (pathlib.PurePosixPath("/x"), "/x")],
    {},
    [],
    "PurePosixPath",
    total=pathlib.PurePosixPath,
)


class Color(enum.Enum):
    RED = 1
    GREEN: t.Annotated[int, dc.Alias("green", "verde")] = 2  # type: ignore[misc]
    BLUE = "b"


class Level(enum.IntEnum):
    LO = 1
    HI = 10


class EnumT(T):
    hashable, textkey = True, True

    def __init__(self, cls: t.Any, aliases: t.Dict[str, t.Tuple[str, ...]], label: str) -> None:
        self.hint, self.aliases, self.label = cls, aliases, label

    def pytype(self) -> t.Any:
        return self.hint

    def vals(self) -> t.List[t.Any]:
        return list(self.hint)

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        if type(v) is not self.hint:
            raise Rej
        return self.aliases.get(v.name, (v.name,))[0]

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        if type(p) is not str:
            raise Rej
        for name, al in self.aliases.items():
            if p in al:
                return self.hint[name]
        if p in self.hint.__members__:
            return self.hint[p]
        raise Rej


class IntEnumT(T):
    hashable = True

    def __init__(self, cls: t.Any, label: str) -> None:
        self.hint, self.label = cls, label

    def pytype(self) -> t.Any:
        return self.hint

    def vals(self) -> t.List[t.Any]:
        return list(self.hint)

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        if type(v) is not self.hint:
            raise Rej
        return v.value

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        if isinstance(p, int) and type(p) is not int:
            raise Unspec  # bool, IntEnum
        if type(p) is not int:
            raise Rej
        for m in self.hint:
            if m.value == p:
                return m
        raise Rej


class LiteralT(T):
    hashable = True

    def __init__(self, *values: t.Any) -> None:
        self.values = values
        self.hint = t.Literal[values]  # type: ignore[valid-type]
        self.label = "Literal" + repr(list(values))
        self.textkey = all(type(v) is str for v in values)

    def vals(self) -> t.List[t.Any]:
        return list(self.values)

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        for x in self.values:
            if type(x) is type(v) and x == v:
                return v
        for x in self.values:
            if x == v:
                raise Unspec  # 1 == True == 1.0
        raise Rej

    dec = enc


class AnyT(T):
    def __init__(self, hint: t.Any = t.Any, label: str = "Any") -> None:
        self.hint, self.label = hint, label

    def vals(self) -> t.List[t.Any]:
        return [None, 1, "a", [1, {"x": None}], {"k": [1]}]

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        return v

    dec = enc


# -- collections -------------------------------------------------------------------------------------------------------

_FORBIDDEN = (str, bytes, bytearray, memoryview)


def _is_collection_payload(p: t.Any) -> bool:
    return (
        isinstance(p, collections.abc.Collection)
        and not isinstance(p, _FORBIDDEN)
        and not isinstance(p, collections.abc.Mapping)
    )


class SeqT(T):
    """list, Sequence, deque, tuple[T, ...], set, frozenset, ..."""

    # constructor name -> (hint factory, runtime type, abstract)
    KINDS: t.Dict[str, t.Tuple[t.Callable[[t.Any], t.Any], type, t.Any]] = {
        "List": (lambda h: t.List[h], list, list),
        "list": (lambda h: list[h], list, list),
        "Sequence": (lambda h: t.Sequence[h], list, collections.abc.Sequence),
        "MutableSequence": (lambda h: t.MutableSequence[h], list, collections.abc.MutableSequence),
        "Collection": (lambda h: t.Collection[h], list, collections.abc.Collection),
        "Deque": (lambda h: t.Deque[h], collections.deque, collections.deque),
        "Tuple...": (lambda h: t.Tuple[h, ...], tuple, tuple),
        "Set": (lambda h: t.Set[h], set, set),
        "set": (lambda h: set[h], set, set),
        "FrozenSet": (lambda h: t.FrozenSet[h], frozenset, frozenset),
        "AbstractSet": (lambda h: t.AbstractSet[h], set, collections.abc.Set),
        "MutableSet": (lambda h: t.MutableSet[h], set, collections.abc.MutableSet),
    }

    def __init__(self, kind: str, item: T) -> None:
        self.kind, self.item = kind, item
        mk, self.rt, self.abc = self.KINDS[kind]
        self.hint = mk(item.hint)
        self.label = f"{kind}[{item.label}]"
        self.is_set = self.rt in (set, frozenset)
        self.hashable = item.hashable and self.rt in (tuple, frozenset)

    def pytype(self) -> t.Any:
        return self.rt

    def vals(self) -> t.List[t.Any]:
        vs = self.item.vals()
        if self.is_set:
            out: t.List[t.Any] = [self.rt()]
            if self.item.hashable:
                out += [self.rt(vs[:1]), self.rt(vs[:3])]
        else:
            out = [self.rt(), self.rt(vs[:1]), self.rt(vs[-1:] + vs[:2] + vs[-1:])]
        return out

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        if type(v) is not self.rt:
            if isinstance(v, self.abc):
                raise Unspec
            raise Rej
        out = []
        for i, x in enumerate(v):
            try:
                out.append(self.item.enc(x, env))
            except Rej as exc:
                raise exc.under(AltKey(tuple(range(len(v)))) if self.is_set else i)
        return AnyOrder(out) if self.is_set else out

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        if not _is_collection_payload(p):
            raise Rej
        out = []
        for i, x in enumerate(p):
            try:
                out.append(self.item.dec(x, env))
            except Rej as exc:
                raise exc.under(i)
        try:
            return self.rt(out)
        except TypeError:
            raise Rej  # unhashable item of a set


class TupleT(T):
    def __init__(self, *items: T) -> None:
        self.items = items
        self.hint = t.Tuple[tuple(i.hint for i in items)] if items else t.Tuple[()]  # type: ignore[misc]
        self.label = "Tuple[" + ", ".join(i.label for i in items) + "]"
        self.hashable = all(i.hashable for i in items)

    def pytype(self) -> t.Any:
        return tuple

    def vals(self) -> t.List[t.Any]:
        cols = [i.vals() for i in self.items]
        n = max((len(c) for c in cols), default=1)
        return [tuple(c[k % len(c)] for c in cols) for k in range(min(n, 3))]

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        if type(v) is not tuple:
            if isinstance(v, tuple):
                raise Unspec
            raise Rej
        if len(v) != len(self.items):
            raise Rej
        out = []
        for i, (x, it) in enumerate(zip(v, self.items)):
            try:
                out.append(it.enc(x, env))
            except Rej as exc:
                raise exc.under(i)
        return out

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        if not _is_collection_payload(p):
            raise Rej
        if len(p) != len(self.items):
            raise Rej
        out = []
        for i, (x, it) in enumerate(zip(p, self.items)):
            try:
                out.append(it.dec(x, env))
            except Rej as exc:
                raise exc.under(i)
        return tuple(out)


class MapT(T):
    KINDS: t.Dict[str, t.Tuple[t.Callable[[t.Any, t.Any], t.Any], type]] = {
        "Dict": (lambda k, v: t.Dict[k, v], dict),
        "dict": (lambda k, v: dict[k, v], dict),
        "Mapping": (lambda k, v: t.Mapping[k, v], dict),
        "MutableMapping": (lambda k, v: t.MutableMapping[k, v], dict),
        "OrderedDict": (lambda k, v: t.OrderedDict[k, v], collections.OrderedDict),
    }

    def __init__(self, kind: str, key: T, val: T) -> None:
        self.kind, self.key, self.val = kind, key, val
        mk, self.rt = self.KINDS[kind]
        self.hint = mk(key.hint, val.hint)
        self.label = f"{kind}[{key.label}, {val.label}]"

    def pytype(self) -> t.Any:
        return self.rt

    def vals(self) -> t.List[t.Any]:
        ks = [k for k in self.key.vals() if k == k] if self.key.hashable else []
        vs = self.val.vals()
        out: t.List[t.Any] = [self.rt()]
        if ks:
            out.append(self.rt([(ks[0], vs[0])]))
        if len(ks) > 1:
            out.append(self.rt([(ks[1], vs[-1]), (ks[0], vs[0])]))  # not in sorted order
        return out

    def _conv(self, m: t.Any, env: Env, how: str) -> t.Any:
        out: t.Dict[t.Any, t.Any] = {}
        for k, v in m.items():
            try:
                v2 = getattr(self.val, how)(v, env)
            except Rej as exc:
                raise exc.under(k)
            try:
                k2 = getattr(self.key, how)(k, env)
            except Rej as exc:
                raise exc.under(KeyOf(k))
            try:
                if k2 in out:
                    raise Unspec  # two keys with the same image
                out[k2] = v2
            except TypeError:
                raise Rej((KeyOf(k),))  # unhashable key
        return out

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        if not isinstance(v, collections.abc.Mapping):
            raise Rej
        if type(v) is not self.rt:
            try:
                self._conv(v, env, "enc")
            except Rej:
                raise
            raise Unspec  # another kind of mapping
        return self._conv(v, env, "enc")

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        if not isinstance(p, collections.abc.Mapping):
            raise Rej
        return self.rt(self._conv(p, env, "dec"))


def KeyOf(k: t.Any) -> AltKey:
    """Path element of a fault in the key *k* itself."""
    return AltKey((f"Key({k!r})", k))


class OptT(T):
    def __init__(self, inner: T) -> None:
        self.inner = inner
        self.hint = t.Optional[inner.hint]
        self.label = f"Optional[{inner.label}]"
        self.hashable = inner.hashable

    def vals(self) -> t.List[t.Any]:
        return [None] + self.inner.vals()[:4]

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        return None if v is None else self.inner.enc(v, env, loc)

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        return None if p is None else self.inner.dec(p, env, loc)


class UnionT(T):
    """Plain union: the first member that accepts."""

    def __init__(self, *members: T) -> None:
        self.members = members
        for cleanup in t._cleanups:  # type: ignore[attr-defined]
            cleanup()  # typing takes List[Union[A, B]] and List[Union[B, A]] for the same thing and caches it.
        self.hint = t.Union[tuple(m.hint for m in members)]  # type: ignore[misc]
        self.label = "Union[" + ", ".join(m.label for m in members) + "]"
        self.hashable = all(m.hashable for m in members)

    def vals(self) -> t.List[t.Any]:
        out = []
        for m in self.members:
            out += m.vals()[:2]
        return out

    def _first(self, x: t.Any, env: Env, how: str) -> t.Any:
        for m in self.members:
            try:
                return getattr(m, how)(x, env)
            except Rej:
                pass
        raise Rej

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        return self._first(v, env, "enc")

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        return self._first(p, env, "dec")


class TaggedT(T):
    """Union with a discriminator."""

    def __init__(
        self,
        style: str,
        members: t.Dict[str, T],
        disc: str = "type",
        nest: t.Optional[str] = None,
        hint: t.Any = None,
    ) -> None:
        self.style, self.members, self.disc, self.nest = style, members, disc, nest
        if hint is None:
            hint = t.Annotated[  # type: ignore[assignment]
                t.Any if len(members) < 1 else t.Union[tuple(m.hint for m in members.values())],
                *noisy([dc.Union({k: m.hint for k, m in members.items()}, style, disc, nest)]),
            ]
        self.hint = hint
        args = ", ".join(f"{k}={m.label}" for k, m in members.items())
        self.label = f"{style}<{args}|{disc},{nest}>"
        self.hashable = all(m.hashable for m in members.values())

    def vals(self) -> t.List[t.Any]:
        out = []
        for m in self.members.values():
            out += m.vals()[:2]
        return out

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        for name, m in self.members.items():
            if m.pytype() is type(v):
                break
        else:
            raise Rej
        e = m.enc(v, env)
        if self.style == "flat":
            if not isinstance(e, dict):
                raise Rej
            if self.disc in e:
                raise Unspec
            return Obj({**e, self.disc: name})
        if self.style == "keyed":
            return Obj({name: e})
        nest = self.nest or name
        if nest == self.disc:
            raise Unspec
        return Obj({self.disc: name, nest: e})

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        if not isinstance(p, collections.abc.Mapping):
            raise Rej
        if self.style == "keyed":
            if len(p) != 1:
                raise Rej
            (name,) = p
            if isinstance(name, str) and type(name) is not str:
                raise Unspec
            if type(name) is not str or name not in self.members:
                raise Rej
            try:
                return self.members[name].dec(p[name], env)
            except Rej as exc:
                raise exc.under(name)
        if self.disc not in p:
            raise Rej
        name = p[self.disc]
        if isinstance(name, str) and type(name) is not str:
            raise Unspec
        if type(name) is not str:
            raise Rej((OptKey((self.disc,)),))
        if name not in self.members:
            raise Rej((OptKey((self.disc,)),))
        m = self.members[name]
        if self.style == "flat":
            rest = {k: v for k, v in p.items() if k != self.disc}
            if not isinstance(m, RecT) and not isinstance(m, MapT):
                raise Unspec
            return m.dec(rest, env)
        nest = self.nest or name
        if nest == self.disc:
            raise Unspec
        if nest not in p:
            raise Rej
        try:
            out = m.dec(p[nest], env)
        except Rej as exc:
            raise exc.under(nest)
        if len(p) > 2:
            raise Unspec  # surplus keys next to the body
        return out


# -- records -----------------------------------------------------------------------------------------------------------


class F:
    """A field of a record."""

    def __init__(
        self,
        name: str,
        typ: T,
        *,
        alias: t.Tuple[str, ...] = (),
        default: t.Any = NODEF,
        factory: t.Any = None,
        required: t.Optional[bool] = None,
        flat: bool = False,
        rest: bool = False,
        init: bool = True,
        loc: t.Optional[t.Dict[str, t.Any]] = None,
        ann: t.Tuple[t.Any, ...] = (),
    ) -> None:
        self.name, self.typ, self.alias, self.default, self.factory = name, typ, alias, default, factory
        self.req_setting, self.flat, self.rest, self.init = required, flat, rest, init
        self.loc = loc or NOLOC
        self.ann = ann

    @property
    def keys(self) -> t.Tuple[str, ...]:
        return self.alias or (self.name,)

    @property
    def has_default(self) -> bool:
        return self.default is not NODEF or self.factory is not None

    @property
    def required(self) -> bool:
        if self.req_setting is not None:
            return self.req_setting
        if isinstance(unwrap(self.typ), OptT):
            return False
        return not self.has_default

    def get_default(self) -> t.Any:
        if self.default is not NODEF:
            return self.default
        if self.factory is not None:
            return self.factory()
        return None

    def hint(self) -> t.Any:
        ann: t.List[t.Any] = list(self.ann)
        if self.alias:
            ann.append(dc.Alias(*self.alias))
        if self.req_setting is not None:
            ann.append(dc.Required(self.req_setting))
        if self.flat:
            ann.append(dc.Flattened())
        if self.rest:
            ann.append(dc.Remainder())
        ann = noisy(ann)
        return t.Annotated[(self.typ.hint, *ann)] if ann else self.typ.hint  # type: ignore[return-value]

    def stdlib(self) -> t.Any:
        if self.factory is not None:
            return dataclasses.field(default_factory=self.factory, init=self.init)
        if self.default is not NODEF:
            return dataclasses.field(default=self.default, init=self.init)
        return dataclasses.field(init=self.init)

    def __repr__(self) -> str:
        parts = [f"{self.name}:{self.typ.label}"]
        if self.alias:
            parts.append("@" + "/".join(self.alias))
        if self.default is not NODEF:
            parts.append(f"={self.default!r}")
        if self.factory is not None:
            parts.append("=factory")
        if self.req_setting is not None:
            parts.append(f"required={self.req_setting}")
        for k in ("flat", "rest"):
            if getattr(self, k):
                parts.append(k)
        if not self.init:
            parts.append("noinit")
        return "".join(parts)


def unwrap(typ: T) -> T:
    while isinstance(typ, AnnT):
        typ = typ.inner
    return typ


class AnnT(T):
    """An annotated occurrence.  *loc* is what the annotation means to the model."""

    def __init__(self, inner: T, *ann: t.Any, loc: t.Optional[t.Dict[str, t.Any]] = None, label: str = "") -> None:
        self.inner, self.ann, self.loc = inner, ann, loc or {}
        self.hint = t.Annotated[(inner.hint, *ann)]  # type: ignore[misc]
        self.label = f"Annotated[{inner.label}, {label or ', '.join(type(a).__name__ for a in ann)}]"
        self.hashable, self.textkey = inner.hashable, inner.textkey

    def pytype(self) -> t.Any:
        return self.inner.pytype()

    def vals(self) -> t.List[t.Any]:
        return self.inner.vals()

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        return self.inner.enc(v, env, {**self.loc, **loc})

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        return self.inner.dec(p, env, {**self.loc, **loc})


_counter = itertools.count()


class RecT(T):
    """Dataclass, named tuple or typed dict."""

    def __init__(
        self,
        name: str,
        fields: t.Sequence[F],
        *,
        kind: str = "dataclass",
        cls: t.Any = None,
        hint: t.Any = None,
        total: bool = True,
        cls_loc: t.Optional[t.Dict[str, t.Any]] = None,
        decorate: t.Optional[t.Callable[[type], type]] = None,
        frozen: bool = False,
        instances: t.Optional[t.Callable[["RecT"], t.List[t.Any]]] = None,
    ) -> None:
        self.fields, self.kind, self.total = list(fields), kind, total
        self.cls_loc = cls_loc or {}
        self.instances = instances
        if cls is None:
            if kind == "dataclass":
                cls = dataclasses.make_dataclass(
                    name, [(f.name, f.hint(), f.stdlib()) for f in fields], module=MODULE, frozen=frozen
                )
            elif kind == "namedtuple":
                cls = t.NamedTuple(name, [(f.name, f.hint()) for f in fields])  # type: ignore[misc]
                cls.__module__ = MODULE
            elif kind == "typeddict":
                cls = t.TypedDict(name, {f.name: f.hint() for f in fields}, total=total)  # type: ignore[misc]
                cls.__module__ = MODULE
            else:
                raise AssertionError(kind)
            if decorate:
                cls = decorate(cls)
        self.cls = cls
        self.hint = hint if hint is not None else cls
        self.frozen = frozen
        self.hashable = (frozen or kind == "namedtuple") and all(f.typ.hashable for f in fields)
        self.label = f"{name}<{kind}>({', '.join(map(repr, fields))})"

    def pytype(self) -> t.Any:
        return self.cls

    def make(self, /, **kw: t.Any) -> t.Any:
        return self.cls(**kw)

    def vals(self) -> t.List[t.Any]:
        if self.instances:
            return self.instances(self)
        fs = [f for f in self.fields if f.init]
        cols = []
        for f in fs:
            vs = f.typ.vals()
            if f.rest:
                used = set(claimed_keys(self.fields))
                vs = [v for v in vs if not (isinstance(v, dict) and used & set(v))]
            cols.append(vs[:4])
        n = min(4, max((len(c) for c in cols), default=1))
        out = []
        for k in range(n):
            # Shift the columns against each other so that fields do not all take their first value.
            out.append(self.make(**{f.name: c[(k + i) % len(c)] for i, (f, c) in enumerate(zip(fs, cols))}))
        if any(f.has_default for f in fs) and not any(f.required and f.has_default for f in fs):
            out.append(
                self.make(
                    **{
                        f.name: (f.get_default() if f.has_default else c[0])
                        for f, c in zip(fs, cols)
                    }
                )
            )
        return out

    # The specification.

    def _get(self, v: t.Any, f: F) -> t.Any:
        if self.kind == "typeddict":
            if f.name not in v:
                if f.required and self.total:
                    raise Rej
                return NODEF
            return v[f.name]
        return getattr(v, f.name)

    def check_instance(self, v: t.Any) -> None:
        if self.kind == "typeddict":
            if not isinstance(v, collections.abc.Mapping):
                raise Rej
            if type(v) is not dict or any(k not in {f.name for f in self.fields} for k in v):
                raise Unspec
        elif type(v) is not self.cls:
            if isinstance(v, self.cls):
                raise Unspec
            raise Rej

    def enc(self, v: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        self.check_instance(v)
        out, owner = self._emit(v, env, loc)
        return out

    def leaves(self) -> t.List["F"]:
        """The plain and remainder fields with flattened fields expanded."""
        res: t.List[F] = []
        for f in self.fields:
            if not f.init:
                continue
            inner = unwrap(f.typ)
            if f.flat and isinstance(inner, RecT):
                res += inner.leaves()
            else:
                res.append(f)
        return res

    def _emit(self, v: t.Any, env: Env, loc: t.Dict[str, t.Any]) -> t.Tuple[Obj, t.Dict[str, t.Any]]:
        """The object and, for each key, the field that it stems from."""
        serdef = loc.get("serdef", self.cls_loc.get("serdef", env.serdef))
        out = Obj()
        owner: t.Dict[str, t.Any] = {}
        rest: t.Optional[t.Tuple[F, t.Mapping[str, t.Any]]] = None
        expand = False
        for f in self.fields:
            if not f.init:
                continue
            val = self._get(v, f)
            if val is NODEF:
                continue
            key = AltKey((f.name,) + f.keys)
            inner = unwrap(f.typ)
            sub: t.Dict[str, t.Any] = {}
            try:
                if f.flat and isinstance(inner, RecT):
                    inner.check_instance(val)
                    e, sub = inner._emit(val, env, {**getattr(f.typ, "loc", {}), **f.loc})
                else:
                    e = f.typ.enc(val, env, f.loc)
            except Rej as exc:
                raise exc.under(key)
            if f.rest:
                expand = True
                if rest is not None:
                    raise Rej
                if not isinstance(e, dict):
                    raise Rej((OptKey((f.name,)),))
                rest = f, e
            elif f.flat:
                expand = True
                if not isinstance(e, dict) or set(e) & set(out):
                    raise Rej((OptKey((f.name,)),))
                out.update(e)
                owner.update(sub)
            else:
                default = f.get_default() if (f.has_default or not f.required) else NODEF
                if serdef or f.required or not _eq(val, default):
                    if f.keys[0] in out:
                        raise Rej((OptKey((f.name,)),))
                    out[f.keys[0]] = e
                    owner[f.keys[0]] = f
        if rest is not None:
            if set(rest[1]) & set(out):
                raise Rej
            out.update(rest[1])
            owner.update({k: rest[0] for k in rest[1]})
        if expand:
            if sum(f.rest for f in self.leaves()) > 1:
                raise Rej
            for f in self.leaves():
                taken = next((k for k in f.keys if k in out), None)
                if not f.rest and taken is not None and owner[taken] is not f:
                    raise Rej  # load would take this key for the field
        return out, owner

    def _claim(self, p: t.Any, used: t.Set[str], sub: t.Dict[str, t.Any]) -> bool:
        """Take from *p* the keys of all fields of this (flattened) record.  Returns whether it has a remainder."""
        has_rest = False
        for f in self.fields:
            if not f.init:
                continue
            if f.rest:
                has_rest = True
            elif f.flat:
                inner = unwrap(f.typ)
                assert isinstance(inner, RecT)
                has_rest |= inner._claim(p, used, sub)
            else:
                for a in f.keys:
                    if a in p:
                        used.add(a)
                        sub[a] = p[a]
                        break
                else:
                    if f.required:
                        raise Rej
        return has_rest

    def dec(self, p: t.Any, env: Env = ENV, loc: t.Dict[str, t.Any] = NOLOC) -> t.Any:
        if not isinstance(p, collections.abc.Mapping):
            raise Rej
        if sum(f.rest for f in self.leaves()) > 1:
            raise Rej
        used: t.Set[t.Any] = set()
        kw: t.Dict[str, t.Any] = {}
        pending: t.Optional[t.Tuple[F, t.Dict[str, t.Any]]] = None
        for f in self.fields:
            if not f.init:
                continue
            path = AltKey((f.name,) + f.keys)
            if f.rest:
                if pending:
                    raise Rej
                pending = (f, {})
            elif f.flat:
                inner = unwrap(f.typ)
                assert isinstance(inner, RecT)
                sub: t.Dict[str, t.Any] = {}
                try:
                    has_rest = inner._claim(p, used, sub)
                except Rej as exc:
                    raise Rej((OptKey((f.name,)),) + exc.path)
                if has_rest:
                    if pending:
                        raise Rej
                    pending = (f, sub)
                    continue
                try:
                    kw[f.name] = f.typ.dec(sub, env, f.loc)
                except Rej as exc:
                    raise exc.under(OptKey((f.name,)))
            else:
                for a in f.keys:
                    if a in p:
                        used.add(a)
                        try:
                            kw[f.name] = f.typ.dec(p[a], env, f.loc)
                        except Rej as exc:
                            raise exc.under(AltKey((f.name, a)))
                        break
                else:
                    if self.kind == "namedtuple" and not f.required:
                        raise Unspec  # the schema of a named tuple has no defaults
                    if f.required and not (self.kind == "typeddict" and not self.total):
                        raise Rej
                    if f.has_default or not f.required:
                        kw[f.name] = f.get_default()
        unused = [k for k in p if k not in used]
        if pending:
            f, sub = pending
            try:
                kw[f.name] = f.typ.dec({**sub, **{k: p[k] for k in unused}}, env, f.loc)
            except Rej as exc:
                raise exc.under(OptKey((f.name,)))
        elif unused and not loc.get("extra", self.cls_loc.get("extra", env.extra)):
            raise Rej
        return self.make(**kw)


def _eq(a: t.Any, b: t.Any) -> bool:
    return b is not NODEF and bool(a == b)


def claimed_keys(fields: t.Sequence[F]) -> t.List[str]:
    out: t.List[str] = []
    for f in fields:
        if f.flat:
            inner = unwrap(f.typ)
            if isinstance(inner, RecT):
                out += claimed_keys(inner.fields)
        elif not f.rest:
            out += list(f.keys)
    return out


def generic_record(name: str, item: T) -> RecT:
    X = t.TypeVar("X")  # type: ignore[misc]
    ns = {"__annotations__": {"x": X, "xs": t.List[X]}, "__module__": MODULE}  # type: ignore[valid-type]
    cls = dataclasses.dataclass(_new_class(name, (t.Generic[X],), ns))  # type: ignore[index]
    return RecT(
        f"{name}[{item.label}]", [F("x", item), F("xs", SeqT("List", item))], cls=cls, hint=cls[item.hint]
    )


def generic_subclass(name: str, item: T) -> RecT:
    """class Base(Generic[X]): x: X;  class Sub(Base[item]): y: int = 0"""
    X = t.TypeVar("X")  # type: ignore[misc]
    base = dataclasses.dataclass(
        _new_class(name + "Base", (t.Generic[X],), {"__annotations__": {"x": X}, "__module__": MODULE})  # type: ignore
    )
    sub = dataclasses.dataclass(
        _new_class(name, (base[item.hint],), {"__annotations__": {"y": int}, "y": 0, "__module__": MODULE})
    )
    return RecT(f"{name}[{item.label}]", [F("y", IntT(), default=0), F("x", item)], cls=sub)


def _new_class(name: str, bases: t.Tuple[t.Any, ...], ns: t.Dict[str, t.Any]) -> t.Any:
    import types

    return types.new_class(name, bases, {}, lambda d: d.update(ns))


# -- enumeration -------------------------------------------------------------------------------------------------------

INT, FLOAT, BOOL, STR, BYTES, DECIMAL = IntT(), FloatT(), BoolT(), StrT(), BytesT(), DecimalT()
COLOR = EnumT(Color, {"GREEN": ("green", "verde")}, "Color")
LEVEL = IntEnumT(Level, "Level")
ANY = AnyT()


def leaf_types() -> t.List[T]:
    return [
        INT, STR, BOOL, FLOAT, BYTES, DECIMAL, DateT, TimeT, DateTimeT, DurationT, UUIDT, PathT, PurePathT,
        COLOR, LEVEL, LiteralT("a", "b"), LiteralT(1, 2, None), LiteralT(True, "x"), ANY, AnyT(object, "object"),
    ]  # fmt: skip


def core_leaves() -> t.List[T]:
    return [INT, STR, FLOAT, BYTES, DateTimeT, COLOR, LiteralT("a", 1)]


def has_pytype(x: T) -> bool:
    try:
        x.pytype()
        return True
    except NotImplementedError:
        return False


def wrappers() -> t.List[t.Tuple[str, t.Callable[[T], t.Optional[T]]]]:
    """The type constructors of one argument; each returns None where it does not apply."""

    def seq(kind: str) -> t.Callable[[T], t.Optional[T]]:
        def mk(x: T) -> t.Optional[T]:
            return SeqT(kind, x)

        return mk

    def mp(kind: str) -> t.Callable[[T], t.Optional[T]]:
        return lambda x: MapT(kind, STR, x)

    def key(x: T) -> t.Optional[T]:
        return MapT("Dict", x, INT)

    def opt(x: T) -> t.Optional[T]:
        if isinstance(x, (OptT, AnyT)):
            return None
        if isinstance(x, LiteralT) and None in x.values:
            return None
        return OptT(x)

    def rec(x: T) -> T:
        return RecT("Rec", [F("x", x), F("y", INT, default=5)])

    def rec_opts(x: T) -> t.Optional[T]:
        o = opt(x)
        if o is None:
            return None
        return RecT(
            "RecO",
            [
                F("a", x, alias=("al-a", "a2")),
                F("b", o),
                F("c", SeqT("List", x), factory=list),
                F("d", o, default=None, alias=("d_",)),
            ],
        )

    def frozen(x: T) -> T:
        return RecT("Fz", [F("x", x)], frozen=True)

    def nt(x: T) -> T:
        return RecT("NT", [F("x", x), F("y", STR)], kind="namedtuple")

    def td(x: T) -> T:
        return RecT("TD", [F("x", x), F("o", OptT(INT))], kind="typeddict")

    def tdp(x: T) -> T:
        return RecT(
            "TDp", [F("x", x), F("y", INT)], kind="typeddict", total=False,
            instances=lambda r: [{}, {"x": x.vals()[0]}, {"y": 2, "x": x.vals()[-1]}, {"y": 1}],
        )  # fmt: skip

    def flat(x: T) -> T:
        inner = RecT("In", [F("x", x, alias=("ex",)), F("z", INT, default=1)])
        return RecT("Out", [F("k", INT), F("inner", inner, flat=True)])

    def rest(x: T) -> T:
        return RecT("Rest", [F("k", INT), F("more", MapT("Dict", STR, x), rest=True)])

    def nested(x: T) -> t.Optional[T]:
        return TaggedT("nested", {"m": RecT("M", [F("x", x)]), "i": INT})

    def nested_plain(x: T) -> t.Optional[T]:
        if not has_pytype(x) or x.pytype() is str or isinstance(x, TaggedT):
            return None
        if isinstance(x, RecT) and x.kind == "typeddict":
            return None
        if not isinstance(x.hint, type):
            return None  # "the union members should be concrete types, not generic aliases"
        return TaggedT("nested", {"m": x, "s": STR}, disc="kind", nest="body")

    def keyed(x: T) -> t.Optional[T]:
        return TaggedT("keyed", {"m": RecT("M", [F("x", x)]), "s": STR})

    def flatu(x: T) -> t.Optional[T]:
        return TaggedT("flat", {"m": RecT("M", [F("x", x)]), "n": RecT("N", [F("x", x), F("y", INT)])})

    def union(x: T) -> t.Optional[T]:
        return UnionT(RecT("U1", [F("x", x), F("tag", LiteralT("u"))]), BOOL)

    def tup(x: T) -> T:
        return TupleT(x, INT)

    out: t.List[t.Tuple[str, t.Callable[[T], t.Optional[T]]]] = []
    out += [(k, seq(k)) for k in SeqT.KINDS]
    out += [("Tuple2", tup)]
    out += [(k, mp(k)) for k in MapT.KINDS]
    out += [
        ("DictKey", key), ("Optional", opt), ("Rec", rec), ("RecOpts", rec_opts), ("Frozen", frozen),
        ("Generic", lambda x: generic_record("G", x)), ("GenericSub", lambda x: generic_subclass("GS", x)),
        ("NamedTuple", nt), ("TypedDict", td), ("TypedDictPartial", tdp), ("Flattened", flat), ("Remainder", rest),
        ("Nested", nested), ("NestedPlain", nested_plain), ("Keyed", keyed), ("Flat", flatu), ("Union", union),
    ]  # fmt: skip
    return out


#: One representative of each group of constructors that share a converter (for deep compositions).
MAIN_WRAPPERS = (
    "List", "FrozenSet", "Tuple2", "Dict", "DictKey", "Optional", "Rec", "RecOpts", "Frozen", "Generic", "GenericSub",
    "NamedTuple", "TypedDict", "Flattened", "Remainder", "Nested", "Keyed", "Flat", "Union",
)  # fmt: skip


def compose(base: t.Iterable[T], names: t.Optional[t.Sequence[str]] = None) -> t.Iterator[T]:
    ws = [w for w in wrappers() if names is None or w[0] in names]
    for x in base:
        for _, mk in ws:
            y = mk(x)
            if y is not None:
                yield y


def type_chain(leaf: T, chain: t.Sequence[str]) -> t.Optional[T]:
    """Apply constructors to a leaf, innermost first."""
    table = dict(wrappers())
    x: t.Optional[T] = leaf
    for name in chain:
        assert x is not None
        x = table[name](x)
        if x is None:
            return None
    return x


def chains(depth: int, names: t.Sequence[str]) -> t.Iterator[t.Tuple[str, ...]]:
    return itertools.product(names, repeat=depth)


# -- payloads ----------------------------------------------------------------------------------------------------------

#: JSON values that are foreign to most types; replacing a sub-payload by each of these is the single-fault alphabet.
ATOMS: t.List[t.Any] = [
    None, True, False, 0, 1, -1, 1.0, 1.5, float("nan"), 10**400, "", "a", "1", "true", "zz", [], [0], ["a", "b", "c"],
    {}, {"x": 1}, {"zz": 0},
]  # fmt: skip
FEW_ATOMS: t.List[t.Any] = [None, True, 7, 1.5, "zz", [], {}, {"zz": 0}]


def copy_json(p: t.Any) -> t.Any:
    if isinstance(p, dict):
        return {k: copy_json(v) for k, v in p.items()}
    if isinstance(p, list):
        return [copy_json(v) for v in p]
    return p


def mutations(p: t.Any, atoms: t.Sequence[t.Any]) -> t.Iterator[t.Any]:
    """All payloads that differ from *p* in one place."""
    for a in atoms:
        if canon(a) != canon(p):
            yield copy_json(a)
    if isinstance(p, dict):
        for k in p:
            yield {k2: copy_json(v) for k2, v in p.items() if k2 != k}
            yield {("zz" if k2 == k else k2): copy_json(v) for k2, v in p.items()}
            for m in mutations(p[k], atoms):
                yield {k2: (m if k2 == k else copy_json(v)) for k2, v in p.items()}
        yield {**copy_json(p), "zz": 0}
        if not all(isinstance(k, str) for k in p) or not p:
            yield {**copy_json(p), 77: 0}
    elif isinstance(p, list):
        for i in range(len(p)):
            yield copy_json(p[:i] + p[i + 1 :])
            yield copy_json(p[: i + 1] + p[i:])
            for m in mutations(p[i], atoms):
                yield copy_json(p[:i]) + [m] + copy_json(p[i + 1 :])
        for a in (0, "a"):
            yield copy_json(p) + [a]


def payloads(typ: T, atoms: t.Sequence[t.Any], nvals: int = 3) -> t.Iterator[t.Any]:
    """Well-formed payloads of *typ*, each also with every single-place mutation, without duplicates."""
    seen = set()

    def new(p: t.Any) -> bool:
        c = canon(p)
        if c in seen:
            return False
        seen.add(c)
        return True

    for v in typ.vals()[:nvals]:
        try:
            p = plain(typ.enc(v))
        except (Rej, Unspec):
            continue
        if new(p):
            yield copy_json(p)
        for m in mutations(p, atoms):
            if new(m):
                yield m
    for x in extra_texts(typ):
        if new(x):
            yield x


def extra_texts(typ: T) -> t.List[t.Any]:
    typ = unwrap(typ)
    if isinstance(typ, TableT):
        return list(typ.texts())
    if isinstance(typ, BytesT):
        return ["YWJj", "YQ==", "YQ=", "YWI=", "Y", "YWJ", b"raw"]
    if isinstance(typ, DecimalT):
        return ["1.5", "1e3", "1.2.3", "Infinity", "abc", "--1"]
    if isinstance(typ, EnumT):
        return ["RED", "GREEN", "green", "verde", "red", "Green", "BLUE", "b", "Color.RED"]
    if isinstance(typ, IntEnumT):
        return [1, 10, 2, 0, "LO", 1.0]
    if isinstance(typ, SeqT) and typ.is_set and not typ.item.hashable:
        return [[plain(x) for x in [typ.item.enc(v) for v in typ.item.vals()][:n]] for n in (1, 2)]
    return []


# -- running the real code ---------------------------------------------------------------------------------------------


class Outcome(t.NamedTuple):
    kind: str  # "ok", "reject", "crash"
    value: t.Any
    exc: t.Optional[BaseException]

    def __repr__(self) -> str:
        if self.kind == "ok":
            return f"returned {self.value!r} ({type(self.value).__name__})"
        return f"raised {type(self.exc).__name__}: {str(self.exc)[:400]}"


def attempt(fn: t.Callable[..., t.Any], *args: t.Any, **kw: t.Any) -> Outcome:
    try:
        return Outcome("ok", fn(*args, **kw), None)
    except dc.ConversionError as exc:
        return Outcome("reject", None, exc)
    except Exception as exc:
        return Outcome("crash", None, exc)


class Expected(t.NamedTuple):
    kind: str  # "ok", "reject", "unspec"
    value: t.Any
    path: t.Tuple[t.Any, ...]

    def __repr__(self) -> str:
        return {"ok": f"accept as {self.value!r}", "reject": f"reject at {self.path!r}"}.get(self.kind, self.kind)


def expect(fn: t.Callable[..., t.Any], *args: t.Any) -> Expected:
    try:
        return Expected("ok", fn(*args), ())
    except Rej as exc:
        return Expected("reject", None, exc.path)
    except Unspec:
        return Expected("unspec", None, ())


def error_path(exc: dc.ConversionError) -> t.List[t.Any]:
    """The keys of the error's context chain, root first, without the root and pass-through levels."""
    out = []
    for ctx in exc.context.iter_hierarchy_up():
        if ctx.parent is None:
            break
        if ctx.key is not None:
            out.append(ctx.key)
    return out[::-1]


def judge(exp: Expected, got: Outcome, crash: bool = False) -> t.Optional[str]:
    """Compare; returns a description of the disagreement. Where nothing is said about the outcome, it still is a value
    or a ConversionError, except with *crash*."""
    if got.kind == "crash":
        if exp.kind == "unspec" and crash:
            return None
        return f"{got!r}; expected to {exp!r}"
    if exp.kind == "unspec":
        return None
    if exp.kind != got.kind:
        return f"{got!r}; expected to {exp!r}"
    if exp.kind == "ok" and not same(exp.value, got.value):
        return f"{got!r}; expected to {exp!r} ({type(exp.value).__name__})"
    return None


def short_canon(v: t.Any) -> t.Any:
    """A compact key of a payload."""
    return repr(v) if not isinstance(v, int) or abs(v) < 10**50 else "bigint"
