"""C15: concurrent conversions and lookups behave as if run one at a time."""

from mc import sched

sched.install_locks()

import dataclasses  # noqa: E402
import datetime  # noqa: E402
import decimal  # noqa: E402
import enum  # noqa: E402
import importlib  # noqa: E402
import itertools  # noqa: E402
import os  # noqa: E402
import pathlib  # noqa: E402
import pkgutil  # noqa: E402
import shutil  # noqa: E402
import sys  # noqa: E402
import tempfile  # noqa: E402
import atexit  # noqa: E402
import typing as t  # noqa: E402
import uuid  # noqa: E402

import typing_extensions as te  # noqa: E402

import databind.core as dc  # noqa: E402
import databind.core.dataclasses as dbdc  # noqa: E402
import databind.json as dj  # noqa: E402
from databind.core.schema import convert_to_schema  # noqa: E402
from typeapi import TypeHint  # noqa: E402
from databind.core.union import (  # noqa: E402
    ChainUnionMembers,
    EntrypointUnionMembers,
    ImportUnionMembers,
    StaticUnionMembers,
)
from databind.json import dump, get_object_mapper, load  # noqa: E402

from mc import model as m  # noqa: E402
from mc.engine import REPO_SRC, Recorder, Space, thorough  # noqa: E402

ASSUMPTIONS = [
    "threads are switched between bytecode instructions of databind; calls into other libraries are atomic",
    "locks created through the threading module are modelled by the scheduler",
]

Ops = t.List[t.Tuple[str, t.Callable[[], t.Any]]]


class Scenario(t.NamedTuple):
    threads: t.List[Ops]
    final: t.Callable[[], t.Any]


def observe(fn: t.Callable[[], t.Any], names: t.Callable[[t.Any], t.Any]) -> t.Any:
    try:
        return ("ok", names(fn()))
    except sched.Stop:
        raise
    except dc.ConversionError as exc:
        return ("reject", type(exc).__name__, repr(m.error_path(exc)), exc.context.location.filename)
    except Exception as exc:
        return ("raise", type(exc).__name__)


class Names:
    """Names objects by the order in which they were met, so that runs can be compared."""

    def __init__(self, known: t.Mapping[str, t.Any] = {}) -> None:
        self.known = {id(v): k for k, v in known.items()}
        self.keep: t.List[t.Any] = [*known.values()]

    def __call__(self, v: t.Any) -> t.Any:
        if isinstance(v, type):
            return ("type", id(v))
        if isinstance(v, list):
            return [self(x) for x in v]
        return repr(m.canon(v))

    def resolve(self, outcome: t.Any) -> t.Any:
        """Replace the ids of types by names, in order of appearance."""
        met: t.Dict[int, str] = dict(self.known)

        def walk(x: t.Any) -> t.Any:
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "type":
                return ("type", met.setdefault(x[1], f"new {len(met) - len(self.known)}"))
            if isinstance(x, (list, tuple)):
                return type(x)(walk(y) for y in x)
            return x

        return walk(outcome)


# -- member tables -----------------------------------------------------------------------------------------------------


GROUP = "mc.c15.members"
_scratch: t.Optional[str] = None


def scratch() -> str:
    """A directory with entry points and modules to import, on sys.path."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="mc-c15-")
        owner = os.getpid()
        atexit.register(lambda: os.getpid() == owner and shutil.rmtree(t.cast(str, _scratch), ignore_errors=True))
        info = os.path.join(_scratch, "mc_c15-1.0.dist-info")
        os.makedirs(info)
        with open(os.path.join(info, "METADATA"), "w") as fp:
            fp.write("Metadata-Version: 2.1\nName: mc-c15\nVersion: 1.0\n")
        with open(os.path.join(info, "entry_points.txt"), "w") as fp:
            fp.write(f"[{GROUP}]\na = mc_c15_mod:EA\nb = mc_c15_mod:EB\nc = mc_c15_mod:EC\n")
        with open(os.path.join(_scratch, "mc_c15_mod.py"), "w") as fp:
            fp.write("class EA: pass\nclass EB: pass\nclass EC: pass\n")
        sys.path.insert(0, _scratch)
        importlib.invalidate_caches()
    return _scratch


def op_menu(kind: str, A: t.Any = None, B: t.Any = None, C: t.Any = None) -> t.Dict[str, t.Callable[[t.Any], t.Callable[[], t.Any]]]:
    def reg(name: str, typ: t.Any) -> t.Callable[[t.Any], t.Callable[[], t.Any]]:
        return lambda u: lambda: u.register(name)(typ)

    def by_id(name: str) -> t.Callable[[t.Any], t.Callable[[], t.Any]]:
        return lambda u: lambda: u.get_type_by_id(name)

    def id_of(typ: t.Any) -> t.Callable[[t.Any], t.Callable[[], t.Any]]:
        return lambda u: lambda: u.get_type_id(typ)

    def ids(u: t.Any) -> t.Callable[[], t.Any]:
        return lambda: u.get_type_ids()

    if kind in ("static", "setting", "chain"):
        return {
            "reg a B": reg("a", B), "reg b B": reg("b", B), "reg b C": reg("b", C), "reg l A": reg("l", A),
            "get a": by_id("a"), "get b": by_id("b"), "get l": by_id("l"), "get z": by_id("z"), "id A": id_of(A),
            "id B": id_of(B), "id C": id_of(C), "ids": ids,
        }  # fmt: skip
    if kind == "entrypoint":
        return {"get a": by_id("a"), "get c": by_id("c"), "get z": by_id("z"), "id EB": lambda u: lambda: u.get_type_id(mod().EB),
                "id A": id_of(A), "ids": ids}  # fmt: skip
    if kind == "import":
        return {"get EA": by_id("mc_c15_mod.EA"), "get EZ": by_id("mc_c15_mod.EZ"), "get no": by_id("mc_c15_no.X"),
                "id EB": lambda u: lambda: u.get_type_id(mod().EB), "ids": ids}  # fmt: skip
    raise AssertionError(kind)


def mod() -> t.Any:
    return importlib.import_module("mc_c15_mod")


class _Setting:
    """The registration and lookup methods of a union setting of a class."""

    def __init__(self, base: t.Any, setting: dc.Union) -> None:
        self.register = lambda name: dc.Union.register(base, name)
        self.get_type_by_id = setting.members.get_type_by_id
        self.get_type_id = setting.members.get_type_id
        self.get_type_ids = setting.members.get_type_ids


class _Chain:
    def __init__(self, members: t.Any) -> None:
        front, back = StaticUnionMembers({}), StaticUnionMembers(members)
        chain = ChainUnionMembers(front, back)
        self.register = front.register
        self.get_type_by_id = chain.get_type_by_id
        self.get_type_id = chain.get_type_id
        self.get_type_ids = chain.get_type_ids


def table_scenario(kind: str, seqs: t.Sequence[t.Sequence[str]]) -> t.Tuple[Scenario, Names]:
    base = type("Base", (), {})
    A, B, C = (type(n, (base,), {}) for n in "ABC")
    # A member that is evaluated when it is needed, to a new class every time it is evaluated.
    table: t.Any = {"a": A, "l": lambda: type("Lazy", (), {})}
    u: t.Any
    if kind == "static":
        u = StaticUnionMembers(table)
    elif kind == "setting":
        setting = dc.Union(table)
        u = _Setting(setting(base), setting)
    elif kind == "chain":
        u = _Chain(table)
    elif kind == "entrypoint":
        scratch()
        u = EntrypointUnionMembers(GROUP)
    else:
        scratch()
        u = ImportUnionMembers()
    known = dict(A=A, B=B, C=C)
    if kind in ("entrypoint", "import"):
        known.update(EA=mod().EA, EB=mod().EB, EC=mod().EC)
    names = Names(known)
    menu = op_menu(kind, A, B, C)
    threads = [[(name, menu[name](u)) for name in seq] for seq in seqs]

    def final() -> t.Any:
        if kind == "import":
            return None
        ids = u.get_type_ids()
        return [ids, [names(u.get_type_by_id(i)) for i in ids]]

    return Scenario(threads, final), names


# -- conversions -------------------------------------------------------------------------------------------------------


def conv_scenario(pair: t.Sequence[str], shared: str) -> t.Tuple[Scenario, Names]:
    """Fresh classes, fresh settings, and a mapper that is used by all threads."""
    T1 = t.TypeVar("T1")  # type: ignore[misc]
    log: t.Dict[str, t.List[t.Any]] = {"0": [], "1": [], "2": []}

    # The classes that the calls need.
    used = " ".join(pair)
    Rec = Box = Flat = Opaque = Sub = union = t.cast(t.Any, None)
    if any(x in used for x in ("rec", "sparse", "full", "union", "register", "flat")):

        @dataclasses.dataclass
        class Rec:  # type: ignore[no-redef]
            x: int
            ys: t.List[int] = dataclasses.field(default_factory=list)

    if any(x in used for x in ("box", "union", "register", "schema")):

        @dataclasses.dataclass
        class Box(t.Generic[T1]):  # type: ignore[no-redef]
            v: t.Annotated[T1, dc.Alias("w")]

    if "flat" in used:

        @dataclasses.dataclass
        class Flat:  # type: ignore[no-redef]
            r: t.Annotated[Rec, dc.Flattened()]
            rest: t.Annotated[t.Dict[str, t.Any], dc.Remainder()]

    if any(x in used for x in ("union", "register")):
        union = dc.Union({"r": lambda: Rec, "b": Box}, style=dc.Union.FLAT)

        @union
        class Opaque:  # type: ignore[no-redef]
            pass

        @dataclasses.dataclass
        class Sub(Opaque):  # type: ignore[no-redef]
            z: int = 0

    if shared == "decorated" and Rec:
        Rec = dc.ExtraKeys(True, recorder=lambda ctx, keys: log["0"].append(sorted(keys)))(Rec)  # type: ignore
    hint = Opaque
    mapper = get_object_mapper()
    mapper.settings.add_local(int, dc.Strict(False))
    loose: t.List[t.Any] = [dc.Strict(False)]
    sparse: t.List[t.Any] = [dc.SerializeDefaults(False)]
    if shared == "mapper":
        de, se = mapper.deserialize, mapper.serialize
    else:
        de, se = load, dump  # type: ignore[assignment]

    def extra(tid: int) -> t.Any:
        return dc.ExtraKeys(True, recorder=lambda ctx, keys: log[str(tid)].append(sorted(keys)))

    menu: t.Dict[str, t.Callable[[int], t.Any]] = {
        "rec": lambda i: de({"x": i, "ys": [i]}, Rec),
        "rec default": lambda i: de({"x": i}, Rec),
        "rec bad": lambda i: de({"x": f"q{i}"}, Rec, f"file{i}"),
        "rec extra": lambda i: de({"x": i, f"k{i}": 1}, Rec, settings=[extra(i)]),
        "dump rec": lambda i: se(Rec(i, [i]), Rec),
        "dump sparse": lambda i: se(Rec(i), Rec, settings=sparse),
        "loose": lambda i: load(f"{i}", int, settings=loose),
        "own loose": lambda i: mapper.deserialize(f"{i}", float, settings=loose),
        "own strict": lambda i: mapper.deserialize(f"{i}", float),
        "own full": lambda i: mapper.serialize(Rec(i), Rec),
        "own sparse": lambda i: mapper.serialize(Rec(i), Rec, settings=sparse),
        "strict": lambda i: load(f"{i}", int),
        "box int": lambda i: de({"w": i}, Box[int]),
        "box str": lambda i: de({"w": f"s{i}"}, Box[str]),
        "box wrong": lambda i: load({"w": [i]}, Box[str], f"file{i}"),
        "union": lambda i: de({"type": "r", "x": i}, hint),
        "union bad": lambda i: de({"type": "q", "x": i}, hint),
        "dump union": lambda i: se(Rec(i), hint),
        "register": lambda i: dc.Union.register(Opaque, "n")(Sub) and None,
        "union n": lambda i: de({"type": "n", "z": i}, hint),
        "flat": lambda i: de({"x": i, f"o{i}": [i]}, Flat),
        "dump flat": lambda i: se(Flat(Rec(i), {f"o{i}": i}), Flat),
        "list": lambda i: de([i, i + 1], t.List[int]),
        "map": lambda i: de({f"k{i}": [f"{i}"]}, t.Dict[str, t.List[t.Union[int, str]]]),
        "literal": lambda i: de("a", t.Literal["a", "b"]),
        "schema": lambda i: repr(sorted(convert_to_schema(TypeHint(Box[int])).fields)),
        "define": lambda i: repr(define(i)),
    }

    def define(i: int) -> t.Any:
        cls = dbdc.dataclass(type("D", (), {"__annotations__": {"a": int, "b": str}, "a": i}))
        return [dataclasses.astuple(cls(b=f"{i}")), [f.name for f in dataclasses.fields(cls)]]  # type: ignore[call-arg]

    def thunk(name: str, i: int) -> t.Callable[[], t.Any]:
        return lambda: menu[name](i)

    threads = [[(name, thunk(name, i)) for name in seq.split("; ")] for i, seq in enumerate(pair)]
    return Scenario(threads, lambda: (repr(log), union and union.members.get_type_ids())), Names()


# -- every converter in two threads ------------------------------------------------------------------------------------


class Blue(enum.Enum):
    AZURE = 1
    NAVY: t.Annotated[int, dc.Alias("navy")] = 2


class Red(enum.Enum):
    AZURE = "red"
    RUBY = "ruby"


class Low(enum.IntEnum):
    ONE = 1


class High(enum.IntEnum):
    ONE = 7


@dataclasses.dataclass
class Pa:
    a: int


@dataclasses.dataclass
class Pb:
    a: str
    b: t.Annotated[int, dc.Alias("bb")] = 0


class Ta(te.TypedDict):
    a: int


class Tb(te.TypedDict):
    a: str
    b: int


class Na(t.NamedTuple):
    a: int
    b: int


class Nb(t.NamedTuple):
    a: str
    b: str


def twice() -> t.Dict[str, t.List[t.Tuple[t.Any, t.Any, t.Any]]]:
    """Per converter, occurrences with different parameters: (hint, payload, value)."""
    D, dt, An = decimal.Decimal, datetime.datetime, t.Annotated
    nested = {"style": dc.Union.NESTED}
    return {
        "collection": [(t.List[int], [1], [1]), (t.List[str], ["a"], ["a"]), (t.Set[D], ["1.5"], {D("1.5")})],
        "tuple": [(t.Tuple[int, str], [1, "a"], (1, "a")), (t.Tuple[str, int], ["a", 1], ("a", 1))],
        "namedtuple": [(Na, [1, 2], Na(1, 2)), (Nb, ["a", "b"], Nb("a", "b"))],
        "mapping": [(t.Dict[str, int], {"k": 1}, {"k": 1}), (t.Dict[str, str], {"k": "a"}, {"k": "a"}),
                    (t.Mapping[int, D], {1: "2"}, {1: D("2")})],
        "optional": [(t.Optional[int], 1, 1), (t.Optional[str], "a", "a"), (t.Optional[D], None, None)],
        "plain union": [(t.Union[int, t.List[int]], [1], [1]), (t.Union[str, t.List[str]], ["a"], ["a"])],
        "tagged union": [(An[t.Any, dc.Union({"a": Pa}, style=dc.Union.FLAT)], {"type": "a", "a": 1}, Pa(1)),
                         (An[t.Any, dc.Union({"a": Pb}, style=dc.Union.FLAT)], {"type": "a", "a": "s"}, Pb("s")),
                         (An[t.Any, dc.Union({"x": Pb}, **nested)], {"type": "x", "x": {"a": "s"}}, Pb("s"))],
        "enum": [(Blue, "AZURE", Blue.AZURE), (Red, "AZURE", Red.AZURE), (Blue, "navy", Blue.NAVY)],
        "int enum": [(Low, 1, Low.ONE), (High, 7, High.ONE)],
        "literal": [(t.Literal["a", 1], "a", "a"), (t.Literal["b", 2], "b", "b")],
        "decimal": [(D, "1.2345", D("1.2345")), (An[D, dc.Precision(2)], "1.2345", D("1.2"))],
        "datetime": [(An[dt, dc.DateFormat("%Y")], "1999", dt(1999, 1, 1)), (An[dt, dc.DateFormat("%m")], "12", dt(1900, 12, 1)),
                     (datetime.date, "2001-02-03", datetime.date(2001, 2, 3))],
        "text": [(uuid.UUID, "0" * 32, uuid.UUID(int=0)), (pathlib.Path, "a", pathlib.Path("a")),
                 (pathlib.PurePosixPath, "b", pathlib.PurePosixPath("b"))],
        "scalar": [(int, 1, 1), (float, 1.5, 1.5), (An[int, dc.Strict(False)], "3", 3), (bytes, "YQ==", b"a")],
        "schema": [(Pa, {"a": 1}, Pa(1)), (Pb, {"a": "s", "bb": 1}, Pb("s", 1)), (Pa, {"a": "s"}, Pb("s"))],
        "typed dict": [(Ta, {"a": 1}, {"a": 1}), (Tb, {"a": "s", "b": 1}, {"a": "s", "b": 1})],
        "forward": [(t.List["int"], [1], [1]), (t.List["str"], ["a"], ["a"])],
        "override": [(An[int, dj.JsonConverter(_Add(1))], 1, 1), (An[int, dj.JsonConverter(_Add(2))], 1, 1)],
        "instead": [(An[t.Any, dc.DeserializeAs(Pa)], {"a": 1}, Pa(1)), (An[t.Any, dc.DeserializeAs(Pb)], {"a": "s"}, Pb("s"))],
    }  # fmt: skip


class _Add(dc.Converter):
    def __init__(self, n: int) -> None:
        self.n = n

    def serialize(self, ctx: dc.Context) -> t.Any:
        return ctx.value - self.n

    def deserialize(self, ctx: dc.Context) -> t.Any:
        return ctx.value + self.n


def twice_scenario(family: str, ops: t.Sequence[str]) -> t.Tuple[Scenario, Names]:
    mapper = get_object_mapper()
    table = twice()[family]

    def op(o: str) -> t.Tuple[str, t.Callable[[], t.Any]]:
        what, k = o[0], int(o[1:])
        hint, payload, value = table[k]
        if what == "L":
            return o, lambda: mapper.deserialize(payload, hint)
        if what == "D":
            return o, lambda: mapper.serialize(value, hint)
        assert what == "X"  # a value of another type
        return o, lambda: mapper.deserialize(table[k - 1][1], hint, f"file{k}")

    return Scenario([[op(o)] for o in ops], lambda: None), Names()


def twice_cases() -> t.Iterator[t.Any]:
    deep = thorough()
    for family, table in twice().items():
        menu = [f"{w}{k}" for k in range(len(table)) for w in "LDX"]
        for a, b in itertools.combinations_with_replacement(menu, 2):
            other = a[1:] != b[1:]
            if deep or other and (a[0] == b[0] != "X" or a[0] + b[0] == "LX"):
                yield family, (a, b), 1, (0, 1)
        if deep:
            for i in range(16):
                yield family, ("L0", "L1"), 2, (i, 16)
                yield family, ("D0", "D1"), 2, (i, 16)


def run_twice(case: t.Any, rec: Recorder) -> None:
    family, ops, bound, part = case
    explore(lambda: twice_scenario(family, ops), (family, ops), bound, part, rec)


# -- exploration -------------------------------------------------------------------------------------------------------


def sequential(build: t.Callable[[], t.Tuple[Scenario, Names]]) -> t.Set[str]:
    """The outcomes of all orders of the calls."""
    lens = [len(x) for x in build()[0].threads]
    orders = set(itertools.permutations([i for i, n in enumerate(lens) for _ in range(n)]))
    out = set()
    for order in sorted(orders):
        scenario, names = build()
        nxt = [0] * len(lens)
        results: t.List[t.List[t.Any]] = [[] for _ in lens]
        for i in order:
            results[i].append(observe(scenario.threads[i][nxt[i]][1], names))
            nxt[i] += 1
        out.add(repr(names.resolve((tuple(results), scenario.final()))))
    return out


_points: t.Optional[sched.Points] = None


def instrument() -> None:
    global _points
    if _points is None:
        for pkg in ("databind.core", "databind.json"):  # some modules are imported by the functions that need them
            for mod_ in pkgutil.walk_packages(importlib.import_module(pkg).__path__, pkg + "."):
                if "test" not in mod_.name:
                    importlib.import_module(mod_.name)
        _points = sched.Points(os.path.join(REPO_SRC, "databind") + os.sep)
        assert len(_points.offsets) > 100


def explore(build: t.Callable[[], t.Tuple[Scenario, Names]], what: t.Any, bound: int, part: t.Tuple[int, int],
            rec: Recorder) -> None:  # fmt: skip
    allowed = sequential(build)
    box: t.Dict[str, t.Any] = {}

    def make() -> t.Any:
        scenario, names = build()
        box["names"] = names

        def body(ops: Ops) -> t.Callable[[], t.Any]:
            return lambda: [observe(fn, names) for _, fn in ops]

        return [body(ops) for ops in scenario.threads], scenario.final

    seen: t.Set[str] = set()

    def judge(outcome: t.Any, deviations: t.Any) -> t.Optional[str]:
        got = repr(box["names"].resolve(outcome))
        seen.add(got)
        if got not in allowed:
            return f"outcome {got}\nwhich is none of the sequential outcomes:\n" + "\n".join(sorted(allowed))
        return None

    schedules, steps, bad = sched.explore(make, bound, judge, part)
    rec.trans(steps)
    rec.count("schedules", schedules)
    rec.outcome(f"{len(seen)} of {len(allowed)} sequential outcomes seen")
    for s in seen:
        rec.state((what, s))
    if bad:
        return rec.fail(f"{what}: {bad}")
    rec.ok(schedules)


def run_table(case: t.Any, rec: Recorder) -> None:
    kind, seqs, bound, part = case
    if kind != "entrypoint":
        return explore(lambda: table_scenario(kind, seqs), (kind, seqs), bound, part, rec)
    build = lambda: table_scenario(kind, seqs)  # noqa: E731
    sequential(build)  # everything that is needed is imported now
    path = sys.path[:]
    sys.path[:] = [scratch()]  # the search for entry points is short
    try:
        explore(build, (kind, seqs), bound, part, rec)
    finally:
        sys.path[:] = path


def run_conv(case: t.Any, rec: Recorder) -> None:
    shared, pair, bound, part = case
    explore(lambda: conv_scenario(pair, shared), (shared, pair), bound, part, rec)


FEW = ("reg a B", "reg l A", "get a", "get l", "id A", "id B", "id EB", "get z", "ids")
FEWER = ("reg a B", "reg l A", "get l", "id B", "id EB", "get c", "ids")


def table_cases() -> t.Iterator[t.Any]:
    deep = thorough()
    whole = (0, 1)
    for kind in ("static", "setting", "chain", "entrypoint", "import"):
        menu = list(op_menu(kind))
        few = [x for x in menu if x in FEW]
        fewer = [x for x in menu if x in (FEW if deep else FEWER)]
        for a, b in itertools.combinations_with_replacement(menu, 2):
            more = kind in ("static", "import") and (deep or a in fewer and b in fewer)
            yield kind, ((a,), (b,)), 3 if more else 2, whole
        if kind != "import":
            for a, b in itertools.product(few, repeat=2):
                for c in few:
                    more = deep or kind == "static" and a in fewer and b in fewer and c in fewer
                    yield kind, ((a, b), (c,)), 2 if more else 1, whole
            for a, b, c in itertools.combinations_with_replacement(few, 3):
                yield kind, ((a,), (b,), (c,)), 2 if deep else 1, whole


CONV = ("rec", "rec default", "rec bad", "rec extra", "dump rec", "dump sparse", "loose", "strict", "own loose",
        "own strict", "own full", "own sparse", "box int", "box str", "box wrong", "union", "union bad", "dump union",
        "register", "union n", "flat", "dump flat", "list", "map", "literal", "schema", "define")  # fmt: skip


QUICK = ("rec", "rec bad", "rec extra", "dump sparse", "loose", "box int", "box str", "union", "register; union n",
         "literal; schema", "define")  # fmt: skip
SHORT = ("loose", "strict", "literal", "list")


def conv_cases() -> t.Iterator[t.Any]:
    deep = thorough()
    for shared in ("mapper", "calls", "decorated") if deep else ("mapper",):
        for a, b in itertools.combinations_with_replacement(CONV if deep else QUICK, 2):
            yield shared, (a, b), 1, (0, 1)
    for shared in ("calls", "decorated"):
        for a in ("rec", "rec extra", "box int", "flat"):
            yield shared, (a, a), 1, (0, 1)
    twice = itertools.combinations_with_replacement(SHORT, 2) if deep else [("literal", "literal"), ("loose", "strict")]
    for a, b in (("own loose", "own strict"), ("own full", "own sparse"), ("own loose", "own full")):
        yield "mapper", (a, b), 1, (0, 1)
    for a, b in twice:
        for i in range(8):
            yield "mapper", (a, b), 2, (i, 8)
    thrice = itertools.combinations_with_replacement(SHORT + ("rec", "box int"), 3) if deep else [("literal", "loose", "strict")]
    for a, b, c in thrice:
        yield "mapper", (a, b, c), 1, (0, 1)


def spaces() -> t.List[Space]:
    instrument()
    return [
        Space("member tables", table_cases, run_table,
              "2 threads with a call each, 2 threads with 3 calls and 3 threads with a call each; all schedules with up to 3, 2 or 1 preemptions",
              timeout=900),
        Space("every converter", twice_cases, run_twice,
              "2 threads that convert different types of the same kind with one mapper; all schedules with 1 preemption"
              + (", or 2" if thorough() else ""), timeout=900),
        Space("conversions", conv_cases, run_conv,
              "2 threads that use the same mapper, classes and settings; all schedules with 1 preemption, or 2 for short calls",
              timeout=900),
    ]
