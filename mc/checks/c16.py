"""C16: union member tables map ids and types consistently through any history."""

import atexit
import dataclasses
import importlib
import itertools
import os
import shutil
import sys
import tempfile
import typing as t

import databind.core as dc
from databind.core.union import (
    ChainUnionMembers,
    EntrypointUnionMembers,
    ImportUnionMembers,
    StaticUnionMembers,
    UnionMembers,
)
from databind.json import dump, load
from typeapi import TypeHint

from mc.engine import Recorder, Space, short, thorough

ASSUMPTIONS = [
    "entry points come from distributions that the check writes to a scratch directory",
    "which distribution wins for an entry point name that two of them define is not judged",
]

UNKNOWN = ("raise", "ValueError")


def attempt(fn: t.Callable[[], t.Any]) -> t.Any:
    try:
        return ("ok", fn())
    except Exception as exc:
        return ("raise", "ValueError" if isinstance(exc, ValueError) else "other")


def mismatch(want: t.Any, got: t.Any) -> bool:
    """Compare outcomes; types are compared by identity."""
    if want[0] != got[0]:
        return True
    if want[0] == "raise":
        return want[1] != "any" and want != got
    return not (want[1] is got[1] or type(want[1]) in (str, list) and want[1] == got[1] and type(want[1]) is type(got[1]))


# -- static tables -----------------------------------------------------------------------------------------------------


TV = t.TypeVar("TV")


class Box(t.Generic[TV]):
    pass


class World:
    """The types, functions and settings that a history uses."""

    def __init__(self) -> None:
        self.Base = type("Base", (), {})
        self.A, self.B, self.C = (type(n, (self.Base,), {}) for n in "ABC")
        self.defined = False
        self.made: t.List[type] = []
        self.fresh = lambda: self._make()
        self.other = lambda: self.B
        self.hinted = lambda: TypeHint(t.Dict[str, int])
        self.bad = lambda: self._undefined()
        self.list_hint = TypeHint(t.List[int])
        self.box = Box[int]

    def _make(self) -> type:
        self.made.append(type("Fresh", (self.Base,), {}))
        return self.made[-1]

    def _undefined(self) -> type:
        if not self.defined:
            raise NameError("not defined yet")
        return self.C


#: id -> what to register.
WRITES: t.List[t.Tuple[str, str]] = [
    ("a", "A"), ("a", "B"), ("b", "A"), ("B", "B"), ("c", "fresh"), ("d", "fresh"), ("c", "other"), ("a", "bad"), ("h", "list_hint"),
    ("b", "hinted"), ("x", "box"), ("", "A"),
]  # fmt: skip
READS = ("get", "ids", "id", "spoil")
ALPHABET: t.List[t.Any] = [("reg", *w) for w in WRITES] + [("auto", "B")] + [("read", r) for r in READS] + [("del", "a"), ("define",)]
IDS = ("a", "b", "c", "d", "h", "x", "B", "A", "", "zz")

Table = t.Dict[str, str]


def model_types(w: World, table: Table) -> t.Dict[str, t.Any]:
    """What each id of the table names: ("type", cls) | ("hint", type) | ("alias", x) | ("bad",) | ("fresh",)"""
    out: t.Dict[str, t.Any] = {}
    for k, v in table.items():
        if v in ("A", "B", "C"):
            out[k] = ("type", getattr(w, v))
        elif v == "other":
            out[k] = ("type", w.B)
        elif v == "list_hint":
            out[k] = ("hint", list)
        elif v == "hinted":
            out[k] = ("hint", dict)
        elif v == "box":
            out[k] = ("alias", w.box)
        elif v == "bad":
            out[k] = ("type", w.C) if w.defined else ("bad",)
        elif v == "fresh":
            out[k] = ("fresh",)
        else:
            raise AssertionError(v)
    return out


class Judge:
    def __init__(self, w: World, rec: Recorder, history: t.Any) -> None:
        self.w, self.rec, self.history = w, rec, history
        #: What the deferred function that makes a new class every time gave the first time.
        self.fresh: t.Any = None

    def bad(self, what: str, want: t.Any, got: t.Any) -> bool:
        self.rec.fail(f"after {self.history}: {what} gave {got}, expected {want}")
        return False

    def panel(self, u: t.Any, table: Table, reads: t.Sequence[str] = ("ids", "get", "id", "get", "ids")) -> bool:
        for r in reads:
            if not getattr(self, "read_" + r)(u, table):
                return False
        return True

    def read_ids(self, u: t.Any, table: Table) -> bool:
        self.rec.trans()
        n = len(self.w.made)
        got = attempt(u.get_type_ids)
        if mismatch(("ok", list(table)), got):
            return self.bad("get_type_ids()", list(table), got)
        if len(self.w.made) != n:
            return self.bad("get_type_ids()", "no evaluation of members", "an evaluation")
        return True

    def read_spoil(self, u: t.Any, table: Table) -> bool:
        ids = u.get_type_ids()
        ids.append("zz")
        ids.reverse()
        return True

    def read_get(self, u: t.Any, table: Table) -> bool:
        types = model_types(self.w, table)
        for i in IDS:
            self.rec.trans()
            got = attempt(lambda: u.get_type_by_id(i))
            want = types.get(i)
            if want is None:
                if mismatch(UNKNOWN, got):
                    return self.bad(f"get_type_by_id({i!r})", "ValueError", got)
            elif want[0] == "bad":
                if got[0] == "ok":
                    return self.bad(f"get_type_by_id({i!r})", "an error", got)
            elif got[0] != "ok":
                return self.bad(f"get_type_by_id({i!r})", want, got)
            elif want[0] == "hint":
                if not isinstance(got[1], TypeHint) or getattr(got[1], "type", None) is not want[1]:
                    return self.bad(f"get_type_by_id({i!r})", want, got)
            elif want[0] == "fresh":
                if self.fresh is None:
                    self.fresh = got[1]
                if got[1] is not self.fresh or got[1] not in self.w.made:
                    return self.bad(f"get_type_by_id({i!r})", "the same type every time", got)
            elif want[0] == "alias":
                if got[1] != want[1]:
                    return self.bad(f"get_type_by_id({i!r})", want, got)
            elif got[1] is not want[1]:
                return self.bad(f"get_type_by_id({i!r})", want, got)
        return True

    def read_id(self, u: t.Any, table: Table) -> bool:
        w = self.w
        types = model_types(w, table)
        universe: t.List[t.Any] = [w.A, w.B, w.C, list, dict, w.box, w.Base, int, None, 5, "a", t.List[str]]
        if self.fresh is not None:
            universe.append(self.fresh)
        for typ in universe:
            want: t.Any = UNKNOWN
            for k, x in types.items():
                if x[0] == "bad":
                    want = None  # it is not known whether the member is the type
                    break
                if x[0] == "fresh" and self.fresh is not None and typ is self.fresh or x[0] != "bad" and len(x) > 1 and (x[1] is typ or x[0] == "alias" and x[1] == typ):
                    want = ("ok", k)
                    break
            if want is None:
                continue
            self.rec.trans()
            got = attempt(lambda: u.get_type_id(typ))
            if mismatch(want, got):
                return self.bad(f"get_type_id({typ})", want, got)
        return True


def run_static(case: t.Any, rec: Recorder) -> None:
    kind, seq = case
    w = World()
    u: t.Any
    register: t.Any
    if kind == "static":
        u = StaticUnionMembers()
        members = u
    elif kind == "given":
        u = StaticUnionMembers({"B": w.C, "a": w.A})
        members = u
    else:
        setting = dc.Union({"B": w.C, "a": w.A})
        w.Base = setting(w.Base)  # type: ignore[misc]
        u = members = setting.members
    table: Table = {} if kind == "static" else {"B": "C", "a": "A"}
    judge = Judge(w, rec, case)
    for op in seq:
        if op[0] == "reg":
            _, name, what = op
            thing = getattr(w, what)
            if not name:
                name = "A"
                got = members.register()(thing) if kind != "setting" else dc.Union.register(w.Base)(thing)
            elif kind == "setting" and isinstance(thing, type):
                got = dc.Union.register(w.Base, name)(thing)
            else:
                got = members.register(name)(thing)
            if got is not thing:
                return rec.fail(f"register returned {got} for {thing}")
            table[name] = what
        elif op[0] == "auto":
            members.register(name=None)(getattr(w, op[1]))
            table[op[1]] = op[1]
        elif op[0] == "del":
            members.members.pop(op[1], None)
            table.pop(op[1], None)
        elif op[0] == "define":
            w.defined = True
        elif not getattr(judge, "read_" + op[1])(u, table):
            return
        rec.trans()
    if not judge.panel(u, table):
        return
    rec.state((kind, tuple(table.items()), w.defined, len(w.made)))
    rec.ok()
    rec.outcome(f"{len(table)} ids")


def static_cases() -> t.Iterator[t.Any]:
    for n in range(5 if thorough() else 4):
        for seq in itertools.product(ALPHABET, repeat=n):
            yield "static", seq
    for kind in ("given", "setting"):
        for n in range(4):
            for seq in itertools.product(ALPHABET, repeat=n):
                yield kind, seq
    if not thorough():
        # One more step for the operations that touch the same entries.
        few = [op for op in ALPHABET if op[0] != "del" and not (op[0] == "reg" and op[1] in ("h", "x", "", "d"))]
        for seq in itertools.product(few, repeat=4):
            if seq[0][0] == "reg":
                yield "static", seq


# -- unions of classes -------------------------------------------------------------------------------------------------


CLASS_OPS = ("a A", "b A", "b B", "- A", "- B", "a B", "c C", "x foreign", "x notype", "other a B", "other z A", "plain a A", "load", "dump", "unknown")
STYLES = (dc.Union.NESTED, dc.Union.FLAT, dc.Union.KEYED)


def run_classes(case: t.Any, rec: Recorder) -> None:
    style, start, seq = case
    table: t.Dict[str, t.Any] = {}

    class Base:
        pass

    class Other:
        pass

    class Plain:
        pass

    @dataclasses.dataclass
    class A(Base, Other, Plain):
        x: int = 0

    @dataclasses.dataclass
    class B(A):
        y: int = 0

    @dataclasses.dataclass
    class C(B):
        z: int = 0

    class Foreign:
        pass

    given = {"s": C} if start else {}
    table.update(given)
    other = dict(given)
    Base = dc.Union(given, style)(Base)  # type: ignore[misc,assignment]
    Other = dc.Union(given, style)(Other)  # type: ignore[misc,assignment]
    types: t.Dict[str, t.Any] = dict(A=A, B=B, C=C, foreign=Foreign, notype=5)

    def image(name: str, v: t.Any) -> t.Any:
        inner = dataclasses.asdict(v)
        if style == dc.Union.FLAT:
            return {"type": name, **inner}
        return {name: inner} if style == dc.Union.KEYED else {"type": name, name: inner}

    def check_load(base: t.Any, table: t.Dict[str, t.Any]) -> bool:
        for name in ("a", "b", "c", "s", "z", "A", "B", "C", "x", "Foreign"):
            rec.trans()
            inner = {} if style == dc.Union.FLAT else {"x": 7}
            raw: t.Any = {"type": name, "x": 7} if style == dc.Union.FLAT else {name: inner}
            if style == dc.Union.NESTED:
                raw["type"] = name
            try:
                got: t.Any = load(raw, base)
            except dc.ConversionError:
                got = "rejected"
            except Exception as exc:
                rec.fail(f"{case}: load of {raw} raised {exc!r}")
                return False
            want: t.Any = table[name](7) if name in table else "rejected"
            if type(got) is not type(want) or got != want:
                rec.fail(f"{case}: load of {raw} gave {got}, expected {want}")
                return False
        return True

    def check_dump(base: t.Any, table: t.Dict[str, t.Any]) -> bool:
        for cls in (A, B, C, Foreign):
            rec.trans()
            names = [k for k, v in table.items() if v is cls]
            v = cls()
            try:
                got: t.Any = dump(v, base)
            except dc.ConversionError:
                got = "rejected"
            except Exception as exc:
                rec.fail(f"{case}: dump of {v} raised {exc!r}")
                return False
            want = image(names[0], v) if names else "rejected"
            if got != want:
                rec.fail(f"{case}: dump of {v} gave {got}, expected {want}")
                return False
        return True

    for op in seq:
        words = op.split()
        base: t.Any = Base
        tab = table
        rec.trans()
        if op == "load":
            if not check_load(Base, table):
                return
        elif op == "dump":
            if not check_dump(Base, table):
                return
        elif op == "unknown":
            try:
                load({"type": "zz", "zz": {}}, Base)
                return rec.fail(f"{case}: an unknown id was accepted")
            except dc.ConversionError:
                pass
        else:
            if words[0] in ("other", "plain"):
                base, tab = {"other": (Other, other), "plain": (Plain, {})}[words.pop(0)]
            name = None if words[0] == "-" else words[0]
            cls = types[words[1]]
            try:
                got = dc.Union.register(base, name)(cls)
            except Exception:
                got = "error"
            if base is Plain or words[1] in ("foreign", "notype"):
                if got != "error":
                    return rec.fail(f"{case}: {op} was accepted")
            elif got is not cls:
                return rec.fail(f"{case}: {op} gave {got}")
            else:
                tab[name or words[1]] = cls
    for base, tab in ((Base, table), (Other, other)):
        if not check_dump(base, tab) or not check_load(base, tab) or not check_dump(base, tab):
            return
    if list(given) != (["s"] if start else []):
        return rec.fail(f"{case}: the mapping that was given has become {list(given)}")
    rec.state((style, start, tuple(table), tuple(x.__name__ for x in table.values()), tuple(other)))
    rec.ok()
    rec.outcome(f"{len(table)} ids")


def class_cases() -> t.Iterator[t.Any]:
    for style in STYLES:
        for start in (False, True):
            for n in range(4 if thorough() else 3):
                for seq in itertools.product(CLASS_OPS, repeat=n):
                    yield style, start, seq
    if not thorough():
        for seq in itertools.product([x for x in CLASS_OPS if len(x) == 3 or x in ("load", "dump")], repeat=3):
            yield dc.Union.NESTED, False, seq


# -- entry points ------------------------------------------------------------------------------------------------------


MOD = """
class A: pass
class B: pass
class Outer:
    class Inner: pass
Alias = A
"""
_scratch: t.Optional[str] = None
TARGETS = ("mc_c16_mod:A", "mc_c16_mod:B", "mc_c16_mod:Outer.Inner", "mc_c16_mod:Alias")
NAMES = ("a", "b", "n.x")
Group = t.Tuple[t.Tuple[str, str], ...]


def groups() -> t.List[Group]:
    out: t.List[Group] = []
    for n in range(4):
        for names in itertools.permutations(NAMES, n):
            for targets in itertools.product(TARGETS[:3] if n > 2 else TARGETS, repeat=n):
                out.append(tuple(zip(names, targets)))
    return out


def write_dist(where: str, name: str, text: str) -> None:
    info = os.path.join(where, f"{name}-1.0.dist-info")
    os.makedirs(info)
    with open(os.path.join(info, "METADATA"), "w") as fp:
        fp.write(f"Metadata-Version: 2.1\nName: {name}\nVersion: 1.0\n")
    with open(os.path.join(info, "entry_points.txt"), "w") as fp:
        fp.write(text)


def scratch() -> str:
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="mc-c16-")
        owner = os.getpid()
        atexit.register(lambda: os.getpid() == owner and shutil.rmtree(t.cast(str, _scratch), ignore_errors=True))
        with open(os.path.join(_scratch, "mc_c16_mod.py"), "w") as fp:
            fp.write(MOD)
        text = ""
        for i, g in enumerate(groups()):
            text += f"[mc.c16.g{i}]\n" + "".join(f"{n} = {x}\n" for n, x in g) + "\n"
        write_dist(_scratch, "mc_c16_one", text + "[mc.c16.two]\na = mc_c16_mod:A\nb = mc_c16_mod:B\n\n[mc.c16.four]\na = mc_c16_mod:A\nb = mc_c16_mod:B\nc = mc_c16_mod:A\nd = mc_c16_mod:Outer.Inner\n")
        write_dist(_scratch, "mc_c16_two", "[mc.c16.two]\nc = mc_c16_mod:A\nd = mc_c16_mod:Outer.Inner\n")
        write_tree(_scratch)
    return _scratch


class OnPath:
    """Only the scratch directory is searched for distributions and modules."""

    def __enter__(self) -> None:
        self.path = sys.path[:]
        sys.path[:] = [scratch()]
        importlib.invalidate_caches()

    def __exit__(self, *exc: t.Any) -> None:
        sys.path[:] = self.path


def target(spec: str) -> t.Any:
    mod = importlib.import_module("mc_c16_mod")
    obj: t.Any = mod
    for part in spec.split(":")[1].split("."):
        obj = getattr(obj, part)
    return obj


EP_LOOKUPS = ("get a", "get b", "get n.x", "get zz", "get ", "id A", "id B", "id Outer.Inner", "id foreign", "id none", "ids", "spoil")


class Foreign:
    pass


def ep_expect(look: str, table: t.Mapping[str, t.Any]) -> t.Any:
    kind, _, arg = look.partition(" ")
    if kind == "get":
        return ("ok", table[arg]) if arg in table else UNKNOWN
    if kind == "id":
        typ = ep_type(arg)
        return next((("ok", k) for k, v in table.items() if v is typ), UNKNOWN)
    return ("ok", list(table))


def ep_type(arg: str) -> t.Any:
    return {"foreign": Foreign, "none": None}.get(arg, None) if arg in ("foreign", "none") else target("mc_c16_mod:" + arg)


def ep_do(look: str, u: t.Any) -> t.Any:
    kind, _, arg = look.partition(" ")
    if kind == "get":
        return attempt(lambda: u.get_type_by_id(arg))
    if kind == "id":
        typ = ep_type(arg)
        return attempt(lambda: u.get_type_id(typ))
    got = attempt(u.get_type_ids)
    if kind == "spoil" and got[0] == "ok":
        got = ("ok", list(got[1]))
        u.get_type_ids().clear()
    return got


def run_entrypoints(case: t.Any, rec: Recorder) -> None:
    i, via, depth = case
    with OnPath():
        group = groups()[i]
        table = {n: target(x) for n, x in group}
        made: t.List[t.Any] = []
        # Objects of the same group share nothing but what they read.
        if via == "class":
            make = lambda: EntrypointUnionMembers(f"mc.c16.g{i}")  # noqa: E731
        elif via == "setting":
            make = lambda: dc.Union(f"!mc.c16.g{i}").members  # type: ignore[assignment,return-value]  # noqa: E731
        else:
            make = lambda: dc.Union.entrypoint(f"mc.c16.g{i}")  # noqa: E731
        for seq in itertools.product(EP_LOOKUPS, repeat=depth):
            u = make()
            for look in (*seq, "ids", "get a"):
                rec.trans()
                got, want = ep_do(look, u), ep_expect(look, table)
                if mismatch(want, got):
                    return rec.fail(f"entry points {group} ({via}): {look!r} in {seq} gave {got}, expected {want}")
            rec.ok()
            rec.state((i, seq))
        rec.outcome(f"{len(table)} entry points")
        del made


def run_two_dists(case: t.Any, rec: Recorder) -> None:
    """A group that two distributions add to; the order of their entries is not defined."""
    with OnPath():
        table = {"a": target(TARGETS[0]), "b": target(TARGETS[1]), "c": target(TARGETS[0]), "d": target(TARGETS[2])}
        for seq in itertools.product(("get a", "get d", "id A", "id Outer.Inner", "ids"), repeat=case):
            u = EntrypointUnionMembers("mc.c16.two")
            for look in (*seq, "get a", "get b", "get c", "get d", "get zz", "id B", "id A", "id Outer.Inner", "id none", "ids"):
                rec.trans()
                got, want = ep_do(look, u), ep_expect(look, table)
                if look == "id A" and got[0] == "ok" and got[1] in ("a", "c") or look == "ids" and got[0] == "ok" and sorted(got[1]) == sorted(table):
                    continue
                if mismatch(want, got):
                    return rec.fail(f"two distributions: {look!r} in {seq} gave {got}, expected {want}")
            rec.ok()
            rec.state(seq)


def ep_cases() -> t.Iterator[t.Any]:
    n = len(groups())
    for i, g in enumerate(groups()):
        deep = 2 if thorough() or len(g) < 3 and i % 3 == 0 else 1
        yield i, "class", deep
        yield i, "setting", 1
        if len(g) < 2:
            yield i, "static", 1
    yield n - 1, "class", 2


# -- imports -----------------------------------------------------------------------------------------------------------


TREE = {
    "mc_c16_pkg/__init__.py": "class Top: pass\nvalue = 5\nfn = lambda: 1\n",
    "mc_c16_pkg/mod.py": "class Cls:\n    class Inner:\n        class Cls: pass\n    value = 1\n    def fn(self): pass\nAlias = Cls\nvalue = 'x'\ndef fn(): pass\n"
    "def local():\n    class Cls: pass\n    return Cls\n",
    "mc_c16_pkg/sub/__init__.py": "",
    "mc_c16_pkg/sub/mod.py": "class Cls: pass\nfrom mc_c16_pkg import Top\n",
    "mc_c16_pkg/broken.py": "import mc_c16_missing\nclass Cls: pass\n",
    "mc_c16_pkg/raising.py": "class Cls: pass\nraise KeyError('Cls')\n",
}
SEGMENTS = ("mc_c16_pkg", "mod", "sub", "Cls", "Inner", "Alias", "Top", "value", "fn", "local", "missing", "", "broken", "raising")


def write_tree(where: str) -> None:
    for path, text in TREE.items():
        path = os.path.join(where, path)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as fp:
            fp.write(text)


#: What the paths inside the package lead to: (module, attributes) of all classes.
PLACES: t.Dict[str, t.Tuple[str, str]] = {
    "mc_c16_pkg.Top": ("mc_c16_pkg", "Top"),
    "mc_c16_pkg.mod.Cls": ("mc_c16_pkg.mod", "Cls"),
    "mc_c16_pkg.mod.Alias": ("mc_c16_pkg.mod", "Cls"),
    "mc_c16_pkg.mod.Cls.Inner": ("mc_c16_pkg.mod", "Cls.Inner"),
    "mc_c16_pkg.mod.Alias.Inner": ("mc_c16_pkg.mod", "Cls.Inner"),
    "mc_c16_pkg.mod.Cls.Inner.Cls": ("mc_c16_pkg.mod", "Cls.Inner.Cls"),
    "mc_c16_pkg.mod.Alias.Inner.Cls": ("mc_c16_pkg.mod", "Cls.Inner.Cls"),
    "mc_c16_pkg.sub.mod.Cls": ("mc_c16_pkg.sub.mod", "Cls"),
    "mc_c16_pkg.sub.mod.Top": ("mc_c16_pkg", "Top"),
}


def forget() -> None:
    for name in list(sys.modules):
        if name.split(".")[0] == "mc_c16_pkg":
            del sys.modules[name]


def place(where: t.Tuple[str, str]) -> t.Any:
    obj: t.Any = importlib.import_module(where[0])
    for part in where[1].split("."):
        obj = getattr(obj, part)
    return obj


def import_expect(path: str) -> t.Any:
    if path in PLACES:
        return ("ok", place(PLACES[path]))
    parts = path.split(".")
    if parts[:1] == ["mc_c16_pkg"] and parts[1:2] in (["broken"], ["raising"]):
        return ("raise", "any")
    return UNKNOWN


def run_import(case: t.Any, rec: Recorder) -> None:
    with OnPath():
        for prefix, via in (((), "class"), (("mc_c16_pkg.mod.Cls",), "setting"), (("mc_c16_pkg.sub.mod.Top", case), "static")):
            forget()
            u = {"class": ImportUnionMembers, "setting": lambda: dc.Union("<import>").members, "static": dc.Union.import_}[via]()
            for path in (*prefix, case):
                rec.trans()
                got = attempt(lambda: u.get_type_by_id(path))
                want = import_expect(path)
                if mismatch(want, got):
                    return rec.fail(f"{via} get_type_by_id({path!r}) after {prefix} gave {got}, expected {want}")
                if want[0] == "ok":
                    back = attempt(lambda: u.get_type_id(got[1]))
                    if mismatch(("ok", ".".join(PLACES[path])), back):
                        return rec.fail(f"get_type_id of the type {path!r} gave {back}")
                    if mismatch(want, attempt(lambda: u.get_type_by_id(back[1]))):
                        return rec.fail(f"get_type_by_id({back[1]!r}) is not the type {path!r}")
            rec.ok()
        rec.state(case)
        rec.outcome(str(import_expect(case)[0]))


def import_cases() -> t.Iterator[str]:
    for n in range(1, 3):
        for parts in itertools.product(SEGMENTS, repeat=n):
            yield ".".join(parts)
    for n in range(2, 5 if thorough() else 4):
        for parts in itertools.product(SEGMENTS, repeat=n):
            yield ".".join(("mc_c16_pkg", *parts))
    for first in ("mod", "sub.mod", "mod.Cls", "mod.Alias"):
        for parts in itertools.product(SEGMENTS, repeat=2):
            yield ".".join(("mc_c16_pkg", first, *parts))


def run_import_types(case: t.Any, rec: Recorder) -> None:
    """What import-based tables say about types."""
    with OnPath():
        scratch()
        mod = importlib.import_module("mc_c16_pkg.mod")
        local = mod.local()
        for u in (ImportUnionMembers(), ChainUnionMembers(ImportUnionMembers())):
            for typ, want in (
                (mod.Cls, ("ok", "mc_c16_pkg.mod.Cls")), (mod.Cls.Inner, ("ok", "mc_c16_pkg.mod.Cls.Inner")), (local, UNKNOWN),
                (int, ("ok", "builtins.int")), (t.List[int], UNKNOWN), (None, UNKNOWN), (5, UNKNOWN), ("mc_c16_pkg.mod.Cls", UNKNOWN),
                (mod.Cls(), UNKNOWN), (mod, UNKNOWN), (mod.fn, UNKNOWN), (TypeHint(int), UNKNOWN), (list[int], UNKNOWN),
            ):  # fmt: skip
                rec.trans()
                got = attempt(lambda: u.get_type_id(typ))
                if mismatch(want, got):
                    return rec.fail(f"get_type_id({typ}) gave {got}, expected {want}")
                rec.ok()
            if isinstance(u, ImportUnionMembers):
                try:
                    u.get_type_ids()
                    return rec.fail("get_type_ids() of an import-based table returned")
                except NotImplementedError:
                    pass
        rec.state(case)


# -- chains ------------------------------------------------------------------------------------------------------------


class Custom(UnionMembers):
    """A table made by a user, which cannot list its ids."""

    def __init__(self, members: t.Mapping[str, t.Any], listed: bool) -> None:
        self.members, self.listed = dict(members), listed

    def get_type_id(self, type_: t.Any) -> str:
        for k, v in self.members.items():
            if v is type_:
                return k
        raise ValueError(type_)

    def get_type_by_id(self, type_id: str) -> t.Any:
        if type_id not in self.members:
            raise ValueError(type_id)
        return self.members[type_id]

    def get_type_ids(self) -> t.List[str]:
        if not self.listed:
            raise NotImplementedError
        return list(self.members)


CLASSES = {n: type(n, (), {"__module__": "mc_c16_nowhere", "__qualname__": f"f.<locals>.{n}"}) for n in ("P", "Q", "R", "S")}
DELEGATES = ("s ab", "s bc", "s ba", "s", "custom", "hidden", "import", "entry", "chain ab", "chain")
CHAIN_OPS = ("0 n P", "0 b R", "1 n Q", "1 a R", "2 b S", "2 p R", "look")


def delegate(kind: str) -> t.Tuple[t.Any, t.Any]:
    """The table and its model: a mapping, or "import", or a list of those; and whether it lists its ids."""
    P, Q, R, S = (CLASSES[x] for x in "PQRS")
    if kind.startswith("s"):
        table = {"s ab": {"a": P, "b": Q}, "s bc": {"b": P, "c": R}, "s ba": {"b": Q, "a": Q, "c": P}, "s": {}}[kind]
        return StaticUnionMembers(dict(table)), dict(table)
    if kind in ("custom", "hidden"):
        table = {"q": Q, "a": S}
        return Custom(table, kind == "custom"), (dict(table) if kind == "custom" else ("hidden", dict(table)))
    if kind == "import":
        return ImportUnionMembers(), "import"
    if kind == "entry":
        return EntrypointUnionMembers("mc.c16.four"), {"a": target(TARGETS[0]), "b": target(TARGETS[1]), "c": target(TARGETS[0]), "d": target(TARGETS[2])}
    a, ma = delegate("s ab")
    if kind == "chain":
        return ChainUnionMembers(), []
    b, mb = delegate("import")
    return ChainUnionMembers(a, b), [ma, mb]


def chain_get(model: t.Any, i: str) -> t.Any:
    if isinstance(model, list):
        return next((x for x in (chain_get(y, i) for y in model) if x is not None), None)
    if model == "import":
        return place(PLACES[i]) if i in PLACES else None
    return (model[1] if isinstance(model, tuple) else model).get(i)


def chain_id(model: t.Any, typ: t.Any) -> t.Any:
    if isinstance(model, list):
        return next((x for x in (chain_id(y, typ) for y in model) if x is not None), None)
    if model == "import":
        if not isinstance(typ, type) or "<" in typ.__qualname__:
            return None
        return typ.__module__ + "." + typ.__qualname__
    return next((k for k, v in (model[1] if isinstance(model, tuple) else model).items() if v is typ), None)


def chain_ids(model: t.Any) -> t.List[str]:
    if isinstance(model, list):
        return list(dict.fromkeys(i for y in model for i in chain_ids(y)))
    return [] if model == "import" or isinstance(model, tuple) else list(model)


def run_chain(case: t.Any, rec: Recorder) -> None:
    with OnPath():
        kinds, seqs = case
        for seq in seqs:
            made = [delegate(k) for k in kinds]
            tables, model = [x for x, _ in made], [y for _, y in made]
            u = ChainUnionMembers(*tables)
            looks = 0

            def look() -> bool:
                for i in ("a", "b", "c", "d", "n", "p", "q", "zz", "mc_c16_pkg.mod.Cls"):
                    rec.trans()
                    typ = chain_get(model, i)
                    got, want = attempt(lambda: u.get_type_by_id(i)), UNKNOWN if typ is None else ("ok", typ)
                    if mismatch(want, got):
                        rec.fail(f"chain {kinds} after {seq}: get_type_by_id({i!r}) gave {got}, expected {want}")
                        return False
                for typ in (*CLASSES.values(), target(TARGETS[0]), target(TARGETS[2]), None, t.List[int]):
                    rec.trans()
                    name = chain_id(model, typ)
                    got, want = attempt(lambda: u.get_type_id(typ)), UNKNOWN if name is None else ("ok", name)
                    if mismatch(want, got):
                        rec.fail(f"chain {kinds} after {seq}: get_type_id({typ}) gave {got}, expected {want}")
                        return False
                rec.trans()
                got = attempt(u.get_type_ids)
                if mismatch(("ok", chain_ids(model)), got):
                    rec.fail(f"chain {kinds} after {seq}: get_type_ids() gave {got}, expected {chain_ids(model)}")
                    return False
                got[1].append("zz")
                return True

            for op in seq:
                if op == "look":
                    looks += 1
                    if not look():
                        return
                    continue
                n, name, cls = op.split()
                if int(n) >= len(tables) or not isinstance(tables[int(n)], StaticUnionMembers):
                    break
                tables[int(n)].register(name)(CLASSES[cls])
                model[int(n)][name] = CLASSES[cls]
            else:
                if not look():
                    return
                rec.ok()
                rec.state((kinds, repr(chain_ids(model)), seq))
        rec.outcome(f"{len(kinds)} delegates")


def chain_cases() -> t.Iterator[t.Any]:
    for n in range(4):
        for kinds in itertools.product(DELEGATES, repeat=n):
            depth = 3 if thorough() or n < 3 else 1
            seqs = [s for d in range(depth + 1) for s in itertools.product(CHAIN_OPS, repeat=d)]
            yield kinds, seqs if any(k[0] == "s" for k in kinds) else [()]


# -- how tables are given ----------------------------------------------------------------------------------------------


FORMS = ("none", "dict", "empty dict", "proxy", "static", "chain", "import", "entry", "custom")


def form(kind: str) -> t.Tuple[t.Any, t.Any]:
    P, Q = CLASSES["P"], CLASSES["Q"]
    table = {"p": P, "q": Q, "p2": P}
    if kind == "none":
        return None, {}
    if kind == "dict":
        return dict(table), table
    if kind == "empty dict":
        return {}, {}
    if kind == "proxy":
        import types

        return types.MappingProxyType(table), table
    if kind == "static":
        return StaticUnionMembers(dict(table)), table
    if kind == "chain":
        return ChainUnionMembers(StaticUnionMembers(dict(table))), [table]
    if kind == "import":
        return "<import>", "import"
    if kind == "entry":
        return "!mc.c16.four", delegate("entry")[1]
    return Custom(table, False), ("hidden", table)


def run_forms(case: t.Any, rec: Recorder) -> None:
    with OnPath():
        kinds, many = case
        made = [form(k) for k in kinds]
        model: t.Any = [y for _, y in made]
        given: t.Any = [x for x, _ in made]
        u = (dc.Union(given) if many else dc.Union(given[0])).members
        for i in ("p", "q", "p2", "a", "zz", "", "mc_c16_pkg.mod.Cls"):
            rec.trans()
            typ = chain_get(model, i)
            got, want = attempt(lambda: u.get_type_by_id(i)), UNKNOWN if typ is None else ("ok", typ)
            if mismatch(want, got):
                return rec.fail(f"union of {kinds}: get_type_by_id({i!r}) gave {got}, expected {want}")
        for typ in (*CLASSES.values(), target(TARGETS[0]), None):
            rec.trans()
            name = chain_id(model, typ)
            got, want = attempt(lambda: u.get_type_id(typ)), UNKNOWN if name is None else ("ok", name)
            if mismatch(want, got):
                return rec.fail(f"union of {kinds}: get_type_id({typ}) gave {got}, expected {want}")
        try:
            ids: t.Any = u.get_type_ids()
        except NotImplementedError:
            ids = None
        if not (ids == chain_ids(model) or ids is None and not many and kinds[0] in ("import", "custom")):
            return rec.fail(f"union of {kinds}: get_type_ids() gave {ids}, expected {chain_ids(model)}")
        if not many and kinds[0] in ("dict", "none", "empty dict"):
            # What is registered with one union does not show in another, nor in the mapping.
            other = dc.Union(given[0]).members
            before = dict(given[0] or {})
            u.register("new")(CLASSES["S"])  # type: ignore[attr-defined]
            if "new" in other.get_type_ids() or dict(given[0] or {}) != before or "new" in dc.Union(given[0]).members.get_type_ids():
                return rec.fail(f"union of {kinds}: a registration showed in another union")
        rec.ok()
        rec.state(case)


def form_cases() -> t.Iterator[t.Any]:
    for k in FORMS:
        yield (k,), False
    for n in range(4 if thorough() else 3):
        for kinds in itertools.product([k for k in FORMS if k != "none"], repeat=n):
            yield kinds, True


def run_invalid(case: t.Any, rec: Recorder) -> None:
    text, many = case
    rec.trans()
    got = attempt(lambda: dc.Union([text] if many else text))
    if got != UNKNOWN:
        return rec.fail(f"Union({text!r}) gave {got}, expected ValueError")
    rec.ok()
    rec.state(case)


def spaces() -> t.List[Space]:
    scratch()
    return [
        Space("static tables", static_cases, run_static, f"all sequences of up to {4 if thorough() else 3} (selected: 4) registrations, removals and lookups; every id and type looked up", chunk=64),
        Space("unions of classes", class_cases, run_classes, "3 styles x sequences of up to 2 or 3 registrations, loads and dumps", chunk=32),
        Space("entry points", ep_cases, run_entrypoints, "all groups of up to 3 entry points x sequences of up to 2 lookups"),
        Space("two distributions", lambda: range(4), run_two_dists, "sequences of up to 3 lookups"),
        Space("imports", import_cases, run_import, "all dotted paths over 14 segments, up to 4 segments, fresh and imported", chunk=32),
        Space("types of imports", lambda: [0], run_import_types, "13 types"),
        Space("chains", chain_cases, run_chain, "all chains of up to 3 of 10 tables x sequences of registrations and lookups"),
        Space("forms", form_cases, run_forms, "all ways to give the members of a union, alone and in lists of up to 2"),
        Space("invalid", lambda: itertools.product(("", "import", "<imports>", "a!b", "mc.c16.two", " !x"), (False, True)), run_invalid, "6 texts"),
    ]
