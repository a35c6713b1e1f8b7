"""C17: schemas list exactly the constructor fields with their concrete types."""

import collections
import dataclasses
import datetime
import decimal
import enum
import itertools
import sys
import types
import typing as t
import uuid

import databind.core as dc
from databind.core.schema import (
    convert_dataclass_to_schema,
    convert_to_schema,
    convert_typed_dict_to_schema,
)
from databind.core.utils import NotSet
from databind.json import dump, load
from typeapi import TypeHint

from mc.engine import Recorder, Space, short, thorough

ASSUMPTIONS = [
    "the fields that a dataclass constructor accepts, and their defaults, are those of the standard library",
    "where the standard library and the method resolution order disagree on the definition of a field (several bases), defaults are not judged",
]

# -- symbolic types ----------------------------------------------------------------------------------------------------

#: An expression is a string (a name) or a tuple (constructor, *arguments).
Expr = t.Any


def text(e: Expr) -> str:
    if isinstance(e, str):
        return e
    head, *args = e
    inner = ", ".join(text(x) for x in args)
    if head == "Str":
        return repr(inner)
    if head == "Note":
        return f"t.Annotated[{inner}, 'note']"
    if head == "TupleN":
        return f"t.Tuple[{inner}, ...]"
    if head == "Or":
        return f"t.Union[{inner}, None]"
    if head == "DictS":
        return f"t.Dict[str, {inner}]"
    if head == "list":
        return f"list[{inner}]"
    if head in ("Box", "Pair", "Node"):
        return f"{head}[{inner}]"
    return f"t.{head}[{inner}]"


def subst(e: Expr, env: t.Mapping[str, Expr]) -> Expr:
    if isinstance(e, str):
        return env.get(e, e)
    if e[0] == "Str":
        return subst(e[1], env)
    return (e[0], *(subst(x, env) for x in e[1:]))


def tvars(e: Expr) -> t.List[str]:
    if isinstance(e, str):
        return [e] if e in VARS else []
    return list(dict.fromkeys(v for x in e[1:] for v in tvars(x)))


VARS = ("T", "U", "V")


def optional(e: Expr) -> bool:
    return isinstance(e, tuple) and (e[0] in ("Optional", "Or") or e[0] in ("Note", "Str") and optional(e[1]))


class Value(t.NamedTuple):
    value: t.Any
    raw: t.Any
    wrong: t.Any


def example(e: Expr, ns: t.Mapping[str, t.Any], salt: int = 1) -> t.Optional[Value]:
    """A value of a type, its JSON form, and a JSON form that the type does not accept."""
    if isinstance(e, str):
        return {"int": Value(salt, salt, "q"), "str": Value(f"s{salt}", f"s{salt}", salt), "float": Value(salt + 0.5, salt + 0.5, "q"),
                "bool": Value(True, True, "q"), "X": None}.get(e)  # fmt: skip
    head, *args = e
    inner = [example(x, ns, salt + i) for i, x in enumerate(args)]
    if any(x is None for x in inner):
        return None
    a = t.cast(Value, inner[0])
    if head in ("List", "list"):
        return Value([a.value], [a.raw], [a.wrong])
    if head == "TupleN":
        return Value((a.value, a.value), [a.raw, a.raw], [a.raw, a.wrong])
    if head == "Tuple":
        return Value(tuple(x.value for x in inner), [x.raw for x in inner], [x.wrong for x in inner])  # type: ignore[union-attr]
    if head == "DictS":
        return Value({"k": a.value}, {"k": a.raw}, {"k": a.wrong})
    if head in ("Optional", "Or", "Note", "Str"):
        return a
    if head == "Box":
        return Value(ns["Box"](a.value), {"v": a.raw}, {"v": a.wrong})
    if head == "Pair":
        b = t.cast(Value, inner[1])
        return Value(ns["Pair"](p=b.value, q=a.value), {"p": b.raw, "q": a.raw}, {"p": b.raw, "q": a.wrong})
    raise AssertionError(e)


def norm(hint: t.Any) -> t.Any:
    """A form of a hint that does not depend on how it is spelled."""
    if isinstance(hint, TypeHint):
        hint = hint.hint
    origin, args = t.get_origin(hint), t.get_args(hint)
    if origin is None:
        return type(None) if hint is None else hint
    if origin is t.Annotated:
        return ("annotated", norm(args[0]), hint.__metadata__)
    if origin in (t.Union, types.UnionType):
        return ("union", frozenset(map(norm, args)))
    return (origin, tuple(norm(x) for x in args))


# -- modules made of text ----------------------------------------------------------------------------------------------

PRELUDE = """
import abc, dataclasses, typing as t
import databind.core as dc
import databind.core.dataclasses as dbdc
T = t.TypeVar("T")
U = t.TypeVar("U")
V = t.TypeVar("V")
"""


class _Base:
    """Modules with the names that all the generated modules use."""

    mod: t.Optional[types.ModuleType] = None


def make_module(name: str, source: str, future: bool = False) -> types.ModuleType:
    mod = types.ModuleType(name)
    sys.modules[name] = mod
    code = compile(("from __future__ import annotations\n" if future else "") + source, f"<{name}>", "exec", dont_inherit=True)
    exec(code, vars(mod))
    return mod


def base_module() -> types.ModuleType:
    if _Base.mod is None:
        _Base.mod = make_module(
            "mc_c17_base",
            PRELUDE
            + "@dataclasses.dataclass\nclass Box(t.Generic[T]):\n    v: T\n"
            + "@dataclasses.dataclass\nclass Pair(t.Generic[U, T]):\n    p: T\n    q: U\n"
            + "class Plain(t.Generic[T]):\n    pass\nclass Mixin:\n    m: int = 3\nclass Proto(t.Protocol[T]):\n    def f(self) -> T: ...\n",
        )
    return _Base.mod


IMPORTS = "from mc_c17_base import *\nfrom mc_c17_base import t, dc, dbdc, abc, dataclasses\n"


# -- class hierarchies -------------------------------------------------------------------------------------------------


class Fd(t.NamedTuple):
    name: str
    type: Expr
    default: str = ""  # text behind the equals sign


class Cl(t.NamedTuple):
    name: str
    #: (name of a class, arguments or None)
    bases: t.Tuple[t.Tuple[str, t.Optional[t.Tuple[Expr, ...]]], ...] = ()
    fields: t.Tuple[Fd, ...] = ()
    #: Explicit order of the type parameters.
    generic: t.Optional[t.Tuple[str, ...]] = None
    deco: str = "@dataclasses.dataclass"
    body: str = ""

    @property
    def params(self) -> t.Tuple[str, ...]:
        if self.generic is not None:
            return self.generic
        return tuple(dict.fromkeys(v for _, args in self.bases for a in args or () for v in tvars(a)))

    def source(self, pep695: bool = False) -> str:
        bases = [n if args is None else f"{n}[{', '.join(map(text, args))}]" for n, args in self.bases]
        params = ""
        if pep695:
            params = f"[{', '.join(self.params)}]" if self.params else ""
        elif self.generic:
            bases.append(f"t.Generic[{', '.join(self.generic)}]")
        out = self.deco + "\n" if self.deco else ""
        out += f"class {self.name}{params}({', '.join(bases)}):\n    pass\n"
        for f in self.fields:
            out += f"    {f.name}: {text(f.type)}{' = ' + f.default if f.default else ''}\n"
        return out + self.body


def is_set(default: t.Any) -> bool:
    # The replacement for the standard library's decorator marks required fields with a value of its own.
    return default is not dataclasses.MISSING and default is not NotSet.Value


def same(a: t.Any, b: t.Any) -> bool:
    """Compare objects by their fields; fields that the constructor leaves out may not be set."""
    return type(a) is type(b) and all(getattr(a, f.name, "unset") == getattr(b, f.name, "unset") for f in dataclasses.fields(a))


class Ambiguous(Exception):
    pass


def envs(classes: t.Mapping[str, Cl], top: Cl, args: t.Optional[t.Tuple[Expr, ...]]) -> t.Dict[str, t.Dict[str, Expr]]:
    """The values of the type parameters of every class in the hierarchy."""
    out: t.Dict[str, t.Dict[str, Expr]] = {}

    def visit(c: Cl, args: t.Optional[t.Tuple[Expr, ...]]) -> None:
        env = {} if args is None else dict(zip(c.params, args))
        if out.setdefault(c.name, env) != env:
            raise Ambiguous(c.name)
        for name, base_args in c.bases:
            if name in classes:
                visit(classes[name], None if base_args is None else tuple(subst(a, env) for a in base_args))

    visit(top, args)
    return out


def hint_text(c: Cl, args: t.Optional[t.Tuple[Expr, ...]]) -> str:
    return c.name if args is None else f"{c.name}[{', '.join(map(text, args))}]"


def run_hierarchy(hierarchy: t.Sequence[Cl], args: t.Optional[t.Tuple[Expr, ...]], rec: Recorder, pep695: bool = False,
                  future: bool = False) -> None:  # fmt: skip
    base_module()
    classes = {c.name: c for c in hierarchy}
    top = hierarchy[-1]
    source = IMPORTS + "".join(c.source(pep695) for c in hierarchy)
    try:
        mod = make_module("mc_c17_case", source, future)
    except TypeError:
        rec.count("not a class hierarchy")  # e.g. no consistent method resolution order
        return
    try:
        judge(mod, classes, top, args, rec, source)
    except Ambiguous:
        rec.count("ambiguous")
    finally:
        del sys.modules["mc_c17_case"]


def judge(mod: types.ModuleType, classes: t.Mapping[str, Cl], top: Cl, args: t.Optional[t.Tuple[Expr, ...]], rec: Recorder,
          source: str) -> None:  # fmt: skip
    ns = vars(mod)
    cls = ns[top.name]
    env = envs(classes, top, args)
    hint = eval(hint_text(top, args), ns)
    stdlib = {f.name: f for f in dataclasses.fields(cls)}
    what = f"{hint_text(top, args)} in\n{source[len(IMPORTS):]}"
    want: t.Dict[str, Expr] = {}
    settled: t.Dict[str, bool] = {}
    for name, f in stdlib.items():
        if not f.init:
            continue
        definer = next(k for k in cls.__mro__ if k.__name__ in classes and classes[k.__name__].deco and
                       any(g.name == name for g in classes[k.__name__].fields))  # fmt: skip
        expr = next(g.type for g in classes[definer.__name__].fields if g.name == name)
        want[name] = subst(expr, env[definer.__name__])
        settled[name] = next(g for g in dataclasses.fields(definer) if g.name == name) is f

    # The schema.
    results = []
    for fn, arg in (
        (convert_to_schema, TypeHint(hint)), (convert_to_schema, TypeHint(t.Annotated[hint, "x"])), (convert_dataclass_to_schema, hint),
        (convert_dataclass_to_schema, TypeHint(hint)),
    ):  # fmt: skip
        rec.trans()
        try:
            schema = t.cast(t.Any, fn)(arg)
        except Exception as exc:
            return rec.fail(f"{fn.__name__}({arg}) raised {exc!r} for {what}")
        if schema.fields.keys() != want.keys():
            return rec.fail(f"the schema has the fields {list(schema.fields)}, expected {list(want)}, for {what}")
        if schema.type is not cls:
            return rec.fail(f"the schema has the type {schema.type} for {what}")
        for name, expr in want.items():
            field = schema.fields[name]
            expected = eval(text(expr), ns)
            if norm(field.datatype) != norm(expected):
                return rec.fail(f"field {name} has the type {field.datatype}, expected {expected}, for {what}")
            if not settled[name]:
                continue
            f = stdlib[name]
            has_default = is_set(f.default) or f.default_factory is not dataclasses.MISSING
            if field.required != (not has_default and not optional(expr)):
                return rec.fail(f"field {name} has required={field.required} for {what}")
            if not field.required:
                default = None if not has_default else f.default if is_set(f.default) else f.default_factory()  # type: ignore
                if not field.has_default() or field.get_default() != default:
                    return rec.fail(f"field {name} has another default than {default!r} for {what}")
            elif field.has_default():
                return rec.fail(f"field {name} has a default for {what}")
        results.append(schema)

    rec.ok(len(results))
    rec.state((hint_text(top, args), tuple(sorted((k, text(v)) for k, v in want.items()))))
    rec.outcome(f"{len(want)} fields")

    # What conversions make of it.
    values = {name: example(expr, ns, 1 + i) for i, (name, expr) in enumerate(want.items())}
    if any(v is None for v in values.values()):
        return
    good = t.cast(t.Dict[str, Value], values)
    raw = {k: v.raw for k, v in good.items()}
    obj = cls(**{k: v.value for k, v in good.items()})
    try:
        rec.trans(2)
        got = load(raw, hint)
        back = dump(obj, hint)
    except Exception as exc:
        return rec.fail(f"load or dump of {raw} raised {exc!r} for {what}")
    if not same(got, obj) or back != raw:
        return rec.fail(f"load of {raw} gave {got}, dump of it {back}, expected {obj}, for {what}")
    for k in raw:
        for payload, accept in (({**raw, k: good[k].wrong}, False), ({x: y for x, y in raw.items() if x != k}, None)):
            if accept is None:
                if not settled[k]:
                    continue
                f = stdlib[k]
                accept = optional(want[k]) or is_set(f.default) or f.default_factory is not dataclasses.MISSING
            rec.trans()
            try:
                got = load(payload, hint)
            except dc.ConversionError:
                if accept:
                    return rec.fail(f"load of {payload} was rejected for {what}")
                continue
            except Exception as exc:
                return rec.fail(f"load of {payload} raised {exc!r} for {what}")
            if not accept:
                return rec.fail(f"load of {payload} gave {got}, expected a rejection, for {what}")
            kwargs = {x: y.value for x, y in good.items() if x != k}
            if optional(want[k]) and not is_set(stdlib[k].default) and stdlib[k].default_factory is dataclasses.MISSING:
                kwargs[k] = None
            if not same(got, cls(**kwargs)):
                return rec.fail(f"load of {payload} gave {got}, expected {cls(**kwargs)}, for {what}")
    rec.ok()


# -- chains of generic classes -----------------------------------------------------------------------------------------

ROOT_TYPES: t.List[Expr] = [
    "T", ("List", "T"), ("Optional", "T"), ("DictS", ("List", "U")), ("Note", "T"), ("Tuple", "U", "T"), ("Box", "T"), ("Pair", "T", ("List", "U")),
    ("list", ("Or", "U")), ("TupleN", "T"),
]  # fmt: skip
ARGS: t.List[Expr] = ["T", "U", "int", ("List", "T"), ("Box", "U"), ("Optional", "V")]
FINALS: t.List[t.Tuple[Expr, ...]] = [("int", "str", "float"), (("List", "str"), ("Box", "int"), "int")]


def finals(c: Cl, deep: bool) -> t.Iterator[t.Optional[t.Tuple[Expr, ...]]]:
    n = len(c.params)
    yield None
    if n:
        yield FINALS[0][:n]
        if deep:
            yield FINALS[1][:n]
            yield ("U", "T", "V")[:n]


def orders(implicit: t.Tuple[str, ...]) -> t.List[t.Optional[t.Tuple[str, ...]]]:
    out: t.List[t.Optional[t.Tuple[str, ...]]] = [None]
    if len(implicit) > 1:
        out.append(implicit[::-1])
    return out


def root(expr: Expr) -> Cl:
    return Cl("R", (), (Fd("x", expr), Fd("y", "U")), ("T", "U"))


def level(name: str, base: Cl, args: t.Optional[t.Tuple[Expr, ...]], own: t.Tuple[Fd, ...], deco: bool, flip: bool) -> Cl:
    c = Cl(name, ((base.name, args),), own, None, "@dataclasses.dataclass" if deco else "")
    need = tuple(dict.fromkeys([*c.params, *(v for f in own for v in tvars(f.type))]))
    if set(need) != set(c.params) or flip:
        c = c._replace(generic=need[::-1] if flip else need)
    return c


OWN: t.List[t.Tuple[Fd, ...]] = [(), (Fd("x", "str"),), (Fd("y", ("List", "T")),), (Fd("z", "U"),), (Fd("x", ("Box", "U")), Fd("z", "T"))]


def chain_cases() -> t.Iterator[t.Any]:
    deep = thorough()
    # One step: all arguments.
    for i, expr in enumerate(ROOT_TYPES):
        r = root(expr)
        yield (r,), True
        pairs: t.List[t.Optional[t.Tuple[Expr, ...]]] = [None, *itertools.product(ARGS, repeat=2)]
        for args in pairs:
            for own in OWN:
                for deco in (True, False):
                    if not deco and own:
                        continue
                    for flip in (False, True):
                        c = level("L1", r, args, own, deco, flip)
                        if flip and len(c.params) < 2:
                            continue
                        if i < 3 or deep or not own:
                            yield (r, c), True
    # Two steps: the first passes on its parameters in every way.
    few_args: t.List[t.Optional[t.Tuple[Expr, ...]]] = [None, ("U", "T"), ("T", "T"), ("int", "T"), (("List", "U"), "T"), (("Box", "T"), "U")]
    for expr in ROOT_TYPES if deep else ROOT_TYPES[:1] + ROOT_TYPES[7:8]:
        r = root(expr)
        for a1 in few_args:
            for own1 in OWN if deep else OWN[:3]:
                for d1 in (True, False):
                    if not d1 and own1:
                        continue
                    for f1 in (False, True):
                        l1 = level("L1", r, a1, own1, d1, f1)
                        if f1 and len(l1.params) < 2:
                            continue
                        n = len(l1.params)
                        a2s: t.List[t.Any] = [None]
                        if n:
                            a2s = [*itertools.product(["T", "U", "str", ("List", "T")], repeat=n)]
                            a2s = [*a2s, None] if deep else a2s
                        for a2 in a2s:
                            for own2 in OWN:
                                for d2 in (True, False) if not own2 else (True,):
                                    yield (r, l1, level("L2", l1, a2, own2, d2, False)), deep


def run_chain(case: t.Any, rec: Recorder) -> None:
    hierarchy, deep = case
    for args in finals(hierarchy[-1], deep):
        run_hierarchy(hierarchy, args, rec)
    if len(hierarchy) < 3:
        run_hierarchy(hierarchy, FINALS[0][: len(hierarchy[-1].params)] or None, rec, future=True)
        bare = any(args is None and n == "R" for c in hierarchy for n, args in c.bases)
        if not bare:
            run_hierarchy(hierarchy, FINALS[0][: len(hierarchy[-1].params)] or None, rec, pep695=True)


# -- several bases -----------------------------------------------------------------------------------------------------


def diamond_cases() -> t.Iterator[t.Any]:
    deep = thorough()
    sides: t.List[t.Optional[t.Tuple[Expr, ...]]] = [("T",), ("int",), (("List", "T"),), None]
    owns: t.List[t.Tuple[Fd, ...]] = [(), (Fd("x", "str"),), (Fd("z", "T"),), (Fd("x", ("DictS", "T")),)]
    tops: t.List[t.Tuple[Fd, ...]] = [(), (Fd("x", "bool"),), (Fd("w", "T"),), (Fd("z", ("List", "T")),)]
    for rx in ("T", ("List", "T")):
        r = Cl("R", (), (Fd("x", rx),), ("T",))
        for a1, a2 in itertools.product(sides, repeat=2):
            for o1, o2 in itertools.product(owns, repeat=2):
                for d1, d2 in ((True, True), (False, True), (True, False)):
                    if not d1 and o1 or not d2 and o2:
                        continue
                    A, B = level("A", r, a1, o1, d1, False), level("B", r, a2, o2, d2, False)
                    for ta, tb in (("T", "T"), ("T", "U"), ("int", "int"), ("str", "T"))[:: 1 if deep else 2]:
                        for own in tops if deep or rx == "T" else tops[:2]:
                            bases = (("A", (ta,) if A.params else None), ("B", (tb,) if B.params else None))
                            for order in (bases, bases[::-1]):
                                c = Cl("D", order, own)
                                need = tuple(dict.fromkeys([*c.params, *(v for f in own for v in tvars(f.type))]))
                                if need != c.params:
                                    c = c._replace(generic=need)
                                yield (r, A, B, c)


#: Bases that are not dataclasses, and unrelated dataclasses, in all orders.
OTHERS: t.List[t.Tuple[str, t.Optional[t.Tuple[Expr, ...]]]] = [
    ("Plain", ("T",)), ("Plain", ("int",)), ("Plain", None), ("Mixin", None), ("abc.ABC", None), ("Proto", ("T",)), ("Q", ("T",)), ("Q", ("str",)),
]  # fmt: skip


def mixin_cases() -> t.Iterator[t.Any]:
    q = Cl("Q", (), (Fd("x", ("List", "T")), Fd("k", "T")), ("T",))
    for rx in ("T", ("Optional", "T")):
        r = Cl("R", (), (Fd("x", rx), Fd("y", "int")), ("T",))
        for n in (1, 2):
            for others in itertools.permutations(OTHERS, n):
                for arg in ("T", ("Box", "T"), "float"):
                    for at in range(n + 1):
                        bases = (*others[:at], ("R", (arg,)), *others[at:])
                        for own in ((), (Fd("x", "bool"),), (Fd("m", "T"),)) if n == 1 or thorough() else ((),):
                            c = Cl("D", bases, own)
                            need = tuple(dict.fromkeys([*c.params, *(v for f in own for v in tvars(f.type))]))
                            c = c._replace(generic=need) if need != c.params else c
                            yield (r, q, c)
                            if n == 1 and not own:
                                # Another step below.
                                yield (r, q, c, Cl("E", (("D", ("str",) * len(c.params) or None),), (Fd("e", "int"),)))


def run_several(case: t.Any, rec: Recorder) -> None:
    for args in finals(case[-1], thorough()):
        run_hierarchy(case, args, rec)


# -- kinds of fields ---------------------------------------------------------------------------------------------------

#: name -> (type, default, in text)
KINDS: t.Dict[str, t.Tuple[Expr, str]] = {
    "int": ("int", ""), "int=": ("int", "7"), "opt": (("Optional", "int"), ""), "opt=": (("Optional", "int"), "8"), "str": ("str", ""),
    "list=": (("List", "int"), "dataclasses.field(default_factory=lambda: [5])"), "kw": ("float", "dataclasses.field(kw_only=True)"),
    "noinit": ("int", "dataclasses.field(init=False, default=9)"), "noinit-": ("str", "dataclasses.field(init=False)"),
    "class": ("t.ClassVar[int]", "6"), "classstr": (("Str", "t.ClassVar[int]"), "6"), "orNone": (("Or", "str"), ""), "none=": (("Note", ("Optional", "str")), "None"),
    "zero=": ("int", "0"),
}  # fmt: skip
DECOS = ("@dataclasses.dataclass(kw_only=True)", "@dataclasses.dataclass(kw_only=True, slots=True)", "@dataclasses.dataclass(kw_only=True, frozen=True)",
         "@dbdc.dataclass", "@dataclasses.dataclass(kw_only=True, repr=False, unsafe_hash=True)")  # fmt: skip


def kinds_cases() -> t.Iterator[t.Any]:
    names = list(KINDS)
    for deco in DECOS:
        for a in names:
            for b in [None, *names]:
                for c in ([None, *names] if thorough() or deco in (DECOS[0],) else [None]):
                    if c is not None and b is None:
                        continue
                    yield deco, (a, b, c), "x"
    # A second field that is defined next to it, and names that look special.
    for deco in DECOS:
        for a, b in itertools.product(names, repeat=2):
            for name in ("_x", "self", "cls", "fields", "type_"):
                yield deco, (a, b, None), name


def run_kinds(case: t.Any, rec: Recorder) -> None:
    deco, levels, name = case
    if deco == "@dbdc.dataclass" and ("self" == name or any(k and k in ("kw",) for k in levels)):
        return rec.count("not applicable")
    classes: t.List[Cl] = []
    for i, kind in enumerate(levels):
        if kind is None:
            break
        typ, default = KINDS[kind]
        other = (Fd(f"k{i}", "str", "'d'"),)
        mine = (Fd(name, typ, default),)
        classes.append(Cl(f"C{i}", ((f"C{i - 1}", None),) if i else (), mine + other if i != 1 else other + mine, None, deco))
    run_hierarchy(classes, None, rec)
    if len(classes) > 1 and deco == DECOS[0]:
        # A class in between, and one at the end, that are not decorated.
        run_hierarchy([classes[0], Cl("Mid", (("C0", None),), (), None, ""), classes[1]._replace(bases=(("Mid", None),))], None, rec)
        run_hierarchy([*classes, Cl("End", ((classes[-1].name, None),), (), None, "")], None, rec)


# -- forward references between modules --------------------------------------------------------------------------------

REFS: t.Dict[str, str] = {  # how the class refers to the name X of its own module
    "plain": "X", "string": "'X'", "inner": "t.List['X']", "outer": "'t.List[X]'", "optional": "t.Optional['X']", "annotated": "t.Annotated['X', 'n']",
    "self": "t.Optional['{cls}']", "selves": "'t.List[{cls}]'", "dotted": "'t.Dict[str, X]'", "pipe": "'X | None'",
}  # fmt: skip
ORIGINS = ("dataclass", "dbdc", "typeddict", "namedtuple")


def ref_cases() -> t.Iterator[t.Any]:
    for origin in ORIGINS:
        for future1, future2 in itertools.product((False, True), repeat=2):
            for r1, r2 in itertools.product(REFS, repeat=2):
                for known in (True, False):
                    yield origin, (future1, future2), (r1, r2), known


def ref_type(ref: str, x: t.Any, cls: t.Any) -> t.Any:
    return {"plain": x, "string": x, "inner": t.List[x], "outer": t.List[x], "optional": t.Optional[x], "annotated": t.Annotated[x, "n"],
            "self": t.Optional[cls], "selves": t.List[cls], "dotted": t.Dict[str, x], "pipe": t.Optional[x]}[ref]  # fmt: skip


def run_refs(case: t.Any, rec: Recorder) -> None:
    """A class in one module, and a subclass in another, where the name that both use means something else or nothing."""
    origin, (future1, future2), (r1, r2), known = case
    if origin == "typeddict" and not future1 and r1 in ("inner", "optional", "annotated", "self"):
        return rec.count("not applicable")  # the typing module does not tell where these belong
    heads = {"dataclass": "@dataclasses.dataclass\nclass {n}({b}):\n", "dbdc": "@dbdc.dataclass\nclass {n}({b}):\n",
             "typeddict": "class {n}({b}):\n", "namedtuple": "class {n}({b}):\n"}  # fmt: skip
    first = {"typeddict": "t.TypedDict", "namedtuple": "t.NamedTuple"}.get(origin, "")
    base_module()
    src1 = IMPORTS + "X = int\n" + heads[origin].format(n="A", b=first) + f"    a: {REFS[r1].format(cls='A')}\n"
    src2 = IMPORTS + "import mc_c17_one as one\n" + ("X = str\n" if known or r2 not in ("self", "selves") else "")
    src2 += heads[origin].format(n="B", b="one.A")
    src2 += "    def method(self): pass\n" if origin == "namedtuple" else f"    b: {REFS[r2].format(cls='B')}\n"
    src2 += heads[origin].format(n="C", b=first) + f"    b: t.List[one.A]\n    c: {REFS[r2].format(cls='C')}\n"
    if (not future1 and r1 == "plain" or not future2 and r2 == "plain") and r2 in ("self",) and not known:
        return rec.count("not applicable")
    made = []
    try:
        m1 = make_module("mc_c17_one", src1, future1)
        made.append("mc_c17_one")
        m2 = make_module("mc_c17_two", src2, future2)
        made.append("mc_c17_two")
        A, B, C = m1.A, m2.B, m2.C  # type: ignore[attr-defined]
        a, b, c = ref_type(r1, int, A), ref_type(r2, str, B), ref_type(r2, str, C)
        want = {A: {"a": a}, B: {"a": a, "b": b} if origin != "namedtuple" else {"a": a}, C: {"b": t.List[A], "c": c}}
        for cls in (A, B, C):
            rec.trans()
            if origin != "namedtuple":
                schema = convert_to_schema(TypeHint(cls))
                got = {k: norm(f.datatype) for k, f in schema.fields.items()}
                expected = {k: norm(v) for k, v in want[cls].items()}
                if got != expected:
                    return rec.fail(f"{case}: schema of {cls}: {got}, expected {expected}\n{src1}\n{src2}")
            raw, value, wrong = {}, {}, []
            for k, v in want[cls].items():
                e, bad = ref_example(v, A, B, C, a)
                raw[k], value[k] = e
                wrong.append((k, bad))
            rec.trans(2)
            got = load(raw, cls)
            obj = cls(**value)
            if got != obj or dump(obj, cls) != raw:
                return rec.fail(f"{case}: load of {raw} as {cls} gave {got}, expected {obj}; dump {dump(obj, cls)}")
            for k, bad in wrong:
                rec.trans()
                try:
                    load({**raw, k: bad}, cls)
                    return rec.fail(f"{case}: load of {bad!r} as {k} of {cls} was accepted")
                except dc.ConversionError:
                    pass
            rec.ok(2)
            rec.state((case, cls.__name__))
    except Exception as exc:
        return rec.fail(f"{case}: {exc!r}\n{src1}\n{src2}")
    finally:
        for name in made:
            del sys.modules[name]
    rec.outcome(origin)


def ref_example(typ: t.Any, A: t.Any, B: t.Any, C: t.Any, a: t.Any) -> t.Tuple[t.Tuple[t.Any, t.Any], t.Any]:
    """((raw, value), a raw value that is rejected)"""
    if typ is int:
        return (4, 4), "q"
    if typ is str:
        return ("s", "s"), 4
    origin, args = t.get_origin(typ), t.get_args(typ)
    if origin is t.Annotated:
        return ref_example(args[0], A, B, C, a)
    if origin is t.Union:
        if args[0] in (A, B, C):
            return (None, None), 5
        return ref_example(args[0], A, B, C, a)
    if origin is list:
        if args[0] in (A, B, C):
            return ([], []), [5]
        (raw, value), bad = ref_example(args[0], A, B, C, a)
        return ([raw], [value]), [bad]
    if origin is dict:
        (raw, value), bad = ref_example(args[1], A, B, C, a)
        return ({"k": raw}, {"k": value}), {"k": bad}
    raise AssertionError(typ)


# -- typed dicts -------------------------------------------------------------------------------------------------------

TD_KEYS = ("a", "items", "not id", "class", "_p")
TD_TYPES: t.List[t.Tuple[str, t.Any, t.Any]] = [
    ("int", int, None), ("opt", t.Optional[int], None), ("req", t.Annotated[int, dc.Required()], True), ("notreq", t.Annotated[int, dc.Required(False)], False),
    ("str", str, None),
]  # fmt: skip


def td_cases() -> t.Iterator[t.Any]:
    n = len(TD_TYPES)
    for key in TD_KEYS:
        for i in range(n):
            for total in (True, False):
                yield ((total, ((key, i),)),)
                for j in range(n):
                    for total2 in (True, False):
                        yield ((total, ((key, i),)), (total2, (("b", j),)))
                        yield ((total, ((key, i), ("c", j))), (total2, (("d", 0),)), (not total2, ()))
                        if thorough():
                            for k in range(n):
                                for total3 in (True, False):
                                    yield ((total, ((key, i),)), (total2, (("b", j),)), (total3, (("c", k),)))


def run_td(case: t.Any, rec: Recorder) -> None:
    base_module()
    hints = {label: (typ, req) for label, typ, req in TD_TYPES}
    want: t.Dict[str, t.Tuple[t.Any, bool]] = {}
    cls: t.Any = None
    for level_no, (total, keys) in enumerate(case):
        ns = {"__annotations__": {k: TD_TYPES[i][1] for k, i in keys}, "__module__": "mc_c17_base"}
        if cls is None:
            cls = t.TypedDict("TD0", ns["__annotations__"], total=total)  # type: ignore[operator,misc]
            cls.__module__ = "mc_c17_base"
        else:
            cls = types.new_class(f"TD{level_no}", (cls,), {"total": total}, lambda x, ns=ns: x.update(ns))  # type: ignore[misc]
        for k, i in keys:
            label, typ, req = TD_TYPES[i]
            required = (req if req is not None else label != "opt") and total
            want[k] = (typ, required)
    del hints
    for fn, arg in ((convert_to_schema, TypeHint(cls)), (convert_typed_dict_to_schema, cls), (convert_typed_dict_to_schema, TypeHint(cls)),
                    (convert_to_schema, TypeHint(t.Annotated[cls, 1]))):  # fmt: skip
        rec.trans()
        schema = t.cast(t.Any, fn)(arg)
        if schema.fields.keys() != want.keys():
            return rec.fail(f"{case}: fields {list(schema.fields)}, expected {list(want)}")
        for k, (typ, required) in want.items():
            f = schema.fields[k]
            if norm(f.datatype) != norm(typ) or f.required != required:
                return rec.fail(f"{case}: key {k!r} is {f}, expected {typ}, required={required}")
            if required and f.has_default():
                return rec.fail(f"{case}: required key {k!r} has a default: {f}")
    rec.ok(4)
    raw = {k: "s" if typ is str else 3 for k, (typ, _) in want.items()}
    for n in range(len(raw) + 1):
        for out in itertools.combinations(raw, n):
            payload = {k: v for k, v in raw.items() if k not in out}
            rec.trans()
            try:
                got: t.Any = load(payload, cls)
            except dc.ConversionError:
                got = "rejected"
            if any(want[k][1] for k in out):
                if got != "rejected":
                    return rec.fail(f"{case}: load without {out} gave {got}")
            elif got == "rejected" or {k: got.get(k) for k in payload} != payload or not got.keys() <= want.keys():
                return rec.fail(f"{case}: load without {out} gave {got}")
            rec.ok()
    for k, (typ, _) in want.items():
        rec.trans()
        try:
            got = load({**raw, k: 3 if typ is str else "s"}, cls)
            return rec.fail(f"{case}: load with a wrong {k!r} gave {got}")
        except dc.ConversionError:
            rec.ok()
    rec.state(case)
    rec.outcome(f"{len(want)} keys")


# -- named tuples ------------------------------------------------------------------------------------------------------

NT_FIELDS: t.Dict[str, t.Tuple[Expr, str]] = {
    "int": ("int", ""), "str": ("str", ""), "int=": ("int", "7"), "zero=": ("int", "0"), "opt": (("Optional", "int"), ""), "none=": (("Optional", "str"), "None"),
    "list": (("List", "str"), ""), "T": ("T", ""), "ListT": (("List", "T"), ""), "BoxU": (("Box", "U"), ""), "fwd": (("Str", ("List", "int")), ""),
}  # fmt: skip


def nt_cases() -> t.Iterator[t.Any]:
    names = list(NT_FIELDS)
    for n in (1, 2, 3):
        for kinds in itertools.product(names, repeat=n):
            if n == 3 and not thorough() and kinds[0] not in ("int", "T", "str"):
                continue
            seen = False
            for k in kinds:
                if seen and not NT_FIELDS[k][1]:
                    break
                seen = seen or bool(NT_FIELDS[k][1])
            else:
                for sub in ("", "plain", "annotated", "mixin", "twice") if n < 3 or thorough() else ("", "plain"):
                    yield kinds, sub


def run_nt(case: t.Any, rec: Recorder) -> None:
    kinds, sub = case
    base_module()
    fields = [Fd(f"f{i}", *NT_FIELDS[k]) for i, k in enumerate(kinds)]
    params = tuple(dict.fromkeys(v for f in fields for v in tvars(f.type)))
    src = IMPORTS + "class N(t.NamedTuple" + (f", t.Generic[{', '.join(params)}]" if params else "") + "):\n"
    src += "".join(f"    {f.name}: {text(f.type)}{' = ' + f.default if f.default else ''}\n" for f in fields)
    env: t.Dict[str, Expr] = dict(zip(params, ("int", "str")))
    arg = f"[{', '.join(text(env[p]) for p in params)}]" if params else ""
    hint = "N" + arg
    if sub:
        hint = "S"
        src += f"class S(N{arg}{', Mixin' if sub == 'mixin' else ''}):\n    def method(self): return 1\n"
        if sub == "annotated":
            src += "    other: t.ClassVar[int] = 5\n"
        if sub == "twice":
            src += "class S2(S):\n    __slots__ = ()\n"
            hint = "S2"
    mod = make_module("mc_c17_nt", src)
    try:
        ns = vars(mod)
        cls, typ = ns[hint.split("[")[0]], eval(hint, ns)
        want = {f.name: subst(f.type, env) for f in fields}
        good = {k: t.cast(Value, example(e, ns, 1 + i)) for i, (k, e) in enumerate(want.items())}
        raw = {k: v.raw for k, v in good.items()}
        obj = cls(**{k: v.value for k, v in good.items()})
        what = f"{hint} in\n{src[len(IMPORTS):]}"
        rec.trans(2)
        got, back = load(raw, typ), dump(obj, typ)
        if got != obj or type(got) is not cls or back != raw:
            return rec.fail(f"load of {raw} gave {got!r} and dump {back}, expected {obj!r}, for {what}")
        rec.ok(2)
        for f in fields:
            for payload, accept in (({**raw, f.name: good[f.name].wrong}, False), ({k: v for k, v in raw.items() if k != f.name}, bool(f.default)),
                                    ({**raw, "other": 1}, False)):  # fmt: skip
                if f.name not in payload and optional(f.type) and not f.default:
                    continue  # a missing optional field is not judged
                rec.trans()
                try:
                    got = load(payload, typ)
                except dc.ConversionError:
                    got = "rejected"
                want_obj = cls(**{k: good[k].value for k in payload}) if accept else "rejected"
                if got != want_obj or type(got) is not type(want_obj):
                    return rec.fail(f"load of {payload} gave {got!r}, expected {want_obj!r}, for {what}")
                rec.ok()
    except Exception as exc:
        return rec.fail(f"{case}: {exc!r} for {src[len(IMPORTS):]}")
    finally:
        del sys.modules["mc_c17_nt"]
    rec.state(case)
    rec.outcome(f"{len(fields)} fields")


# -- what is not a schema ----------------------------------------------------------------------------------------------


class Col(enum.Enum):
    A = 1


class PlainClass:
    x: int = 0


@dataclasses.dataclass
class Dc:
    x: int


TVAR = t.TypeVar("TVAR")
NON_SCHEMAS: t.List[t.Any] = [
    int, str, bytes, float, bool, None, type(None), object, type, dict, list, tuple, set, Col, PlainClass, datetime.date, decimal.Decimal, uuid.UUID,
    t.Any, t.List[int], list[int], t.Dict[str, Dc], t.List[Dc], t.Optional[Dc], t.Union[Dc, int], t.Union[Dc, Col], t.Tuple[Dc, Dc], t.Tuple[Dc, ...], t.Literal["a"],
    t.Set[int], t.Mapping[str, int], TVAR, t.Type[Dc], t.Sequence[Dc], Dc | None, collections.OrderedDict, t.Callable[[], Dc],
]  # fmt: skip


def run_non(case: t.Any, rec: Recorder) -> None:
    i, wrap = case
    hint = NON_SCHEMAS[i]
    if wrap == "Annotated":
        hint = t.Annotated[hint, dc.Alias("x")]
    rec.trans()
    try:
        got: t.Any = convert_to_schema(TypeHint(hint))
    except ValueError:
        rec.ok()
        rec.state(case)
        return
    except Exception as exc:
        got = exc
    rec.fail(f"convert_to_schema({hint}) gave {got!r}, expected ValueError")


def spaces() -> t.List[Space]:
    base_module()
    return [
        Space("chains", chain_cases, run_chain, "chains of up to 3 generic classes: 10 root fields x all arguments x overrides x parameter orders", chunk=8),
        Space("diamonds", diamond_cases, run_several, "diamonds: arguments and overrides on both sides and below, both orders", chunk=8),
        Space("mixins", mixin_cases, run_several, "a generic dataclass with up to 2 of 8 other bases in all orders", chunk=8),
        Space("kinds", kinds_cases, run_kinds, f"{len(KINDS)} kinds of fields re-declared over up to 3 levels, {len(DECOS)} decorators", chunk=8),
        Space("references", ref_cases, run_refs, "forward references of classes and subclasses in two modules", chunk=8),
        Space("typed dicts", td_cases, run_td, "5 keys x 5 types x totality over up to 3 levels; all subsets of keys", chunk=8),
        Space("named tuples", nt_cases, run_nt, "up to 3 of 11 kinds of fields x 5 kinds of subclasses", chunk=8),
        Space("other types", lambda: itertools.product(range(len(NON_SCHEMAS)), ("", "Annotated")), run_non, f"{len(NON_SCHEMAS)} hints, bare and annotated"),
    ]
