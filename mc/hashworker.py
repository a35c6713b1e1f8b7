"""Runs every scenario of C23 and prints what came out, for comparison between processes with different hash seeds.

usage: PYTHONHASHSEED=n python -m mc.hashworker TIER [ID]
"""

import base64
import dataclasses
import datetime
import enum
import hashlib
import itertools
import json
import pickle
import sys
import typing as t

import typing_extensions as te

NAMES = ("a", "b", "c", "d", "e")


def tracked(size: int) -> t.List[t.Tuple[str, ...]]:
    """The sets of names whose iteration orders are covered: all with 2 to *size* names."""
    return [c for k in range(2, size + 1) for c in itertools.combinations(NAMES, k)]


def orders(size: int) -> t.List[str]:
    return ["".join(set(c)) for c in tracked(size)]


def show(v: t.Any) -> str:
    """A representation with the order of everything but the items of sets."""
    if isinstance(v, (set, frozenset)):
        return f"{type(v).__name__}({sorted(show(x) for x in v)})"
    if isinstance(v, tuple) and hasattr(v, "_fields"):
        return f"{type(v).__name__}({', '.join(f'{k}={show(x)}' for k, x in zip(v._fields, v))})"
    if isinstance(v, (list, tuple)):
        return f"{type(v).__name__}[{', '.join(map(show, v))}]"
    if isinstance(v, t.Mapping):
        return f"{type(v).__name__}{{{', '.join(show(k) + ': ' + show(x) for k, x in v.items())}}}"
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return f"{type(v).__name__}({', '.join(f'{f.name}={show(getattr(v, f.name, None))}' for f in dataclasses.fields(v))})"
    if isinstance(v, type):
        return v.__name__
    if type(v).__repr__ is object.__repr__:
        return f"<{type(v).__name__}>"
    return repr(v)


Scenario = t.Tuple[str, t.Callable[[], t.Any]]


def main() -> None:
    from mc import engine

    tier = sys.argv[1]
    engine.TIER = tier
    only = sys.argv[2] if len(sys.argv) > 2 else None
    engine.setup_path()
    import databind.core as dc

    def run(fn: t.Callable[[], t.Any]) -> str:
        try:
            return "ok " + show(fn())
        except dc.ConversionError as exc:
            path = [c.key for c in exc.context.iter_hierarchy_up() if c.parent is not None][::-1]
            # The text of an error may name a set of keys.
            return f"reject {type(exc).__name__} at {path} for {type(exc.context.value).__name__} by {type(exc.origin).__name__}, {len(exc.errors)} errors"
        except Exception as exc:
            return f"crash {type(exc).__name__}"

    out: t.List[t.Tuple[str, str]] = []
    n = 0
    for name, fn in scenarios(tier == "thorough"):
        n += 1
        name = f"{name} #{n}"
        if only is not None and name != only:
            continue
        out.append((name, run(fn)))
    if only is not None:
        print(json.dumps(out))
        return
    blob = [(k, hashlib.blake2b(v.encode("utf8", "backslashreplace"), digest_size=6).digest(), v[:2]) for k, v in out]
    sys.stdout.write(base64.b64encode(pickle.dumps((orders(5), blob))).decode())


def perms(names: t.Sequence[str], deep: bool, k: t.Optional[int] = None) -> t.List[t.Tuple[str, ...]]:
    """With all iteration orders of sets of names being covered, renaming makes no difference: the order in which the
    names are used only matters for what is done on top of that."""
    out = list(itertools.permutations(names, k))
    return out if deep else out[:1] + out[len(out) // 2 :][:1] if len(out) > 1 else out


def scenarios(deep: bool) -> t.Iterator[Scenario]:
    for group in (records, remainders, flattened, aliases, unions, plain_unions, typed_dicts, enums, mappings, sets, dataclasses_, errors, schemas, tables):
        for name, fn in group(deep):
            yield f"{group.__name__}: {name}", fn


def both(load: t.Any, dump: t.Any, dumps: t.Any, hint: t.Any, payload: t.Any) -> t.Callable[[], t.Any]:
    def fn() -> t.Any:
        v = load(payload, hint)
        return [v, dump(v, hint), dumps(v, hint, indent=1)]

    return fn


def make(kind: str, name: str, fields: t.Sequence[t.Tuple[str, t.Any, t.Any]]) -> t.Any:
    """A record class; fields are (name, hint, default or ...)"""
    ns: t.Dict[str, t.Any] = {"__annotations__": {k: h for k, h, _ in fields}, "__module__": __name__}
    if kind == "typeddict":
        td = te.TypedDict(name, {k: h for k, h, _ in fields})  # type: ignore
        for k, _, d in fields:
            if d is not ...:
                setattr(td, k, d)
        return td
    if kind == "namedtuple":
        fields = [f for f in fields if f[2] is ...] + [f for f in fields if f[2] is not ...]
        cls = t.NamedTuple(name, [(k, h) for k, h, _ in fields])  # type: ignore
        cls.__new__.__defaults__ = tuple(d for _, _, d in fields if d is not ...)
        cls._field_defaults = {k: d for k, _, d in fields if d is not ...}
        return cls
    for k, _, d in fields:
        if d is not ...:
            ns[k] = dataclasses.field(default_factory=lambda d=d: type(d)(d)) if isinstance(d, (dict, list)) else d
    cls = type(name, (), ns)
    if kind == "dataclass":
        return dataclasses.dataclass(kw_only=True)(cls)
    from databind.core.dataclasses import dataclass

    return dataclass(cls)


KINDS = ("dataclass", "databind", "namedtuple", "typeddict")


def records(deep: bool) -> t.Iterator[Scenario]:
    from databind.json import dump, dumps, load

    for kind in KINDS:
        for k in (2, 3, 4):
            for names in perms(NAMES[:k], deep):
                for ndef in (0, 1, k):
                    fields = [(n, int, ... if i < k - ndef else i) for i, n in enumerate(names)]
                    cls = make(kind, "R" + "".join(names), fields)
                    pays = [dict.fromkeys(p, 1) for p in itertools.permutations(names)][:: 1 if deep or k < 4 else 5]
                    pays += [{n: 1 for n in names[: k - ndef]}, {}, {**dict.fromkeys(names, 1), "e": 1, "z": 2}]
                    for p in pays:
                        yield f"{kind} {''.join(names)} {ndef} {p}", both(load, dump, dumps, cls, p)


def remainders(deep: bool) -> t.Iterator[Scenario]:
    from databind.core.settings import Alias, Remainder
    from databind.json import dump, dumps, load

    for kind in KINDS:
        for k in (0, 1, 2):
            for names in perms(NAMES[:3], deep, k):
                for alias in (False, True):
                    fields: t.List[t.Any] = [(n, te.Annotated[int, Alias(NAMES[-1 - i], n)] if alias else int, ...) for i, n in enumerate(names)]
                    fields.append(("rest", te.Annotated[t.Dict[str, int], Remainder()], {} if kind == "dataclass" else ...))
                    cls = make(kind, "M", fields)
                    orders = list(itertools.permutations(NAMES[:4]))[:: 1 if deep else 5]
                    if deep:
                        orders += list(itertools.permutations(NAMES))
                    for p in orders:
                        yield f"{kind} {''.join(names)} {alias} {''.join(p)}", both(load, dump, dumps, cls, dict.fromkeys(p, 1))


def flattened(deep: bool) -> t.Iterator[Scenario]:
    from databind.core.settings import Flattened, Remainder
    from databind.json import dump, dumps, load

    for kind in KINDS:
        for inner_kind in KINDS:
            for split in perms("abcd", deep):
                if not deep and (kind != inner_kind and "typeddict" not in (kind, inner_kind)):
                    continue
                for cut in (1, 2, 3):
                    inner = make(inner_kind, "I", [(n, int, ...) for n in split[:cut]])
                    inner2 = make(inner_kind, "J", [(n, int, ...) for n in split[cut:3]])
                    for rest in (False, True):
                        fields: t.List[t.Any] = [("x", te.Annotated[inner, Flattened()], ...), (split[3], int, ...), ("y", te.Annotated[inner2, Flattened()], ...)]
                        if rest:
                            fields.append(("r", te.Annotated[t.Dict[str, int], Remainder()], ...))
                        cls = make(kind, "O", fields)
                        for p in itertools.islice(itertools.permutations(NAMES if rest else NAMES[:4]), 0, None, (7 if rest else 5) if deep else (29 if rest else 11)):
                            yield (f"{kind} {inner_kind} {''.join(split)} {cut} {rest} {''.join(p)}",
                                   both(load, dump, dumps, cls, dict.fromkeys(p, 1)))  # fmt: skip


def aliases(deep: bool) -> t.Iterator[Scenario]:
    from databind.core.settings import Alias, ExtraKeys
    from databind.json import dump, dumps, load

    for kind in KINDS:
        for k in (2, 3, 4):
            for al in perms(NAMES[:k], deep):
                cls = make(kind, "A", [("x", te.Annotated[int, Alias(*al)], ...), ("y", int, 9)])
                for mode in ("extra", "recorded", "strict"):
                    for n in range(1, k + 1):
                        for sub in itertools.combinations(al, n):
                            p = {a: i for i, a in enumerate(reversed(sub))}

                            def fn(cls: t.Any = cls, p: t.Any = p, mode: str = mode) -> t.Any:
                                seen: t.List[t.Any] = []
                                s: t.Any = {
                                    "extra": [ExtraKeys(True)],
                                    "recorded": [ExtraKeys(True, lambda ctx, keys: seen.append(keys))],
                                    "strict": [],
                                }[mode]
                                v = load(p, cls, settings=s)
                                return [v, dump(v, cls), dumps(v, cls), seen]

                            yield f"{kind} {al} {mode} {sub}", fn


def unions(deep: bool) -> t.Iterator[Scenario]:
    from databind.core.settings import Remainder, Union
    from databind.json import dump, dumps, load

    for k in (2, 3, 4):
        for names in perms(NAMES[:k], deep):
            for style in (Union.NESTED, Union.FLAT, Union.KEYED, Union.BEST_MATCH):
                members = {n: make("dataclass", n.upper(), [(m, int, 3) for m in names] + [("r", te.Annotated[t.Dict[str, int], Remainder()], {})]) for n in names}
                Base = Union({**members, "zz": members[names[0]]}, style=style)
                hint = te.Annotated[t.Any, Base]
                for n in names:
                    body = {x: 1 for x in reversed(names)}
                    pays: t.List[t.Any] = [
                        {"type": n, n: body}, {n: body, "type": n}, {**body, "type": n}, {n: body}, body, {"type": n, n: body, "q": 1, "p": 2, "o": 3},
                        {x: body for x in names}, {"type": n, **{x: {} for x in names}},
                    ]  # fmt: skip
                    for i, p in enumerate(pays):
                        yield f"{style} {names} {n} {i}", both(load, dump, dumps, hint, p)
                yield f"{style} {names} ids", lambda Base=Base: [
                    Base.members.get_type_ids(), [Base.members.get_type_id(x) for x in members.values()]]  # fmt: skip


def plain_unions(deep: bool) -> t.Iterator[Scenario]:
    from databind.json import dump, dumps, load

    pool: t.List[t.Any] = [int, str, t.List[int], t.Dict[str, int], make("dataclass", "P", [("a", int, 0)]), make("dataclass", "Q", [("a", int, 0), ("b", int, 1)]), None]
    vals: t.List[t.Any] = [1, "x", [1], ["x"], {}, {"a": 1}, {"b": 1}, {"b": 1, "a": 2}, {"c": 1}, None, 1.5]
    for k in (2, 3) if deep else (2,):
        for mem in itertools.permutations(range(len(pool)), k):
            hint = t.Union[tuple(pool[i] for i in mem)]  # type: ignore[valid-type]
            for i, v in enumerate(vals):
                yield f"{mem} {i}", both(load, dump, dumps, hint, v)


def typed_dicts(deep: bool) -> t.Iterator[Scenario]:
    from databind.core.schema import convert_to_schema
    from databind.core.settings import Alias
    from databind.json import dump, dumps, load
    from typeapi import TypeHint

    for names in perms(NAMES[:4], deep):
        for cut in range(5):
            for total in (True, False):
                for mixed in (0, 1, 2):
                    def build(names: t.Any = names, cut: t.Any = cut, total: t.Any = total, mixed: t.Any = mixed) -> t.Any:
                        if mixed == 0:
                            Base = te.TypedDict("Base", {n: int for n in names[:cut]}, total=total)  # type: ignore
                            ns = {"__annotations__": {n: int for n in names[cut:]}, "__module__": __name__, "__qualname__": "TD"}
                            import types
                            return types.new_class("TD", (Base,), {"total": not total}, lambda d: d.update(ns))
                        if mixed == 1:
                            td = te.TypedDict("TD", {n: int for n in names}, total=total)  # type: ignore
                            for n in names[cut:]:
                                setattr(td, n, 4)
                            return td
                        return te.TypedDict("TD", {n: te.Annotated[int, Alias(n.upper(), n)] for n in names[:cut] } | {n: t.Optional[int] for n in names[cut:]}, total=total)  # type: ignore

                    td = build()
                    tag = f"{''.join(names)} {cut} {total} {mixed}"
                    yield f"{tag} schema", lambda td=td: [(k, f.required) for k, f in convert_to_schema(TypeHint(td)).fields.items()]
                    for p in (names, names[::-1], names[:cut], names[cut:], sorted(names))[:: 1 if deep or cut in (1, 2) else 2]:
                        d = dict.fromkeys(p, 1)
                        yield f"{tag} {p}", both(load, dump, dumps, td, d)
                        yield f"{tag} dump {p}", lambda td=td, d=d: [dump(d, td), dumps(d, td)]


def enums(deep: bool) -> t.Iterator[Scenario]:
    from databind.core.settings import Alias
    from databind.json import dump, dumps, load

    for k in (2, 3, 4):
        for names in perms(NAMES[:k], deep):
            E = enum.Enum("E", {n: i for i, n in enumerate(names)})  # type: ignore

            class Al(enum.Enum):
                x: te.Annotated[int, Alias(*names)] = 1  # type: ignore
                y: te.Annotated[int, Alias(*(n * 2 for n in names))] = 2  # type: ignore

            for n in names:
                yield f"{names} {n}", both(load, dump, dumps, E, n)
                yield f"{names} {n} alias", both(load, dump, dumps, Al, n)
                yield f"{names} {n} alias twice", both(load, dump, dumps, Al, n * 2)
            yield f"{names} keys", both(load, dump, dumps, t.Dict[E, int], {n: 1 for n in reversed(names)})
            yield f"{names} set", lambda E=E: load(list(names), t.Set[E])
            yield f"{names} literal", both(load, dump, dumps, t.List[t.Literal[names]], list(names))  # type: ignore


def mappings(deep: bool) -> t.Iterator[Scenario]:
    from databind.json import dump, dumps, load

    hints: t.List[t.Any] = [
        t.Dict[str, int], t.Mapping[str, int], t.OrderedDict[str, int], t.Dict[str, t.Any], t.Any, object, t.Dict[str, t.Optional[int]],
        t.MutableMapping[str, int], t.Dict[t.Union[int, str], int], t.Dict[t.Literal[NAMES], int],  # type: ignore
    ]  # fmt: skip
    for i, h in enumerate(hints):
        for k in (2, 3, 4, 5):
            for p in perms(NAMES[:k], deep):
                yield f"{i} {p}", both(load, dump, dumps, h, dict.fromkeys(p, 1))
                yield f"{i} {p} nested", both(load, dump, dumps, t.Dict[str, h], {x: dict.fromkeys(p, 1) for x in p})


def sets(deep: bool) -> t.Iterator[Scenario]:
    from databind.json import dump, load

    for i, h in enumerate((t.Set[str], t.FrozenSet[str], t.AbstractSet[str], t.Set[t.Union[int, str]], t.Set[t.Tuple[str, str]])):
        for k in (1, 2, 3):
            for p in itertools.product(NAMES[:3], repeat=k):
                x: t.Any = [[a, a] for a in p] if i == 4 else list(p)

                def fn(h: t.Any = h, x: t.Any = x) -> t.Any:
                    v = load(x, h)
                    return [v, sorted(map(repr, dump(v, h))), load({"k": x}, t.Dict[str, h])]  # type: ignore

                yield f"{i} {p}", fn


def dataclasses_(deep: bool) -> t.Iterator[Scenario]:
    """The order of the fields of databind's dataclasses."""
    import inspect

    from databind.core.dataclasses import dataclass, field
    from databind.json import dump, dumps, load

    for names in perms(NAMES[:4], deep):
        for cut in (1, 2, 3):
            for defaults in itertools.product((False, True), repeat=4):
                if not deep and sum(defaults) not in (1, 2):
                    continue
                def fn(names: t.Any = names, cut: int = cut, defaults: t.Any = defaults) -> t.Any:
                    def ns(part: t.Any) -> t.Any:
                        d: t.Dict[str, t.Any] = {"__annotations__": {n: int for n in part}}
                        for n in part:
                            if defaults[names.index(n)]:
                                d[n] = field(default=5)
                        return d
                    A = dataclass(type("A", (), ns(names[:cut])))
                    B = dataclass(type("B", (), ns(names[1:cut + 1])))
                    C = dataclass(type("C", (A, B), ns(names[cut:])))
                    v = C(**{n: i for i, n in enumerate(names)})
                    return [[f.name for f in dataclasses.fields(C)], str(inspect.signature(C)).count(","), list(inspect.signature(C).parameters), repr(v).rpartition(".")[2], dump(v, C), dumps(v, C),
                            load({n: 1 for n in names}, C)]  # fmt: skip

                yield f"{names} {cut} {defaults}", fn


def errors(deep: bool) -> t.Iterator[Scenario]:
    """Which of several errors is reported."""
    from databind.core.settings import Flattened
    from databind.json import dump, load

    for kind in KINDS:
        for names in perms(NAMES[:3], deep):
            cls = make(kind, "E", [(n, int, ...) for n in names])
            for flat in (False, True):
                outer = make(kind, "OE", [("f", te.Annotated[cls, Flattened()], ...), ("z", int, ...)]) if flat else t.List[cls]  # type: ignore
                for vals in itertools.product((1, "bad", ...), repeat=3):
                    d = {n: v for n, v in zip(names, vals) if v is not ...}
                    for order in (1, -1):
                        p: t.Any = dict(list(d.items())[::order])
                        p = {**p, "z": 1} if flat else [p, p]
                        yield f"{kind} {names} {flat} {vals} {order}", lambda p=p, outer=outer: load(p, outer)
                    if kind == "typeddict":
                        yield f"{kind} {names} {flat} {vals} dump", lambda d=d, cls=cls: dump(d, cls)


def schemas(deep: bool) -> t.Iterator[Scenario]:
    from databind.core.schema import convert_to_schema, get_fields_expanded
    from databind.core.settings import Alias, Flattened
    from typeapi import TypeHint

    for kind in KINDS:
        for names in perms(NAMES[:4], deep):
            def fn(kind: t.Any = kind, names: t.Any = names) -> t.Any:
                inner = make(kind, "I", [(n, te.Annotated[int, Alias(*names)], ...) for n in names[2:]])
                cls = make(kind, "S", [(n, int, ...) for n in names[:2]] + [("f", te.Annotated[inner, Flattened()], ...)])
                schema = convert_to_schema(TypeHint(cls))
                exp = get_fields_expanded(schema)
                return [[(k, f.aliases, f.required) for k, f in schema.fields.items()], {k: list(v) for k, v in exp.items()}]

            yield f"{kind} {names}", fn


def tables(deep: bool) -> t.Iterator[Scenario]:
    """The order of ids in union tables."""
    from databind.core.union import ChainUnionMembers, ImportUnionMembers, StaticUnionMembers

    for names in perms(NAMES[:4], True):
        def fn(names: t.Any = names) -> t.Any:
            a, b = StaticUnionMembers({}), StaticUnionMembers({})
            for n in names[:2]:
                a.register(n)(type(n, (), {}))
            same = type("same", (), {})
            for n in names:
                b.register(n)(same)
            c = ChainUnionMembers(a, b)
            return [a.get_type_ids(), b.get_type_ids(), c.get_type_ids(), b.get_type_id(same), c.get_type_id(same), c.get_type_by_id(names[3]),
                    ChainUnionMembers(b, a, ImportUnionMembers()).get_type_id(same)]  # fmt: skip

        yield f"{names}", fn
    yield "formats", lambda: datetime.date(2020, 1, 2)


if __name__ == "__main__":
    main()
