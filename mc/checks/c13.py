"""C13: conversion errors point at the offending sub-value."""

import dataclasses
import enum
import itertools
import typing as t

import databind.core as dc
from databind.json import JsonConverter, dump, dumps, get_object_mapper, load, loads

from mc import model as m
from mc import typespace as ts
from mc.checks import c03
from mc.engine import Recorder, Space, thorough

ASSUMPTIONS = [
    "the trace may name a field by its name or by its alias, leave out the level of a flattened or remainder field, and "
    "name a mapping key at fault by the key or in some form of it",
    "a plain union is at fault itself when none of its members accepts",
]

FILENAME = "dir/some file.json"
ATOMS: t.List[t.Any] = [None, True, 7, 1.5, 10**400, "zz", [], {}]


def leads_to(exc: dc.ConversionError, root: t.Any, path: t.Sequence[t.Any], expected: t.Tuple[t.Any, ...]) -> t.Optional[str]:
    """The context of the error holds the value that its path leads to (where the path follows the payload)."""
    if any(isinstance(e, m.OptKey) or e is None for e in expected):
        return None
    v = root
    for k in path:
        if isinstance(v, dict) and k in v:
            v = v[k]
        elif isinstance(v, (list, tuple)) and isinstance(k, int) and k < len(v):
            v = v[k]
        else:
            return None  # a key at fault, a field name
    got = exc.context.value
    if got is v or type(got) is type(v) and m.canon(got) == m.canon(v):
        return None
    if isinstance(got, dict) and isinstance(v, dict) and all(k in v and m.canon(v[k]) == m.canon(x) for k, x in got.items()):
        return None  # without the discriminator
    return f"the context holds {got!r}, the path leads to {v!r}"


def check_text(exc: dc.ConversionError, filename: t.Optional[str]) -> t.Optional[str]:
    try:
        text = str(exc)
    except Exception as e:
        return f"str() of the error raised {e!r}"
    # The text is indented, which also moves the lines of multi-line parts.
    text, message = squeeze(text), squeeze(exc.message)
    if not message or message not in text:
        return f"the text {text!r} does not show the message {exc.message!r}"
    if filename is not None and squeeze(filename) not in text:
        return f"the text {text!r} does not show the file name"
    pos = text.index(message) + len(message)
    for ctx in list(exc.context.iter_hierarchy_up())[::-1]:
        if ctx.key is not None and ctx.parent is not None:
            try:
                key = squeeze(ctx.key if isinstance(ctx.key, str) else repr(ctx.key))
                forms = [key] if type(ctx.key) is str else [key, squeeze(str(ctx.key)), squeeze(format(ctx.key))]
            except Exception:
                continue  # shown in some other form
            at = min((i for i in (text.find(k, pos) for k in forms) if i >= 0), default=-1)
            if at < 0:
                return f"the text {text!r} does not show {key!r} of the path"
            pos = at + (len(key) if len(forms) == 1 else 1)
    return None


def squeeze(text: str) -> str:
    return "".join(text.split())


def shows(exc: t.Any, expected: t.Tuple[t.Any, ...]) -> bool:
    """Whether the error points to the place, or, if several converters claim the type, one of their errors does."""
    if m.path_matches(expected, m.error_path(exc)):
        return True
    several = isinstance(exc, dc.NoMatchingConverter) and len(exc.errors) > 1
    return several and any(isinstance(e, dc.ConversionError) and shows(e, expected) for _, e in exc.errors)


def check_error(rec: Recorder, what: t.Any, exc: t.Any, expected: t.Optional[t.Tuple[t.Any, ...]], root: t.Any,
                filename: t.Optional[str], key: t.Any, walk: bool = True) -> bool:  # fmt: skip
    rec.state(key)
    rec.trans()
    path = m.error_path(exc)
    rec.outcome(f"depth {len(path)}")
    bad = None
    chain = list(exc.context.iter_hierarchy_up())
    if chain[-1].parent is not None or chain[-1].key is not dc.Context.ROOT or any(c.key is dc.Context.ROOT for c in chain[:-1]):
        bad = "the context chain does not end at the root"
    elif chain[-1].value is not root and m.canon(chain[-1].value) != m.canon(root):
        bad = f"the root of the context chain holds {chain[-1].value!r}"
    elif expected is not None and not shows(exc, tuple(e for e in expected if e is not None)):
        bad = f"the error points to {path!r}; the fault is at {expected!r}"
    elif any(c.location.filename != filename for c in chain):
        bad = f"the file name {filename!r} is not carried by {[c.location.filename for c in chain]}"
    if bad is None and expected is not None and walk:
        bad = leads_to(exc, root, path, expected)
    if bad is None:
        bad = check_text(exc, filename)
    if bad:
        rec.fail(f"{what}: {bad}\n{type(exc).__name__}: {exc.message}")
        return False
    rec.ok()
    return True


# -- composed types ----------------------------------------------------------------------------------------------------


def check_type(typ: m.T, depth: int, rec: Recorder) -> None:
    deep = thorough()
    atoms = ATOMS if depth <= 1 or deep else ATOMS[:1] + ATOMS[5:]
    for n, p in enumerate(m.payloads(typ, atoms, 3 if depth <= 1 else 2)):
        exp = m.expect(typ.dec, p)
        if exp.kind != "reject":
            continue
        filename = FILENAME if n % 3 else None
        got = m.attempt(load, p, typ.hint, filename=filename)
        if got.kind != "reject":
            continue  # C02
        if not check_error(rec, f"load({p!r}, {typ.label})", got.exc, exp.path, p, filename, (typ.label, m.short_canon(p))):
            return
    pool = [None, True, 7, 1.5, "zz", b"b", (1,), [], {}, c03.Foreign()] if depth <= 1 or deep else [None, 7, c03.Foreign()]
    for v in typ.vals()[: 3 if depth <= 1 else 2]:
        for n, x in enumerate(c03.mutations(v, pool)):
            try:
                exp = m.expect(typ.enc, x)
            except Exception:
                continue
            if exp.kind != "reject":
                continue
            filename = FILENAME if n % 3 else None
            got = m.attempt(dump, x, typ.hint, filename=filename)
            if got.kind != "reject":
                continue  # C03
            what = f"dump({x!r}, {typ.label})"
            if not check_error(rec, what, got.exc, exp.path, x, filename, (typ.label, "d", m.short_canon(x))):
                return


# -- types without a converter -----------------------------------------------------------------------------------------


class Foo:
    pass


class FooT(m.T):
    """A type that nothing converts."""

    hint, label, hashable = Foo, "Foo", True

    def vals(self) -> t.List[t.Any]:
        return [FOO]

    def enc(self, v: t.Any, env: m.Env = m.ENV, loc: t.Any = m.NOLOC) -> t.Any:
        if v is FOO:
            return "foo"
        raise m.Rej

    def dec(self, p: t.Any, env: m.Env = m.ENV, loc: t.Any = m.NOLOC) -> t.Any:
        if p == "foo":
            return FOO
        raise m.Rej

    def pytype(self) -> t.Any:
        return Foo


FOO = Foo()


class Blind(FooT):
    def dec(self, p: t.Any, env: m.Env = m.ENV, loc: t.Any = m.NOLOC) -> t.Any:
        raise m.Rej

    enc = dec


class Failing(dc.Converter):
    def convert(self, ctx: dc.Context) -> t.Any:
        raise dc.ConversionError(self, ctx, "custom failure")


class Dup(dc.Converter):
    """Fails together with another converter."""

    def convert(self, ctx: dc.Context) -> t.Any:
        if isinstance(ctx.value, Foo) or ctx.value == "foo":
            raise dc.ConversionError(self, ctx, "dup")
        raise NotImplementedError


def run_unsupported(case: t.Any, rec: Recorder) -> None:
    chain, how = case
    good: t.Optional[m.T] = FooT()
    bad: t.Optional[m.T] = Blind()
    assert good and bad
    if how == "custom":
        good.hint = bad.hint = t.Annotated[Foo, JsonConverter(Failing())]  # type: ignore[misc]
    table = dict(m.wrappers())
    for w in chain:
        bad = table[w](bad) if bad else None
        good = table[w](good) if good else None
    if bad is None or good is None:
        return
    mapper = get_object_mapper()
    if how == "several":
        mapper.module.register(Dup())
        mapper.module.register(Dup(), first=True)
    try:
        vals = good.vals()
    except IndexError:
        return
    for v in vals:
        try:
            p = m.plain(good.enc(v))
        except (m.Rej, m.Unspec):
            continue
        exp = m.expect(bad.dec, p)
        if exp.kind == "reject":
            got = m.attempt(mapper.deserialize, p, bad.hint, FILENAME)
            if got.kind != "reject":
                return rec.fail(f"load({p!r}, {bad.label}) {got!r}")
            if not check_error(rec, f"load({p!r}, {bad.label})", got.exc, exp.path, p, FILENAME, (case, repr(p))):
                return
    if any(w in ("Nested", "NestedPlain", "Keyed", "Flat") for w in chain):
        return
    tb: t.Any = bad
    for v in vals:
        # The classes of the two types differ; build the value for the failing one.
        w2 = rebuild(v, good, tb)
        exp = m.expect(tb.enc, w2)
        if exp.kind != "reject":
            continue
        got = m.attempt(mapper.serialize, w2, tb.hint, FILENAME)
        if got.kind != "reject":
            return rec.fail(f"dump({w2!r}, {tb.label}) {got!r}")
        if not check_error(rec, f"dump({w2!r}, {tb.label})", got.exc, exp.path, w2, FILENAME, (case, "d", repr(w2)[:80])):
            return


def rebuild(v: t.Any, a: t.Any, b: t.Any) -> t.Any:
    if isinstance(a, m.RecT):
        if a.kind == "typeddict":
            return {k: rebuild(x, fa.typ, fb.typ) for k, x in v.items() for fa, fb in zip(a.fields, b.fields) if fa.name == k}
        return b.make(**{fa.name: rebuild(getattr(v, fa.name), fa.typ, fb.typ) for fa, fb in zip(a.fields, b.fields)})
    if isinstance(a, m.SeqT):
        return a.rt(rebuild(x, a.item, b.item) for x in v)
    if isinstance(a, m.TupleT):
        return tuple(rebuild(x, i, j) for x, i, j in zip(v, a.items, b.items))
    if isinstance(a, m.MapT):
        return a.rt((rebuild(k, a.key, b.key), rebuild(x, a.val, b.val)) for k, x in v.items())
    if isinstance(a, m.OptT):
        return None if v is None else rebuild(v, a.inner, b.inner)
    if isinstance(a, m.UnionT):
        for x, y in zip(a.members, b.members):
            if type(v) is x.pytype():
                return rebuild(v, x, y)
    return v


def unsupported_cases() -> t.Iterator[t.Any]:
    allw = ts.all_wrappers()
    for how in ("unknown", "custom", "several"):
        yield (), how
        for w in allw:
            yield (w,), how
        for c in m.chains(2, allw):
            yield c, how
        if thorough():
            for c in m.chains(3, m.MAIN_WRAPPERS):
                yield c, how


# -- entry points, file names and locations ----------------------------------------------------------------------------

FILENAMES = (None, "", "a.json", "/abs/päth\n.json", "x" * 300)
ENTRIES = ("load", "loads", "deserialize", "convert load", "dump", "dumps", "serialize", "convert dump")


@dataclasses.dataclass
class In:
    v: int


@dataclasses.dataclass
class Out:
    i: t.List[In]
    d: t.Dict[str, t.Tuple[int, In]]


def run_entry(case: t.Any, rec: Recorder) -> None:
    entry, filename, kw, fault, line, col = case
    bad_in = fault == "list"
    payload: t.Any = {"i": [{"v": 1}, {"v": "x" if bad_in else 2}], "d": {"k": [1, {"v": 3 if bad_in else "x"}]}}
    value: t.Any = Out([In(1), In("x" if bad_in else 2)], {"k": (1, In(3 if bad_in else "x"))})  # type: ignore[arg-type]
    path = ("i", 1, "v") if bad_in else ("d", "k", 1, "v")
    mapper = get_object_mapper()
    args: t.Tuple[t.Any, ...] = () if kw or filename is None else (filename,)
    kwargs = {"filename": filename} if kw else {}
    loading = "load" in entry or entry == "deserialize"
    arg = payload if loading else value
    import json

    loc = dc.Location(filename, line, col)
    fn: t.Callable[[], t.Any] = {
        "load": lambda: load(payload, Out, *args, **kwargs),
        "loads": lambda: loads(json.dumps(payload), Out, *args, **kwargs),
        "deserialize": lambda: mapper.deserialize(payload, Out, *args, **kwargs),
        "dump": lambda: dump(value, Out, *args, **kwargs),
        "dumps": lambda: dumps(value, Out, *args, **kwargs),
        "serialize": lambda: mapper.serialize(value, Out, *args, **kwargs),
        "convert load": lambda: mapper.convert(dc.Direction.DESERIALIZE, payload, Out, loc),
        "convert dump": lambda: mapper.convert(dc.Direction.SERIALIZE, value, Out, loc),
    }[entry]
    got = m.attempt(fn)
    if got.kind != "reject":
        return rec.fail(f"{case}: {got!r}")
    if not check_error(rec, case, got.exc, path, arg, filename, case, walk=loading):
        return
    assert got.exc is not None
    chain = list(got.exc.context.iter_hierarchy_up())  # type: ignore[attr-defined]
    if entry.startswith("convert"):
        root = chain[-1].location
        if (root.line, root.column) != (line, col):
            return rec.fail(f"{case}: the root is at {root}")
        if line and f"{line}:{col}" not in str(got.exc):
            return rec.fail(f"{case}: {got.exc} does not show the location {line}:{col}")
    if any(c.location.line is not None or c.location.column is not None for c in chain[:-1]):
        return rec.fail(f"{case}: a child context has a line or column: {[c.location for c in chain]}")


def entry_cases() -> t.Iterator[t.Any]:
    for entry in ENTRIES:
        for filename in FILENAMES:
            for kw in (False, True):
                for fault in ("list", "dict"):
                    for line, col in ((None, None), (3, 7)) if entry.startswith("convert") else ((None, None),):
                        yield entry, filename, kw, fault, line, col


# -- text of odd errors ------------------------------------------------------------------------------------------------


class BadRepr:
    def __repr__(self) -> str:
        raise RuntimeError("no repr")

    __str__ = __repr__
    __hash__ = object.__hash__


class Meta(type):
    def __repr__(cls) -> str:
        raise RuntimeError("no repr of the class")


class BadClass(metaclass=Meta):
    pass


BAD = BadRepr()
KEYS: t.List[t.Any] = ["", "a b", "a.b", "\n", "ü", "\ud800", "x" * 500, 0, -1, 10**30, 1.5, None, True, (1, 2), b"k", "$", "^", "%s", "{x}", 10**5000, BAD]


def run_text(case: t.Any, rec: Recorder) -> None:
    """Any keys and values can appear in the path and the message."""
    ki, kj, what = case
    k1, k2 = KEYS[ki], KEYS[kj]
    odd: t.Dict[str, t.Any] = {
        "bad repr": BadRepr(), "bad class": BadClass(), "class": BadClass, "nan": float("nan"), "bytes": b"\xff",
        "surrogate": "\ud800", "nested": {"a": [BadRepr()]}, "exception": ValueError("x"), "huge": -(10**5000),
    }  # fmt: skip
    value = odd[what]
    leaf = {"bytes": int, "huge": str}.get(what, t.Literal["a", 3])
    typ: t.Any = t.Dict[t.Any, t.Dict[t.Any, leaf]]
    payload = {k1: {k2: value}}
    for how, fn in (("load", load), ("dump", dump)):
        got = m.attempt(fn, payload, typ, FILENAME)
        if got.kind != "reject":
            return rec.fail(f"{how} with keys {ki}, {kj} and {what}: {got.kind} {type(got.exc).__name__}")
        if not check_error(rec, f"{how} with keys {ki}, {kj} and {what}", got.exc, None, payload, FILENAME, (case, how)):
            return
        if m.error_path(got.exc) != [k for k in (k1, k2) if k is not None]:  # type: ignore[arg-type]
            return rec.fail(f"{how} with keys {ki}, {kj} and {what}: the error points elsewhere")  # type: ignore[arg-type]


def text_cases() -> t.Iterator[t.Any]:
    whats = ("bad repr", "bad class", "class", "nan", "bytes", "surrogate", "nested", "exception", "huge")
    for i in range(len(KEYS)):
        for j in range(len(KEYS)):
            for w in whats:
                yield i, j, w


def run_errors(case: t.Any, rec: Recorder) -> None:
    """Errors that collect other errors show the messages of all of them, in order."""
    n, depth = case
    mapper = get_object_mapper()

    class Fail(dc.Converter):
        def __init__(self, i: int) -> None:
            self.i = i

        def convert(self, ctx: dc.Context) -> t.Any:
            if ctx.value != "foo":
                raise NotImplementedError
            raise dc.ConversionError(self, ctx, f"message no. {self.i}")

    for i in range(n):
        mapper.module.register(Fail(i))
    typ: t.Any = Foo
    payload: t.Any = "foo"
    path: t.List[t.Any] = []
    for i in range(depth):
        if i % 2:
            typ, payload, path = t.List[typ], [payload], [0] + path
        else:
            typ, payload, path = t.Dict[str, typ], {"k": payload}, ["k"] + path
    for direction in (0, 1):
        got = m.attempt(mapper.serialize if direction else mapper.deserialize, payload, typ, FILENAME)
        if got.kind != "reject":
            return rec.fail(f"{case}: {got!r}")
        if not check_error(rec, case, got.exc, tuple(path), payload, FILENAME, (case, direction)):
            return
        text, pos = str(got.exc), 0
        for i in range(n):
            pos = text.find(f"message no. {i}", pos)
            if pos < 0:
                return rec.fail(f"{case}: {text} does not show message {i} in order")


def run_union(case: t.Any, rec: Recorder) -> None:
    """The error of a plain union shows what each member objected to."""
    pos, payload = case
    a = m.RecT("Aaa", [m.F("p", m.INT)])
    b = m.RecT("Bbb", [m.F("p", m.STR), m.F("q", m.INT)])
    typ: m.T = m.UnionT(a, b, m.BOOL)
    p = payload
    path: t.Tuple[t.Any, ...] = ()
    if pos == "list":
        typ, p, path = m.SeqT("List", typ), [True, payload], (1,)
    elif pos == "field":
        typ, p, path = m.RecT("Ccc", [m.F("u", typ)]), {"u": payload}, ("u",)
    exp = m.expect(typ.dec, p)
    if exp.kind != "reject":
        return
    got = m.attempt(load, p, typ.hint, FILENAME)
    if got.kind != "reject":
        return rec.fail(f"{case}: {got!r}")
    check_error(rec, f"load({p!r}, {typ.label})", got.exc, path, p, FILENAME, (case,))


KEYT: t.Dict[str, t.Any] = {"str": str, "int": int, "bool": bool, "Literal": t.Literal["a", 3], "tuple": t.Tuple[int, int]}


def run_keys(case: t.Any, rec: Recorder) -> None:
    """Any object as the key of a mapping that cannot take it, as a union discriminator, as an enum member."""
    ki, kt, pos = case
    k = KEYS[ki]
    typ: t.Any = t.Dict[KEYT[kt], int] if kt in KEYT else KEYED if kt == "keyed" else t.Dict[str, IntE]
    payload: t.Any = {"k": k} if kt == "IntEnum" else {k: 1}
    path: t.List[t.Any] = ["p"] if pos == "dict" else [1] if pos == "list" else []
    if pos == "list":
        typ, payload = t.Tuple[int, typ], [1, payload]
    elif pos == "dict":
        typ, payload = t.Dict[str, typ], {"p": payload}
    got = m.attempt(load, payload, typ, FILENAME)
    if got.kind == "crash":
        return rec.fail(f"load with key {ki} as {kt} in {pos}: {type(got.exc).__name__}")
    if got.kind == "ok":
        return rec.ok()
    if not check_error(rec, f"load with key {ki} as {kt} in {pos}", got.exc, None, payload, FILENAME, case):
        return
    if m.error_path(got.exc)[: len(path)] != path:  # type: ignore[arg-type]
        rec.fail(f"load with key {ki} as {kt} in {pos}: the error points elsewhere")


class IntE(enum.IntEnum):
    a = 1


@dataclasses.dataclass
class KeyedMember:
    v: int


class Opaque:
    pass


KEYED = t.Annotated[Opaque, dc.Union({"m": KeyedMember}, style=dc.Union.KEYED)]


# -- deep --------------------------------------------------------------------------------------------------------------


def run_deep(case: t.Any, rec: Recorder) -> None:
    """A single fault at each position of a wide and of a deep payload."""
    kind, n, pos = case
    if kind == "list":
        typ: t.Any = t.List[int]
        p: t.Any = [i if i != pos else "x" for i in range(n)]
        path: t.Tuple[t.Any, ...] = (pos,)
    elif kind == "record":
        rt = m.RecT("Wide", [m.F(f"f{i}", m.INT, alias=(f"a{i}",) if i % 2 else ()) for i in range(n)])
        typ = rt.hint
        p = {f.keys[0]: i if i != pos else None for i, f in enumerate(rt.fields)}
        path = (m.AltKey((f"f{pos}", f"a{pos}")),)
    elif kind == "dict":
        typ = t.Dict[str, t.Optional[int]]
        p = {f"k{i}": i if i != pos else "x" for i in range(n)}
        path = (f"k{pos}",)
    else:
        typ, p, path = int, 1, ()
        for i in range(n):
            typ = t.List[typ]
        # a list at depth `pos` is replaced
        p = "x"
        path = (0,) * pos
        for i in range(pos):
            p = [p]
    got = m.attempt(load, p, typ, FILENAME)
    if got.kind != "reject":
        return rec.fail(f"{case}: {got!r}")
    check_error(rec, case, got.exc, path, p, FILENAME, case, walk=kind != "record")


def deep_cases() -> t.Iterator[t.Any]:
    for kind in ("list", "record", "dict", "deep"):
        for n in range(1, 13 if kind != "deep" else 26):
            for pos in range(n + (kind == "deep")):
                yield kind, n, pos


def spaces() -> t.List[Space]:
    deep = thorough()
    core = ts.core_indices()
    out = ts.type_spaces(
        check_type,
        depth2_leaves=core if deep else core[:1],
        depth3_leaves=core[:1] if deep else (),
        depth3_wrappers=m.MAIN_WRAPPERS,
        unions=(2,),
        union_wraps=("", "List"),
    )
    upays: t.List[t.Any] = [{}, {"p": None}, {"p": 1, "q": 2}, {"p": "s", "q": "x"}, {"p": []}, 1, "x", None, [], [1]]
    return out + [
        Space("unsupported", unsupported_cases, run_unsupported,
              "a type without converter, with a failing converter, or with several, under up to two constructors", chunk=4),
        Space("entry points", entry_cases, run_entry, f"{len(ENTRIES)} entry points x file names x locations"),
        Space("text", text_cases, run_text, f"pairs of {len(KEYS)} keys x 9 odd values", chunk=32),
        Space("keys", lambda: itertools.product(range(len(KEYS)), [*KEYT, "keyed", "IntEnum"], ("root", "list", "dict")), run_keys,
              f"{len(KEYS)} keys under key types, as discriminator and as enum value"),
        Space("collected errors", lambda: itertools.product(range(0, 6), range(0, 4)), run_errors, "up to 5 failing converters"),
        Space("plain unions", lambda: itertools.product(("root", "list", "field"), upays), run_union, "rejected union payloads"),
        Space("deep", deep_cases, run_deep, "a fault at each position of wide and deep payloads"),
    ]  # fmt: skip


