"""C21: every entry point agrees, and copies of mappers and settings are independent."""

import functools
import itertools
import json
import typing as t

import databind.core as dc
from databind.core.context import Context, Direction, Location
from databind.core.converter import Converter
from databind.core.mapper import ObjectMapper
from databind.core.settings import Priority, Setting, Settings, SettingsProvider, Strict
from databind.json import dump, dumps, get_object_mapper, load, loads
from typeapi import AnnotatedTypeHint, ClassTypeHint, TypeHint
from typing_extensions import Annotated

from mc import model as m
from mc import typespace as ts
from mc.engine import Recorder, Space, thorough

ASSUMPTIONS = [
    "the standard library's json module is the JSON codec",
    "a copy refers to the same parent settings as its original (the parent's own changes are seen by both)",
]

# -- entry points ------------------------------------------------------------------------------------------------------


def view(o: m.Outcome) -> t.Any:
    """What of an outcome must be the same for all entry points."""
    if o.kind == "ok":
        return ("ok", m.canon(o.value))
    if o.kind == "reject":
        exc = t.cast(dc.ConversionError, o.exc)
        return ("reject", type(exc).__name__, repr(m.error_path(exc)), type(exc.context.value).__name__)
    return ("crash", type(o.exc).__name__)


def files(o: m.Outcome) -> t.Set[t.Any]:
    exc = t.cast(dc.ConversionError, o.exc)
    return {ctx.location.filename for ctx in exc.context.iter_hierarchy_up()}


def lenient() -> t.List[Setting]:
    return [Strict(False)]


class Fixed(SettingsProvider):
    """A provider that is no `Settings` object."""

    def __init__(self, settings: t.List[Setting]) -> None:
        self.settings = settings

    def get_setting(self, context: t.Any, setting_type: t.Any) -> t.Any:
        for s in self.settings:
            if isinstance(s, setting_type):
                return s
        return None


class Empty(Fixed):
    """A provider that looks like an empty container."""

    def __len__(self) -> int:
        return 0


class EmptySettings(Settings):
    def __len__(self) -> int:
        return 0


def conditional() -> Settings:
    s = Settings()
    s.add_conditional(lambda ctx: True, Strict(False))
    return s


def with_global() -> Settings:
    s = Settings()
    s.add_global(Strict(False))
    return s


def empty_settings() -> Settings:
    s = EmptySettings()
    s.add_global(Strict(False))
    return s


def copied() -> "ObjectMapper[t.Any, t.Any]":
    return get_object_mapper(with_global()).copy()


#: name, settings argument or None, whether it has the effect of Strict(False)
SETTINGS: t.List[t.Tuple[str, t.Callable[[], t.Any], bool]] = [
    ("none", lambda: None, False),
    ("empty list", lambda: [], False),
    ("list", lenient, True),
    ("Settings()", Settings, False),
    ("Settings with a global", with_global, True),
    ("Settings with a condition", conditional, True),
    ("child Settings", lambda: Settings(with_global()), True),
    ("child of a foreign provider", lambda: Settings(Fixed(lenient())), True),
    ("child of a provider of length 0", lambda: Settings(Empty(lenient())), True),
    ("Settings(None, list)", lambda: Settings(None, lenient()), True),
    ("copy", lambda: with_global().copy(), True),
    ("foreign provider", lambda: Fixed(lenient()), True),
    ("foreign provider of length 0", lambda: Empty(lenient()), True),
    ("Settings of length 0", empty_settings, True),
]  # fmt: skip



def loaders(hint: t.Any, filename: t.Any, settings: t.Any) -> t.Iterator[t.Tuple[str, t.Callable[[t.Any], t.Any]]]:
    """Every way to deserialize."""
    mp: "ObjectMapper[t.Any, t.Any]" = get_object_mapper()
    D = Direction.DESERIALIZE
    loc = Location(filename, None, None)
    yield "load", lambda p: load(p, hint, filename, settings)
    yield "load by keyword", lambda p: load(value=p, type_=hint, filename=filename, settings=settings)
    yield "deserialize", lambda p: mp.deserialize(p, hint, filename, settings)
    yield "deserialize by keyword", lambda p: mp.deserialize(value=p, datatype=hint, filename=filename, settings=settings)
    yield "deserialize(TypeHint)", lambda p: mp.deserialize(p, TypeHint(hint), filename, settings)
    yield "load(TypeHint)", lambda p: load(p, TypeHint(hint), filename, settings)
    yield "convert", lambda p: mp.convert(D, p, hint, loc, settings)
    yield "convert(TypeHint)", lambda p: mp.convert(direction=D, value=p, datatype=TypeHint(hint), location=loc, settings=settings)
    yield "copy", lambda p: mp.copy().deserialize(p, hint, filename, settings)
    if isinstance(settings, Settings):
        own: "ObjectMapper[t.Any, t.Any]" = get_object_mapper(settings)
        yield "mapper with the settings", lambda p: own.deserialize(p, hint, filename)
        yield "mapper with the settings, by keyword", lambda p: own.convert(D, p, hint, location=loc)
        yield "copy of the mapper with the settings", lambda p: own.copy().deserialize(p, hint, filename=filename)
    elif isinstance(settings, list):
        own = get_object_mapper(Settings(None, settings))
        yield "mapper with the settings", lambda p: own.deserialize(p, hint, filename)
    elif settings is None:
        yield "convert without settings", lambda p: mp.convert(D, p, hint, loc)
        yield "load without settings", lambda p: load(p, hint, filename=filename)
        if filename is None:
            yield "load(p, hint)", lambda p: load(p, hint)
            yield "deserialize(p, hint)", lambda p: mp.deserialize(p, hint)
            yield "convert(p, hint)", lambda p: mp.convert(D, p, hint)


def dumpers(hint: t.Any, filename: t.Any, settings: t.Any) -> t.Iterator[t.Tuple[str, t.Callable[[t.Any], t.Any]]]:
    mp: "ObjectMapper[t.Any, t.Any]" = get_object_mapper()
    D = Direction.SERIALIZE
    loc = Location(filename, None, None)
    yield "dump", lambda v: dump(v, hint, filename, settings)
    yield "dump by keyword", lambda v: dump(value=v, type_=hint, filename=filename, settings=settings)
    yield "serialize", lambda v: mp.serialize(v, hint, filename, settings)
    yield "serialize by keyword", lambda v: mp.serialize(value=v, datatype=hint, filename=filename, settings=settings)
    yield "serialize(TypeHint)", lambda v: mp.serialize(v, TypeHint(hint), filename, settings)
    yield "dump(TypeHint)", lambda v: dump(v, TypeHint(hint), filename, settings)
    yield "convert", lambda v: mp.convert(D, v, hint, loc, settings)
    yield "copy", lambda v: mp.copy().serialize(v, hint, filename, settings)
    if isinstance(settings, Settings):
        own: "ObjectMapper[t.Any, t.Any]" = get_object_mapper(settings)
        yield "mapper with the settings", lambda v: own.serialize(v, hint, filename)
    elif settings is None:
        yield "dump without settings", lambda v: dump(v, hint, filename=filename)
        if filename is None:
            yield "dump(v, hint)", lambda v: dump(v, hint)
            yield "serialize(v, hint)", lambda v: mp.serialize(v, hint)
            yield "convert(v, hint)", lambda v: mp.convert(D, v, hint)


ATOMS: t.Tuple[t.Any, ...] = (0, "5", None, [], {}, 1.5)
FILES = (None, "f.json", "")


def loading_of(typ: m.T, depth: int, rec: Recorder) -> None:
    """All ways to load every payload agree with each other and, for text, with the JSON codec."""
    hint = typ.hint
    ways = {(f, n): list(loaders(hint, f, mk())) for f in FILES[:2] for n, mk, _ in SETTINGS[:3:2]}
    n = 0
    for p in m.payloads(typ, ATOMS if depth == 0 else ATOMS[1:4], 2 if depth == 0 else 1):
        n += 1
        for (f, sname), fns in ways.items():
            ref: t.Any = None
            first = ""
            for name, fn in fns:
                got = m.attempt(fn, m.copy_json(p))
                rec.trans()
                v = view(got)
                if ref is None:
                    ref, first = v, name
                elif v != ref:
                    return rec.fail(f"{p!r} as {typ.label}, settings {sname}: {name} {got!r}, but {first} gave {ref}")
                if got.kind == "reject" and files(got) != {f}:
                    return rec.fail(f"{p!r} as {typ.label}: {name} with filename {f!r} reports the files {files(got)}")
                rec.ok()
            rec.outcome(ref[0])
            if not m.json_text_safe(p):
                continue
            mk = {x[0]: x[1] for x in SETTINGS}[sname]
            for text in (json.dumps(p), " \n" + json.dumps(p, indent=1, ensure_ascii=False) + "\t"):
                decoded = json.loads(text)
                want = view(m.attempt(load, decoded, hint, f, mk()))
                forms: t.List[t.Tuple[str, t.Callable[[], t.Any]]] = [
                    ("loads", lambda: loads(text, hint, f, mk())),
                    ("loads by keyword", lambda: loads(value=text, type_=hint, filename=f, settings=mk())),
                ]
                if sname == "none":
                    forms.append(("loads without settings", lambda: loads(text, hint, filename=f)))
                    if f is None:
                        forms.append(("loads(text, hint)", lambda: loads(text, hint)))
                for name, g in forms:
                    got = m.attempt(g)
                    rec.trans()
                    if view(got) != want:
                        return rec.fail(f"{text!r} as {typ.label}, settings {sname}: {name} {got!r}, but load of the decoded text gave {want}")
                    if got.kind == "reject" and files(got) != {f}:
                        return rec.fail(f"{text!r} as {typ.label}: {name} with filename {f!r} reports the files {files(got)}")
                    rec.ok()
        rec.state((typ.label, m.canon(p)))
        if depth and n >= 6 and not thorough():
            break


DUMPS_FORMS: t.List[t.Dict[str, t.Any]] = [
    {}, {"indent": None}, {"indent": 0}, {"indent": 2}, {"indent": "\t"}, {"sort_keys": True}, {"sort_keys": False, "indent": 1},
    {"indent": 3, "sort_keys": True},
]  # fmt: skip


def dumping_of(typ: m.T, depth: int, rec: Recorder) -> None:
    hint = typ.hint
    values = list(typ.vals()[: 3 if depth == 0 else 2]) + [None, 5, "x", object(), [1], {"a": 1}][: 6 if depth == 0 else 3]
    for v in values:
        for f in FILES[:2]:
            for sname, mk, _ in SETTINGS[:3:2]:
                ref: t.Any = None
                plain: t.Any = None
                first = ""
                for name, fn in dumpers(hint, f, mk()):
                    got = m.attempt(fn, v)
                    rec.trans()
                    w = view(got)
                    if ref is None:
                        ref, first, plain = w, name, got.value
                    elif w != ref:
                        return rec.fail(f"{v!r} as {typ.label}, settings {sname}: {name} {got!r}, but {first} gave {ref}")
                    if got.kind == "reject" and files(got) != {f}:
                        return rec.fail(f"{v!r} as {typ.label}: {name} with filename {f!r} reports the files {files(got)}")
                    rec.ok()
                rec.outcome(ref[0])
                for kw in DUMPS_FORMS:
                    if ref[0] == "ok":
                        try:
                            want: t.Any = ("ok", json.dumps(plain, **kw))
                        except Exception as exc:
                            want = ("crash", type(exc).__name__)
                    else:
                        want = ref
                    calls: t.List[t.Callable[[], t.Any]] = [lambda: dumps(v, hint, f, mk(), **kw)]
                    if set(kw) == {"indent"}:
                        calls.append(lambda: dumps(v, hint, f, mk(), kw["indent"]))
                    if set(kw) == {"indent", "sort_keys"}:
                        calls.append(lambda: dumps(v, hint, f, mk(), kw["indent"], kw["sort_keys"]))
                    if not kw:
                        calls.append(lambda: dumps(value=v, type_=hint, filename=f, settings=mk()))
                        if f is None and sname == "none":
                            calls.append(lambda: dumps(v, hint))
                    for call in calls:
                        got = m.attempt(call)
                        rec.trans()
                        w = ("ok", got.value) if got.kind == "ok" else view(got)
                        if w != want or got.kind == "ok" and type(got.value) is not str:
                            return rec.fail(f"dumps({v!r}, {typ.label}, {kw}, settings {sname}) {got!r}, expected {want}")
                        rec.ok()
        rec.state((typ.label, "dump", repr(type(v)), m.canon(v) if type(v) is not object else 0))


def both(typ: m.T, depth: int, rec: Recorder) -> None:
    loading_of(typ, depth, rec)
    if not rec._case_failed:
        dumping_of(typ, depth, rec)


# -- texts that json.loads() treats specially --------------------------------------------------------------------------

TEXTS: t.List[t.Any] = [
    "", " ", "{", "[1,]", "nul", "NaN", "Infinity", "-Infinity", "[NaN]", "1e400", "-0", "-0.0", "1.0", "1E2", '{"a":1,"a":2}',
    '{"a":1,"b":2,"a":"x"}', '"\\ud83d\\ude00"', '"\\ud800"', '"\u00e9"', '"a\nb"', '"\\u0000"', "\ufeff1", "1 2", "[1] x", "'a'", "{a: 1}",
    "// c\n1", "123456789012345678901234567890", "0x10", "01", "+1", ".5", "5.", "true", "True", "null", "None", "[[[]]]", '{"a":{"a":{}}}',
    b"1", b'{"a": 1}', b"\xff", bytearray(b"[1]"), '{"x": 1}'.encode("utf-16"), b"", None, 5, ["1"], {"a": 1}, "[" * 100 + "]" * 100,
]  # fmt: skip
TEXT_HINTS: t.List[t.Any] = [
    t.Any, object, int, str, float, bool, t.Optional[int], t.List[int], t.List[t.Any], t.Dict[str, int], t.Dict[str, t.Any],
    t.Union[int, str], t.Literal["a", 1],
]


def texts(case: t.Any, rec: Recorder) -> None:
    ti, hi, f = case
    text, hint = TEXTS[ti], TEXT_HINTS[hi]
    try:
        decoded = json.loads(text)
    except Exception as exc:
        want: t.Any = ("crash", type(exc).__name__, str(exc))
    else:
        want = view(m.attempt(load, decoded, hint, f))
    got = m.attempt(loads, text, hint, f)
    rec.trans()
    v = view(got)
    if want[0] == "crash" and got.kind == "crash" and len(want) == 3:
        v = (*v, str(got.exc))
    if v != want:
        return rec.fail(f"loads({text!r}, {hint}) {got!r}, expected {want}")
    rec.ok()
    rec.outcome(want[0])
    rec.state((ti, hi))


# -- forms of the settings argument ------------------------------------------------------------------------------------

EFFECT_CASES: t.List[t.Tuple[t.Any, t.Any, t.Any]] = [
    # hint, payload, value under Strict(False) (it is rejected otherwise)
    (int, "5", 5), (t.List[int], ["5", 6], [5, 6]), (float, "1.5", 1.5), (t.Dict[str, int], {"a": "7"}, {"a": 7}),
    (t.Optional[int], "5", 5), (Annotated[int, "meta"], "5", 5), (t.Tuple[int, str], ["1", "x"], (1, "x")),
]  # fmt: skip


def setting_forms(case: t.Any, rec: Recorder) -> None:
    ci, si, f = case
    hint, p, value = EFFECT_CASES[ci]
    sname, mk, effect = SETTINGS[si]
    want: t.Any = ("ok", m.canon(value)) if effect else "reject"
    for reuse in (False, True):
        arg = mk()
        for name, fn in loaders(hint, f, arg if reuse else mk()):
            got = m.attempt(fn, m.copy_json(p))
            rec.trans()
            v = view(got)
            if (v if want != "reject" else v[0]) != want:
                return rec.fail(f"{p!r} as {hint} with settings {sname}: {name} {got!r}, expected {want}")
            rec.ok()
    for name, fn in (("loads", lambda: loads(json.dumps(p), hint, f, mk())),):
        v = view(m.attempt(fn))
        rec.trans()
        if (v if want != "reject" else v[0]) != want:
            return rec.fail(f"{p!r} as {hint} with settings {sname}: {name} {v}, expected {want}")
        rec.ok()
    # and for the other direction, with a setting that only matters when dumping
    rec.state((ci, si, f))
    rec.outcome(str(want)[:6])


# -- locations ---------------------------------------------------------------------------------------------------------


def locations(case: t.Any, rec: Recorder) -> None:
    """The location given to convert() is that of the root context; below the root only the file is inherited."""
    f, line, col, nest, direction = case
    hint: t.Any = int
    p: t.Any = "x"
    path: t.List[t.Any] = []
    for k in nest:
        hint, p = (t.List[hint], [p]) if k == "L" else (t.Dict[str, hint], {"k": p})
        path.insert(0, 0 if k == "L" else "k")
    mp: "ObjectMapper[t.Any, t.Any]" = get_object_mapper()
    for form in range(3):
        loc = Location(f, line, col)
        if form == 0:
            got = m.attempt(mp.convert, direction, p, hint, loc)
        elif form == 1:
            got = m.attempt(mp.convert, direction, p, TypeHint(hint), location=loc, settings=[Strict(True)])
        else:
            got = m.attempt(mp.copy().convert, direction=direction, value=p, datatype=hint, location=loc, settings=Settings())
        rec.trans()
        if got.kind != "reject":
            return rec.fail(f"{p!r} as {hint} {got!r}, expected ConversionError")
        exc = t.cast(dc.ConversionError, got.exc)
        up = list(exc.context.iter_hierarchy_up())
        root = up[-1]
        if root.location != loc or root.value is not p or root.direction is not direction:
            return rec.fail(f"the root context of the error has location {root.location}, expected {loc}")
        for ctx in up[:-1]:
            if ctx.location != Location(f, None, None):
                return rec.fail(f"a nested context has location {ctx.location}, expected the file {f!r} only")
        if m.error_path(exc) != path:
            return rec.fail(f"error path {m.error_path(exc)}, expected {path}")
        rec.ok()
    rec.state(case)


# -- histories of settings objects -------------------------------------------------------------------------------------


class Tag(Setting):
    def __init__(self, n: int, priority: Priority = Priority.NORMAL) -> None:
        self.n = n
        self.priority = priority

    def __repr__(self) -> str:
        return f"Tag({self.n}, {self.priority.name})"


@functools.lru_cache(None)
def tag_class(n: int) -> t.Type[Tag]:
    return type(f"Tag{n}", (Tag,), {})


class Other(Setting):
    def __init__(self, n: int) -> None:
        self.n = n


class Mark:
    """What the probe converters convert."""


class Mark2(Mark):
    pass


class Probe(Converter):
    """Returns what is in effect."""

    def __init__(self, tags: t.Sequence[t.Type[Tag]] = ()) -> None:
        self.tags = tags

    def convert(self, ctx: Context) -> t.Any:
        if ctx.direction.is_deserialize():  # all that there is, each tag having a class of its own
            there = [ctx.get_setting(tag) for tag in self.tags]
            assert all(s is None or type(s) is tag for s, tag in zip(there, self.tags))
        tag = ctx.get_setting(Tag)
        got = None if tag is None else tag.n
        return got if ctx.direction.is_serialize() else (got, [s.n for s in there if s is not None])


class MySettings(Settings):
    pass


#: datatype, tag in its annotation
PROBES: t.List[t.Tuple[t.Any, t.Any, t.Optional[t.Tuple[int, int]]]] = [
    (Mark, Mark, None),
    (Mark2, Mark2, None),
    (Annotated[Mark, Tag(901, Priority.LOW)], Mark, (901, 0)),
    (Annotated[Mark, Tag(902)], Mark, (902, 1)),
]


class MS:
    """Model of a settings object: everything it holds, in order."""

    def __init__(self, parent: t.Optional["MS"]) -> None:
        self.parent = parent
        self.glob: t.List[t.Tuple[int, int]] = []
        self.loc: t.List[t.Tuple[t.Any, t.Tuple[int, int]]] = []
        self.prov: t.List[t.Callable[[t.Any], t.List[t.Tuple[int, int]]]] = []

    def copy(self) -> "MS":
        new = MS(self.parent)
        new.glob, new.loc, new.prov = list(self.glob), list(self.loc), list(self.prov)
        return new

    def effective(self, cls: t.Any, ann: t.Optional[t.Tuple[int, int]], extra: t.Sequence[t.Tuple[int, int]] = ()) -> t.Any:
        found: t.List[t.Tuple[int, int]] = [ann] if ann else []
        found += [x for c, x in self.loc if c is cls]
        for p in self.prov:
            found += p(cls)
        found += self.glob
        if self.parent is not None:
            up = self.parent.effective(cls, ann)
            if up is not None:
                found.append(up)
        best = None
        for x in found:
            if best is None or x[1] > best[1]:
                best = x
        return best

    def there(self, cls: t.Any) -> t.Set[int]:
        """All tags that apply to a class."""
        out = {x[0] for c, x in self.loc if c is cls} | {x[0] for p in self.prov for x in p(cls)} | {x[0] for x in self.glob}
        return out if self.parent is None else out | self.parent.there(cls)

    def key(self) -> t.Any:
        return (tuple(self.glob), tuple((c.__name__, x) for c, x in self.loc), len(self.prov), self.parent and self.parent.key())


PRIO = {0: Priority.LOW, 1: Priority.NORMAL, 2: Priority.HIGH, 3: Priority.ULTIMATE}


class SettingsWorld:
    """Real settings objects and their models, driven in step."""

    def __init__(self) -> None:
        self.n = 0
        self.real: t.List[Settings] = [MySettings()]
        self.model: t.List[MS] = [MS(None)]
        self.lists: t.List[t.List[Setting]] = []
        self.extra: t.List[t.List[Setting]] = []

    def tag(self, prio: int) -> t.Tuple[Tag, t.Tuple[int, int]]:
        self.n += 1
        return tag_class(self.n)(self.n, PRIO[prio]), (self.n, prio)

    @staticmethod
    def bare(hint: TypeHint) -> t.Any:
        if isinstance(hint, AnnotatedTypeHint):
            hint = hint[0]
        return hint.type if isinstance(hint, ClassTypeHint) else None

    def apply(self, op: t.Tuple[str, int]) -> bool:
        """Returns whether the operation is applicable."""
        name, i = op
        if name == "append":
            # The caller goes on using the list that a settings object was made from.
            if i >= len(self.lists):
                return False
            real, _ = self.tag(2)
            self.lists[i].append(real)
            return True
        if i >= len(self.real):
            return False
        s, x = self.real[i], self.model[i]
        if name in ("copy", "child", "from list") and len(self.real) >= 4:
            return False
        if name.startswith("global"):
            real, mod = self.tag(int(name[-1]))
            s.add_global(real)
            x.glob.append(mod)
        elif name.startswith("local"):
            real, mod = self.tag(int(name[-1]))
            cls = Mark2 if name.startswith("local2") else Mark
            s.add_local(cls, real)
            x.loc.append((cls, mod))
        elif name == "condition":
            real, mod = self.tag(1)
            s.add_conditional(lambda ctx: self.bare(ctx.datatype) is Mark, real)
            x.prov.append(lambda cls: [mod] if cls is Mark else [])
        elif name == "provider":
            real, mod = self.tag(1)
            real2, mod2 = self.tag(2)
            s.add_provider(lambda ctx: [Other(1), real, real2])  # type: ignore[list-item]
            x.prov.append(lambda cls: [mod, mod2])
        elif name == "copy":
            new = s.copy()
            if type(new) is not type(s):
                raise AssertionError(f"copy of {type(s).__name__} is a {type(new).__name__}")
            self.real.append(new)
            self.model.append(x.copy())
        elif name == "child":
            self.real.append(Settings(s))
            self.model.append(MS(x))
        elif name == "from list":
            real, mod = self.tag(1)
            lst: t.List[Setting] = [real]
            self.lists.append(lst)
            self.real.append(MySettings(s, lst))
            y = MS(x)
            y.glob.append(mod)
            self.model.append(y)
        else:
            raise AssertionError(name)
        return True

    def judge(self, rec: Recorder, history: t.Any) -> bool:
        for i, s in enumerate(self.real):
            mp: "ObjectMapper[t.Any, t.Any]" = ObjectMapper(s)
            mp.module.register(Probe([tag_class(k + 1) for k in range(self.n)]))
            per_call = Tag(990)
            for hint, cls, ann in PROBES:
                want = self._effective(i, cls, ann)
                there = sorted(self.model[i].there(cls))
                got = mp.deserialize(None, hint)
                rec.trans()
                if got != (want and want[0], there):
                    rec.fail(f"after {history}: settings {i} have Tag {got} in effect for {hint}, expected {want} of {there}")
                    return False
                # Settings given for one call come before those of the mapper, and leave no trace.
                best = self._effective(i, cls, ann, parent_only=(990, 1))
                for _ in (0, 1):
                    lst: t.List[Setting] = [per_call]
                    got = mp.serialize(None, hint, settings=lst)
                    rec.trans()
                    if got != best[0] or lst != [per_call]:
                        rec.fail(f"after {history}: settings {i} and a list of one Tag give {got} for {hint}, expected {best}")
                        return False
                if mp.deserialize(None, hint) != (want and want[0], there):
                    rec.fail(f"after {history}: a list of settings given for one call had an effect on the next one")
                    return False
                rec.ok()
        return True

    def _effective(self, i: int, cls: t.Any, ann: t.Any, parent_only: t.Any = None) -> t.Any:
        x = self.model[i]
        if parent_only is not None:
            y = MS(x)
            y.glob.append(parent_only)
            x = y
        return x.effective(cls, ann)


SETTING_OPS = ("global1", "global2", "global0", "local1", "local2-1", "condition", "provider", "copy", "child", "from list")


def setting_alphabet(objects: int) -> t.List[t.Tuple[str, int]]:
    return [(o, i) for i in range(objects) for o in SETTING_OPS] + [("append", 0)]


def histories(alphabet: t.Sequence[t.Any], depth: int) -> t.Iterator[t.Any]:
    """The first two operations; *run* enumerates the continuations."""
    for a in alphabet:
        for b in alphabet:
            yield (a, b)


def setting_histories(depth: int, alphabet: t.Sequence[t.Tuple[str, int]]) -> t.Callable[[t.Any, Recorder], None]:
    def replay(ops: t.Sequence[t.Any]) -> t.Optional[SettingsWorld]:
        w = SettingsWorld()
        for op in ops:
            if not w.apply(op):
                return None
        return w

    def observed(ops: t.Sequence[t.Any], rec: Recorder) -> bool:
        """Replay with an observation after every operation."""
        w = SettingsWorld()
        for k, op in enumerate(ops):
            w.apply(op)
            if not w.judge(rec, f"{list(ops[:k + 1])}, observed after every operation"):
                return False
        return True

    def go(ops: t.Tuple[t.Any, ...], rec: Recorder) -> None:
        w = replay(ops)
        if w is None:
            return
        rec.trans(len(ops))
        if not w.judge(rec, list(ops)):
            return
        rec.state(tuple(x.key() for x in w.model))
        rec.count("histories")
        if len(ops) == depth:
            observed(ops, rec)
            return
        for op in alphabet:
            go((*ops, op), rec)
            if rec._case_failed:
                return

    def run(case: t.Any, rec: Recorder) -> None:
        if case[1] == alphabet[0] and replay(case[:1]) is not None:
            go_one(case[:1], rec)
        go(tuple(case), rec)

    def go_one(ops: t.Any, rec: Recorder) -> None:
        w = replay(ops)
        if w is not None:
            w.judge(rec, list(ops))

    return run


# -- histories of mappers ----------------------------------------------------------------------------------------------


class Tracer(Converter):
    """Notes that it was asked, and passes or answers."""

    def __init__(self, name: int, answers: bool = False) -> None:
        self.name, self.answers = name, answers

    def convert(self, ctx: Context) -> t.Any:
        if not isinstance(ctx.value, list):
            raise NotImplementedError
        ctx.value.append(self.name)
        if self.answers:
            tag = ctx.get_setting(Tag)
            return None if tag is None else tag.n
        raise NotImplementedError


class MyMapper(ObjectMapper[t.Any, t.Any]):
    pass


class FixedMapper(ObjectMapper[t.Any, t.Any]):
    """A mapper that comes with a converter."""

    def __init__(self, settings: t.Optional[Settings] = None) -> None:
        super().__init__(settings)
        self.module.register(Tracer(500, True))


class MM:
    def __init__(self, settings: MS) -> None:
        self.settings = settings
        self.conv: t.List[t.Tuple[int, bool]] = []


class MapperWorld:
    def __init__(self, kind: str) -> None:
        self.n = 0
        self.mset = MS(None)
        self.sets = [Settings()]
        cls = {"plain": ObjectMapper, "subclass": MyMapper, "fixed": FixedMapper, "json": None}[kind]
        first: t.Any = get_object_mapper(self.sets[0]) if cls is None else cls(self.sets[0])
        self.json = cls is None
        self.real: t.List[t.Any] = [first]
        self.model = [MM(self.mset)]
        if kind == "fixed":
            self.model[0].conv.append((500, True))
        self.cls = type(first)

    def apply(self, op: t.Tuple[str, int]) -> bool:
        name, i = op
        if i >= len(self.real):
            return False
        r, x = self.real[i], self.model[i]
        if name in ("copy", "same settings", "settings copy") and len(self.real) >= 4:
            return False
        self.n += 1
        if name in ("last", "first", "answer last", "answer first"):
            ans = name.startswith("answer")
            c = Tracer(self.n, ans)
            first = name.endswith("first")
            if first:
                r.module.register(c, first=True)
                x.conv.insert(0, (self.n, ans))
            else:
                r.module.register(c)
                x.conv.append((self.n, ans))
        elif name == "copy":
            new = r.copy()
            if type(new) is not type(r):
                raise AssertionError(f"copy of {type(r).__name__} is a {type(new).__name__}")
            y = MM(x.settings.copy())
            y.conv = list(x.conv)
            self.real.append(new)
            self.model.append(y)
        elif name == "same settings":
            # Another mapper of the same settings object.
            if self.json:
                self.real.append(get_object_mapper(r.settings))
            else:
                self.real.append(MyMapper(r.settings))
            self.model.append(MM(x.settings))
        elif name == "settings copy":
            if self.json:
                self.real.append(get_object_mapper(r.settings.copy()))
            else:
                self.real.append(MyMapper(r.settings.copy()))
            self.model.append(MM(x.settings.copy()))
        elif name == "global":
            r.settings.add_global(Tag(self.n))
            x.settings.glob.append((self.n, 1))
        elif name == "local":
            r.settings.add_local(Mark, Tag(self.n, Priority.HIGH))
            x.settings.loc.append((Mark, (self.n, 2)))
        elif name == "fail":
            # A conversion that fails leaves no trace.
            try:
                r.deserialize([], complex, settings=[Tag(999, Priority.ULTIMATE)])
            except dc.ConversionError:
                pass
            except Exception as exc:
                raise AssertionError(f"unexpected {exc!r}") from exc
        else:
            raise AssertionError(name)
        return True

    def judge(self, rec: Recorder, history: t.Any) -> bool:
        for i, r in enumerate(self.real):
            x = self.model[i]
            for hint, cls, ann in PROBES[:3:2]:
                for settings in (None, [Tag(990)]):
                    asked: t.List[int] = []
                    want_asked: t.List[int] = []
                    want: t.Any = "NoMatchingConverter"
                    for n, ans in x.conv:
                        want_asked.append(n)
                        if ans:
                            s = x.settings
                            if settings:
                                s = MS(s)
                                s.glob.append((990, 1))
                            e = s.effective(cls, ann)
                            want = e and e[0]
                            break
                    try:
                        got: t.Any = r.deserialize(asked, hint, settings=settings)
                    except dc.ConversionError as exc:
                        got = type(exc).__name__
                    rec.trans()
                    if got != want or asked != want_asked:
                        rec.fail(
                            f"after {history}: mapper {i} asked the converters {asked} for {hint} and gave {got}; expected {want_asked} and {want}"
                        )
                        return False
                    rec.ok()
        # Mappers made afterwards have none of this.
        if self.json:
            asked = []
            for fn in (lambda: load(asked, Mark), lambda: dump(asked, Mark), lambda: get_object_mapper().deserialize(asked, Mark)):
                got = m.attempt(fn)
                if got.kind != "reject" or asked:
                    rec.fail(f"after {history}: a new mapper {got!r}, having asked {asked}")
                    return False
            for k, r in enumerate(self.real):
                if m.attempt(r.deserialize, 5, int).value != 5 and not any(a for _, a in self.model[k].conv):
                    rec.fail(f"after {history}: mapper {k} cannot load an int any more")
                    return False
        return True

    def key(self) -> t.Any:
        return tuple((tuple(x.conv), x.settings.key()) for x in self.model)


MAPPER_OPS = ("last", "first", "answer last", "answer first", "copy", "same settings", "settings copy", "global", "local", "fail")


def mapper_alphabet(objects: int) -> t.List[t.Tuple[str, int]]:
    return [(o, i) for i in range(objects) for o in MAPPER_OPS]


def mapper_histories(depths: t.Dict[str, int], alphabet: t.Sequence[t.Tuple[str, int]]) -> t.Callable[[t.Any, Recorder], None]:
    def build(kind: str, ops: t.Sequence[t.Any]) -> t.Optional[MapperWorld]:
        w = MapperWorld(kind)
        for op in ops:
            if not w.apply(op):
                return None
        return w

    def go(kind: str, ops: t.Tuple[t.Any, ...], rec: Recorder) -> None:
        w = build(kind, ops)
        if w is None:
            return
        rec.trans(len(ops))
        # Twice: conversions are not changes.
        if not w.judge(rec, (kind, *ops)) or not w.judge(rec, (kind, *ops, "a round of conversions")):
            return
        rec.state((kind, w.key()))
        rec.count("histories")
        if len(ops) == depths[kind]:
            w = MapperWorld(kind)
            for k, op in enumerate(ops):
                w.apply(op)
                if not w.judge(rec, (kind, "observed after every operation", *ops[: k + 1])):
                    return
            return
        for op in alphabet:
            go(kind, (*ops, op), rec)
            if rec._case_failed:
                return

    def run(case: t.Any, rec: Recorder) -> None:
        kind, a, b = case
        go(kind, (a, b), rec)

    return run


def spaces() -> t.List[Space]:
    deep = thorough()
    core = ts.core_indices()
    sd, so = (5, 2) if deep else (4, 2)
    md, mo = ({"plain": 4, "json": 5, "fixed": 4, "subclass": 4} if deep else {"plain": 3, "json": 4, "fixed": 3, "subclass": 3}), 2
    sa, ma = setting_alphabet(so), mapper_alphabet(mo)
    out = [
        Space("texts", lambda: itertools.product(range(len(TEXTS)), range(len(TEXT_HINTS)), FILES), texts,
              f"{len(TEXTS)} well-formed, malformed and unusual texts x {len(TEXT_HINTS)} types x {len(FILES)} file names"),
        Space("setting forms", lambda: itertools.product(range(len(EFFECT_CASES)), range(len(SETTINGS)), FILES), setting_forms,
              f"{len(SETTINGS)} forms of the settings argument x {len(EFFECT_CASES)} types x every entry point"),
        Space("locations",
              lambda: itertools.product(FILES, (None, 0, 3), (None, 4), ["".join(c) for k in range(4) for c in itertools.product("LD", repeat=k)], Direction),
              locations, "file, line and column x all nestings of lists and dicts up to depth 3 x both directions"),
        Space("setting histories", lambda: histories(sa, sd), setting_histories(sd, sa),
              f"all sequences of up to {sd} of {len(sa)} operations on up to {so} (4 made) settings objects"),
        Space("mapper histories", lambda: ((k, a, b) for k in md for a in ma for b in ma),
              mapper_histories(md, ma), f"all sequences of up to {md} of {len(ma)} operations on up to {mo} (4 made) mappers"),
    ]  # fmt: skip
    for s in ts.type_spaces(both, depth2_leaves=core if deep else (), depth3_leaves=(), depth3_wrappers=(), unions=(2,) if deep else (), extra=deep):
        if s.name != "depth2" or deep:
            s.name = "entry points: " + s.name
            out.append(s)
    return out
