"""C18: databind.core.dataclasses is a drop-in that also allows required-after-default."""

import copy
import dataclasses
import inspect
import itertools
import re
import sys
import types
import typing as t

import databind.core.dataclasses as dbdc

from mc.engine import Recorder, Space, thorough

ASSUMPTIONS = [
    "the dataclasses module of the standard library is the oracle; a definition that it rejects only for the order of fields is "
    "compared with the definition in which the required fields have a marker as their default",
    "how required fields show in fields(), in the signature and in the generated docstring is not judged",
]


class _Req:
    """Marks required fields in the definitions for the oracle."""

    def __repr__(self) -> str:
        return "REQ"

    def __deepcopy__(self, memo: t.Any) -> t.Any:
        return self


REQ = _Req()


class Desc:
    """A descriptor; may supply a default."""

    def __init__(self, default: t.Any = REQ) -> None:
        self.default = default

    def __set_name__(self, owner: t.Any, name: str) -> None:
        self.name = "_d_" + name

    def __get__(self, obj: t.Any, owner: t.Any = None) -> t.Any:
        if obj is None:
            if self.default is REQ:
                raise AttributeError(self.name)
            return self.default
        return getattr(obj, self.name, self.default)

    def __set__(self, obj: t.Any, value: t.Any) -> None:
        object.__setattr__(obj, self.name, value)


LOG: t.List[t.Any] = []


SLOTS: t.Dict[t.Any, t.Any] = {}


def required(names: t.Sequence[str]) -> t.Any:
    def wrap(cls: t.Any) -> t.Any:
        for name in names:
            if not hasattr(cls, name) or isinstance(getattr(cls, name), types.MemberDescriptorType):
                if name in vars(cls):
                    SLOTS[cls.__name__, name] = vars(cls)[name]
                setattr(cls, name, REQ)
        return cls

    return wrap


def clean(cls: t.Any) -> None:
    """A required field leaves no value on the class."""
    for name in [n for n, v in vars(cls).items() if v is REQ]:
        delattr(cls, name)
        if (cls.__name__, name) in SLOTS:
            setattr(cls, name, SLOTS[cls.__name__, name])
    SLOTS.clear()


def namespace(mod: t.Any) -> t.Dict[str, t.Any]:
    return {"D": mod, "std": dataclasses, "t": t, "REQ": REQ, "required": required, "clean": clean, "Desc": Desc, "LOG": LOG, "InitVar": mod.InitVar, "__name__": "mc_c18_case", "T": t.TypeVar("T")}


#: kind -> (annotation, right hand side, right hand side for the oracle if the field is required or "?" for the marker unless
#: a value is inherited)
KINDS: t.Dict[str, t.Tuple[str, str, str]] = {
    "req": ("int", "", "?"),
    "def": ("int", "5", ""),
    "fac": ("list", "D.field(default_factory=lambda: [0])", ""),
    "freq": ("str", "D.field()", "D.field(default=REQ)"),
    "fopt": ("int", "D.field(default=4, repr=False, compare=False, metadata={'k': 1})", ""),
    "fhid": ("int", "D.field(repr=False, hash=False)", "D.field(default=REQ, repr=False, hash=False)"),
    "ni=": ("int", "D.field(init=False, default=3)", ""),
    "ni": ("int", "D.field(init=False)", ""),
    "nif": ("list", "D.field(init=False, default_factory=list)", ""),
    "cv=": ("t.ClassVar[int]", "1", ""),
    "cv": ("t.ClassVar[int]", "", ""),
    "iv": ("InitVar[int]", "", "?"),
    "iv=": ("InitVar[int]", "2", ""),
    "kw": ("int", "D.field(kw_only=True)", "D.field(default=REQ, kw_only=True)"),
    "kw=": ("int", "D.field(default=8, kw_only=True)", ""),
    "KW": ("std.KW_ONLY", "", ""),
    "none": ("t.Optional[int]", "None", ""),
    "mut": ("list", "[]", ""),
    "desc": ("int", "Desc(6)", ""),
    "desc-": ("int", "Desc()", ""),
    "cvf": ("t.ClassVar[list]", "D.field(default=7)", ""),
    "bad": ("int", "D.field(default=1, default_factory=int)", ""),
    "opt-kw": ("int", "D.field(default=1, kw_only=False)", ""),
}
MAIN = ("req", "def", "fac", "freq", "ni=", "ni", "cv=", "cv", "iv", "iv=", "kw", "kw=", "none")
POST = {
    "": "",
    "own": "    def __post_init__(self, *a):\n        LOG.append(('post', {n!r}, a, [getattr(self, f.name, 'unset') for f in std.fields(self)]))\n",
    "super": "    def __post_init__(self, *a):\n        LOG.append(('post', {n!r}, a))\n        super({n}, self).__post_init__(*a)\n",
    "fail": "    def __post_init__(self, *a):\n        LOG.append('post')\n        raise KeyError('post')\n",
    "init": "    def __init__(self, *a, **k):\n        LOG.append(('init', a, sorted(k)))\n",
    "repr": "    def __repr__(self): return 'custom'\n    def __eq__(self, other): return NotImplemented\n",
}


class Cl(t.NamedTuple):
    name: str
    base: str
    #: (name, kind)
    fields: t.Tuple[t.Tuple[str, str], ...]
    options: str = ""
    post: str = ""
    extra: str = ""
    #: Decorated by the standard library in any case.
    std: bool = False
    plain: bool = False

    def source(self, oracle: bool) -> str:
        out = "" if self.plain else ("@std.dataclass" if self.std else "@D.dataclass") + (f"({self.options})" if self.options else "") + "\n"
        bare = [name for name, kind in self.fields if KINDS[kind][2] == "?"]
        if oracle and bare and not self.std:
            out += f"@required({bare})\n"
        out += f"class {self.name}({self.base}):\n    pass\n{self.extra}"
        for name, kind in self.fields:
            annotation, right, required = KINDS[kind]
            if self.std:
                right = right.replace("D.", "std.")
                annotation = annotation.replace("D.", "std.")
            elif oracle and required not in ('', '?'):
                right = required
            out += f"    {name}: {annotation}{' = ' + right if right else ''}\n"
        return out + POST[self.post].format(n=self.name) + (f"clean({self.name})\n" if oracle else "")


def define(classes: t.Sequence[Cl], mod: t.Any, oracle: bool, future: bool) -> t.Any:
    ns = namespace(mod)
    source = ("from __future__ import annotations\n" if future else "") + "".join(c.source(oracle) for c in classes)
    module = types.ModuleType("mc_c18_case")
    vars(module).update(ns)
    sys.modules["mc_c18_case"] = module
    try:
        exec(compile(source, "<mc_c18>", "exec", dont_inherit=True), vars(module))
    except Exception as exc:
        return ("error", type(exc).__name__, str(exc))
    finally:
        del sys.modules["mc_c18_case"]
    return vars(module)[classes[-1].name]


def attempt(fn: t.Callable[[], t.Any]) -> t.Any:
    try:
        return ("ok", fn())
    except Exception as exc:
        return ("raise", type(exc).__name__)


def image(obj: t.Any) -> t.Any:
    """What can be seen of an object."""
    return (
        type(obj).__qualname__,
        [(f.name, attempt(lambda: getattr(obj, f.name))) for f in dataclasses.fields(obj)],
        attempt(lambda: re.sub("0x[0-9a-f]+", "0x", repr(obj))),
        attempt(lambda: hash(obj) and None),
        hasattr(obj, "__dict__"),
    )


def class_image(cls: t.Any) -> t.Any:
    def show(f: t.Any) -> t.Any:
        default = f.default
        if default is REQ or repr(default) == "<NotSet.Value: 0>":
            default = dataclasses.MISSING
        return (f.name, repr(f.type), repr(default) if not isinstance(default, Desc) else "desc", f.default_factory is dataclasses.MISSING, f.init, f.repr, f.hash,
                f.compare, dict(f.metadata), bool(f.kw_only))  # fmt: skip

    params = getattr(cls, "__dataclass_params__", None)
    names = [f.name for f in dataclasses.fields(cls)]
    return (
        cls.__name__, cls.__qualname__, [show(f) for f in dataclasses.fields(cls)], repr(params), getattr(cls, "__match_args__", None),
        [(n, n in vars(cls), kind_of(attempt(lambda: getattr(cls, n)))) for n in names if True],
        "__slots__" in vars(cls) and list(vars(cls)["__slots__"]), [b.__name__ for b in cls.__mro__], cls.__hash__ is None,
    )  # fmt: skip


def kind_of(x: t.Any) -> t.Any:
    if x[0] == "ok" and isinstance(x[1], (types.MemberDescriptorType, dataclasses.Field)):
        return type(x[1]).__name__
    return x


def calls(params: t.Sequence[str], deep: bool) -> t.Iterator[t.Tuple[t.Tuple[t.Any, ...], t.Dict[str, t.Any]]]:
    """Positional and keyword arguments in all combinations."""
    n = len(params)
    for pos in range(n + 2):
        args = tuple(10 + i for i in range(pos))
        for k in range(n + 1):
            for names in itertools.combinations(params, k):
                # Keywords for parameters that are also given by position are tried one at a time.
                if sum(params.index(x) < pos for x in names) > (1 if deep else k <= 1):
                    continue
                yield args, {x: 20 + params.index(x) for x in names}
        yield args, {"zz": 1}
    yield (), {**{x: 30 for x in params}, "zz": 1}


def lacks_required(cls: t.Any, args: t.Any, kw: t.Any) -> bool:
    """Whether a parameter that has the marker as its default gets no value."""
    signature = inspect.signature(cls.__init__)
    try:
        given = signature.bind(None, *args, **kw).arguments
    except TypeError:
        return False
    return any(p.default is REQ and p.name not in given for p in signature.parameters.values())


def perform(cls: t.Any, args: t.Any, kw: t.Any, oracle: bool) -> t.Tuple[t.Any, t.Any]:
    LOG.clear()
    if oracle and lacks_required(cls, args, kw):
        if isinstance(cls.__new__, types.FunctionType):
            cls.__new__(cls, *args, **kw)
        return ("raise", "TypeError", copy.deepcopy(LOG)), None
    try:
        obj = cls(*args, **kw)
    except Exception as exc:
        return ("raise", type(exc).__name__, copy.deepcopy(LOG)), None
    return ("ok", image(obj), copy.deepcopy(LOG)), obj


def relations(objs: t.Sequence[t.Any]) -> t.Any:
    out = []
    for a, b in itertools.product(objs[:3] + objs[-1:], repeat=2):
        out.append((attempt(lambda: a == b), attempt(lambda: a < b), attempt(lambda: a >= b)))
    return out


def uses(obj: t.Any, initvars: bool) -> t.Any:
    """What can be done with an object."""
    out: t.List[t.Any] = [attempt(lambda: dataclasses.asdict(obj)), attempt(lambda: dataclasses.astuple(obj))]
    names = [f.name for f in dataclasses.fields(obj)]
    if not initvars:
        out.append(attempt(lambda: image(dataclasses.replace(obj))))
        for f in dataclasses.fields(obj):
            out.append(attempt(lambda: image(dataclasses.replace(obj, **{f.name: 99}))))
    if not isinstance(obj, Exception):
        # These are copied with a call that has no values for the fields.
        out.append(attempt(lambda: image(copy.copy(obj))))
    for n in [*names[:2], "zz"]:
        out.append(attempt(lambda: setattr(obj, n, 77)))
        out.append(attempt(lambda: image(obj)))
        out.append(attempt(lambda: delattr(obj, n)))
        out.append(attempt(lambda: image(obj)))
    return out


def parameters(classes: t.Sequence[Cl]) -> t.List[str]:
    """The names that calls are made with: those of all fields."""
    out: t.Dict[str, None] = {}
    for c in classes:
        for name, kind in c.fields:
            if kind not in ("KW", "cv", "cv="):
                out[name] = None
    return list(out)


def compare(classes: t.Sequence[Cl], rec: Recorder, future: bool = False) -> None:
    what = ("(future annotations) " if future else "") + "".join(c.source(False) for c in classes)
    oracle = False
    rec.trans(2)
    want = define(classes, dataclasses, False, future)
    got = define(classes, dbdc, False, future)
    if isinstance(want, tuple) and "non-default argument" in want[2]:
        oracle = True
        want = define(classes, dataclasses, True, future)
        if isinstance(want, tuple) and "non-default argument" in want[2]:
            return rec.count("order error of the standard library")
    if isinstance(want, tuple) or isinstance(got, tuple):
        if not isinstance(want, tuple) or not isinstance(got, tuple) or want[1] != got[1]:
            return rec.fail(f"the definition gave {got}, expected {want}, for\n{what}")
        rec.outcome("rejected")
        rec.ok()
        return
    if class_image(want) != class_image(got):
        return rec.fail(f"the class is\n{class_image(got)}\nexpected\n{class_image(want)}\nfor\n{what}")
    params = parameters(classes)
    initvars = any(kind in ("iv", "iv=") for c in classes for _, kind in c.fields)
    objs: t.List[t.Tuple[t.Any, t.Any]] = []
    n = ok = 0
    for args, kw in calls(params, thorough() or len(params) < 3):
        w, wobj = perform(want, args, kw, oracle)
        g, gobj = perform(got, args, kw, False)
        n += 1
        if w != g:
            return rec.fail(f"call with {args} {kw} gave {g}, expected {w}, for\n{what}")
        if wobj is not None:
            ok += 1
            if len(objs) < 6:
                objs.append((wobj, gobj))
    rec.trans(2 * n)
    w, g = relations([x for x, _ in objs]), relations([y for _, y in objs])
    if w != g:
        return rec.fail(f"comparisons gave {g}, expected {w}, for\n{what}")
    if objs:
        w, g = uses(objs[0][0], initvars), uses(objs[0][1], initvars)
        if w != g:
            return rec.fail(f"uses gave\n{g}\nexpected\n{w}\nfor\n{what}")
    rec.ok(n)
    rec.state((what, ok))
    rec.outcome("required after default" if oracle else "as the standard library")


# -- one class ---------------------------------------------------------------------------------------------------------


OPTIONS = ("", "kw_only=True", "slots=True", "frozen=True", "order=True", "eq=False", "init=False", "repr=False", "unsafe_hash=True", "frozen=True, slots=True",
           "match_args=False", "order=True, eq=False", "slots=True, weakref_slot=True", "weakref_slot=True", "slots=True, kw_only=True", "frozen=True, order=True")  # fmt: skip
NAMES = ("a", "b", "c", "d")


def fields(kinds: t.Sequence[str], names: t.Sequence[str] = NAMES) -> t.Tuple[t.Tuple[str, str], ...]:
    return tuple(zip(names, kinds))


def single_cases() -> t.Iterator[t.Any]:
    deep = thorough()
    for n in range(3):
        for kinds in itertools.product(KINDS, repeat=n):
            for options in OPTIONS if n < 2 or deep else OPTIONS[:10]:
                for post in POST if n == 1 or deep else ("", "own") if options in OPTIONS[:4] else ("",):
                    yield kinds, options, post
    for kinds in itertools.product(KINDS if deep else MAIN, repeat=3):
        for options in OPTIONS if deep else OPTIONS[:3]:
            yield kinds, options, "own" if "iv" in kinds or "iv=" in kinds else ""
    few = ("req", "def", "fac", "iv", "kw", "ni") if deep else ("req", "def", "kw", "iv")
    for kinds in itertools.product(few, repeat=4):
        yield kinds, "", "own"


def run_single(case: t.Any, rec: Recorder) -> None:
    kinds, options, post = case
    cl = Cl("C", "", fields(kinds), options, post)
    compare([cl], rec)
    if len(kinds) < 3:
        compare([cl], rec, future=True)


# -- inheritance -------------------------------------------------------------------------------------------------------


BASES = ("req", "def", "fac", "freq", "ni=", "ni", "cv=", "iv", "iv=", "kw", "kw=", "KW")


def inherit_cases() -> t.Iterator[t.Any]:
    deep = thorough()
    # A base with up to 2 fields and a subclass with up to 2, which re-declares them or not.
    for n, k in ((1, 1), (2, 0), (0, 1)):
        for base in itertools.product(KINDS, repeat=n):
            for sub in itertools.product(KINDS, repeat=k):
                for over in (False, True) if k and n else (False,):
                    for std in (False, True):
                        for post in (("", ""), ("own", ""), ("", "own"), ("own", "super")):
                            for options in ("", "slots=True"):
                                yield (base, sub), over, std, post, options
    for base in itertools.product(BASES if deep else ("req", "def", "fac", "kw", "iv", "ni="), repeat=2):
        for sub in itertools.product(BASES if deep else ("req", "def", "fac", "iv", "kw"), repeat=2):
            for over in (False, True):
                for std in (False, True) if deep else (False,):
                    yield (base, sub), over, std, ("own", "super"), ""
        # A subclass with a single field.
        for kind in KINDS if deep else BASES:
            for over in (True, "other", False):
                for std in (False, True):
                    for post in (("", ""), ("own", "super")) if deep else (("own", "super"),):
                        yield (base, (kind,)), over, std, post, ""
    # Three levels, each decorated by either module.
    for kinds in itertools.product(("req", "def", "kw", "iv") if deep else ("req", "def"), repeat=3):
        for overs in itertools.product((True, "other", "third"), repeat=3):
            for std in (1, 3) if deep else (1,):
                yield tuple((k,) for k in kinds), overs, std, ("own", "super"), ""
    # Three levels, and a class in between that is not decorated.
    for kinds in itertools.product(("req", "def", "fac", "freq", "kw", "iv=") if deep else ("req", "def", "fac", "kw"), repeat=3):
        for over in (False, True):
            for options in ("", "kw_only=True", "frozen=True", "slots=True"):
                if options == "slots=True" and over and kinds[1] == "iv=" and kinds[2] != "iv=":
                    continue  # a class attribute hides the slot, also for the standard library
                for post in (("", ""), ("own", ""), ("own", "super")):
                    yield tuple((k,) for k in kinds), over, False, post, options
    for kinds in itertools.product(MAIN, repeat=2):
        for middle in ("plain", "attr", "annotated", "property"):
            yield ((kinds[0],), (middle,), (kinds[1],)), True, False, ("own", ""), ""


MIDDLES = {"plain": "", "attr": "    a = 42\n", "annotated": "    a: str = 'x'\n", "property": "    @property\n    def q(self): return 1\n"}


def run_inherit(case: t.Any, rec: Recorder) -> None:
    levels, over, std, post, options = case
    classes: t.List[Cl] = []
    at = 0
    for i, kinds in enumerate(levels):
        base = classes[-1].name if classes else ""
        if kinds and kinds[0] in MIDDLES:
            classes.append(Cl(f"C{i}", base, (), extra=MIDDLES[kinds[0]], plain=True))
            continue
        this = over[i] if isinstance(over, tuple) else over
        names = NAMES if this is True or i == 0 and this == "other" else NAMES[1:] if this == "other" else NAMES[2:] if this == "third" else NAMES[at:]
        at += len(kinds)
        p = post[0] if i == 0 else post[1]
        opts = options
        pairs = tuple(("_" if kind == "KW" else name, kind) for name, kind in fields(kinds, names))
        classes.append(Cl(f"C{i}", base, pairs, opts, p, std=std is True and i == 0 or std is not True and bool(std >> i & 1)))
    if post[1] == "super" and not post[0]:
        return
    compare(classes, rec)


# -- several bases, generics and other definitions ---------------------------------------------------------------------


def other_cases() -> t.Iterator[t.Any]:
    kinds = ("req", "def", "fac", "kw", "freq", "ni=") if thorough() else ("req", "def", "fac", "kw")
    for a, b, c in itertools.product(kinds, repeat=3):
        for over in (False, True):
            for order in ("A, B", "B, A"):
                yield "multi", (a, b, c), over, order
    for a, b, c in itertools.product(kinds, repeat=3):
        for which in ("A", "B", "A, B"):
            yield "diamond", (a, b, c), which, ""
    for a, b in itertools.product(KINDS, repeat=2):
        for extra in EXTRAS:
            yield "extra", (a, b), extra, ""


EXTRAS = {
    "generic": ("t.Generic[T]", ""), "doc": ("", "    'a docstring'\n"), "slots": ("", "    __slots__ = ('a', 'b')\n"), "slots+": ("", "    __slots__ = ('b', '__dict__')\n"),
    "matchargs": ("", "    __match_args__ = ('b',)\n"), "hash": ("", "    def __hash__(self): return 4\n"), "setattr": ("", "    def __setattr__(self, n, v): object.__setattr__(self, n, v)\n"),
    "method": ("", "    def a2(self): return self.a\n"), "orphan": ("", "    zz = D.field(default=3)\n"), "exception": ("Exception", ""), "dict": ("dict", ""),
    "property": ("", "    @property\n    def zzz(self): return 5\n"), "new": ("", "    def __new__(cls, *a, **k):\n        LOG.append(('new', a, sorted(k)))\n        return object.__new__(cls)\n"),
}  # fmt: skip


def run_other(case: t.Any, rec: Recorder) -> None:
    kind, kinds, arg, order = case
    if kind == "multi":
        names = ("a", "a", "a") if arg else ("a", "b", "c")
        classes = [Cl("A", "", ((names[0], kinds[0]), ("x", "req"))), Cl("B", "", ((names[1], kinds[1]), ("y", "def"))), Cl("C", order, ((names[2], kinds[2]),))]
    elif kind == "diamond":
        classes = [Cl("R", "", (("a", kinds[0]), ("b", "req")))]
        classes.append(Cl("A", "R", (("a", kinds[1]),) if "A" in arg else (("c", kinds[1]),)))
        classes.append(Cl("B", "R", (("a", kinds[2]),) if "B" in arg else (("d", kinds[2]),)))
        classes.append(Cl("C", "A, B", (("e", "req"),)))
    else:
        base, extra = EXTRAS[arg]
        classes = [Cl("C", base, fields(kinds), "", "", extra)]
    compare(classes, rec)


# -- decorating and other functions ------------------------------------------------------------------------------------


def run_misc(case: t.Any, rec: Recorder) -> None:
    """Ways to use the decorator, and the other names of the module."""
    rec.trans()
    if case == "twice":
        for k in (1, 2):
            C = type("C", (), {"__annotations__": {"a": int, "b": int}, "a": 1})
            for _ in range(k):
                C = dbdc.dataclass(C)
            if repr(C(b=3)) != "C(a=1, b=3)" or attempt(lambda: C()) != ("raise", "TypeError") or attempt(lambda: C(1)) != ("raise", "TypeError"):
                return rec.fail(f"decorated {k} times: {C(b=3)} {attempt(lambda: C())}")
    elif case == "names":
        for name in ("Field", "FrozenInstanceError", "InitVar", "MISSING"):
            if getattr(dbdc, name) is not getattr(dataclasses, name):
                return rec.fail(f"{name} is not that of the standard library")
    elif case == "annotations":
        f = dbdc.field(annotations=["x"], metadata={"k": 1})
        if dict(f.metadata) != {"k": 1, dbdc.ANNOTATIONS_METADATA_KEY: ["x"]} or dict(dbdc.field().metadata) != {}:
            return rec.fail(f"metadata {f.metadata}")
        meta = {"k": 1}
        dbdc.field(annotations=["x"], metadata=meta)
        if meta != {"k": 1}:
            return rec.fail("the metadata that was given has changed")
    elif case == "forms":
        for deco in (dbdc.dataclass, dbdc.dataclass(), dbdc.dataclass(frozen=False)):
            C = deco(type("C", (), {"__annotations__": {"a": int, "b": int}, "a": 1}))  # type: ignore[operator]
            if not dataclasses.is_dataclass(C) or repr(C(5, 6)) != "C(a=5, b=6)":
                return rec.fail(f"{deco}")
        for args in ({"nope": 1}, {"slots": True, "nope": 2}):
            if attempt(lambda: dbdc.dataclass(**args)(type("C", (), {}))) != ("raise", "TypeError"):
                return rec.fail(f"options {args} are accepted")
    elif case == "independent":
        # Objects share nothing.
        C = dbdc.dataclass(type("C", (), {"__annotations__": {"a": list, "b": int}, "a": dbdc.field(default_factory=list)}))
        x, y = C(b=1), C(b=2)
        x.a.append(1)
        if y.a or C(b=3).a:
            return rec.fail("defaults are shared")
    rec.ok()
    rec.state(case)


def spaces() -> t.List[Space]:
    return [
        Space("single", single_cases, run_single, f"all sequences of up to 2 of {len(KINDS)} kinds of fields x options, 3 of {len(MAIN)}, 4 of 4; all calls", chunk=16),
        Space("inheritance", inherit_cases, run_inherit, "2 and 3 levels, re-declared fields, __post_init__, standard bases, undecorated classes", chunk=16),
        Space("others", other_cases, run_other, "several bases, diamonds, class bodies with other contents", chunk=16),
        Space("misc", lambda: ["twice", "names", "annotations", "forms", "independent"], run_misc, "other uses of the module"),
    ]
