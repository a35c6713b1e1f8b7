"""C11: a setting affects only the class, hint, field or call it was attached to."""

import dataclasses
import datetime as dt
import decimal
import itertools
import typing as t

import databind.core as dc
from databind.json import JsonConverter, dump, get_object_mapper, load

from mc import model as m
from mc.engine import Recorder, Space, thorough

ASSUMPTIONS = ["attaching one setting instance twice to the same class is left open"]


def mkclass(name: str, fields: t.Dict[str, t.Any], bases: t.Tuple[t.Any, ...] = (), **ns: t.Any) -> t.Any:
    cls = m._new_class(name, bases, {"__annotations__": fields, "__module__": m.MODULE, **ns})
    return dataclasses.dataclass(cls)


# -- histories ---------------------------------------------------------------------------------------------------------


class World:
    """A fresh set of classes and mappers; the model is the lists of tags attached to each place."""

    CLASSES = ("Base", "Sub", "Sib", "Leaf", "Outer")

    def __init__(self) -> None:
        self.log: t.List[t.Any] = []
        self.hint_setting = self.mk("hint")
        self.item_setting = self.mk("item")
        base = mkclass("Base", {"x": int}, x=0)
        sub = mkclass("Sub", {"y": int}, (base,), y=0)
        sib = mkclass("Sib", {"y": int}, (base,), y=0)
        leaf = mkclass("Leaf", {"x": int}, x=0)
        self.outer_fields = {
            "base": base, "sub": sub, "sib": sib, "leaf": leaf,
            "hinted": t.Annotated[base, self.hint_setting],
            "items": t.List[t.Annotated[sub, self.item_setting]],  # type: ignore[valid-type]
            "plain": t.Dict[str, sub],  # type: ignore[valid-type]
        }  # fmt: skip
        outer = mkclass("Outer", {k: t.Optional[v] for k, v in self.outer_fields.items()})
        self.cls = {"Base": base, "Sub": sub, "Sib": sib, "Leaf": leaf, "Outer": outer}
        self.settings = [dc.Settings()]
        self.mappers = [get_object_mapper(self.settings[0]), get_object_mapper()]  # the latter has settings of its own
        self.settings.append(self.mappers[1].settings)
        self.on_class: t.Dict[str, t.List[str]] = {c: [] for c in self.CLASSES}
        self.local: t.List[t.Dict[str, t.List[str]]] = [{c: [] for c in self.CLASSES} for _ in range(2)]
        self.cond: t.List[t.List[t.Tuple[str, str]]] = [[], []]
        self.glob: t.List[t.List[str]] = [[], []]

    def mk(self, tag: str) -> dc.ExtraKeys:
        return dc.ExtraKeys(True, lambda ctx, keys: self.log.append((tag, sorted(keys))))

    def probes(self) -> t.List[t.Tuple[t.Any, str, t.Any, t.List[str]]]:
        """(hint, class of the object with the extra key, payload, tags in its hint)"""
        c, x = self.cls, {"zz": 1}
        out: t.List[t.Any] = [(c[n], n, x, []) for n in self.CLASSES]
        out += [
            (c["Outer"], "Base", {"base": x}, []),
            (c["Outer"], "Sub", {"sub": x}, []),
            (c["Outer"], "Leaf", {"leaf": x}, []),
            (c["Outer"], "Base", {"hinted": x}, ["hint"]),
            (c["Outer"], "Sub", {"items": [{}, x]}, ["item"]),
            (c["Outer"], "Sub", {"plain": {"k": x}}, []),
        ]
        return out

    def expected(self, name: str, ann: t.List[str], mapper: t.Optional[int], call: t.Sequence[str] = ()) -> t.Optional[str]:
        order = list(ann) + self.on_class[name] + list(call)
        if mapper is not None:
            order += self.local[mapper][name] + [tag for n, tag in self.cond[mapper] if n == name] + self.glob[mapper]
        return order[0] if order else None

    def observe(self, rec: Recorder, hint: t.Any, name: str, payload: t.Any, ann: t.Any, mapper: t.Optional[int], key: t.Any,
                call: t.Sequence[str] = ()) -> bool:  # fmt: skip
        self.log.clear()
        fn = load if mapper is None else self.mappers[mapper].deserialize
        kw = {"settings": [self.mk(c) for c in call]} if call else {}
        got = m.attempt(fn, payload, hint, **kw)
        want = self.expected(name, ann, mapper, call)
        rec.trans()
        rec.state((key, repr(payload), name, mapper, bool(call)))
        seen = [tag for tag, keys in self.log]
        if got.kind != ("reject" if want is None else "ok") or seen != ([want] if want else []):
            rec.fail(f"load({payload!r}, {hint!r}) by {'load' if mapper is None else f'mapper {mapper}'} with call settings "
                     f"{list(call)}: {got!r}, informed {seen}; the setting in effect on {name} is {want!r}")  # fmt: skip
            return False
        rec.outcome("rejected" if want is None else "allowed by " + want.rstrip("0123456789"))
        rec.ok()
        return True


OPS: t.List[t.Tuple[t.Any, ...]] = (
    [("decorate", c) for c in World.CLASSES]
    + [("local", 0, "Base"), ("local", 0, "Sub"), ("local", 1, "Base")]
    + [("cond", 0, "Base"), ("cond", 1, "Sub"), ("global", 0), ("global", 1)]
    + [("call", None, "Sub"), ("call", 0, "Outer"), ("call", 0, "Base", "fail")]
)  # fmt: skip


def apply(w: World, op: t.Any, n: int, rec: Recorder, key: t.Any) -> bool:
    tag = f"{op[0]}{n}"
    s = w.mk(tag)
    if op[0] == "decorate":
        assert s(w.cls[op[1]]) is w.cls[op[1]]
        w.on_class[op[1]].append(tag)
    elif op[0] == "local":
        w.settings[op[1]].add_local(w.cls[op[2]], s)
        w.local[op[1]][op[2]].append(tag)
    elif op[0] == "cond":
        cls = w.cls[op[2]]
        w.settings[op[1]].add_conditional(lambda ctx: getattr(ctx.datatype, "type", None) is cls, s)
        w.cond[op[1]].append((op[2], tag))
    elif op[0] == "global":
        w.settings[op[1]].add_global(s)
        w.glob[op[1]].append(tag)
    elif op[0] == "call":
        if len(op) == 4:
            got = m.attempt(w.mappers[0].deserialize, {"x": "bad", "zz": 1}, w.cls[op[2]], settings=[s])
            if got.kind != "reject":
                rec.fail(f"a string for an int: {got!r}")
                return False
        else:
            return w.observe(rec, w.cls[op[2]], op[2], {"zz": 1}, [], op[1], key, [tag])
    return True


def run_history(case: t.Any, rec: Recorder) -> None:
    prefix, n = case
    for rest in itertools.product(OPS, repeat=n - len(prefix)):
        w = World()
        ops = prefix + rest
        for i, op in enumerate(ops):
            if not apply(w, op, i, rec, (ops, i)):
                return
        for hint, name, payload, ann in w.probes():
            for mapper in (0, 1, None):
                if not w.observe(rec, hint, name, payload, ann, mapper, ops):
                    return


def history_cases() -> t.Iterator[t.Any]:
    n = 4 if thorough() else 3
    for k in range(0, n + 1):
        for prefix in itertools.product(OPS, repeat=min(k, 2)):
            yield prefix, k


# -- one instance, one class -------------------------------------------------------------------------------------------


class Custom(dc.ClassDecoratorSetting):
    pass


def instances() -> t.List[t.Tuple[str, t.Any, t.Callable[[t.Any], bool]]]:
    """(name, setting, whether it is in effect for a class)"""

    class Conv(dc.Converter):
        def convert(self, ctx: dc.Context) -> t.Any:
            return "converted"

    def extra(cls: t.Any) -> bool:
        return m.attempt(load, {"zz": 1}, cls).kind == "ok"

    def conv(cls: t.Any) -> bool:
        got = m.attempt(load, {}, cls)
        return got.value == "converted"

    def union(cls: t.Any) -> bool:
        return dc.get_class_setting(cls, dc.Union) is not None

    def custom(cls: t.Any) -> bool:
        return dc.get_class_setting(cls, Custom) is not None

    return [
        ("ExtraKeys", dc.ExtraKeys(), extra), ("JsonConverter", JsonConverter(Conv()), conv),
        ("Union", dc.Union({}), union), ("custom", Custom(), custom),
    ]  # fmt: skip


def run_instance(case: t.Any, rec: Recorder) -> None:
    """Attach instances to classes in any order: each instance belongs to the first class that it was attached to."""
    kind, shape, steps = case
    base = mkclass("Base", {"x": int}, x=0)
    classes = [base, mkclass("Sub", {"y": int}, (base,) if shape == "inherit" else (), y=0),
               mkclass("Third", {"y": int}, (base,) if shape == "inherit" else (), y=0)]  # fmt: skip
    insts = [instances()[kind], instances()[kind]]
    owner: t.Dict[int, int] = {}
    for which, target in steps:
        if owner.get(which) == target:
            return  # left open
        s = insts[which][1]
        try:
            s(classes[target])
            ok = True
        except RuntimeError:
            ok = False
        rec.trans()
        rec.state((case, which, target))
        if ok != (which not in owner):
            return rec.fail(f"{insts[0][0]} instances attached to {owner}, then {which} to {target}: "
                            f"{'accepted' if ok else 'refused'}")  # fmt: skip
        owner.setdefault(which, target)
        for c in range(3):
            rec.trans()
            if insts[0][2](classes[c]) != (c in owner.values()):
                return rec.fail(f"{insts[0][0]} attached to {owner}: in effect on {c}: {not (c in owner.values())}")
            rec.ok()


def instance_cases() -> t.Iterator[t.Any]:
    ops = list(itertools.product(range(2), range(3)))
    for kind in range(4):
        for shape in ("inherit", "unrelated"):
            for k in (1, 2, 3, 4):
                for steps in itertools.product(ops, repeat=k):
                    yield kind, shape, steps


# -- occurrences of a hint ---------------------------------------------------------------------------------------------


class Mark(t.NamedTuple):
    """A setting with an effect that is visible on load."""

    name: str
    base: t.Callable[[], t.Any]
    ann: t.Callable[[], t.Any]
    #: payload -> (result without the setting, result with it); a result is a value or REJ
    table: t.Callable[[t.Any], t.List[t.Tuple[t.Any, t.Any, t.Any]]]


REJ = object()


def _rec_cls(name: str = "R0") -> t.Any:
    return mkclass(name, {"x": int}, x=0)


class Twice(dc.Converter):
    def convert(self, ctx: dc.Context) -> t.Any:
        return ("twice", ctx.value)


class SubStr(str):
    pass


def marks() -> t.List[Mark]:
    D = decimal.Decimal
    rcls, rcls2 = _rec_cls(), mkclass("R1", {"x": int}, x=0)

    def jc() -> t.Any:
        return JsonConverter(Twice())

    return [
        Mark("Strict", lambda: int, lambda: dc.Strict(False), lambda b: [(1, 1, 1), ("1", REJ, 1), ("x", REJ, REJ)]),
        Mark("Strict str", lambda: str, lambda: dc.Strict(False), lambda b: [("a", "a", "a"), (1, REJ, "1")]),
        Mark("ExtraKeys", lambda: rcls, lambda: dc.ExtraKeys(),
             lambda b: [({"x": 1}, b(1), b(1)), ({"x": 1, "zz": 0}, REJ, b(1)), ({"x": "1"}, REJ, REJ)]),
        Mark("DateFormat", lambda: dt.date, lambda: dc.DateFormat("%d.%m.%Y"),
             lambda b: [("2020-01-02", dt.date(2020, 1, 2), REJ), ("02.01.2020", REJ, dt.date(2020, 1, 2))]),
        Mark("Precision", lambda: D, lambda: dc.Precision(2), lambda b: [("1.25", D("1.25"), D("1.2")), ("1", D(1), D(1))]),
        Mark("JsonConverter", lambda: int, jc, lambda b: [(1, 1, ("twice", 1)), ("a", REJ, ("twice", "a"))]),
        Mark("DeserializeAs", lambda: rcls, lambda: dc.DeserializeAs(rcls2),
             lambda b: [({"x": 1}, b(1), rcls2(1)), ({"x": "s"}, REJ, REJ)]),
        Mark("Union", lambda: str, lambda: dc.Union({"i": int, "s": str}, "keyed"),
             lambda b: [("a", "a", "a")]),
    ]  # fmt: skip


STRUCTS = ("fields", "tuple", "dict and list", "nested", "generic", "inherited", "typeddict", "flattened", "mapping keys")


def build(struct: str, hints: t.List[t.Any]) -> t.Tuple[t.Any, t.Callable[[t.List[t.Any]], t.Any], t.Callable[[t.List[t.Any]], t.Any]]:
    """(type with three occurrences, payload of three payloads, value of three values)"""
    a, b, c = hints
    if struct == "fields":
        cls = mkclass("S", {"a": a, "b": b, "c": c})
        return cls, lambda p: dict(zip("abc", p)), lambda v: cls(*v)
    if struct == "tuple":
        return t.Tuple[a, b, c], list, tuple  # type: ignore[valid-type]
    if struct == "dict and list":
        cls = mkclass("S", {"a": t.Dict[str, a], "b": t.List[b], "c": t.Optional[c]})  # type: ignore[valid-type]
        return (cls, lambda p: {"a": {"k": p[0]}, "b": [p[1], p[1]], "c": p[2]},
                lambda v: cls({"k": v[0]}, [v[1], v[1]], v[2]))  # fmt: skip
    if struct == "nested":
        inner = mkclass("I", {"c": c})
        mid = mkclass("M", {"b": b, "i": inner})
        cls = mkclass("S", {"a": a, "m": mid})
        return (cls, lambda p: {"a": p[0], "m": {"b": p[1], "i": {"c": p[2]}}}, lambda v: cls(v[0], mid(v[1], inner(v[2]))))
    if struct == "generic":
        X = t.TypeVar("X")  # type: ignore[misc]
        box = mkclass("Box", {"v": X}, (t.Generic[X],))  # type: ignore[index]
        return (t.Tuple[box[a], box[b], box[c]], lambda p: [{"v": x} for x in p], lambda v: tuple(box(x) for x in v))
    if struct == "inherited":
        # The field keeps the settings of the class that defines it.
        base = mkclass("B", {"a": a, "b": a})
        cls = mkclass("S", {"b": b, "c": c}, (base,))
        return cls, lambda p: dict(zip("abc", p)), lambda v: cls(*v)
    if struct == "typeddict":
        td = t.TypedDict("TD", {"a": a, "b": b, "c": c})  # type: ignore[misc]
        return td, lambda p: dict(zip("abc", p)), lambda v: dict(zip("abc", v))
    if struct == "flattened":
        inner = mkclass("I", {"b": b})
        cls = mkclass("S", {"a": a, "i": t.Annotated[inner, dc.Flattened()], "c": c})
        return cls, lambda p: dict(zip("abc", p)), lambda v: cls(v[0], inner(v[1]), v[2])
    cls = mkclass("S", {"m": t.Dict[a, b], "c": c})  # type: ignore[valid-type]
    return cls, lambda p: {"m": {p[0]: p[1]}, "c": p[2]}, lambda v: cls({v[0]: v[1]}, v[2])


def run_occurrence(case: t.Any, rec: Recorder) -> None:
    mi, struct, which, other = case
    mark = marks()[mi]
    base = mark.base()
    if mark.name == "Union" or (struct == "mapping keys" and isinstance(mark.table(base)[0][0], dict)):
        return
    extra = () if other is None else (marks()[other].ann(),)
    hints = [t.Annotated[(base, mark.ann(), *extra)] if w else base for w in which]  # type: ignore[misc]
    typ, mkp, mkv = build(struct, hints)
    table = mark.table(base)
    for combo in itertools.product(table, repeat=3):
        payload = mkp([row[0] for row in combo])
        vals = [row[2] if w else row[1] for row, w in zip(combo, which)]
        want = REJ if any(v is REJ for v in vals) else mkv(vals)
        got = m.attempt(load, payload, typ)
        rec.trans()
        rec.state((case, repr(payload)))
        rec.outcome("reject" if want is REJ else "accept")
        if want is REJ and got.kind != "reject" or want is not REJ and (got.kind != "ok" or got.value != want):
            return rec.fail(f"{mark.name} on occurrences {which} of {struct}: load({payload!r}, {typ!r}) {got!r}; expected "
                            f"{'a ConversionError' if want is REJ else want!r}")  # fmt: skip
        rec.ok()


def occurrence_cases() -> t.Iterator[t.Any]:
    n = len(marks())
    for mi in range(n):
        for struct in STRUCTS:
            for which in itertools.product((False, True), repeat=3):
                yield mi, struct, which, None


def run_members(case: t.Any, rec: Recorder) -> None:
    """A setting on a hint, a class, a local type or a conditional does not reach the members of the type."""
    mi, cont, place = case
    mark = marks()[mi]
    base = mark.base()
    inner = base
    conts: t.Dict[str, t.Tuple[t.Any, t.Any, t.Any]] = {}
    rec_cls = mkclass("C", {"f": inner})
    td = t.TypedDict("TD", {"f": inner})  # type: ignore[misc]
    conts["record"] = rec_cls, lambda p: {"f": p}, rec_cls
    conts["list"] = t.List[inner], lambda p: [p], lambda v: [v]
    conts["tuple"] = t.Tuple[inner, inner], lambda p: [p, p], lambda v: (v, v)
    conts["dict"] = t.Dict[str, inner], lambda p: {"k": p}, lambda v: {"k": v}
    conts["typeddict"] = td, lambda p: {"f": p}, lambda v: {"f": v}
    typ, mkp, mkv = conts[cont]
    kw: t.Dict[str, t.Any] = {}
    settings = dc.Settings()
    s = mark.ann()
    if isinstance(s, (JsonConverter, dc.DeserializeAs, dc.Union)):
        return  # these replace the conversion of the type they are attached to
    if place == "hint":
        typ = t.Annotated[typ, s]
    elif place == "local":
        settings.add_local({"record": rec_cls, "list": list, "tuple": tuple, "dict": dict, "typeddict": td}[cont], s)
    elif place == "class":
        if not isinstance(s, dc.ClassDecoratorSetting) or cont != "record":
            return
        s(rec_cls)
    elif place == "cond":
        settings.add_conditional(lambda ctx: ctx.parent is None, s)
    elif place == "cond key":
        settings.add_conditional(lambda ctx: ctx.key == "nope", s)
    elif place == "other local":
        settings.add_local(Twice, s)
        settings.add_local(complex, s)
    elif place == "base local":
        settings.add_local(object, s)
    mapper = get_object_mapper(settings)
    for p, without, with_ in mark.table(base):
        want = REJ if without is REJ else mkv(without)
        got = m.attempt(mapper.deserialize, mkp(p), typ, **kw)
        rec.trans()
        rec.state((case, repr(p)))
        if want is REJ and got.kind != "reject" or want is not REJ and (got.kind != "ok" or got.value != want):
            return rec.fail(f"{mark.name} on the {cont} ({place}) changes its members: load({mkp(p)!r}) {got!r}")
        rec.ok()


def member_cases() -> t.Iterator[t.Any]:
    for mi in range(len(marks())):
        for cont in ("record", "list", "tuple", "dict", "typeddict"):
            for place in ("hint", "local", "class", "cond", "cond key", "other local", "base local"):
                yield mi, cont, place


# -- calls -------------------------------------------------------------------------------------------------------------

CallRow = t.Tuple[str, t.Any, t.Any, t.List[t.Any], t.Any]


def call_rows() -> t.List[CallRow]:
    """(how, argument, type, settings, result)"""
    D = decimal.Decimal
    rcls = CALL_REC
    day = dt.date(2020, 1, 2)
    return [
        ("load", "1", int, [], REJ), ("load", "1", int, [dc.Strict(False)], 1),
        ("load", {"zz": 1}, rcls, [], REJ), ("load", {"zz": 1}, rcls, [dc.ExtraKeys()], rcls(0)),
        ("load", {"zz": 1, "x": "a"}, rcls, [dc.ExtraKeys()], REJ),
        ("dump", rcls(0), rcls, [], {"x": 0}), ("dump", rcls(0), rcls, [dc.SerializeDefaults(False)], {}),
        ("dump", day, dt.date, [], "2020-01-02"), ("dump", day, dt.date, [dc.DateFormat("%d.%m.%Y")], "02.01.2020"),
        ("load", "1.25", D, [dc.Precision(2)], D("1.2")), ("load", "1.25", D, [], D("1.25")),
        ("load", 1, int, [JsonConverter(Twice())], ("twice", 1)), ("load", 1, int, [], 1),
    ]  # fmt: skip


CALL_REC = mkclass("CallRec", {"x": int}, x=0)


def run_calls(case: t.Any, rec: Recorder) -> None:
    seq, via = case
    rows = call_rows()
    mapper = get_object_mapper()
    for i in seq:
        how, arg, typ, settings, want = rows[i]
        if via == "module":
            fn: t.Any = load if how == "load" else dump
        else:
            fn = mapper.deserialize if how == "load" else mapper.serialize
        given = list(settings)
        got = m.attempt(fn, arg, typ, settings=given if settings or via == "mapper" else None)
        rec.trans()
        rec.state((case, i))
        if want is REJ and got.kind != "reject" or want is not REJ and (got.kind != "ok" or got.value != want):
            return rec.fail(f"calls {seq} via {via}: {how}({arg!r}, {typ!r}, settings={settings!r}) {got!r}; expected {want!r}")
        if len(given) != len(settings) or any(a is not b for a, b in zip(given, settings)):
            return rec.fail(f"the settings list of the call was modified: {given}")
        rec.ok()


def call_cases() -> t.Iterator[t.Any]:
    n = len(call_rows())
    for k in (2, 3) if not thorough() else (2, 3, 4):
        for seq in itertools.product(range(n), repeat=k):
            for via in ("module", "mapper"):
                if k < 4 or via == "mapper":
                    yield seq, via


def run_nested_call(case: t.Any, rec: Recorder) -> None:
    """A conversion started by a converter, inside of a call with settings, does not see those."""
    outer_settings, inner_settings, via, direct = case
    settings = dc.Settings()
    mapper = get_object_mapper(settings)
    results: t.List[m.Outcome] = []

    class Reenter(dc.Converter):
        def convert(self, ctx: dc.Context) -> t.Any:
            if ctx.direction.is_deserialize() and isinstance(ctx.value, dict) and "go" in ctx.value:
                fn = mapper.deserialize if via == "mapper" else load
                kw = {"settings": [dc.Strict(False)]} if inner_settings else {}
                results.append(m.attempt(fn, "1", int, **kw))
                results.append(m.attempt(lambda: ctx.spawn("1", int, "go").convert()))
                return 0
            raise NotImplementedError

    mapper.module.register(Reenter(), first=True)
    typ: t.Any = t.List[int] if not direct else int
    kw = {"settings": [dc.Strict(False)]} if outer_settings else {}
    for _ in range(2):
        del results[:]
        got = m.attempt(mapper.deserialize, {"go": 1} if direct else [{"go": 1}, 1], typ, **kw)
        rec.trans()
        rec.state(case)
        want = ["ok" if inner_settings else "reject", "ok" if outer_settings else "reject"]
        if got.kind != "ok" or [r.kind for r in results] != want:
            return rec.fail(f"{case}: {got!r}, inner results {results} instead of {want}")
        rec.ok()


# -- fields ------------------------------------------------------------------------------------------------------------


def run_field(case: t.Any, rec: Recorder) -> None:
    """Alias, Required, Flattened and Remainder on one field leave the other fields of the class, and other classes with
    the same field names, alone."""
    kinds, which = case
    opts: t.Dict[str, t.List[t.Any]] = {
        "none": [], "alias": [dc.Alias("al")], "alias2": [dc.Alias("b")], "required": [dc.Required()],
        "strict": [dc.Strict(False)],
    }  # fmt: skip
    fields = []
    for n, k in zip("abc", kinds):
        f = m.F(n, m.OptT(m.INT), alias=("al",) if k == "alias" else ("q" + n, "b2") if k == "alias2" else (),
                required=True if k == "required" else None,
                ann=(dc.Strict(False),) if k == "strict" else (), loc={"strict": False} if k == "strict" else None)  # fmt: skip
        fields.append(f)
    if sum(k == "alias" for k in kinds) > 1 or sum(k == "alias2" for k in kinds) > 1:
        return
    typ = m.RecT("R", fields)
    twin = m.RecT("R", [m.F(n, m.OptT(m.INT)) for n in "abc"])
    keys = ["a", "b", "c", "al", "qa", "qb", "b2"]
    for k in range(0, 4):
        for ks in itertools.combinations(keys, k):
            for val in (1, "1"):
                p = {x: val for x in ks}
                for x in (typ, twin):
                    exp = m.expect(x.dec, p)
                    got = m.attempt(load, p, x.hint)
                    rec.trans()
                    rec.state((case, ks, val, x is typ))
                    bad = m.judge(exp, got)
                    if bad:
                        return rec.fail(f"load({p!r}, {x.label}) {bad}")
                    rec.ok()


# -- families of union classes -----------------------------------------------------------------------------------------


def run_family(case: t.Any, rec: Recorder) -> None:
    """Classes that derive from each other, some of which are unions: each has the members registered with it."""
    decorated, ops = case
    level: t.List[t.Any] = []
    for i in range(3):
        level.append(type(f"L{i}", (level[-1],) if level else (), {"__module__": m.MODULE}))
        if decorated[i]:
            dc.Union(style=("keyed", "nested", "flat")[i])(level[i])
    members = [dataclasses.make_dataclass(f"M{i}", [("x", int)], bases=(level[2],), module=m.MODULE) for i in range(2)]
    table: t.List[t.Dict[str, t.Any]] = [{}, {}, {}]
    for n, (i, k) in enumerate(ops):
        got = m.attempt(lambda: dc.Union.register(level[i], f"id{k}")(members[k]))
        rec.trans()
        if decorated[i] != (got.kind == "ok"):
            return rec.fail(f"registration {ops[: n + 1]} with {decorated} gave {got!r}")
        if decorated[i]:
            table[i][f"id{k}"] = members[k]
    for i in range(3):
        rec.state((case, i))
        for k, member in enumerate(members):
            body, ident = {"x": 1}, f"id{k}"
            form: t.Any = ({ident: body}, {"type": ident, ident: body}, {"x": 1, "type": ident})[i]
            known = decorated[i] and ident in table[i]
            for what, got in (
                ("dump", m.attempt(dump, member(1), level[i])),
                ("load", m.attempt(load, form, level[i])),
            ):
                rec.trans()
                rec.outcome(f"family {got.kind}")
                want = form if what == "dump" else member(1)
                if got.kind != ("ok" if known else "reject") or known and (type(got.value) is not type(want) or got.value != want):
                    return rec.fail(f"unions at {decorated}, registered {ops}: {what} of {member.__name__} as L{i} gave {got!r}")
                rec.ok()


def family_cases() -> t.Iterator[t.Any]:
    for decorated in itertools.product((False, True), repeat=3):
        for n in range(4):
            for ops in itertools.product(itertools.product(range(3), range(2)), repeat=n):
                yield decorated, ops


def spaces() -> t.List[Space]:
    n = 4 if thorough() else 3
    return [
        Space("histories", history_cases, run_history,
              f"all sequences of up to {n} of {len(OPS)} attachments and calls, then every class and position by two mappers and load()"),
        Space("instances", instance_cases, run_instance, "up to 4 attachments of two instances to three classes x 4 kinds of settings"),
        Space("occurrences", occurrence_cases, run_occurrence,
              f"{len(marks())} settings on every subset of three occurrences in {len(STRUCTS)} structures x all payload combinations"),
        Space("members", member_cases, run_members, "settings on containers x placements: members keep their behaviour"),
        Space("calls", call_cases, run_calls, "all sequences of up to three of 13 calls with and without settings", chunk=32),
        Space("nested calls", lambda: itertools.product((0, 1), (0, 1), ("mapper", "module"), (0, 1)), run_nested_call,
              "conversions started from within conversions"),
        Space("union families", family_cases, run_family,
              "three classes that derive from each other, every subset being unions x all sequences of up to 3 registrations"),
        Space("fields", lambda: ((k, None) for k in itertools.product(("none", "alias", "alias2", "required", "strict"), repeat=3)),
              run_field, "settings on each of three fields x key subsets"),
    ]  # fmt: skip
