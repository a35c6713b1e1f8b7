"""C08: tagged unions: every style names the member and reads back what it wrote."""

import abc
import dataclasses
import datetime
import itertools
import typing as t

import databind.core as dc
from databind.core.union import ChainUnionMembers, StaticUnionMembers
from databind.json import dump, get_object_mapper, load
from databind.json.settings import JsonConverter
from typeapi import TypeHint

from mc import model as m
from mc import records
from mc.engine import Recorder, Space, thorough

ASSUMPTIONS = [
    "open corners: a FLAT discriminator that is also a key of the member's own object; a nesting key equal to the "
    "discriminator key; surplus keys next to a nested body; FLAT members that are not records",
    "the annotated or decorated type of the union is not itself a record",
]

STYLES = ("nested", "flat", "keyed")
KEYS: t.List[t.Tuple[str, t.Optional[str]]] = [
    ("type", None), ("kind", None), ("type", "body"), ("", None), ("$t", "value"), ("kind", ""), ("b", "a"),
]  # fmt: skip
ATOMS = m.ATOMS
#: Not members of any union below.
FOREIGN: t.List[t.Any] = [None, 1.5, True, b"", [], {}, {"type": "a", "a": 1}, (), object(), int, Ellipsis, m.Color.RED]


def judge(rec: Recorder, what: t.Any, exp: m.Expected, got: m.Outcome, key: t.Any) -> bool:
    rec.trans()
    rec.state(key)
    rec.outcome(f"model:{exp.kind} code:{got.kind}")
    bad = m.judge(exp, got)
    if bad:
        rec.fail(f"{what} {bad}")
        return False
    if exp.kind != "unspec":
        rec.ok()
    return True


def both_ways(rec: Recorder, typ: m.T, key: t.Any, up: t.Any = lambda v: v, n: int = 4, atoms: t.Any = None) -> bool:
    """Every value dumps to the documented shape and loads back; every mutated payload is judged as documented."""
    for v in typ.vals():
        exp = m.expect(typ.enc, v)
        got = m.attempt(dump, v, typ.hint)
        if not judge(rec, f"dump({v!r}, {typ.label})", exp, got, (key, "dump", repr(v))):
            return False
        if got.kind == "ok" and exp.kind == "ok":
            back = m.attempt(load, got.value, typ.hint)
            rec.trans()
            if back.kind != "ok" or type(back.value) is not type(v) or back.value != v:
                rec.fail(f"dump({v!r}, {typ.label}) gave {got.value!r}, which load {back!r}")
                return False
    for p in m.payloads(typ, ATOMS if atoms is None else atoms, n):
        exp = m.expect(typ.dec, p)
        got = m.attempt(load, m.copy_json(p), typ.hint)
        if not judge(rec, f"load({p!r}, {typ.label})", exp, got, (key, "load", repr(p))):
            return False
    return True


# -- member sets -------------------------------------------------------------------------------------------------------

A = m.RecT("A", [m.F("x", m.INT)])
B = m.RecT("B", [m.F("x", m.INT)])
C = m.RecT("C", [m.F("y", m.STR, alias=("yy", "zz")), m.F("x", m.OptT(m.INT))])
D = m.RecT("D", [m.F("f", A, flat=True), m.F("rest", m.MapT("Dict", m.STR, m.INT), rest=True)],
           instances=lambda r: [r.make(f=A.make(x=1), rest={}), r.make(f=A.make(x=2), rest={"q": 3})])  # fmt: skip
E_ = m.RecT("E", [])
NT = m.RecT("NT", [m.F("x", m.INT)], kind="namedtuple")
G = records.build("databind", "G", [m.F("d", m.INT, default=1), m.F("r", m.STR)])
ASUB = m.RecT("ASub", [m.F("x", m.INT), m.F("y", m.INT, default=0)],
              cls=dataclasses.make_dataclass("ASub", [("y", int, 0)], bases=(A.cls,), module=m.MODULE))  # fmt: skip
MEMBERS: t.List[m.T] = [A, B, C, D, E_, G, ASUB, m.INT, m.STR, m.DateT, m.COLOR, NT]
IDS = ["a", "b", "c", "d"]


def set_cases() -> t.Iterator[t.Any]:
    n = len(MEMBERS)
    for k in (1, 2, 3) if not thorough() else (1, 2, 3, 4):
        pool = range(n) if k < 3 else range(7 if thorough() else 5) if k == 3 else range(4)
        for sel in itertools.permutations(pool, k):
            for style in STYLES:
                yield style, sel


def run_set(case: t.Any, rec: Recorder) -> None:
    style, sel = case
    mem = {i: MEMBERS[x] for i, x in zip(IDS, sel)}
    for disc, nest in KEYS if len(sel) < 3 else KEYS[:3]:
        if style != "nested" and nest is not None and disc != "type":
            continue
        # A union of one type is that type to `typing`; the setting then needs another type to be attached to.
        hint = t.Annotated[ModA, dc.Union({i: x.hint for i, x in mem.items()}, style, disc, nest)] if len(mem) == 1 else None
        typ = m.TaggedT(style, mem, disc, nest, hint=hint)
        key = (case, disc, nest)
        if not both_ways(rec, typ, key, atoms=ATOMS if len(sel) < 3 else m.FEW_ATOMS, n=4 if len(sel) < 3 else 3):
            return
        others = [v for x in range(len(MEMBERS)) if x not in sel for v in MEMBERS[x].vals()[:1]]
        for v in FOREIGN + others:
            exp = m.expect(typ.enc, v)
            if not judge(rec, f"dump({v!r}, {typ.label})", exp, m.attempt(dump, v, typ.hint), (key, "foreign", repr(v))):
                return
        # Every other id is unknown, whatever it looks like, and every id selects its own member.
        for wrong in ("", "A", "x", "type", IDS[len(sel)], "a ", "__class__", disc, nest or "zz"):
            for body in ({"x": 1}, 1, "s"):
                for p in ({disc: wrong, wrong: body}, {disc: wrong, "x": 1}, {wrong: body}, {disc: wrong, nest or wrong: body}):
                    exp = m.expect(typ.dec, p)
                    got = m.attempt(load, p, typ.hint)
                    if not judge(rec, f"load({p!r}, {typ.label})", exp, got, (key, "id", repr(p))):
                        return


# -- positions ---------------------------------------------------------------------------------------------------------

WRAPS = ("List", "Dict", "Tuple2", "Optional", "Rec", "RecOpts", "Generic", "GenericSub", "TypedDict", "NamedTuple",
         "Remainder", "Nested", "Keyed", "Flat", "Frozen", "Deque")  # fmt: skip


def position_cases() -> t.Iterator[t.Any]:
    for style in STYLES:
        for sel in ((0, 1), (2, 4), (0, 7), (3, 5)):
            for k in (0, 1, 2):
                for w in WRAPS if k == 0 or sel == (0, 7) or thorough() else ():
                    yield style, sel, k, (w,)
                few = WRAPS if thorough() else ("List", "Dict", "Optional", "Rec", "GenericSub", "Keyed", "Flat")
                for w in itertools.product(few, repeat=2) if thorough() or (sel == (0, 1) and k == 0) else ():
                    yield style, sel, k, w


def run_position(case: t.Any, rec: Recorder) -> None:
    style, sel, k, wraps = case
    typ: t.Optional[m.T] = m.TaggedT(style, {i: MEMBERS[x] for i, x in zip(IDS, sel)}, *KEYS[k])
    table = dict(m.wrappers())
    for w in wraps:
        typ = table[w](typ)
        if typ is None:
            return
    both_ways(rec, typ, case, n=2 if len(wraps) == 1 else 1, atoms=m.FEW_ATOMS if len(wraps) == 1 else m.FEW_ATOMS[:4])


# -- ways to declare ---------------------------------------------------------------------------------------------------


class ModA:
    pass


@dataclasses.dataclass
class GlobalMember:
    x: int


GM = m.RecT("GlobalMember", [m.F("x", m.INT)], cls=GlobalMember)

DECLS = ("dict", "static", "list", "chain", "callable", "hints", "decorated", "decorated abc", "registered later",
         "decorator default id", "two ids", "import", "chain with import", "subclass order")  # fmt: skip


def declare(how: str, style: str, disc: str, nest: t.Optional[str]) -> t.Tuple[m.TaggedT, t.Callable[[], None]]:
    """The union as the model sees it, with the hint declared in the given way; and what to do after a first use."""
    mem: t.Dict[str, m.T] = {"a": A, "b": B, "c": C}
    types = {k: v.hint for k, v in mem.items()}
    later: t.Callable[[], None] = lambda: None  # noqa: E731

    def ann(members: t.Any, base: t.Any = ModA) -> t.Any:
        return t.Annotated[base, dc.Union(members, style, disc, nest)]

    if how == "dict":
        hint = ann(types, t.Union[tuple(types.values())])  # type: ignore[misc]
    elif how == "static":
        hint = ann(StaticUnionMembers(dict(types)))
    elif how == "list":
        hint = ann([{"a": A.hint}, StaticUnionMembers({"b": B.hint, "a": m.INT.hint}), {"c": C.hint}])
    elif how == "chain":
        hint = ann(ChainUnionMembers(StaticUnionMembers({"a": A.hint, "b": B.hint}), StaticUnionMembers(types)))
    elif how == "callable":
        hint = ann({k: (lambda v=v: v) for k, v in types.items()})
    elif how == "hints":
        hint = ann({k: TypeHint(v) for k, v in types.items()})
    elif how == "two ids":
        # The second id of a type loads it as well, the first one is dumped.
        hint = ann({**types, "a2": A.hint, "b2": B.hint})
        mem = {**mem, "a2": A, "b2": B}
    elif how == "import":
        q = f"{__name__}.GlobalMember"
        mem = {q: GM}
        hint = ann("<import>")
    elif how == "chain with import":
        mem = {"a": A, f"{__name__}.GlobalMember": GM}
        hint = ann([{"a": A.hint}, "<import>"])
    elif how == "subclass order":
        mem = {"a": A, "s": ASUB, "b": B}
        hint = ann({"s": ASUB.hint, "a": A.hint, "b": B.hint})
        mem = {"s": ASUB, "a": A, "b": B}
    else:
        if how == "decorated abc":

            class Base(abc.ABC):
                @abc.abstractmethod
                def f(self) -> None: ...

        else:

            class Base:  # type: ignore[no-redef]
                pass

        deco = dc.Union(style=style, discriminator_key=disc, nesting_key=nest)
        assert deco(Base) is Base
        mem = {}

        def register(ident: t.Optional[str], name: str, fields: t.List[m.F]) -> None:
            ns: t.Dict[str, t.Any] = {"__annotations__": {f.name: f.hint() for f in fields}, "__module__": m.MODULE}
            ns["f"] = lambda self: None
            raw = m._new_class(name, (Base,), ns)
            if len(mem) % 2:
                cls = dc.Union.register(Base, ident)(dataclasses.dataclass(raw))
            else:
                cls = dataclasses.dataclass(dc.Union.register(Base, ident)(raw))
            assert cls is raw
            mem[ident or name] = m.RecT(name, fields, cls=cls)

        ids = (None, None, "c") if how == "decorator default id" else ("a", "b", "c")
        register(ids[0], "P", [m.F("x", m.INT)])
        register(ids[1], "Q", [m.F("x", m.INT)])
        if how == "registered later":
            later = lambda: register("c", "R", [m.F("y", m.STR, alias=("yy",))])  # noqa: E731
        else:
            register(ids[2], "R", [m.F("y", m.STR, alias=("yy",))])
        hint = Base
    typ = m.TaggedT(style, mem, disc, nest, hint=hint)
    return typ, later


def run_decl(case: t.Any, rec: Recorder) -> None:
    how, style, k, wrap = case
    disc, nest = KEYS[k]
    typ, later = declare(how, style, disc, nest)
    for phase in range(2):
        w: m.T = typ
        if wrap == "annotated":
            w = m.AnnT(typ, "foreign", dc.Strict(False))
        elif wrap != "bare":
            x = dict(m.wrappers())[wrap](typ)
            if x is None:
                return
            w = x
        if not both_ways(rec, w, (case, phase), n=5, atoms=ATOMS if wrap == "bare" and k == 0 or thorough() else m.FEW_ATOMS):
            return
        if wrap == "bare":
            for v in FOREIGN + [MEMBERS[5].vals()[0], MEMBERS[9].vals()[0]]:
                exp = m.expect(w.enc, v)
                if "import" in how and exp.kind == "reject":
                    continue  # every importable class is a member
                if not judge(rec, f"dump({v!r}, {w.label})", exp, m.attempt(dump, v, w.hint), (case, phase, repr(v))):
                    return
        later()
        if how != "registered later":
            break


def decl_cases() -> t.Iterator[t.Any]:
    for how in DECLS:
        for style in STYLES:
            for k in range(len(KEYS)):
                for wrap in ("bare", "annotated", "List", "Optional", "Dict", "Rec"):
                    if k == 0 or wrap == "bare" or thorough():
                        yield how, style, k, wrap


# -- recursion ---------------------------------------------------------------------------------------------------------


def recursive(style: str, disc: str, nest: t.Optional[str]) -> t.Tuple[m.TaggedT, t.Callable[[int], t.List[t.Any]]]:
    """Expression trees: Num | Add(list) | Neg(optional) | Env(dict), members of a decorated base."""

    class Expr:
        pass

    dc.Union(style=style, discriminator_key=disc, nesting_key=nest)(Expr)

    def member(name: str, **ann: t.Any) -> t.Any:
        cls = dataclasses.dataclass(m._new_class(name, (Expr,), {"__annotations__": ann, "__module__": m.MODULE}))
        return dc.Union.register(Expr, name.lower())(cls)

    num = member("Num", v=int)
    add = member("Add", args=t.List[Expr])  # type: ignore[valid-type]
    neg = member("Neg", arg=t.Optional[Expr])
    env = member("Env", by=t.Dict[str, Expr])  # type: ignore[valid-type]
    mem: t.Dict[str, m.T] = {}
    typ = m.TaggedT.__new__(m.TaggedT)
    typ.style, typ.members, typ.disc, typ.nest, typ.hint = style, mem, disc, nest, Expr
    typ.label, typ.hashable = f"Expr<{style}>", False
    lst, opt, dct = m.SeqT("List", m.ANY), m.OptT(m.ANY), m.MapT("Dict", m.STR, m.ANY)
    lst.item, opt.inner, dct.val = typ, typ, typ
    mem["num"] = m.RecT("Num", [m.F("v", m.INT)], cls=num)
    mem["add"] = m.RecT("Add", [m.F("args", lst)], cls=add)
    mem["neg"] = m.RecT("Neg", [m.F("arg", opt)], cls=neg)
    mem["env"] = m.RecT("Env", [m.F("by", dct)], cls=env)

    def trees(depth: int) -> t.List[t.Any]:
        out = [num(1)]
        if depth:
            sub = trees(depth - 1)
            out += [add([]), neg(None)] + [neg(s) for s in sub] + [env({"k": s, "type": sub[0]}) for s in sub]
            out += [add([x, y]) for x in sub for y in (sub if depth < 3 else sub[:3])]
        return out

    return typ, trees


def run_recursive(case: t.Any, rec: Recorder) -> None:
    style, k, depth, part, parts = case
    typ, trees = recursive(style, *KEYS[k])
    for i, v in enumerate(trees(depth)):
        if i % parts != part:
            continue
        exp = m.expect(typ.enc, v)
        got = m.attempt(dump, v, typ.hint)
        if not judge(rec, f"dump({v!r}, {typ.label})", exp, got, (case, repr(v))):
            return
        if got.kind != "ok":
            continue
        back = m.attempt(load, got.value, typ.hint)
        rec.trans()
        if back.kind != "ok" or back.value != v:
            return rec.fail(f"dump({v!r}, {typ.label}) gave {got.value!r}, which load {back!r}")
        if depth <= 2:
            for p in m.mutations(m.plain(exp.value), m.FEW_ATOMS):
                if not judge(rec, f"load({p!r}, {typ.label})", m.expect(typ.dec, p), m.attempt(load, p, typ.hint), (case, repr(p))):
                    return


def recursive_cases() -> t.Iterator[t.Any]:
    for style in STYLES:
        for k in (0, 1, 2):
            for depth, parts in ((1, 1), (2, 4), (3, 16)):
                for part in range(parts):
                    if depth < 3 or k == 0 or thorough():
                        yield style, k, depth, part, parts


# -- registration histories --------------------------------------------------------------------------------------------

OPS = [(i, c) for i in ("a", "b", None) for c in (0, 1)]


def run_history(case: t.Any, rec: Recorder) -> None:
    """After any sequence of registrations, conversions follow the table as it is then."""
    style, ops = case
    mapper = get_object_mapper()

    class Base:
        pass

    dc.Union(style=style)(Base)
    classes = []
    for name in ("P", "Q"):
        ns = {"__annotations__": {"x": int}, "__module__": m.MODULE}
        classes.append(dataclasses.dataclass(m._new_class(name, (Base,), ns)))
    recs = [m.RecT(c.__name__, [m.F("x", m.INT)], cls=c) for c in classes]
    table: t.Dict[str, m.T] = {}
    typ = m.TaggedT(style, table, hint=Base)
    for n, op in enumerate((None,) + ops):
        if op is not None:
            ident, c = op
            dc.Union.register(Base, ident)(classes[c])
            table[ident or classes[c].__name__] = recs[c]
        for c in classes:
            v = c(1)
            exp = m.expect(typ.enc, v)
            if not judge(rec, f"after {ops[:n]}: dump({v!r})", exp, m.attempt(mapper.serialize, v, Base), (style, ops[:n], repr(v))):
                return
        for ident in ("a", "b", "P", "Q"):
            p = {"nested": {"type": ident, ident: {"x": 1}}, "flat": {"type": ident, "x": 1}, "keyed": {ident: {"x": 1}}}[style]
            exp = m.expect(typ.dec, p)
            if not judge(rec, f"after {ops[:n]}: load({p!r})", exp, m.attempt(mapper.deserialize, p, Base), (style, ops[:n], ident)):
                return


def history_cases() -> t.Iterator[t.Any]:
    for style in STYLES:
        for n in range(0, (4 if not thorough() else 5) + 1):
            for ops in itertools.product(OPS, repeat=n):
                if n == (4 if not thorough() else 5) or n == 0:
                    yield style, ops


# -- bodies of every form ----------------------------------------------------------------------------------------------

BODIES: t.List[t.Any] = [None, False, 0, 0.0, "", "type", "raw", [], [None], {}, {"type": "raw"}, {"raw": None}, True, 1, [[]]]


@JsonConverter.using_classmethods(serialize="to_json", deserialize="of")
class Raw:
    """Its serialized form is any payload at all."""

    def __init__(self, payload: t.Any) -> None:
        self.payload = payload

    def to_json(self) -> t.Any:
        return self.payload

    @classmethod
    def of(cls, payload: t.Any) -> "Raw":
        return cls(payload)

    def __eq__(self, other: t.Any) -> bool:
        return type(other) is Raw and repr(other.payload) == repr(self.payload)


def run_body(case: t.Any, rec: Recorder) -> None:
    style, (disc, nest), n, others, where = case
    payload = BODIES[n]
    base = type("Base", (), {})
    members = {"raw": Raw, "a": A.hint, "b": B.hint} if others else {"raw": Raw}
    union = dc.Union(members, style, disc, nest)
    hint: t.Any = union(base) if where == "class" else t.Annotated[base, union]
    form = {"raw": payload} if style == "keyed" else {disc: "raw", nest or "raw": payload}
    if len(form) == 1 and style == "nested":
        return  # the nesting key is the discriminator key
    value: t.Any = Raw(payload)
    if where == "list":
        hint, form, value = t.List[hint], [form], [value]
    elif where == "dict":
        hint, form, value = t.Dict[str, hint], {"k": form}, {"k": value}  # type: ignore[valid-type,assignment]
    elif where == "optional":
        hint = t.Optional[hint]
    for what, got, want in (
        ("dump", m.attempt(dump, value, hint), form),
        ("load", m.attempt(load, m.copy_json(form), hint), value),
    ):
        rec.trans()
        rec.state((case, what))
        rec.outcome(f"body {got.kind}")
        if got.kind != "ok" or repr(got.value) != repr(want) and got.value != want:
            return rec.fail(f"{what} of {value if what == 'dump' else form!r} as {style} {disc!r}/{nest!r} in {where} gave {got!r}")
        rec.ok()


#: Members that are type hints with settings: the hint, a payload that loads only with the setting, and what it loads.
HINTED: t.List[t.Tuple[t.Any, t.Any, t.Any]] = [
    (t.Annotated[int, dc.Strict(False)], "1", 1),
    (t.Annotated[bool, "note", dc.Strict(False)], "yes", True),
    (t.Annotated[datetime.date, dc.DateFormat("%d.%m.%Y")], "02.01.2020", datetime.date(2020, 1, 2)),
    (t.Annotated[A.cls, dc.ExtraKeys()], {"x": 1, "q": 2}, A.make(x=1)),
    (t.Annotated[B.cls, "note", dc.ExtraKeys(), "note"], {"x": 3, "q": 2}, B.make(x=3)),
    (t.List[t.Annotated[int, dc.Strict(False)]], ["1", 2], [1, 2]),
    (t.Annotated[t.Optional[int], dc.Strict(False)], "1", 1),
    (t.Optional[int], None, None),
]


def run_hinted(case: t.Any, rec: Recorder) -> None:
    style, (disc, nest), n, given, where = case
    hint, payload, want = HINTED[n]
    if style == "flat" and not isinstance(payload, dict) or style == "nested" and (nest or "raw") == disc:
        return
    member: t.Any = {"hint": lambda: hint, "TypeHint": lambda: TypeHint(hint), "function": lambda: lambda: hint}[given]()
    union = dc.Union({"p": A.hint, "raw": member, "i": int}, style, disc, nest)
    base = type("Base", (), {})
    whole: t.Any = union(base) if where == "class" else t.Annotated[base, union]
    form: t.Any = {"keyed": {"raw": payload}, "nested": {disc: "raw", nest or "raw": payload}}.get(style)
    if form is None:
        form = {disc: "raw", **payload}
    if where == "list":
        whole, form, want = t.List[whole], [form, form], [want, want]
    got = m.attempt(load, m.copy_json(form), whole)
    rec.trans()
    rec.state(case)
    rec.outcome(f"hinted {got.kind}")
    if got.kind != "ok" or type(got.value) is not type(want) or got.value != want:
        return rec.fail(f"load({form!r}) as {style} {disc!r}/{nest!r} with the member {hint!r} in {where} gave {got!r}")
    rec.ok()


def hinted_cases() -> t.Iterator[t.Any]:
    return itertools.product(STYLES, KEYS, range(len(HINTED)), ("hint", "TypeHint", "function"), ("class", "ann", "list"))


def body_cases() -> t.Iterator[t.Any]:
    return itertools.product(("nested", "keyed"), KEYS, range(len(BODIES)), (False, True), ("class", "ann", "list", "dict", "optional"))


# -- unknown styles ----------------------------------------------------------------------------------------------------


def run_style(case: t.Any, rec: Recorder) -> None:
    style, p = case
    hint = t.Annotated[t.Union[A.hint, B.hint], dc.Union({"a": A.hint, "b": B.hint}, style)]
    for what, got in (
        ("dump", m.attempt(dump, A.make(x=1), hint)),
        ("load", m.attempt(load, p, hint)),
    ):
        if not judge(rec, f"{what} with style {style!r}", m.Expected("reject", None, ()), got, (case, what)):
            return


def spaces() -> t.List[Space]:
    pays: t.List[t.Any] = [{"type": "a", "a": {"x": 1}}, {"type": "a", "x": 1}, {"a": {"x": 1}}, {"x": 1}, {}, 1]
    return [
        Space("sets", set_cases, run_set,
              f"ordered selections of up to {4 if thorough() else 3} of {len(MEMBERS)} members x 3 styles x {len(KEYS)} key "
              "choices x values, foreign values, mutated payloads and ids"),
        Space("positions", position_cases, run_position, f"3 styles x 4 member sets x 3 keys x up to two of {len(WRAPS)} constructors"),
        Space("declarations", decl_cases, run_decl, f"{len(DECLS)} ways to declare x 3 styles x {len(KEYS)} keys x 6 positions"),
        Space("recursive", recursive_cases, run_recursive, "all expression trees up to depth 3 of a recursive union x 3 styles"),
        Space("histories", history_cases, run_history, f"all sequences of {5 if thorough() else 4} registrations x 3 styles, "
              "probed after every step"),
        Space("bodies", body_cases, run_body,
              f"2 styles x {len(KEYS)} key choices x {len(BODIES)} forms a member's own payload can have x 5 positions"),
        Space("member hints", hinted_cases, run_hinted,
              f"3 styles x {len(KEYS)} key choices x {len(HINTED)} members with settings x 3 ways to give them x 3 positions"),
        Space("styles", lambda: ((s, p) for s in ("foo", "", "NESTED", "bestmatch") for p in pays), run_style,
              "unknown styles"),
    ]  # fmt: skip
