"""C07: omitting defaults on dump removes only what load restores."""

import decimal
import itertools
import typing as t

from databind.core import SerializeDefaults, Settings
from databind.json import dump, get_object_mapper, load

from mc import model as m
from mc import records
from mc.engine import Recorder, Space, thorough

ASSUMPTIONS = ["defaults are compared with ==", "Required(False) on a field without a default is left open"]


def judge(rec: Recorder, what: str, exp: m.Expected, got: m.Outcome, key: t.Any) -> bool:
    rec.trans()
    rec.state(key)
    rec.outcome(f"model:{exp.kind} code:{got.kind}")
    bad = m.judge(exp, got)
    if bad:
        rec.fail(f"{what} {bad}")
        return False
    if exp.kind != "unspec":
        rec.ok()
    return True


# -- one field ---------------------------------------------------------------------------------------------------------

INNER = m.RecT("Inner", [m.F("q", m.OptT(m.STR)), m.F("p", m.INT, default=1)])
FROZEN = m.RecT("FrozenInner", [m.F("p", m.INT, default=1)], frozen=True)


def defaults() -> t.List[t.Tuple[m.T, t.Any, t.Any, t.List[t.Any]]]:
    """(type, default, factory, values)"""
    N = m.NODEF
    return [
        (m.INT, 0, None, [0, 1, 2**70]),
        (m.INT, 7, None, [7, 0, -7]),
        (m.INT, N, lambda: 7, [7, 0]),
        (m.INT, N, None, [0, 1]),
        (m.BOOL, False, None, [False, True]),
        (m.BOOL, True, None, [False, True]),
        (m.STR, "", None, ["", "a"]),
        (m.STR, "a", None, ["", "a"]),
        (m.FLOAT, 1.0, None, [1.0, 1, 0.0]),
        (m.FLOAT, 0.0, None, [-0.0 + 0.0, 0.5]),
        (m.FLOAT, float("nan"), None, [float("nan"), 1.5]),
        (m.DECIMAL, decimal.Decimal("1.5"), None, [decimal.Decimal("1.5"), decimal.Decimal("2")]),
        (m.BYTES, b"", None, [b"", b"x"]),
        (m.OptT(m.INT), N, None, [None, 0, 1]),
        (m.OptT(m.INT), None, None, [None, 0, 1]),
        (m.OptT(m.INT), 0, None, [None, 0, 1]),
        (m.OptT(m.STR), "x", None, [None, "x", ""]),
        (m.COLOR, m.Color.RED, None, [m.Color.RED, m.Color.GREEN]),
        (m.DateT, m.DateT.vals()[0], None, m.DateT.vals()[:2]),
        (m.SeqT("List", m.INT), N, list, [[], [0]]),
        (m.SeqT("List", m.INT), N, lambda: [1, 2], [[], [1, 2], [2, 1]]),
        (m.SeqT("Set", m.INT), N, set, [set(), {1}]),
        (m.SeqT("Tuple...", m.INT), (), None, [(), (1,)]),
        (m.MapT("Dict", m.STR, m.INT), N, dict, [{}, {"a": 0}]),
        (m.OptT(m.SeqT("List", m.INT)), N, list, [None, [], [1]]),
        (FROZEN, FROZEN.make(), None, [FROZEN.make(), FROZEN.make(p=2)]),
        (INNER, N, lambda: INNER.make(q=None), [INNER.make(q=None), INNER.make(q="s"), INNER.make(p=3, q=None)]),
        (m.OptT(FROZEN), None, None, [None, FROZEN.make(), FROZEN.make(p=2)]),
        (m.UnionT(m.INT, m.STR), 0, None, [0, "", 1]),
        (m.LiteralT("a", "b"), "a", None, ["a", "b"]),
        (m.ANY, None, None, [None, 0, [], {}]),
        (m.ANY, 0, None, [None, 0, False, ""]),
    ]  # fmt: skip


ALIASES: t.List[t.Tuple[str, ...]] = [(), ("al",), ("al1", "al2")]


def field(di: int, ai: int, req: t.Any, name: str = "a") -> t.Tuple[t.Optional[m.F], t.List[t.Any]]:
    typ, default, factory, vals = defaults()[di]
    if req is False and default is m.NODEF and factory is None and not isinstance(typ, m.OptT):
        return None, []
    alias = tuple(name + a for a in ALIASES[ai])
    return m.F(name, typ, alias=alias, default=default, factory=factory, required=req), vals


def lift(typ: m.RecT, pos: str) -> t.Tuple[m.T, t.Callable[[t.Any], t.Any]]:
    if pos == "list":
        return m.SeqT("List", typ), lambda v: [v]
    if pos == "dict":
        return m.MapT("Dict", m.STR, typ), lambda v: {"k": v}
    if pos == "optional":
        return m.OptT(typ), lambda v: v
    if pos == "field":
        o = m.RecT("O", [m.F("i", typ)])
        return o, lambda v: o.make(i=v)
    if pos == "flattened":
        o = m.RecT("O", [m.F("i", typ, flat=True), m.F("zz", m.INT, default=3)])
        return o, lambda v: o.make(i=v)
    if pos == "keyed":
        return m.TaggedT("keyed", {"m": typ}), lambda v: v
    if pos == "flat":
        return m.TaggedT("flat", {"m": typ, "n": m.RecT("Other", [m.F("o", m.INT)])}), lambda v: v
    return typ, lambda v: v


POSITIONS = ("bare", "list", "dict", "optional", "field", "flattened", "keyed", "flat")


def run_single(case: t.Any, rec: Recorder) -> None:
    di, ai, req, kind = case
    f, vals = field(di, ai, req)
    if f is None or kind.startswith("t") and (f.has_default or req is False):
        return
    typ = records.build(kind, "R", [f, m.F("other", m.INT)])
    for pos in POSITIONS if kind == "dataclass" else ("bare", "list"):
        outer, up = lift(typ, pos)
        for v in vals:
            obj = up(typ.make(a=v, other=0))
            for serdef in (None, True, False):
                kw = {} if serdef is None else {"settings": [SerializeDefaults(serdef)]}
                exp = m.expect(outer.enc, obj, m.Env(serdef=serdef is not False))
                got = m.attempt(dump, obj, outer.hint, **kw)
                key = (case, pos, repr(v), serdef)
                if not judge(rec, f"dump({obj!r}, {outer.label}, SerializeDefaults({serdef}))", exp, got, key):
                    return
                if got.kind == "ok" and "nan" not in repr(obj):
                    back = m.attempt(load, got.value, outer.hint)
                    rec.trans()
                    if back.kind != "ok" or back.value != obj or type(back.value) is not type(obj):
                        return rec.fail(
                            f"{obj!r} dumped with SerializeDefaults({serdef}) to {got.value!r}, which load {back!r}"
                        )


def single_cases() -> t.Iterator[t.Any]:
    n = len(defaults())
    for di in range(n):
        for ai in range(3):
            for req in (None, True, False):
                yield di, ai, req, "dataclass"
        for kind in records.KINDS[1:]:
            for ai in range(3) if thorough() else (1,):
                for req in (None, True):
                    yield di, ai, req, kind


# -- several fields ----------------------------------------------------------------------------------------------------


def run_multi(case: t.Any, rec: Recorder) -> None:
    """Exactly the fields at their default are left out, whatever the others hold."""
    dis, kind = case
    fields, cols = [], []
    for n, di in enumerate(dis):
        f, vals = field(di, n % 3, None if n != 1 else (True if di % 2 else None), "abc"[n])
        assert f is not None
        fields.append(f)
        cols.append(vals[:2])
    if kind.startswith("t"):
        return
    typ = records.build(kind, "R", fields)
    for combo in itertools.product(*cols):
        obj = typ.make(**{f.name: v for f, v in zip(fields, combo)})
        for serdef in (True, False):
            exp = m.expect(typ.enc, obj, m.Env(serdef=serdef))
            got = m.attempt(dump, obj, typ.hint, settings=[SerializeDefaults(serdef)])
            if not judge(rec, f"dump({obj!r}, {typ.label}, SerializeDefaults({serdef}))", exp, got, (case, repr(obj), serdef)):
                return
            if got.kind == "ok" and "nan" not in repr(obj):
                back = m.attempt(load, got.value, typ.hint)
                rec.trans()
                if back.kind != "ok" or back.value != obj:
                    return rec.fail(f"{obj!r} dumped with {serdef} to {got.value!r}, which load {back!r}")


def multi_cases() -> t.Iterator[t.Any]:
    few = [0, 2, 5, 8, 13, 16, 20, 25, 26, 31] if not thorough() else list(range(len(defaults())))
    for dis in itertools.product(few, repeat=3 if not thorough() else 2):
        if len(set(dis)) == len(dis):
            for kind in ("dataclass", "databind"):
                yield dis, kind


# -- scope -------------------------------------------------------------------------------------------------------------


def run_scope(case: t.Any, rec: Recorder) -> None:
    """SerializeDefaults on the call, the mapper (global, for a type, conditional) and three hints."""
    call, glob, local, cond, h_field, h_item, h_flat = case
    o = (None, True, False)
    call, glob, local, cond, h_field, h_item, h_flat = (o[x] for x in case)
    inner = m.RecT("In", [m.F("p", m.INT, default=1)])
    leafy = m.RecT("Flat", [m.F("w", m.INT, default=4)])

    def hinted(typ: m.T, v: t.Optional[bool]) -> m.T:
        return typ if v is None else m.AnnT(typ, SerializeDefaults(v), label=f"SerializeDefaults({v})")

    outer = m.RecT(
        "Out",
        [
            m.F("field", hinted(inner, h_field)),
            m.F("items", m.SeqT("List", hinted(inner, h_item))),
            m.F("plain", inner),
            m.F("opt", hinted(m.OptT(inner), h_field)),
            m.F("flat", hinted(leafy, h_flat), flat=True),
            m.F("d", m.INT, default=0),
        ],
    )
    settings = Settings()
    if glob is not None:
        settings.add_global(SerializeDefaults(glob))
    if local is not None:
        settings.add_local(inner.cls, SerializeDefaults(local))
    if cond is not None:
        settings.add_conditional(lambda ctx: ctx.datatype.hint is outer.cls, SerializeDefaults(cond))
    mapper = get_object_mapper(settings)
    kw = {} if call is None else {"settings": [SerializeDefaults(call)]}

    def first(*xs: t.Optional[bool]) -> bool:
        return next((x for x in xs if x is not None), True)

    want = {
        "out": first(call, cond, glob),
        "field": first(h_field, call, local, glob),
        "item": first(h_item, call, local, glob),
        "plain": first(call, local, glob),
        "flat": first(h_flat, call, glob),
    }
    for vals in itertools.product((False, True), repeat=3):
        dv, iv, fv = vals
        mk = lambda: inner.make(p=1 if iv else 2)  # noqa: E731
        obj = outer.make(
            d=0 if dv else 5, field=mk(), items=[mk(), inner.make(p=1)], plain=mk(), opt=mk(),
            flat=leafy.make(w=4 if fv else 6),
        )  # fmt: skip

        def enc(v: t.Any, serdef: bool) -> t.Dict[str, t.Any]:
            return {} if v.p == 1 and not serdef else {"p": v.p}

        exp = m.Obj(
            field=enc(obj.field, want["field"]),
            items=[enc(x, want["item"]) for x in obj.items],
            plain=enc(obj.plain, want["plain"]),
            opt=enc(obj.opt, want["field"]),
        )
        if not dv or want["out"]:
            exp["d"] = obj.d
        if not fv or want["flat"]:
            exp["w"] = obj.flat.w
        got = m.attempt(mapper.serialize, obj, outer.hint, **kw)
        key = (case, vals)
        if not judge(rec, f"dump({obj!r}) with {case} (call, global, local, cond, hints)", m.Expected("ok", exp, ()), got, key):
            return
        back = m.attempt(mapper.deserialize, got.value, outer.hint, **kw)
        rec.trans()
        if back.kind != "ok" or back.value != obj:
            return rec.fail(f"{obj!r} dumped to {got.value!r}, which load {back!r}")


def spaces() -> t.List[Space]:
    return [
        Space("single", single_cases, run_single,
              f"{len(defaults())} defaults x aliases x Required x record kinds x {len(POSITIONS)} positions x values x "
              "setting"),
        Space("multi", multi_cases, run_multi, "triples of defaulted fields x values (default or not) x setting"),
        Space("scope", lambda: itertools.product(range(3), repeat=7), run_scope,
              "3^7 assignments of the setting to call, mapper (3 ways) and 3 hints x 8 value patterns"),
    ]  # fmt: skip
