"""C04: lenient scalar conversion happens only on load and only where strictness is off."""

import decimal
import itertools
import typing as t

from databind.core import Settings, Strict
from databind.json import dump, get_object_mapper, load

from mc import model as m
from mc.engine import Recorder, Space, thorough

ASSUMPTIONS = [
    "digits with underscores or non-ASCII digits, and booleans as decimals, are left open by the documentation",
    "Python's own float() and Decimal() parsing is the documented textual form",
]

WORDS = ["yes", "true", "on", "enabled", "no", "false", "off", "disabled"]
SOURCES: t.List[t.Any] = (
    [None, True, False, 0, 1, 2, -3, 2**70, 10**400, 1.0, -0.0, 2.0, 1.5, -7.25, 1e300, 1e16, float("inf"),
     float("-inf"), float("nan")]
    + [w2 for w in WORDS for w2 in (w, w.upper(), w.capitalize(), " " + w, w + "x", w[:-1])]
    + ["", " ", "0", "1", "-3", "+4", " 7 ", "007", "1.0", "1.5", ".5", "5.", "1e3", "1E-2", "inf", "-Infinity", "nan",
       "NaN", "sNaN", "0x10", "1 2", "--1", "1.2.3", "abc", "None", "null", "y", "n", "t", "f", "1j", "ü", "1" * 30]
    + [b"1", b"yes", [], [1], ["1"], {}, {"a": 1}, (), decimal.Decimal("1.5"), m.Level.LO, object]
)  # fmt: skip

TARGETS: t.List[m.T] = [
    m.INT, m.FLOAT, m.BOOL, m.STR, m.DECIMAL, m.BYTES, m.DateT, m.UUIDT, m.PathT, m.COLOR, m.LEVEL, m.DurationT,
    m.LiteralT(1, "a"),
]  # fmt: skip
SCALARS = TARGETS[:5]


def ann(typ: m.T, value: t.Optional[bool]) -> m.T:
    if value is None:
        return typ
    return m.AnnT(typ, Strict(value), loc={"strict": value}, label=f"Strict({value})")


#: Positions in which the scalar occurs: type constructor and the matching payload/value constructor.
POSITIONS: t.Dict[str, t.Tuple[t.Callable[[m.T], m.T], t.Callable[[t.Any], t.Any]]] = {
    "bare": (lambda x: x, lambda v: v),
    "list": (lambda x: m.SeqT("List", x), lambda v: [v]),
    "tuple": (lambda x: m.TupleT(m.BOOL, x), lambda v: [True, v]),
    "vartuple": (lambda x: m.SeqT("Tuple...", x), lambda v: [v, v]),
    "value": (lambda x: m.MapT("Dict", m.STR, x), lambda v: {"k": v}),
    "optional": (lambda x: m.OptT(x), lambda v: v),
    "deep": (lambda x: m.MapT("Dict", m.STR, m.SeqT("List", m.OptT(x))), lambda v: {"k": [None, v]}),
    "union": (lambda x: m.UnionT(m.MapT("Dict", m.STR, m.BYTES), x), lambda v: v),
    "field": (lambda x: m.RecT("R", [m.F("a", x), m.F("b", m.INT, default=0)]), lambda v: {"a": v}),
    "namedtuple": (lambda x: m.RecT("N", [m.F("a", x), m.F("b", m.INT)], kind="namedtuple"), lambda v: {"a": v, "b": 1}),
    "typeddict": (lambda x: m.RecT("T", [m.F("a", x), m.F("b", m.INT)], kind="typeddict"), lambda v: {"a": v, "b": 1}),
    "flattened": (
        lambda x: m.RecT("O", [m.F("i", m.RecT("I", [m.F("a", x)]), flat=True), m.F("b", m.INT)]),
        lambda v: {"a": v, "b": 2},
    ),
    "remainder": (
        lambda x: m.RecT("M", [m.F("b", m.INT), m.F("r", m.MapT("Dict", m.STR, x), rest=True)]),
        lambda v: {"a": v, "b": 2},
    ),
    "nested": (lambda x: m.TaggedT("nested", {"r": m.RecT("R", [m.F("a", x)])}), lambda v: {"type": "r", "r": {"a": v}}),
    "keyed": (lambda x: m.TaggedT("keyed", {"r": m.RecT("R", [m.F("a", x)])}), lambda v: {"r": {"a": v}}),
    "flat": (lambda x: m.TaggedT("flat", {"r": m.RecT("R", [m.F("a", x)])}), lambda v: {"type": "r", "a": v}),
    "generic": (lambda x: m.generic_record("G", x), lambda v: {"x": v, "xs": [v]}),
}


def compare(rec: Recorder, what: str, exp: m.Expected, got: m.Outcome, key: t.Any) -> bool:
    rec.trans()
    rec.state(key)
    rec.outcome(f"model:{exp.kind} code:{got.kind}")
    bad = m.judge(exp, got)
    if bad:
        rec.fail(f"{what} {bad}")
        return False
    if exp.kind != "unspec":
        rec.ok()
    return True


def run_matrix(case: t.Any, rec: Recorder) -> None:
    """Every source in every position under one placement of the setting."""
    ti, pos, place, value = case
    target = TARGETS[ti]
    wrap, lift = POSITIONS[pos]
    inner = ann(target, value) if place == "annotation" else target
    if isinstance(target, m.LiteralT) and pos == "union":
        return
    typ = wrap(inner)
    effective = True if value is None else value
    env = m.Env(strict=effective)
    mapper = get_object_mapper()
    kw: t.Dict[str, t.Any] = {}
    if value is not None:
        if place == "call":
            kw = {"settings": [Strict(value)]}
        elif place == "global":
            mapper.settings.add_global(Strict(value))
        elif place == "local":
            mapper.settings.add_local(target.hint, Strict(value)) if isinstance(target.hint, type) else None
            env = m.Env()
            inner.locals = True  # type: ignore[attr-defined]
        elif place == "conditional":
            mapper.settings.add_conditional(lambda ctx: True, Strict(value))
        elif place == "annotation":
            env = m.Env()
    for src in SOURCES:
        p = lift(src)
        if place == "local" and isinstance(target.hint, type):
            # The setting is for the target type alone, and no other scalar occurs leniently in these payloads.
            exp = m.expect(typ.dec, p, m.Env(strict=effective))
        else:
            exp = m.expect(typ.dec, p, env)
        got = m.attempt(mapper.deserialize, p, typ.hint, **kw)
        key = (typ.label, place, value, repr(src)[:60])
        if not compare(rec, f"load({p!r}, {typ.label}) with {place} Strict({value})", exp, got, key):
            return
        # The setting is irrelevant on dump.
        if pos in ("bare", "list", "tuple", "vartuple", "value", "optional", "deep", "union"):
            v = tuple(p) if pos in ("tuple", "vartuple") else p
            exp = m.expect(typ.enc, v, m.Env())
            got = m.attempt(mapper.serialize, v, typ.hint, **kw)
            if not compare(rec, f"dump({v!r}, {typ.label}) with {place} Strict({value})", exp, got, key + ("d",)):
                return
        elif pos in ("field", "generic", "namedtuple"):
            try:
                v = typ.make(**p)  # type: ignore[attr-defined]
            except TypeError:
                continue
            exp = m.expect(typ.enc, v, m.Env())
            got = m.attempt(mapper.serialize, v, typ.hint, **kw)
            if not compare(rec, f"dump({v!r}, {typ.label}) with {place} Strict({value})", exp, got, key + ("d",)):
                return


def matrix_cases() -> t.Iterator[t.Any]:
    for ti in range(len(TARGETS)):
        for pos in POSITIONS:
            yield ti, pos, "none", None
            for place in ("call", "annotation", "global", "local", "conditional"):
                for value in (False, True):
                    yield ti, pos, place, value


def run_keys(case: t.Any, rec: Recorder) -> None:
    """Mapping keys are scalars, too."""
    ti, tv, place, value = case
    key, val = SCALARS[ti], SCALARS[tv]
    k2 = ann(key, value) if place == "key" else key
    v2 = ann(val, value) if place == "value" else val
    typ = m.MapT("Dict", k2, v2)
    outer: m.T = ann(typ, value) if place == "outer" else typ
    env = m.Env(strict=value) if place == "call" and value is not None else m.Env()
    kw = {"settings": [Strict(value)]} if place == "call" and value is not None else {}
    for k in ("1", "yes", "a", 1, True, 1.5, None):
        for v in ("1", "yes", "a", 1, True, 1.5, None):
            p = {k: v}
            exp = m.expect(typ.dec, p, env)
            got = m.attempt(load, p, outer.hint, **kw)
            if not compare(rec, f"load({p!r}, {outer.label})", exp, got, (outer.label, place, value, repr(p))):
                return


def key_cases() -> t.Iterator[t.Any]:
    for ti in range(len(SCALARS)):
        for tv in range(len(SCALARS)):
            for place in ("key", "value", "outer", "call"):
                for value in (False, True):
                    yield ti, tv, place, value


LENIENT = {"int": "12", "float": "1.5", "bool": "no", "str": 5, "Decimal": 3}
PLAIN = {"int": 1, "float": 1.25, "bool": True, "str": "s", "Decimal": "1"}


def run_scope(case: t.Any, rec: Recorder) -> None:
    """A record in which each place has, or has not, its own setting; exactly one place holds a lenient value."""
    ti, a, b, c, d, call = case
    x = SCALARS[ti]
    inner = m.RecT("In", [m.F("p", ann(x, a)), m.F("q", x)])
    typ = m.RecT(
        "Out",
        [
            m.F("one", ann(x, b)),
            m.F("two", x),
            m.F("items", ann(m.SeqT("List", x), c)),
            m.F("inner", ann(inner, d)),
            m.F("opt", ann(m.OptT(x), b)),
            m.F("more", m.MapT("Dict", m.STR, ann(x, c))),
        ],
    )
    env = m.Env() if call is None else m.Env(strict=call)
    kw = {} if call is None else {"settings": [Strict(call)]}
    good = PLAIN[x.label]
    for spot in range(8):
        v = [good] * 8
        v[spot] = LENIENT[x.label]
        p = {
            "one": v[0], "two": v[1], "items": [v[2], v[3]], "inner": {"p": v[4], "q": v[5]}, "opt": v[6],
            "more": {"k": v[7]},
        }  # fmt: skip
        exp = m.expect(typ.dec, p, env)
        got = m.attempt(load, p, typ.hint, **kw)
        if not compare(rec, f"load({p!r}, {typ.label}) call={call}", exp, got, (case, spot)):
            return
        if got.kind == "ok":
            expd = m.expect(typ.enc, got.value)
            gotd = m.attempt(dump, got.value, typ.hint, **kw)
            if not compare(rec, f"dump({got.value!r}) call={call}", expd, gotd, (case, spot, "d")):
                return


def scope_cases() -> t.Iterator[t.Any]:
    o = (None, False, True)
    return itertools.product(range(len(SCALARS)), o, o, o, o, o)


def run_sources(case: t.Any, rec: Recorder) -> None:
    """All assignments of the setting to annotation, call, mapper type-local, mapper conditional and mapper global."""
    ti, a, call, local, cond, glob = case
    x = SCALARS[ti]
    settings = Settings()
    if local is not None:
        settings.add_local(x.hint, Strict(local))
    if cond is not None:
        settings.add_conditional(lambda ctx: True, Strict(cond))
    if glob is not None:
        settings.add_global(Strict(glob))
    mapper = get_object_mapper(settings)
    order = [a, call, local, cond, glob]
    strict = next((s for s in order if s is not None), True)
    kw = {} if call is None else {"settings": [Strict(call)]}
    typ = m.SeqT("List", ann(x, a))
    for src in (LENIENT[x.label], PLAIN[x.label], None, "zz", 10**400):
        exp = m.expect(m.SeqT("List", x).dec, [src], m.Env(strict=strict))
        got = m.attempt(mapper.deserialize, [src], typ.hint, **kw)
        if not compare(rec, f"load([{src!r}], {typ.label}), settings {order}", exp, got, (case, repr(src)[:20])):
            return
        exp = m.expect(m.SeqT("List", x).enc, [src])
        got = m.attempt(mapper.serialize, [src], typ.hint, **kw)
        if not compare(rec, f"dump([{src!r}], {typ.label}), settings {order}", exp, got, (case, repr(src)[:20], "d")):
            return


def source_cases() -> t.Iterator[t.Any]:
    o = (None, False, True)
    return itertools.product(range(len(SCALARS)), o, o, o, o, o)


def spaces() -> t.List[Space]:
    return [
        Space("matrix", matrix_cases, run_matrix,
              f"{len(TARGETS)} targets x {len(POSITIONS)} positions x 11 placements x {len(SOURCES)} sources x directions"),
        Space("keys", key_cases, run_keys, "mapping key and value types x placements x 49 payloads"),
        Space("scope", scope_cases, run_scope, "3^5 assignments in a nested record x 8 lenient places x 5 scalars"),
        Space("sources", source_cases, run_sources, "3^5 assignments of the sources x 5 scalars x 5 payloads"),
    ]  # fmt: skip
