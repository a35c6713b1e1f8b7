"""C02: load returns the value that the documented representation assigns to the payload, or raises ConversionError."""

import typing as t

from databind.json import load

from mc import model as m
from mc import typespace as ts
from mc.checks.c03 import POOL, SUBS, mutations
from mc.engine import Recorder, Space, thorough

ASSUMPTIONS = [
    "payload corners the documentation leaves open (base64 with foreign characters, digits with underscores, surplus "
    "keys next to a nested union body, key collisions, 1 == True == 1.0 in literals) demand nothing",
    "texts of date/time/uuid/duration types are judged on a table of accepted and rejected forms",
]

#: Payloads unrelated to any type, tried against every type.
FOREIGN: t.List[t.Any] = m.ATOMS + [
    -0.0, 2.0, 1.0 + 1e-12, 1e-300, -1e-12, float("inf"), 1e308, "yes", "no", "1.5", "2020-01-02", [[]], [None], [1, 2], [{"x": 1}], {"type": "m"},
    {"type": "m", "m": {"x": 1}}, {"m": {"x": 1}}, {"type": None}, {"x": 1, "y": 2}, {"": 0}, {1: 2}, {None: 0},
    {"k": 1, "x": 1}, {"type": "m", "x": 1}, {"m": 1, "s": 2}, b"abc", (), (1, 2), set(), object,
]  # fmt: skip

OTHERS: t.List[t.Any] = [b"ab", bytearray(b"ab"), (1,), {1}, 1j, Ellipsis, object(), int, range(2), {1: 2}, m.Color.RED, m.Level.LO]


def check(typ: m.T, depth: int, rec: Recorder) -> None:
    deep = thorough()
    atoms = m.ATOMS if depth <= 1 or deep else m.FEW_ATOMS
    nvals = 3 if depth <= 1 or deep else 2
    for v in ts.large(typ):
        one(typ, m.plain(m.expect(typ.enc, v).value), rec)
    foreign = FOREIGN if depth <= 1 or deep else ()
    seen = set()
    for p in m.payloads(typ, atoms, nvals):
        seen.add(m.canon(p))
        one(typ, p, rec)
        if rec._case_failed:
            return
    for p in foreign:
        if m.canon(p) not in seen:
            one(typ, m.copy_json(p), rec)
            if rec._case_failed:
                return
    if depth > 1:
        return
    # Objects that are no JSON: whatever they are taken for, nothing else than a ConversionError is raised.
    for p in POOL:
        one(typ, p, rec)
    exp = m.expect(typ.enc, typ.vals()[0])
    form = m.plain(exp.value) if exp.kind == "ok" else None
    if len(repr(form)) < 150:
        for p in mutations(form, POOL if depth == 0 or deep else SUBS + OTHERS):
            one(typ, p, rec)


def one(typ: m.T, p: t.Any, rec: Recorder) -> None:
    exp = m.expect(typ.dec, p)
    got = m.attempt(load, p, typ.hint)
    rec.trans()
    rec.state((typ.label, m.short_canon(p)))
    rec.outcome(f"model:{exp.kind} code:{got.kind}")
    bad = m.judge(exp, got)
    if bad:
        return rec.fail(f"load({p!r}, {typ.label}) {bad}")
    if exp.kind != "unspec":
        rec.ok()


def spaces() -> t.List[Space]:
    deep = thorough()
    core = ts.core_indices()
    return ts.type_spaces(
        check,
        depth2_leaves=range(len(m.leaf_types())) if deep else core[:2],
        depth3_leaves=core[:1] if deep else (),
        depth3_wrappers=m.MAIN_WRAPPERS,
        unions=(2, 3) if deep else (2,),
        union_wraps=("", "List", "Opt") if deep else ("",),
    )
