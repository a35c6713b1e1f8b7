"""C01: dump then load is the identity on every supported type."""

import json
import typing as t

from databind.json import dump, dumps, load, loads

from mc import model as m
from mc import typespace as ts
from mc.engine import Recorder, Space, thorough

ASSUMPTIONS = [
    "mapping keys that dump to non-strings are only round-tripped through dump/load, not through JSON text",
    "values of a plain union are those for which the union's first accepting member is the value's own",
    "third-party formats (nr.date, decimal, uuid, pathlib) are trusted beyond the tabulated values",
]


def _ends(vs: t.List[t.Any], n: int) -> t.List[t.Any]:
    return vs if len(vs) <= n else vs[: n - 1] + vs[-1:]


def roundtrip(typ: m.T, depth: int, rec: Recorder) -> None:
    limit = 3 if depth >= 3 and not thorough() else None
    for v in typ.vals() + ts.large(typ) if limit is None else _ends(typ.vals(), limit):
        exp = m.expect(typ.enc, v)
        if exp.kind != "ok":
            continue
        back = m.expect(typ.dec, m.plain(exp.value))
        if back.kind != "ok" or m.canon(back.value) != m.canon(v):
            # Not one of the round trips promised (e.g. a union member shadowed by an earlier one).
            rec.count("excluded by model")
            continue
        before = m.canon(v)
        d = m.attempt(dump, v, typ.hint)
        rec.trans()
        if d.kind != "ok":
            return rec.fail(f"dump({v!r}, {typ.label}) {d!r}")
        w = m.attempt(load, d.value, typ.hint)
        rec.trans()
        if w.kind != "ok" or m.canon(w.value) != before:
            return rec.fail(f"{v!r} dumped to {d.value!r}; load {w!r}, expected the same value")
        rec.ok()
        rec.state((typ.label, before))
        if m.json_text_safe(exp.value):
            s = m.attempt(dumps, v, typ.hint)
            rec.trans()
            if s.kind != "ok" or m.canon(json.loads(s.value)) != m.canon(d.value):
                return rec.fail(f"dumps({v!r}) {s!r}; dump gives {d.value!r}")
            w = m.attempt(loads, s.value, typ.hint)
            rec.trans()
            if w.kind != "ok" or m.canon(w.value) != before:
                return rec.fail(f"{v!r} dumped to text {s.value!r}; loads {w!r}, expected the same value")
            rec.ok()
        rec.outcome(f"ok:{type(d.value).__name__}")


def spaces() -> t.List[Space]:
    deep = thorough()
    core = ts.core_indices()
    return ts.type_spaces(
        roundtrip,
        depth2_leaves=range(len(m.leaf_types())) if deep else core,
        depth3_leaves=core if deep else (0,),
        depth3_wrappers=ts.all_wrappers() if deep else m.MAIN_WRAPPERS,
        unions=(2, 3, 4) if deep else (2, 3),
        union_wraps=("", "List", "Opt"),
    )
