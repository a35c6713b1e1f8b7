"""C06: flattened and remainder fields partition the keys of one object, losslessly."""

import itertools
import typing as t

from databind.core import ExtraKeys, Flattened, Priority, Remainder, SerializeDefaults
from databind.json import dump, load

from mc import model as m
from mc import records
from mc.engine import Recorder, Space, thorough

ASSUMPTIONS = [
    "optional flattened/remainder fields, and two fields of one expanded object with a common name or alias, are left "
    "open by the documentation (the latter is a mistake in the class definition)",
]

# A shape is a tuple of items; an item is "P" (plain), "A" (one alias), "B" (two aliases), "D" (default), "E" (default and
# alias), "R" (remainder) or a shape (a flattened record of that shape).

LEAF = ("P", "A", "B", "D", "E", "R")


def shapes(items: t.Sequence[t.Any], lo: int, hi: int) -> t.List[t.Any]:
    return [s for n in range(lo, hi + 1) for s in itertools.product(items, repeat=n)]


def remainders(shape: t.Any) -> int:
    return sum(1 if i == "R" else remainders(i) if isinstance(i, tuple) else 0 for i in shape)


def count(shape: t.Any) -> int:
    return sum(count(i) if isinstance(i, tuple) else 1 for i in shape)


def build(shape: t.Any, name: str = "S", kind: str = "kw_only", inner_kind: str = "kw_only", rest: str = "Dict") -> m.RecT:
    counter = itertools.count()

    def rec(shape: t.Any, kind: str, path: str) -> m.RecT:
        fields = []
        for item in shape:
            n = f"f{next(counter)}"
            if isinstance(item, tuple):
                fields.append(m.F(n, rec(item, inner_kind, path + n), flat=True))
            elif item == "R":
                fields.append(m.F(n, m.MapT(rest, m.STR, m.INT), rest=True))
            else:
                alias = {"A": (n + "x",), "B": (n + "x", n + "y"), "E": (n + "x",)}.get(item, ())
                fields.append(m.F(n, m.INT, alias=alias, default=-1 if item in "DE" else m.NODEF))
        return records.build(kind, name + path, fields)

    return rec(shape, kind, "")


def all_keys(typ: m.RecT) -> t.List[str]:
    """Names, aliases and names of flattened/remainder fields of the expanded record."""
    out: t.List[str] = []
    for f in typ.fields:
        out.append(f.name)
        inner = m.unwrap(f.typ)
        if f.flat and isinstance(inner, m.RecT):
            out += all_keys(inner)
        else:
            out += [k for k in f.keys if k not in out]
    return out


def judge(rec: Recorder, what: str, exp: m.Expected, got: m.Outcome, key: t.Any) -> bool:
    rec.trans()
    rec.state(key)
    rec.outcome(f"model:{exp.kind} code:{got.kind}")
    bad = m.judge(exp, got)
    if bad:
        rec.fail(f"{what} {bad}")
        return False
    if exp.kind != "unspec":
        rec.ok()
    return True


def run_load(shape: t.Any, rec: Recorder, typ: t.Optional[m.RecT] = None, limit: int = 8) -> None:
    typ = typ or build(shape)
    keys = all_keys(typ) + ["e1", "e2"]
    keys = list(dict.fromkeys(keys))
    if len(keys) > limit:
        # Leave out names that nobody claims before anything else.
        claimed = set(m.claimed_keys(typ.fields))
        keys = [k for k in keys if k in claimed or k.startswith("e")] + [k for k in keys if k not in claimed and k[0] != "e"]
        keys = keys[:limit]
    for bits in range(2 ** len(keys)):
        p: t.Dict[t.Any, t.Any] = {k: i for i, k in enumerate(keys) if bits >> i & 1}
        if not one_load(typ, p, rec, shape):
            return
    # All keys, one of them with a value of the wrong type or a nested form.
    full = {k: i for i, k in enumerate(keys) if k in m.claimed_keys(typ.fields)}
    for k in list(full) + ["e1"]:
        for bad in (None, "zz", {}, {"a": 1}):
            if not one_load(typ, {**full, k: bad}, rec, shape):
                return
    for foreign in (None, [], 1, "zz", {1: 2}, {**full, 7: 7}, {**full, None: 7}):
        if not one_load(typ, foreign, rec, shape):
            return


def one_load(typ: m.RecT, p: t.Any, rec: Recorder, shape: t.Any) -> bool:
    keep = m.canon(p)
    exp = m.expect(typ.dec, p)
    got = m.attempt(load, p, typ.hint)
    if not judge(rec, f"load({p!r}, {typ.label})", exp, got, (shape, repr(p))):
        return False
    if m.canon(p) != keep:
        rec.fail(f"load({p!r}, {typ.label}) modified the payload")
        return False
    if got.kind == "ok":
        # Nothing is lost: dumping gives back the payload's keys (each under its first alias), plus defaults.
        back = m.attempt(dump, got.value, typ.hint)
        bexp = m.expect(typ.enc, got.value)
        if not judge(rec, f"dump({got.value!r}, {typ.label})", bexp, back, (shape, repr(p), "d")):
            return False
        if back.kind == "ok":
            again = m.attempt(load, back.value, typ.hint)
            rec.trans()
            if again.kind != "ok" or m.canon(again.value) != m.canon(got.value):
                rec.fail(f"{got.value!r} dumped to {back.value!r}, which load {again!r}")
                return False
            claimed = set(m.claimed_keys(typ.fields))
            for k, v in p.items():
                if k not in claimed and (k not in back.value or back.value[k] != v):
                    rec.fail(f"the surplus key {k!r} of {p!r} is lost in {back.value!r}")
                    return False
    return True


def values(typ: m.RecT, defaults: t.Sequence[bool], rests: t.List[t.Any]) -> t.Any:
    """An instance: fields with defaults take them as told, remainders take the dicts from *rests*."""
    defaults = list(defaults)
    counter = itertools.count(100)

    def rec(r: m.RecT) -> t.Any:
        kw: t.Dict[str, t.Any] = {}
        for f in r.fields:
            inner = m.unwrap(f.typ)
            if f.flat:
                assert isinstance(inner, m.RecT)
                kw[f.name] = rec(inner)
            elif f.rest:
                kw[f.name] = f.typ.rt(rests.pop(0) if rests else {})  # type: ignore[attr-defined]
            elif f.has_default and defaults.pop(0):
                kw[f.name] = f.get_default()
            else:
                kw[f.name] = next(counter)
        return r.make(**kw)

    return rec(typ)


def ndefaults(shape: t.Any) -> int:
    return sum(ndefaults(i) if isinstance(i, tuple) else i in "DE" for i in shape)


def run_dump(shape: t.Any, rec: Recorder) -> None:
    typ = build(shape)
    keys = list(dict.fromkeys(all_keys(typ) + ["e1"]))
    nrest = remainders(shape)
    if nrest == 0:
        restsets: t.List[t.List[t.Any]] = [[]]
    elif nrest == 1:
        # The remainder holds any one or two keys, in particular those of the other fields.
        restsets = [[{}]] + [[{k: 7}] for k in keys]
        restsets += [[{a: 7, b: 8}] for a, b in itertools.permutations(keys[-4 if thorough() else -3 :], 2)]
    else:
        restsets = [[{}, {}], [{"e1": 7}, {}], [{"e1": 7}, {"e2": 8}], [{"e1": 7}, {"e1": 8}]]
    for serdef in (True, False):
        kw = {} if serdef else {"settings": [SerializeDefaults(False)]}
        env = m.Env(serdef=serdef)
        for dflt in itertools.product((False, True), repeat=ndefaults(shape)):
            for rests in restsets:
                v = values(typ, dflt, [dict(r) for r in rests])
                exp = m.expect(typ.enc, v, env)
                got = m.attempt(dump, v, typ.hint, **kw)
                key = (shape, serdef, dflt, repr(rests))
                if not judge(rec, f"dump({v!r}, {typ.label}, serialize defaults: {serdef})", exp, got, key):
                    return
                if got.kind == "ok":
                    back = m.attempt(load, got.value, typ.hint)
                    rec.trans()
                    if back.kind != "ok" or m.canon(back.value) != m.canon(v):
                        rec.fail(f"{v!r} dumped to {got.value!r} (serialize defaults: {serdef}), which load {back!r}")
                        return


def dedupe(it: t.Iterable[t.Any]) -> t.List[t.Any]:
    return list(dict.fromkeys(it))


def shape_cases() -> t.List[t.Any]:
    one = shapes(LEAF, 1, 2 if thorough() else 1) + [("P", "R"), ("R", "P"), ("D", "A"), ("B", "P"), ("E", "R"), ("R", "D")]
    one = dedupe(one)
    l1 = list(LEAF) + one
    two = [s for s in shapes(l1, 1, 2) if any(isinstance(i, tuple) for i in s)]
    deep = [s for s in shapes(["P", "D", "R"] + dedupe([("P", i) for i in one] + [(i,) for i in one] + [(i, "E") for i in one]), 1, 2)
            if any(isinstance(i, tuple) for i in s)]  # fmt: skip
    flat = shapes(LEAF, 1, 3)
    triple = [s for s in itertools.product(["P", "D", "R", ("P",), ("D",), ("R",), ("P", "R")], repeat=3)
              if any(isinstance(i, tuple) for i in s)]  # fmt: skip
    out = [s for s in dedupe(flat + two + triple + deep) if remainders(s) <= 2 and count(s) <= (6 if thorough() else 4)]
    return out if thorough() else [s for s in out if remainders(s) < 2 or count(s) <= 3]


def run_kinds(case: t.Any, rec: Recorder) -> None:
    """The same through every way of defining the records."""
    shape, kind, inner_kind, rest = case
    if kind.startswith("t") and ndefaults([i for i in shape if not isinstance(i, tuple)]):
        return
    if inner_kind.startswith("t") and ndefaults([i for i in shape if isinstance(i, tuple)]):
        return
    typ = build(shape, "K", kind, inner_kind, rest)
    run_load(shape, rec, typ, limit=7 if thorough() else 6)


KIND_SHAPES = [("P", ("A", "P")), (("A",), "R"), ("P", ("P", "R")), ("D", (("E",), "P")), ("B", "R", ("D",))]
KIND_LIST = ("dataclass", "frozen", "slots", "databind", "inherited", "redeclared", "generic", "string_annotations",
             "typeddict")  # fmt: skip


def kind_cases() -> t.Iterator[t.Any]:
    for shape in KIND_SHAPES:
        for kind in KIND_LIST:
            for inner in KIND_LIST:
                if thorough():
                    for rest in ("Dict", "OrderedDict", "Mapping"):
                        yield shape, kind, inner, rest
                elif "dataclass" in (kind, inner) or kind == inner:
                    yield shape, kind, inner, "Dict" if inner == "dataclass" else "Mapping"


def run_forms(case: t.Any, rec: Recorder) -> None:
    """Remainder and flattened fields of types whose form is, or is not, a mapping."""
    what, ti, extra = case
    types: t.List[m.T] = [
        m.MapT("Dict", m.STR, m.INT), m.MapT("Mapping", m.STR, m.STR), m.MapT("OrderedDict", m.STR, m.ANY),
        m.MapT("MutableMapping", m.STR, m.SeqT("List", m.INT)), m.INT, m.STR, m.SeqT("List", m.INT), m.COLOR,
        m.MapT("Dict", m.STR, m.RecT("V", [m.F("q", m.INT)])), m.MapT("Dict", m.COLOR, m.INT),
        m.RecT("Inner", [m.F("a", m.INT), m.F("b", m.STR, default="b")]),
        m.TaggedT("flat", {"m": m.RecT("M", [m.F("a", m.INT)]), "n": m.RecT("N", [m.F("c", m.INT)])}),
    ]  # fmt: skip
    typ = types[ti]
    rest = what == "rest"
    if not rest and not isinstance(typ, m.RecT):
        # Flattening applies to records; what other types do is not described, but they never fail otherwise.
        rt = m.RecT("R", [m.F("k", m.INT), m.F("more", typ, ann=(m.dc.Flattened(),))])
        for p in ({"k": 1}, {"k": 1, "a": 2}, {"k": 1, "more": {}}, {"k": 1, "type": "m", "a": 2}):
            got = m.attempt(load, p, rt.hint)
            rec.trans()
            if got.kind == "crash":
                return rec.fail(f"load({p!r}, {rt.label}) {got!r}")
        for v in typ.vals():
            got = m.attempt(dump, rt.make(k=1, more=v), rt.hint)
            rec.trans()
            enc = m.expect(typ.enc, v)
            if got.kind == "crash" or (enc.kind == "ok" and not isinstance(enc.value, dict) and got.kind == "ok"):
                return rec.fail(f"dump of {v!r} in {rt.label} {got!r}")
        return rec.ok()
    f = m.F("more", typ, rest=rest, flat=not rest)
    rt = m.RecT("R", [m.F("k", m.INT), f])
    kw = {"settings": [ExtraKeys()]} if extra else {}
    env = m.Env(extra=extra)
    ps: t.List[t.Any] = [{"k": 1}, {}, {"more": {}}, {"k": 1, "more": 5}, {"k": 1, "a": 2}, {"k": 1, "a": "s"}]
    ps += [{"k": 1, "type": "m", "a": 2}, {"k": 1, "a": [1]}, {"k": 1, "a": {"q": 1}}, {"k": 1, "RED": 1}]
    ps += [{"k": 1, "b": None}, {"k": 1, "a": 1, "b": "c", "c": 3}, {"k": 1, 5: 5}]
    for p in ps:
        exp = m.expect(rt.dec, p, env)
        got = m.attempt(load, p, rt.hint, **kw)
        if not judge(rec, f"load({p!r}, {rt.label})", exp, got, (case, repr(p))):
            return
    for v in typ.vals():
        v2 = rt.make(k=1, more=v)
        exp = m.expect(rt.enc, v2, env)
        got = m.attempt(dump, v2, rt.hint, **kw)
        if not judge(rec, f"dump({v2!r}, {rt.label})", exp, got, (case, repr(v))):
            return


def run_nested(case: t.Any, rec: Recorder) -> None:
    """Records with flattened fields and remainders inside each other's values keep to their own objects."""
    a, b, pos = case
    shapes_ = [("P", "R"), ("P", ("A",)), (("P", "R"),), ("D",)]
    inner = build(shapes_[b], "I")
    place: m.T = {"field": inner, "list": m.SeqT("List", inner), "dict": m.MapT("Dict", m.STR, inner)}[pos]
    fields: t.List[m.F] = [m.F("sub", place)]
    outer_shape = build(shapes_[a], "O").fields
    for f in outer_shape:
        fields.append(f)
    if pos == "dict" and a == 0:
        fields[-1] = m.F("rest", m.MapT("Dict", m.STR, inner), rest=True)
    typ = records.build("kw_only", "Outer", fields)
    ok_inner = [m.plain(inner.enc(v)) for v in inner.vals()]
    outer_keys = [k for k in m.claimed_keys(fields) if k != "sub"]
    for ip in [dict(x) for x in ok_inner] + [{**ok_inner[0], "e": 1}, {**ok_inner[0], "sub": 3}, {}]:
        for op in ({}, {"e": 2}, {k: 5 for k in outer_keys}, {**{k: 5 for k in outer_keys}, "e": 2}):
            p = {"sub": {"field": ip, "list": [ip, ip], "dict": {"x": ip}}[pos], **op}
            exp = m.expect(typ.dec, p)
            got = m.attempt(load, p, typ.hint)
            if not judge(rec, f"load({p!r}, {typ.label})", exp, got, (case, repr(p))):
                return
            if got.kind == "ok":
                bexp = m.expect(typ.enc, got.value)
                back = m.attempt(dump, got.value, typ.hint)
                if not judge(rec, f"dump({got.value!r}, {typ.label})", bexp, back, (case, repr(p), "d")):
                    return


#: Ways to say that a field is or is not expanded: (annotations, effective)
SWITCHES: t.List[t.Tuple[t.Callable[[t.Any], t.Tuple[t.Any, ...]], bool]] = [
    (lambda s: (), False),
    (lambda s: (s(False),), False),
    (lambda s: (s(),), True),
    (lambda s: (s(False), s()), False),
    (lambda s: (s(), s(False)), True),
    (lambda s: (s(), s(False, Priority.HIGH)), False),
    (lambda s: (s(False, Priority.LOW), s()), True),
    (lambda s: (s(False, Priority.ULTIMATE), s(True, Priority.HIGH)), False),
]


def run_switch(case: t.Any, rec: Recorder) -> None:
    """Settings that turn the expansion of fields on and off."""
    switches, kind, shapes_, order, inside = case
    fields: t.List[m.F] = []
    for n, k, what in zip("fgh", switches, shapes_):
        make, on = SWITCHES[k]
        if what == "rest":
            fields.append(Annotated(n, m.MapT("Dict", m.STR, m.INT), make(Remainder), rest=on))
        else:
            inner = records.build(kind, "In" + n, [m.F("a" + n, m.INT), m.F("b" + n, m.STR, default="b")][: 2 if what == "flat" else 1])
            fields.append(Annotated(n, inner, make(Flattened), flat=on))
    if inside:
        # The fields in question are those of a flattened record.
        fields = [m.F("wrap", records.build("kw_only", "Wrap", fields), flat=True)]
    fields.insert(0 if order else len(fields), m.F("k", m.INT))
    typ = records.build("kw_only", "Sw", fields)
    parts: t.Dict[str, t.List[t.Any]] = {"k": [1], "e": [2]}
    few = len(switches) > 1 and not thorough()
    for n, what in zip("fgh", shapes_):
        if few:
            parts[n] = [{"e": 5}, {"a" + n: 1}]
        else:
            parts[n] = [{"e": 5}, {}, {"a" + n: 1}, {"a" + n: 1, "b" + n: "x"}, 3]
        if what != "rest":
            parts["a" + n] = [4]
            if what == "flat":
                parts["b" + n] = ["y"]
    keys = list(parts)
    for present in itertools.product(*[[None, *parts[k]] for k in keys]):
        p = {k: v for k, v in zip(keys, present) if v is not None}
        exp = m.expect(typ.dec, p)
        got = m.attempt(load, p, typ.hint)
        if not judge(rec, f"load({p!r}, {typ.label})", exp, got, (case, repr(p))):
            return
        if got.kind == "ok":
            bexp = m.expect(typ.enc, got.value)
            back = m.attempt(dump, got.value, typ.hint)
            if not judge(rec, f"dump({got.value!r}, {typ.label})", bexp, back, (case, repr(p), "d")):
                return


class Annotated(m.F):
    """A field with exactly the given annotations."""

    def hint(self) -> t.Any:
        return t.Annotated[(self.typ.hint, *self.ann)] if self.ann else self.typ.hint  # type: ignore[return-value]

    def __init__(self, name: str, typ: m.T, ann: t.Tuple[t.Any, ...], **kw: t.Any) -> None:
        super().__init__(name, typ, ann=ann, **kw)


def switch_cases() -> t.Iterator[t.Any]:
    n = len(SWITCHES)
    kinds = ("kw_only", "typeddict") if thorough() else ("kw_only",)
    for kind in kinds:
        for order in (False, True):
            for inside in (False, True):
                for what in ("rest", "flat"):
                    for a in range(n):
                        yield (a,), kind, (what,), order, inside
                for what in itertools.product(("rest", "one"), repeat=2):
                    if order and inside and not thorough():
                        continue
                    for ab in itertools.product(range(n), repeat=2):
                        yield ab, kind, what, order, inside


def spaces() -> t.List[Space]:
    return [
        Space("load", lambda: iter(shape_cases()), lambda c, r: run_load(c, r, limit=9 if thorough() else 6),
              f"{len(shape_cases())} shapes of records with plain, aliased, defaulted, remainder and (twice) flattened "
              "fields x all subsets of their names, aliases and two foreign keys (at most 6 keys; thorough: 9)"),
        Space("dump", lambda: iter(shape_cases()), run_dump,
              "the same shapes x all choices of default values x remainders holding any one or two keys x "
              "SerializeDefaults"),
        Space("kinds", kind_cases, run_kinds, "5 shapes x 9 x 9 kinds of records x 3 mapping types"),
        Space("forms", lambda: itertools.product(("rest", "flat"), range(12), (False, True)), run_forms,
              "12 types as remainder and as flattened field"),
        Space("switches", switch_cases, run_switch,
              "one and two fields, each with every combination of enabled and disabled settings of every priority, x all "
              "choices of absent, well-formed and foreign values of all keys"),
        Space("nested", lambda: itertools.product(range(4), range(4), ("field", "list", "dict")), run_nested,
              "records inside records, lists and mappings"),
    ]  # fmt: skip
