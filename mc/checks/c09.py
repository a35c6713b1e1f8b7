"""C09: untagged unions, optionals and literals pick the first member that fits."""

import itertools
import types
import typing as t

import databind.core as dc
from databind.json import dump, load

from mc import model as m
from mc import typespace
from mc.engine import Recorder, Space, thorough

ASSUMPTIONS = [
    "a plain union that lists itself, members with the same class name, and literals as direct members of a plain union "
    "are left open (the implementation rejects them)",
    "1, True and 1.0 are not told apart by the documentation of literals",
]

N = m.NODEF


def judge(rec: Recorder, what: t.Any, exp: m.Expected, got: m.Outcome, key: t.Any) -> bool:
    rec.trans()
    rec.state(key)
    rec.outcome(f"model:{exp.kind} code:{got.kind}")
    bad = m.judge(exp, got)
    if bad:
        rec.fail(f"{what} {bad}")
        return False
    if exp.kind != "unspec":
        rec.ok()
    return True


def all_members() -> t.List[m.T]:
    greedy = m.RecT("Greedy", [m.F("x", m.INT)], decorate=lambda c: dc.ExtraKeys()(c), cls_loc={"extra": True})
    return typespace.union_members() + [
        m.AnnT(m.LEVEL, "x"),
        m.AnnT(m.FloatT(), dc.Strict(False), loc={"strict": False}),
        greedy,
        m.RecT("Opts", [m.F("x", m.OptT(m.INT)), m.F("y", m.OptT(m.STR))]),
        m.RecT("Rest", [m.F("x", m.INT), m.F("more", m.MapT("Dict", m.STR, m.INT), rest=True)]),
        m.RecT("TagA", [m.F("tag", m.LiteralT("a")), m.F("x", m.INT)]),
        m.RecT("TagB", [m.F("tag", m.LiteralT("b", "c")), m.F("x", m.INT)]),
        m.RecT("Deep", [m.F("x", m.SeqT("List", m.RecT("A", [m.F("x", m.INT)])))]),
        m.TupleT(m.INT, m.STR),
        m.RecT("NT", [m.F("x", m.INT)], kind="namedtuple"),
        m.TaggedT("keyed", {"x": m.INT, "s": m.STR}),
        m.DateTimeT, m.DurationT, m.PathT, m.BYTES,
    ]  # fmt: skip


MEM = all_members()
#: Payloads and values for the members, and everything close to them.
PAYLOADS: t.List[t.Any] = []
OWN: t.List[t.List[t.Any]] = []
VALUES: t.List[t.Any] = []


def _fill() -> None:
    seen = set()
    for typ in MEM:
        OWN.append(list(m.payloads(typ, m.FEW_ATOMS, 2)))
        for p in OWN[-1]:
            if m.canon(p) not in seen:
                seen.add(m.canon(p))
                PAYLOADS.append(p)
        VALUES.extend(typ.vals()[:3])
    VALUES.extend([None, object(), (), set(), 10**400, float("inf"), {"x": 1}, [None], int, b"q"])


_fill()
SMALL = PAYLOADS[::7]

NONE_SPELLINGS = ("", "first", "middle", "last", "Optional", "pep604", "double", "annotated", "inner annotated")


def members_ok(sel: t.Sequence[int]) -> bool:
    names = []
    for i in sel:
        u = m.unwrap(MEM[i])
        if isinstance(u, m.TaggedT):
            return False  # an annotated union is not a concrete type
        names.append(u.pytype().__name__)
    return len(set(names)) == len(names)


def spell(sel: t.Sequence[int], none: str) -> t.Optional[m.T]:
    typ: m.T = m.UnionT(*[MEM[i] for i in sel])
    hints = [MEM[i].hint for i in sel]
    if none == "":
        return typ
    if none == "pep604":
        if not all(isinstance(h, (type, types.GenericAlias)) for h in hints):
            return None
        h: t.Any = hints[0]
        for x in hints[1:]:
            h = h | x
        typ.hint = h | None
        out = m.OptT(typ)
        out.hint = h | None
        return out
    out = m.OptT(typ)
    if none == "first":
        out.hint = t.Union[tuple([None] + hints)]  # type: ignore[misc]
    elif none == "middle":
        out.hint = t.Union[tuple(hints[:1] + [None] + hints[1:])]  # type: ignore[misc]
    elif none == "last":
        out.hint = t.Union[tuple(hints + [None])]  # type: ignore[misc]
    elif none == "double":
        out.hint = t.Optional[t.Union[None, typ.hint]]
    elif none == "annotated":
        out.hint = t.Annotated[t.Optional[typ.hint], "foreign"]
    elif none == "inner annotated":
        out.hint = t.Optional[t.Annotated[typ.hint, "foreign"]]
    return out


def run_union(case: t.Any, rec: Recorder) -> None:
    sel, none, wrap, full = case
    for cleanup in t._cleanups:  # type: ignore[attr-defined]
        cleanup()
    typ = spell(sel, none)
    if typ is None:
        return
    up: t.Callable[[t.Any], t.Any] = lambda x: x  # noqa: E731
    upv = up
    if wrap == "List":
        typ, up = m.SeqT("List", typ), lambda x: [x]
        upv = up
    elif wrap == "Dict":
        typ, up = m.MapT("Dict", m.STR, typ), lambda x: {"k": x, "l": x}
        upv = up
    elif wrap == "Rec":
        rtyp = m.RecT("R", [m.F("f", typ, alias=("ff",)), m.F("g", m.INT, default=3)])
        typ, up, upv = rtyp, lambda x: {"ff": x}, lambda x: rtyp.make(f=x)
    pays = PAYLOADS if full and thorough() else SMALL + [p for i in sel for p in OWN[i]] if full else SMALL
    for p in pays:
        p = up(p)
        if not judge(rec, f"load({p!r}, {typ.label})", m.expect(typ.dec, p), m.attempt(load, p, typ.hint), (case, "l", m.short_canon(p))):
            return
    for v in VALUES if full else VALUES[::2]:
        v = upv(v)
        if not judge(rec, f"dump({v!r}, {typ.label})", m.expect(typ.enc, v), m.attempt(dump, v, typ.hint), (case, "d", m.short_canon(v))):
            return


def union_cases() -> t.Iterator[t.Any]:
    n = len(MEM)
    for sel in itertools.permutations(range(n), 2):
        if members_ok(sel):
            yield sel, "", "", True
    for sel in itertools.permutations(range(n), 2):
        if members_ok(sel) and (max(sel) < 9 or thorough()):
            for none in NONE_SPELLINGS[1:]:
                yield sel, none, "", False
            yield sel, "last", "Dict", False
            yield sel, "", "Rec", False
            yield sel, "", "List", False
    pool = range(n) if thorough() else (0, 3, 4, 11, 12, 15, 16, 18, 19)
    for sel in itertools.permutations(pool, 3):
        if members_ok(sel):
            yield sel, "", "", thorough()
            if thorough():
                yield sel, "middle", "", False
    if thorough():
        for sel in itertools.permutations((0, 3, 11, 12, 15, 16, 18, 19), 4):
            yield sel, "", "", False


# -- unions in members of unions -----------------------------------------------------------------------------------------

INNER: t.List[m.T] = [m.INT, m.STR, m.BOOL, m.SeqT("List", m.INT), m.RecT("A", [m.F("x", m.INT)])]
OUTER = ("List", "FrozenSet", "Dict", "Rec", "Opt field", "Keyed")


def outer(kind: str, n: int, inner: m.T) -> t.Optional[m.T]:
    if kind in ("List", "FrozenSet"):
        return m.SeqT(kind, inner) if kind == "List" or inner.hashable else None
    if kind == "Dict":
        return m.MapT("Dict", m.STR, inner)
    if kind == "Keyed":
        return m.RecT(f"R{n}", [m.F("x", m.MapT("Dict", m.STR, inner))])
    return m.RecT(f"R{n}", [m.F("x", m.OptT(inner) if kind == "Opt field" else inner)])


def run_nested(case: t.Any, rec: Recorder) -> None:
    k1, pair, k2, other, wrap = case
    for cleanup in t._cleanups:  # type: ignore[attr-defined]
        cleanup()
    one = outer(k1, 1, m.UnionT(INNER[pair[0]], INNER[pair[1]]))
    two = outer(k2, 2, m.UnionT(*[INNER[i] for i in other]) if len(other) > 1 else INNER[other[0]])
    if one is None or two is None or m.unwrap(one).pytype() is m.unwrap(two).pytype():
        return rec.count("not applicable")
    for first, second in ((one, two), (two, one)):
        typ: m.T = m.UnionT(first, second)
        up: t.Callable[[t.Any], t.Any] = lambda x: x  # noqa: E731
        if wrap == "List":
            typ, up = m.SeqT("List", typ), lambda x: [x]
        elif wrap == "Union":
            # The members of the outer union are lists of it, and text.
            typ, up = m.UnionT(m.STR, m.SeqT("List", typ)), lambda x: [x]
        seen = set()
        pays = [*m.payloads(one, m.FEW_ATOMS, 2), *m.payloads(two, m.FEW_ATOMS, 2)]
        for p in pays:
            if m.canon(p) in seen:
                continue
            seen.add(m.canon(p))
            p = up(p)
            got = m.attempt(load, p, typ.hint)
            if not judge(rec, f"load({p!r}, {typ.label})", m.expect(typ.dec, p), got, (case, "l", m.short_canon(p))):
                return
        for v in [*one.vals(), *two.vals(), [object()], {"k": object()}]:
            v = up(v)
            got = m.attempt(dump, v, typ.hint)
            if not judge(rec, f"dump({v!r}, {typ.label})", m.expect(typ.enc, v), got, (case, "d", m.short_canon(v))):
                return


def nested_cases() -> t.Iterator[t.Any]:
    pairs = list(itertools.permutations(range(len(INNER)), 2))
    others: t.List[t.Any] = [(i,) for i in range(len(INNER))] + pairs if thorough() else [(1,), (2,), (4,)]
    for k1, k2 in itertools.product(OUTER, repeat=2):
        for pair in pairs:
            for other in others:
                for wrap in ("", "List", "Union"):
                    if wrap == "" or thorough() or (pair in ((0, 1), (0, 2), (3, 0)) and other in ((1,), (2,))):
                        yield k1, pair, k2, other, wrap


# -- best match --------------------------------------------------------------------------------------------------------


class BestT(m.UnionT):
    """Explicit members in the "best match" style, which may be any type."""

    def __init__(self, members: t.Dict[str, m.T], base: str) -> None:
        self.members = tuple(members.values())
        types_ = {k: v.hint for k, v in members.items()}
        if base == "decorated":
            cls = type("Base", (), {})
            self.hint = dc.Union(types_, dc.Union.BEST_MATCH)(cls)
        else:
            self.hint = t.Annotated[type("Base", (), {}), dc.Union(types_, dc.Union.BEST_MATCH, "type", "zz")]
        self.label = "best_match[" + ", ".join(x.label for x in self.members) + "]"
        self.hashable = False


BEST: t.List[m.T] = [
    m.LiteralT("a", 2), m.LiteralT("b", None), m.INT, m.STR, m.OptT(m.INT), m.SeqT("List", m.INT), m.SeqT("List", m.STR),
    m.RecT("A", [m.F("x", m.INT)]), m.RecT("B", [m.F("x", m.INT), m.F("y", m.STR, default="q")]),
    m.UnionT(m.BOOL, m.STR), m.ANY, m.TaggedT("keyed", {"x": m.INT, "s": m.STR}),
]  # fmt: skip


def run_best(case: t.Any, rec: Recorder) -> None:
    sel, base = case
    typ = BestT({f"id{n}": BEST[i] for n, i in enumerate(sel)}, base)
    for p in SMALL + m.ATOMS + [2, "b", {"x": 3}, {"s": "t"}, ["a"], [1]]:
        if not judge(rec, f"load({p!r}, {typ.label})", m.expect(typ.dec, p), m.attempt(load, p, typ.hint), (case, "l", m.short_canon(p))):
            return
    for v in VALUES:
        if not judge(rec, f"dump({v!r}, {typ.label})", m.expect(typ.enc, v), m.attempt(dump, v, typ.hint), (case, "d", m.short_canon(v))):
            return


def best_cases() -> t.Iterator[t.Any]:
    for k in (1, 2, 3) if thorough() else (1, 2):
        for sel in itertools.permutations(range(len(BEST)), k):
            for base in ("annotated", "decorated"):
                yield sel, base


# -- literals ----------------------------------------------------------------------------------------------------------

LITS: t.List[t.Any] = [None, "a", "", "A", 0, 1, 2, -1, True, False, b"a", m.Color.RED, 2**70]


def run_literal(case: t.Any, rec: Recorder) -> None:
    values, wrap = case
    typ: m.T = m.LiteralT(*values)
    if wrap == "nested":
        typ.hint = t.Literal[tuple(t.Literal[v] for v in values)]  # type: ignore[valid-type]
    up: t.Callable[[t.Any], t.Any] = lambda x: x  # noqa: E731
    if wrap == "annotated":
        typ = m.AnnT(typ, "foreign", dc.Strict(False))
    elif wrap == "List":
        typ, up = m.SeqT("List", typ), lambda x: [x, x]
    elif wrap == "Optional":
        if None in values:
            return
        typ = m.OptT(typ)
    elif wrap == "Tuple":
        typ, up = m.TupleT(typ, m.INT), lambda x: (x, 1)
    for p in LITS + m.ATOMS + [b"A", m.Color.GREEN, "RED", "True", "None", "1", 1.0, 0.0, object, (), {1: 2}, 3, "b", " a"]:
        v = up(p)
        for how, fn, spec in (("dump", dump, typ.enc), ("load", load, typ.dec)):
            if not judge(rec, f"{how}({v!r}, {typ.label})", m.expect(spec, v), m.attempt(fn, v, typ.hint), (case, how, m.short_canon(v))):
                return


def literal_cases() -> t.Iterator[t.Any]:
    for k in (1, 2, 3) if thorough() else (1, 2):
        for values in itertools.permutations(LITS, k):
            for wrap in ("", "annotated", "List", "Optional", "Tuple", "nested"):
                if k < 3 or wrap in ("", "nested"):
                    yield values, wrap


def run_discriminated(case: t.Any, rec: Recorder) -> None:
    """Records that only a literal field tells apart."""
    tags, order, style, wrap = case
    members = []
    for n, vals in enumerate(tags):
        lit: m.T = m.LiteralT(*vals)
        tag = m.F("tag", lit, alias=("type",) if style == "alias" else ())
        if style == "default":
            tag = m.F("tag", lit, default=vals[0])
        fields = [m.F("x", m.INT), tag]
        if style == "nested":
            fields = [m.F("x", m.INT), m.F("inn", m.RecT("In", [m.F("tag", lit)]))]
        elif style == "flattened":
            fields = [m.F("x", m.INT), m.F("fl", m.RecT("Fl", [m.F("tag", lit)]), flat=True)]
        members.append(m.RecT(f"M{n}", fields))
    u: m.T = m.UnionT(*[members[i] for i in order])
    typ = u if wrap == "" else m.SeqT("List", u) if wrap == "List" else m.OptT(u)
    up: t.Callable[[t.Any], t.Any] = (lambda x: [x]) if wrap == "List" else lambda x: x
    for tag in LITS + ["zz", [], {}]:
        for x in (1, "s"):
            for p in ({"x": x, "tag": tag}, {"x": x, "type": tag}, {"x": x, "inn": {"tag": tag}}, {"x": x}, {"tag": tag}):
                p = up(p)
                if not judge(rec, f"load({p!r}, {typ.label})", m.expect(typ.dec, p), m.attempt(load, p, typ.hint), (case, m.short_canon(p))):
                    return
    for r, vals in zip(members, tags):
        for tag in LITS:
            f = r.fields[1]
            inner = m.unwrap(f.typ)
            v = r.make(x=1, **{f.name: inner.make(tag=tag) if isinstance(inner, m.RecT) else tag})
            v = up(v)
            got = m.attempt(dump, v, typ.hint)
            if not judge(rec, f"dump({v!r}, {typ.label})", m.expect(typ.enc, v), got, (case, m.short_canon(v))):
                return


def discriminated_cases() -> t.Iterator[t.Any]:
    pool = [("a",), ("b",), ("a", "b"), (1,), (2, "a"), (None,), ("",), (b"a",)]
    for tags in itertools.permutations(pool, 2):
        for order in itertools.permutations(range(2)):
            for style in ("plain", "alias", "default", "nested", "flattened"):
                for wrap in ("", "List", "Opt"):
                    yield tags, order, style, wrap
    for tags in itertools.combinations(pool, 3):
        for order in itertools.permutations(range(3)):
            yield tags, order, "plain", ""


# -- None --------------------------------------------------------------------------------------------------------------


def run_none(case: t.Any, rec: Recorder) -> None:
    leaf, chain = case
    typ = m.type_chain(m.leaf_types()[leaf], chain)
    if typ is None:
        return
    cands = [typ]
    if not isinstance(typ, (m.OptT, m.AnyT)) and not (isinstance(typ, m.LiteralT) and None in typ.values):
        cands.append(m.OptT(typ))
    for x in cands:
        for how, fn, spec in (("dump", dump, x.enc), ("load", load, x.dec)):
            got = m.attempt(fn, None, x.hint)
            if not judge(rec, f"{how}(None, {x.label})", m.expect(spec, None), got, (case, x is typ, how)):
                return


def none_cases() -> t.Iterator[t.Any]:
    allw = typespace.all_wrappers()
    for i in range(len(m.leaf_types())):
        yield i, ()
        for w in allw:
            yield i, (w,)
    for c in m.chains(2, allw):
        for i in range(len(m.leaf_types())) if thorough() else (0, 1, 9):
            yield i, c


def spaces() -> t.List[Space]:
    return [
        Space("unions", union_cases, run_union,
              f"all ordered pairs of {len(MEM)} member types and triples of 9 (thorough: all triples, some quadruples) x spellings of None x "
              f"positions x {len(PAYLOADS)} payloads and {len(VALUES)} values (of all members, simplest mutations; the payloads of the selected members in full)", chunk=4),
        Space("nested unions", nested_cases, run_nested,
              f"unions of two types, one of {len(OUTER)} containers of a union of two of {len(INNER)} types and one of such a "
              "container of another type (thorough: of another union), in both orders, at three positions, all their payloads", chunk=8),
        Space("best match", best_cases, run_best, f"ordered selections of {3 if thorough() else 2} of {len(BEST)} types"),
        Space("literals", literal_cases, run_literal, f"all ordered choices of up to {3 if thorough() else 2} of {len(LITS)} "
              "values x 6 positions x payloads", chunk=8),
        Space("discriminated", discriminated_cases, run_discriminated, "pairs and triples of records told apart by literals"),
        Space("none", none_cases, run_none, "None for every leaf type under up to two type constructors", chunk=16),
    ]  # fmt: skip
