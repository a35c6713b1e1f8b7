"""C05: alias, required, default and extra keys decide every load."""

import itertools
import typing as t

from databind.core import ExtraKeys, Settings
from databind.json import get_object_mapper, load

from mc import model as m
from mc import records
from mc.engine import Recorder, Space, thorough

ASSUMPTIONS = [
    "Required(False) on a field without a default, and fields whose keys coincide, are left open by the documentation",
    "optional keys of a typed dict with total=False load as documented by the existing tests",
]


class Box(list):
    """A mutable default."""


# -- fields ------------------------------------------------------------------------------------------------------------


def configs(name: str, kinds: str) -> t.List[m.F]:
    """All meaningful combinations of alias, default, Required and Optional for one field."""
    out = []
    aliases: t.List[t.Tuple[str, ...]] = [(), (name + "1",), (name + "1", name + "2"), (name + "2", name)]
    for alias in aliases:
        for opt in (False, True):
            typ: m.T = m.OptT(m.INT) if opt else m.INT
            for default in ("none", "value", "null"):
                if default == "null" and not opt:
                    continue
                for req in (None, True, False):
                    if req is False and default == "none" and not opt:
                        continue
                    d = {"none": m.NODEF, "value": 50, "null": None}[default]
                    out.append(m.F(name, typ, alias=alias, default=d, required=req))
        for req in (None, True, False):
            out.append(m.F(name, m.SeqT("List", m.INT), alias=alias, factory=list, required=req))
    if kinds == "typeddict":
        out = [f for f in out if not f.has_default]
    return out


def usable(f: m.F, kind: str) -> bool:
    if kind in ("typeddict", "td_partial"):
        return not f.has_default and f.req_setting is not False
    return True


def good(f: m.F, i: int) -> t.Any:
    return [i] if isinstance(f.typ, m.SeqT) else i


def payloads(fields: t.Sequence[m.F], rich: bool) -> t.Iterator[t.Dict[str, t.Any]]:
    """All subsets of the names, the aliases and a foreign key, with distinct values."""
    keys: t.List[t.Tuple[str, m.F]] = []
    for f in fields:
        for k in dict.fromkeys((f.name,) + f.keys):
            keys.append((k, f))
    options = []
    for i, (k, f) in enumerate(keys):
        o = [m.NODEF, good(f, 10 + i)]
        if rich:
            o += [None, "zz"]
        options.append(o)
    options.append([m.NODEF, 1])
    names = [k for k, _ in keys] + ["foreign"]
    for combo in itertools.product(*options):
        p = {k: v for k, v in zip(names, combo) if v is not m.NODEF}
        yield p
    # Key order must not matter.
    yield dict(reversed(list({k: o[1] for k, o in zip(names[:-1], options)}.items())))


def judge(rec: Recorder, typ: m.T, p: t.Any, exp: m.Expected, got: m.Outcome, extra: t.Any = "") -> bool:
    rec.trans()
    rec.state((typ.label, extra, repr(p)))
    rec.outcome(f"model:{exp.kind} code:{got.kind}")
    bad = m.judge(exp, got)
    if bad:
        rec.fail(f"load({p!r}, {typ.label}) {extra} {bad}")
        return False
    if exp.kind != "unspec":
        rec.ok()
    return True


def run_single(case: t.Any, rec: Recorder) -> None:
    ci, kind, extra = case
    f = configs("a", "")[ci]
    if not usable(f, kind):
        return
    typ = records.build(kind, "R", [f, m.F("z", m.INT, default=m.NODEF if kind.startswith("t") else 3)])
    env = m.Env(extra=extra)
    kw = {"settings": [ExtraKeys()]} if extra else {}
    for p in payloads([f], True):
        p.setdefault("z", 9) if kind.startswith("t") else None
        keep = m.canon(p)
        exp = m.expect(typ.dec, p, env)
        got = m.attempt(load, p, typ.hint, **kw)
        if not judge(rec, typ, p, exp, got, (kind, extra)):
            return
        if m.canon(p) != keep:
            return rec.fail(f"the payload was modified to {p!r}")


def run_pair(case: t.Any, rec: Recorder) -> None:
    ci, cj, kind = case
    f, g = configs("a", "")[ci], configs("b", "")[cj]
    if not usable(f, kind) or not usable(g, kind):
        return
    typ = records.build(kind, "R", [f, g])
    for extra in (False, True):
        env = m.Env(extra=extra)
        kw = {"settings": [ExtraKeys()]} if extra else {}
        for p in payloads([f, g], False):
            exp = m.expect(typ.dec, p, env)
            got = m.attempt(load, p, typ.hint, **kw)
            if not judge(rec, typ, p, exp, got, (kind, extra)):
                return


def pair_cases() -> t.Iterator[t.Any]:
    n = len(configs("a", ""))
    # A quarter of the configurations represents each alias/default/required feature once.
    few = [i for i in range(n) if i % 5 == 0]
    for i, j in itertools.product(range(n) if thorough() else few, few):
        for kind in records.KINDS:
            yield i, j, kind


# -- fresh defaults ----------------------------------------------------------------------------------------------------


def run_fresh(case: t.Any, rec: Recorder) -> None:
    """Sequences of loads that do or do not provide the field, interleaved with mutations of earlier results."""
    kind, position, seq = case
    made: t.List[Box] = []

    def factory() -> t.Any:
        b = Box()
        made.append(b)
        return b

    f = m.F("a", m.SeqT("List", m.INT), factory=factory)
    inner = records.build(kind, "R", [m.F("k", m.INT, default=0), f])
    outer, lift, project = {
        "bare": (inner, lambda p: p, lambda r: r),
        "list": (m.SeqT("List", inner), lambda p: [p], lambda r: r[0]),
        "field": (m.RecT("O", [m.F("i", inner)]), lambda p: {"i": p}, lambda r: r.i),
        "flattened": (m.RecT("O", [m.F("i", inner, flat=True)]), lambda p: p, lambda r: r.i),
        "optional": (m.OptT(inner), lambda p: p, lambda r: r),
    }[position]
    mapper = get_object_mapper()
    seen: t.List[t.Any] = []
    for n, provide in enumerate(seq):
        p: t.Dict[str, t.Any] = {"k": n}
        if provide:
            p["a"] = [n]
        got = m.attempt(mapper.deserialize, lift(p), outer.hint)
        rec.trans()
        if got.kind != "ok":
            return rec.fail(f"load {n} of {seq}: {got!r}")
        r = project(got.value)
        rec.state((kind, position, seq[: n + 1]))
        if r.k != n or list(r.a) != ([n] if provide else []):
            return rec.fail(f"load {n} of {seq} in {kind}/{position}: got {r.a!r}")
        if any(r.a is x for x in seen):
            return rec.fail(f"load {n} of {seq} in {kind}/{position}: shares its default with an earlier result")
        if not provide and not any(r.a is b for b in made):
            return rec.fail(f"load {n} of {seq} in {kind}/{position}: the default is not what the factory made")
        seen.append(r.a)
        r.a.append(99)  # an application changes its object
        rec.ok()


def fresh_cases() -> t.Iterator[t.Any]:
    for kind in ("dataclass", "slots", "kw_only", "databind", "inherited", "generic", "string_annotations"):
        for position in ("bare", "list", "field", "flattened", "optional"):
            for seq in itertools.product((False, True), repeat=5 if thorough() else 3):
                yield kind, position, seq


# -- extra keys --------------------------------------------------------------------------------------------------------


OPTIONS = (None, "allow", "deny", "record")


def setting(option: t.Optional[str], log: t.List[t.Any], where: str) -> t.Optional[ExtraKeys]:
    if option is None:
        return None
    if option == "deny":
        return ExtraKeys(False)
    if option == "allow":
        return ExtraKeys(True)
    return ExtraKeys(recorder=lambda ctx, keys: log.append((where, id(ctx.value), frozenset(keys))))


SITES = ("outer", "field", "item", "member", "opt")


def run_extra(case: t.Any, rec: Recorder) -> None:
    """Objects in every position, each with or without surplus keys; ExtraKeys on classes, hints, call and mapper."""
    cls_o, cls_i, hint, call, glob = case
    log: t.List[t.Any] = []

    def decorate(cls: type, option: t.Optional[str], where: str) -> type:
        s = setting(option, log, where)
        return s(cls) if s else cls

    inner = m.RecT("Inner", [m.F("x", m.INT)], decorate=lambda c: decorate(c, cls_i, "class inner"))
    other = m.RecT("Other", [m.F("x", m.INT)])
    hint_setting = setting(hint, log, "hint")
    hinted: m.T = m.AnnT(inner, hint_setting) if hint_setting else inner
    member = m.TaggedT("flat", {"m": other})
    outer = m.RecT(
        "Outer",
        [m.F("field", hinted), m.F("items", m.SeqT("List", inner)), m.F("member", member), m.F("opt", m.OptT(other))],
        decorate=lambda c: decorate(c, cls_o, "class outer"),
    )
    settings = Settings()
    gs = setting(glob, log, "global")
    if gs:
        settings.add_global(gs)
    cs = setting(call, log, "call")
    kw = {"settings": [cs]} if cs else {}
    mapper = get_object_mapper(settings)
    rest = [(call, "call"), (glob, "global")]
    governing = {
        "outer": [(cls_o, "class outer")] + rest,
        "field": [(hint, "hint"), (cls_i, "class inner")] + rest,
        "item0": [(cls_i, "class inner")] + rest,
        "item1": [(cls_i, "class inner")] + rest,
        "member": rest,
        "opt": rest,
    }
    for n in range(2 ** len(governing)):
        where = {site for i, site in enumerate(governing) if n >> i & 1}

        def obj(site: str, **kw2: t.Any) -> t.Dict[str, t.Any]:
            if site in where:
                kw2.update({"e1": 1, "e2": [2]} if site in ("field", "outer") else {"e_" + site: None})
            return kw2

        objs = {
            "field": obj("field", x=1),
            "item0": obj("item0", x=2),
            "item1": obj("item1", x=3),
            "member": obj("member", x=4, type="m"),
            "opt": obj("opt", x=5),
        }
        p = obj(
            "outer", field=objs["field"], items=[objs["item0"], objs["item1"]], member=objs["member"], opt=objs["opt"]
        )
        objs["outer"] = p
        del log[:]
        got = m.attempt(mapper.deserialize, p, outer.hint, **kw)
        rec.trans()
        rec.state((case, n))
        expected = []
        reject = False
        for site, chain in governing.items():
            if site not in where:
                continue
            option, origin = next(((o, w) for o, w in chain if o is not None), ("deny", ""))
            if option == "deny":
                reject = True
            elif option == "record":
                keys = frozenset(k for k in objs[site] if k.startswith("e"))
                expected.append((origin, None if site == "member" else id(objs[site]), keys))
        rec.outcome("reject" if reject else "accept")
        if reject:
            if got.kind != "reject":
                return rec.fail(f"load({p!r}) with {case}: {got!r}; expected a rejection of surplus keys")
        else:
            if got.kind != "ok":
                return rec.fail(f"load({p!r}) with {case}: {got!r}; expected the surplus keys to be ignored")
            v = got.value
            if (v.field.x, [i.x for i in v.items], v.member.x, v.opt.x) != (1, [2, 3], 4, 5):
                return rec.fail(f"load({p!r}) with {case}: {got!r}; wrong values")
            want = sorted((o, sorted(k)) for o, _, k in expected)
            have = sorted((o, sorted(k)) for o, _, k in log)
            if want != have:
                return rec.fail(f"load({p!r}) with {case}: recorded {have}, expected {want}")
            # Each record is about the object that has the keys (the flat member is converted from a copy).
            ids = {i for _, i, _ in log}
            if not {i for _, i, _ in expected if i is not None} <= ids:
                return rec.fail(f"load({p!r}) with {case}: the recorder was given the wrong context")
        rec.ok()


def extra_cases() -> t.Iterator[t.Any]:
    return itertools.product(OPTIONS, OPTIONS, OPTIONS, OPTIONS, (None, "allow", "deny", "record"))


def run_sequence(case: t.Any, rec: Recorder) -> None:
    """The recorder reports the keys of each load, whatever was loaded before."""
    kind, seq = case
    log: t.List[t.Any] = []
    s = ExtraKeys(recorder=lambda ctx, keys: log.append(set(keys)))
    typ = records.build(kind, "R", [m.F("a", m.INT), m.F("b", m.INT, alias=("b1", "b2"), default=7)]
                        if not kind.startswith("t") else [m.F("a", m.INT), m.F("b", m.OptT(m.INT), alias=("b1", "b2"))])  # fmt: skip
    mapper = get_object_mapper()
    mapper.settings.add_global(s)
    shapes = [{"a": 1}, {"a": 1, "x": 2}, {"a": 1, "b": 2}, {"a": 1, "b1": 2, "y": 3, "x": 3}, {"x": 1}, {"a": "zz", "x": 1}]
    for i in seq:
        p = dict(shapes[i])
        del log[:]
        exp = m.expect(typ.dec, p, m.Env(extra=True))
        got = m.attempt(mapper.deserialize, p, typ.hint)
        if not judge(rec, typ, p, exp, got, (kind, seq)):
            return
        if got.kind == "ok":
            extra = set(p) - {"a", "b1", "b2"}
            if log != ([extra] if extra else []):
                return rec.fail(f"load({p!r}) recorded {log!r}, expected {extra!r} once")


def sequence_cases() -> t.Iterator[t.Any]:
    for kind in ("dataclass", "databind", "inherited", "typeddict"):
        for seq in itertools.product(range(6), repeat=4 if thorough() else 2):
            yield kind, seq


# -- aliases that overlap the names of other fields --------------------------------------------------------------------


def run_overlap(case: t.Any, rec: Recorder) -> None:
    """Aliases may be names of other fields (which then have aliases themselves)."""
    perm, dflt = case
    names = ("a", "b", "c")
    fields = [
        m.F(n, m.INT, alias=(names[i],) if names[i] != n else (), default=m.NODEF if k >= dflt else 40 + k)
        for k, (n, i) in enumerate(zip(names, perm))
    ]
    typ = records.build("kw_only", "R", fields)
    for present in itertools.product((False, True), repeat=4):
        p = {k: 10 + i for i, (k, on) in enumerate(zip(names + ("foreign",), present)) if on}
        for extra in (False, True):
            exp = m.expect(typ.dec, p, m.Env(extra=extra))
            got = m.attempt(load, p, typ.hint, settings=[ExtraKeys(extra)])
            if not judge(rec, typ, p, exp, got, extra):
                return


def spaces() -> t.List[Space]:
    n = len(configs("a", ""))
    return [
        Space("single", lambda: itertools.product(range(n), records.KINDS, (False, True)), run_single,
              f"{n} field configurations x {len(records.KINDS)} kinds of record x ExtraKeys x all key subsets with "
              "good, null and wrong values"),
        Space("pair", pair_cases, run_pair, "pairs of field configurations x record kinds x all key subsets"),
        Space("overlap", lambda: itertools.product(itertools.permutations(range(3)), range(4)), run_overlap,
              "all permutations of names as aliases x defaults x key subsets"),
        Space("fresh", fresh_cases, run_fresh, "all sequences of 3 loads (thorough: 5), with mutation of results"),
        Space("extra", extra_cases, run_extra,
              "4^5 assignments of ExtraKeys to two classes, a hint, the call and the mapper x 2^6 surplus positions"),
        Space("sequence", sequence_cases, run_sequence, "all sequences of 2 loads (thorough: 4) over 6 payloads"),
    ]  # fmt: skip
