"""C10: setting lookup: highest priority wins, then the nearest source."""

import itertools
import typing as t

import databind.core as dc
from typeapi import TypeHint
from databind.json import get_object_mapper, load

from mc import model as m
from mc.engine import Recorder, Space, thorough

ASSUMPTIONS = [
    "a settings list passed to a call ranks between the class and the mapper's own type-local settings, as documented by "
    "ObjectMapper.convert (global settings of a Settings object whose parent is the mapper's)",
]

P = dc.Priority
PRIOS = [P.LOW, P.NORMAL, P.HIGH, P.ULTIMATE]


class S(dc.ClassDecoratorSetting):
    def __init__(self, tag: t.Any, priority: dc.Priority = P.NORMAL) -> None:
        self.tag, self.priority = tag, priority

    def __repr__(self) -> str:
        return f"{type(self).__name__}({self.tag}, {int(self.priority)})"


class S2(S):
    pass


class U(dc.ClassDecoratorSetting):
    def __init__(self, tag: t.Any, priority: dc.Priority = P.NORMAL) -> None:
        self.tag, self.priority = tag, priority

    __repr__ = S.__repr__


class Probe(dc.Converter):
    """Looks the settings up and ends the conversion."""

    def __init__(self, *queries: t.Any) -> None:
        self.queries = queries

    def convert(self, ctx: dc.Context) -> t.Any:
        return [ctx.get_setting(q) for q in self.queries]


def winner(sources: t.Iterable[t.Sequence[t.Any]], query: t.Any) -> t.Any:
    best = None
    for src in sources:
        for s in src:
            if isinstance(s, query) and (best is None or int(s.priority) > int(best.priority)):
                best = s
    return best


def probe(mapper: t.Any, hint: t.Any, direction: int, **kw: t.Any) -> t.Any:
    return (mapper.deserialize if direction else mapper.serialize)(0, hint, **kw)


def mapper_with(settings: t.Optional[dc.Settings], *queries: t.Any) -> t.Any:
    mapper: t.Any = dc.ObjectMapper(settings)
    mapper.module.register(Probe(*queries))
    return mapper


def compare(rec: Recorder, what: t.Any, want: t.List[t.Any], got: t.List[t.Any], key: t.Any) -> bool:
    rec.trans()
    rec.state(key)
    rec.outcome("found" if any(w is not None for w in want) else "not found")
    if len(got) != len(want) or any(g is not w for g, w in zip(got, want)):
        rec.fail(f"{what}: found {got!r}, the setting in effect is {want!r}")
        return False
    rec.ok()
    return True


# -- sources -----------------------------------------------------------------------------------------------------------

SOURCES = ("annotation", "class", "call", "local", "provider", "global", "parent local", "parent provider", "parent global")


class Other:
    pass


def install(content: t.Dict[str, t.List[t.Any]], how: int = 0) -> t.Tuple[t.Any, t.Any, t.Dict[str, t.Any]]:
    """A mapper, a hint and call arguments such that each source supplies the given settings."""
    cls = type("K", (), {})
    for s in content.get("class", ()):
        s(cls)
    hint: t.Any = cls
    ann = content.get("annotation", [])
    if ann:
        mixed: t.List[t.Any] = ["foreign", *ann, 7] if how % 2 else list(ann)
        hint = t.Annotated[(cls, *mixed)]  # type: ignore[misc]
    settings = []
    for pre in ("parent ", ""):
        parent = settings[-1] if settings else None
        glob = content.get(pre + "global", [])
        if how % 2:
            st = dc.Settings(parent, list(glob))
        else:
            st = dc.Settings(parent)
            for s in glob:
                st.add_global(s)
        for s in content.get(pre + "local", ()):
            st.add_local(cls, s)
        st.add_local(Other, S("other", P.ULTIMATE))
        prov = content.get(pre + "provider", [])
        if how % 2 and prov:
            st.add_provider(lambda ctx, prov=prov: list(prov))
        else:
            for s in prov:
                st.add_conditional(lambda ctx: True, s)
        st.add_conditional(lambda ctx: False, S("never", P.ULTIMATE))
        settings.append(st)
    kw: t.Dict[str, t.Any] = {}
    if content.get("call"):
        kw["settings"] = list(content["call"])
    return settings[-1], hint, kw


def run_assign(case: t.Any, rec: Recorder) -> None:
    """Each source is empty or supplies one setting of some priority."""
    prefix = case
    prios: t.List[t.Optional[dc.Priority]] = [None, P.NORMAL, P.HIGH]
    if thorough():
        prios = [None] + PRIOS
    for rest in itertools.product(range(len(prios)), repeat=len(SOURCES) - len(prefix)):
        pick = prefix + rest
        content = {s: [S(s, prios[i])] for s, i in zip(SOURCES, pick) if i}  # type: ignore[arg-type]
        st, hint, kw = install(content, sum(pick))
        got = probe(mapper_with(st, S, U), hint, sum(pick) % 2, **kw)
        want = winner([content.get(s, ()) for s in SOURCES], S)
        if not compare(rec, content, [want, None], got, pick):
            return


def assign_cases() -> t.Iterator[t.Any]:
    n = 5 if thorough() else 3
    return itertools.product(range(n), repeat=4)


def run_multi(case: t.Any, rec: Recorder) -> None:
    """Up to four settings of any priorities, several in one source."""
    srcs = case
    for prios in itertools.product(PRIOS, repeat=len(srcs)):
        for how in (0, 1):
            content: t.Dict[str, t.List[t.Any]] = {}
            for n, (src, p) in enumerate(zip(srcs, prios)):
                content.setdefault(src, []).append(S((src, n), p))
            st, hint, kw = install(content, how)
            got = probe(mapper_with(st, S, dc.Setting), hint, how, **kw)
            want = winner([content.get(s, ()) for s in SOURCES], S)
            if not compare(rec, content, [want, want], got, (case, prios, how)):
                return


def multi_cases() -> t.Iterator[t.Any]:
    for k in (1, 2, 3, 4, 5) if thorough() else (1, 2, 3, 4):
        yield from itertools.combinations_with_replacement(SOURCES, k)


def run_types(case: t.Any, rec: Recorder) -> None:
    """Settings of other types never answer; those of subtypes do."""
    srcs, pick = case
    opts: t.List[t.Any] = [None] + [(c, p) for c in (S, S2, U) for p in (P.NORMAL, P.HIGH)]
    for rest in itertools.product(range(len(opts)), repeat=len(srcs) - len(pick)):
        content = {}
        for src, i in zip(srcs, pick + rest):
            if opts[i]:
                content[src] = [opts[i][0](src, opts[i][1])]
        st, hint, kw = install(content, 1)
        queries = (S, S2, U, dc.ClassDecoratorSetting, dc.Strict)
        got = probe(mapper_with(st, *queries), hint, 0, **kw)
        want = [winner([content.get(s, ()) for s in SOURCES], q) for q in queries]
        if not compare(rec, content, want, got, (srcs, pick + rest)):
            return


def types_cases() -> t.Iterator[t.Any]:
    k = 5
    groups = [("annotation", "class", "call", "local", "global"), ("class", "provider", "global", "parent local", "call"),
              ("annotation", "provider", "parent provider", "parent global", "local")]  # fmt: skip
    for srcs in groups:
        for pick in itertools.product(range(7), repeat=2):
            yield srcs[:k], pick


# -- hints -------------------------------------------------------------------------------------------------------------

X = t.TypeVar("X")
DECO: t.Dict[t.Any, t.List[t.Any]] = {}


def hint_table() -> t.List[t.Tuple[str, t.Callable[[], t.Tuple[t.Any, t.Any, t.List[t.Any]]]]]:
    """(hint, class whose class/local settings apply or None, settings in the hint, outermost first)"""

    def deco(cls: t.Any) -> t.Any:
        s = S("class", P.NORMAL)
        DECO[cls] = [s]
        assert s(cls) is cls
        return cls

    def plain() -> t.Any:
        k = deco(type("K", (), {}))
        return k, k, []

    def sub() -> t.Any:
        k = deco(type("K", (), {}))
        k2 = type("K2", (k,), {})
        return k2, k2, []

    def generic() -> t.Any:
        k = deco(m._new_class("G", (t.Generic[X],), {}))
        return k[int], k, []

    def ann_generic() -> t.Any:
        k = deco(m._new_class("G", (t.Generic[X],), {}))
        a = [S("a0"), S("a1", P.HIGH)]
        return t.Annotated[(k[int], *a)], k, a  # type: ignore[misc]

    def nested_ann() -> t.Any:
        k = deco(type("K", (), {}))
        a = [S("inner"), S("outer")]
        return t.Annotated[t.Annotated[k, a[0]], a[1]], k, a

    def optional() -> t.Any:
        return t.Optional[deco(type("K", (), {}))], None, []

    def ann_optional() -> t.Any:
        a = [S("a0"), U("a1"), S("a2")]
        return t.Annotated[(t.Optional[deco(type("K", (), {}))], *a)], None, a  # type: ignore[misc]

    def literal() -> t.Any:
        return t.Literal["a"], None, []

    def builtin(h: t.Any, cls: t.Any) -> t.Callable[[], t.Any]:
        return lambda: (h, cls, [])

    return [
        ("class", plain), ("subclass", sub), ("generic", generic), ("annotated generic", ann_generic),
        ("nested annotated", nested_ann), ("optional", optional), ("annotated optional", ann_optional),
        ("literal", literal), ("int", builtin(int, int)), ("bool", builtin(bool, bool)), ("List", builtin(t.List[int], list)),
        ("list", builtin(list[int], list)), ("Dict", builtin(t.Dict[str, int], dict)), ("str", builtin(str, str)),
        ("enum", builtin(m.Color, m.Color)), ("union", builtin(t.Union[int, str], None)),
    ]  # fmt: skip


def run_hint(case: t.Any, rec: Recorder) -> None:
    h, loc, glob, prov, call, wrapped = case
    hint, cls, ann = hint_table()[h][1]()
    if wrapped:
        ann = ann + [S("wrap", wrapped)]
        hint = t.Annotated[hint, ann[-1]]
    st = dc.Settings()
    locals_: t.Dict[t.Any, t.Any] = {}
    for c in {cls, int, list, dict, object, type(None), str} - {None}:
        if loc:
            locals_[c] = S(("local", c), loc)
            st.add_local(c, locals_[c])
    globs = [S("global", glob)] if glob else []
    for s in globs:
        st.add_global(s)
    seen = []
    provs = [S("prov", prov)] if prov else []
    st.add_provider(lambda ctx: seen.append(ctx) or list(provs))  # type: ignore[func-returns-value]
    calls = [S("call", call)] if call else []
    mapper = mapper_with(st, S)
    for direction in (0, 1):
        got = probe(mapper, hint, direction, settings=calls)
        own = DECO.get(cls, [])
        if cls and list(dc.get_class_settings(cls, S)) != own:
            return rec.fail(f"class settings of {cls} are {list(dc.get_class_settings(cls, S))}")
        want = winner([ann, own, calls, [locals_[cls]] if cls in locals_ else [], provs, globs], S)
        if not compare(rec, (hint, case), [want], got, (case, direction)):
            return
        if not seen or any(c.datatype != TypeHint(hint) or c.value != 0 for c in seen):
            return rec.fail(f"a provider was given another context: {seen}")


def hint_cases() -> t.Iterator[t.Any]:
    o = (None, P.LOW, P.NORMAL, P.HIGH)
    for h in range(len(hint_table())):
        for c in itertools.product(o, repeat=4):
            for w in (None, P.LOW, P.HIGH):
                yield (h, *c, w)


# -- conditional settings, argument forms ------------------------------------------------------------------------------


class Fixed(dc.SettingsProvider):
    def __init__(self, *settings: t.Any) -> None:
        self.settings = settings

    def get_setting(self, context: t.Any, setting_type: t.Any) -> t.Any:
        return next((s for s in self.settings if isinstance(s, setting_type)), None)


FORMS = ("none", "empty list", "list", "settings", "settings with parent", "provider", "deep parents", "provider as parent")


def run_forms(case: t.Any, rec: Recorder) -> None:
    form, p1, p2, p3 = case
    base = dc.Settings()
    a, b, c = S("mapper", p1), S("arg", p2), S("arg local", p3)
    base.add_global(a)
    cls = type("K", (), {})
    mapper = mapper_with(base, S)
    arg: t.Any
    if form == "none":
        arg, order = None, [a]
    elif form == "empty list":
        arg, order = [], [a]
    elif form == "list":
        arg, order = [b, c], [b, c, a]
    elif form == "settings":
        arg, order = dc.Settings(global_settings=[b]), [c, b]
        arg.add_local(cls, c)
    elif form == "settings with parent":
        arg, order = dc.Settings(base, [b]), [c, b, a]
        arg.add_local(cls, c)
    elif form == "provider":
        arg, order = Fixed(U("u"), b), [b]
    elif form == "deep parents":
        mid = dc.Settings(base)
        mid.add_conditional(lambda ctx: True, c)
        arg, order = dc.Settings(mid, [b]), [b, c, a]
    else:
        arg, order = dc.Settings(Fixed(U("u"), b), [c]), [c, b]
    for direction in (0, 1):
        for _ in range(2):
            kw = {} if arg is None and direction else {"settings": arg}
            if not compare(rec, case, [winner([order], S)], probe(mapper, cls, direction, **kw), (case, direction)):
                return


class Node:
    pass


def run_conditional(case: t.Any, rec: Recorder) -> None:
    """Conditions on the type, key, value, depth and direction of a nested conversion."""
    preds: t.List[t.Callable[[dc.Context], bool]] = [
        lambda ctx: ctx.datatype == TypeHint(int),
        lambda ctx: ctx.key == "b",
        lambda ctx: ctx.parent is None,
        lambda ctx: ctx.direction.is_serialize(),
        lambda ctx: ctx.value == 2,
        lambda ctx: len(list(ctx.iter_hierarchy_up())) > 2,
        lambda ctx: ctx.location.filename == "f",
    ]
    i, j, prio, filename = case
    st = dc.Settings()
    s1, s2 = S("first"), S("second", prio)
    st.add_conditional(preds[i], s1)
    st.add_conditional(preds[j], s2)

    class Walk(dc.Converter):
        def convert(self, ctx: dc.Context) -> t.Any:
            mine = ctx.get_setting(S)
            if isinstance(ctx.value, dict):
                return mine, {k: ctx.spawn(v, int if isinstance(v, int) else Node, k).convert() for k, v in ctx.value.items()}
            return mine

    mapper: t.Any = dc.ObjectMapper(st)
    mapper.module.register(Walk())
    value = {"a": 1, "b": {"b": 2, "c": 3}}

    def want(value: t.Any, typ: t.Any, key: t.Any, depth: int, ser: bool) -> t.Any:
        truth = [typ is int, key == "b", depth == 1, ser, value == 2, depth > 2, filename == "f"]
        mine = winner([[s1] if truth[i] else [], [s2] if truth[j] else []], S)
        if isinstance(value, dict):
            return mine, {k: want(v, int if isinstance(v, int) else Node, k, depth + 1, ser) for k, v in value.items()}
        return mine

    for ser in (True, False):
        got = (mapper.serialize if ser else mapper.deserialize)(value, Node, filename)
        exp = want(value, Node, None, 1, ser)
        rec.trans()
        rec.state((case, ser))
        if repr(got) != repr(exp):
            return rec.fail(f"conditions {i}, {j}: {got} instead of {exp}")
        rec.ok()


# -- histories of a Settings object ------------------------------------------------------------------------------------

OPS = [(src, p) for src in ("global", "local", "local other", "provider", "cond", "cond false") for p in (P.NORMAL, P.HIGH)]


def run_history(case: t.Any, rec: Recorder) -> None:
    prefix, n = case
    for rest in itertools.product(range(len(OPS)), repeat=n - len(prefix)):
        ops = [OPS[i] for i in prefix + rest]
        cls = type("K", (), {})
        st = dc.Settings()
        child = dc.Settings(st)
        mapper = mapper_with(st, S)
        lists: t.Dict[str, t.List[t.Any]] = {"local": [], "provider": [], "global": []}
        for step, (src, p) in enumerate(ops):
            s = S(step, p)
            if src == "global":
                st.add_global(s)
            elif src == "local":
                st.add_local(cls, s)
            elif src == "local other":
                st.add_local(Other, s)
            elif src == "provider":
                st.add_provider(lambda ctx, s=s: [U("u", P.ULTIMATE), s])
            else:
                st.add_conditional(lambda ctx, src=src: src == "cond", s)
            name = "provider" if src == "cond" else src
            if name in lists:
                lists[name].append(s)
            if step == len(ops) - 1 or step == 0:
                want = [winner(lists.values(), S)]
                key = (case, rest, step)
                if not compare(rec, ops, want, probe(mapper, cls, 0), key):
                    return
                if not compare(rec, ops, want, probe(mapper, cls, 1, settings=child), key):
                    return


def history_cases() -> t.Iterator[t.Any]:
    n = 5 if thorough() else 4
    for k in range(1, n + 1):
        for prefix in itertools.product(range(len(OPS)), repeat=min(k, 2)):
            yield prefix, k


# -- end to end --------------------------------------------------------------------------------------------------------

E2E = ("annotation", "class", "call", "local", "provider", "global")


def run_end(case: t.Any, rec: Recorder) -> None:
    """The ExtraKeys recorder that is called names the setting in effect, at the root and in a field."""
    prefix, nested = case
    o: t.List[t.Any] = [None] + PRIOS
    for rest in itertools.product(range(len(o)), repeat=len(E2E) - len(prefix)):
        pick = prefix + rest
        log: t.List[str] = []

        def mk(name: str, prio: dc.Priority) -> t.Any:
            return dc.ExtraKeys(True, lambda ctx, keys: log.append(name), prio)

        typ = m.RecT("R", [m.F("x", m.INT)])
        by = {s: mk(s, o[i]) for s, i in zip(E2E, pick) if i}
        if "class" in by:
            by["class"](typ.cls)
        hint: t.Any = t.Annotated[typ.cls, by["annotation"]] if "annotation" in by else typ.cls
        st = dc.Settings()
        if "local" in by:
            st.add_local(typ.cls, by["local"])
        if "provider" in by:
            st.add_conditional(lambda ctx: True, by["provider"])
        if "global" in by:
            st.add_global(by["global"])
        payload: t.Any = {"x": 1, "zz": 0}
        if nested == "field":
            hint, payload = m._new_class("O", (), {"__annotations__": {"f": hint}}), {"f": payload}
            import dataclasses

            hint = dataclasses.dataclass(hint)
        elif nested == "list":
            hint, payload = t.List[hint], [payload]
        kw = {"settings": [by["call"]]} if "call" in by else {}
        best = None
        for s in E2E:
            if s in by and (best is None or by[s].priority > by[best].priority):
                best = s
        got = m.attempt(get_object_mapper(st).deserialize, payload, hint, **kw)
        rec.trans()
        rec.state((case, rest))
        if (got.kind == "ok") != (best is not None) or log != ([best] if best else []):
            return rec.fail(f"extra keys with {by}: {got!r}, informed {log}; the setting in effect is {best!r}")
        rec.ok()


def end_cases() -> t.Iterator[t.Any]:
    n = 5
    for nested in ("root", "field", "list"):
        for prefix in itertools.product(range(n), repeat=3):
            yield prefix, nested


# -- helper functions --------------------------------------------------------------------------------------------------


def run_helpers(case: t.Any, rec: Recorder) -> None:
    kinds = case
    items = [(S, S2, U)[k // 4](n, PRIOS[k % 4]) for n, k in enumerate(kinds)]
    cls = type("K", (), {})
    for s in items:
        s(cls)
    hint = TypeHint(t.Annotated[(cls, *items)] if items else cls)  # type: ignore[misc]
    for q in (S, S2, U):
        fits = [s for s in items if isinstance(s, q)]
        want = winner([fits], q)
        if not compare(rec, items, [want], [dc.get_highest_setting(fits)], (case, q.__name__, 0)):
            return
        if not compare(rec, items, fits, list(dc.get_class_settings(cls, q)), (case, q.__name__, 1)):
            return
        if not compare(rec, items, [want], [dc.get_class_setting(cls, q)], (case, q.__name__, 2)):
            return
        if not compare(rec, items, [want], [dc.get_annotation_setting(hint, q)], (case, q.__name__, 3)):
            return
        if not compare(rec, items, [None], [dc.get_annotation_setting(TypeHint(cls), q)], (case, q.__name__, 4)):
            return


def spaces() -> t.List[Space]:
    return [
        Space("assign", assign_cases, run_assign,
              f"each of {len(SOURCES)} sources is empty or supplies a setting of one of {4 if thorough() else 2} priorities"),
        Space("multi", multi_cases, run_multi, f"up to {5 if thorough() else 4} settings in any sources with any priorities"),
        Space("types", types_cases, run_types, "settings of other types and subtypes in up to five sources"),
        Space("hints", hint_cases, run_hint, f"{len(hint_table())} kinds of type hints x priorities of five sources", chunk=16),
        Space("forms", lambda: ((f, *p) for f in FORMS for p in itertools.product(PRIOS, repeat=3)), run_forms,
              f"{len(FORMS)} forms of the settings argument x priorities"),
        Space("conditional", lambda: itertools.product(range(7), range(7), PRIOS, (None, "f")), run_conditional,
              "pairs of conditions at every level of a nested conversion"),
        Space("histories", history_cases, run_history, f"all sequences of up to {5 if thorough() else 4} of {len(OPS)} additions"),
        Space("end to end", end_cases, run_end, "ExtraKeys in six sources, at the root, in a field and in a list"),
        Space("helpers", lambda: (k for n in range(0, 5 if thorough() else 4) for k in itertools.product(range(12), repeat=n)),
              run_helpers, "lookup functions on all lists of settings"),
    ]  # fmt: skip
