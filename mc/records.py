"""Builders for record classes of every kind that has a schema."""

import dataclasses
import typing as t

import databind.core.dataclasses as dbdc

from mc import model as m

#: Ways to define a record with the same fields.
KINDS = ("dataclass", "frozen", "slots", "kw_only", "databind", "inherited", "redeclared", "generic",
         "string_annotations", "typeddict", "td_partial")  # fmt: skip


def build(kind: str, name: str, fields: t.Sequence[m.F], **kw: t.Any) -> m.RecT:
    if kind == "typeddict":
        return m.RecT(name, fields, kind="typeddict", **kw)
    if kind == "td_partial":
        return m.RecT(name, fields, kind="typeddict", total=False, **kw)
    if kind in ("dataclass", "frozen", "slots"):
        # The standard library requires the fields with defaults to be last.
        fields = sorted(fields, key=lambda f: f.has_default)
    if kind == "dataclass":
        return m.RecT(name, fields, **kw)
    spec = [(f.name, f.hint(), f.stdlib()) for f in fields]
    if kind in ("frozen", "slots", "kw_only"):
        cls = dataclasses.make_dataclass(name, spec, module=m.MODULE, **{kind: True})  # type: ignore[arg-type]
    elif kind == "databind":
        cls = dbdc.dataclass(namespace_class(name, fields, dbdc.field))
    elif kind == "inherited":
        base = dataclasses.make_dataclass(name + "Base", spec[:1], module=m.MODULE, kw_only=True)
        cls = dataclasses.make_dataclass(name, spec[1:], bases=(base,), module=m.MODULE, kw_only=True)
        fields = list(fields[1:]) + list(fields[:1])
    elif kind == "redeclared":
        # The base declares every field with another type, without settings and required.
        base = dataclasses.make_dataclass(
            name + "Base", [(f.name, t.Dict[str, str]) for f in fields], module=m.MODULE, kw_only=True
        )
        cls = dataclasses.make_dataclass(name, spec, bases=(base,), module=m.MODULE, kw_only=True)
    elif kind == "generic":
        X = t.TypeVar("X")  # type: ignore[misc]
        ns = {"__annotations__": {f.name: f.hint() for f in fields}, "__module__": m.MODULE}
        ns.update({f.name: f.stdlib() for f in fields})
        cls = dataclasses.dataclass(kw_only=True)(m._new_class(name, (t.Generic[X],), ns))  # type: ignore[index]
        kw["hint"] = cls[int]
    elif kind == "string_annotations":
        cls = string_class(name, fields)
    else:
        raise AssertionError(kind)
    if kw.pop("decorate", None):
        raise AssertionError("decorate")
    return m.RecT(name, fields, cls=cls, **kw)


def namespace_class(name: str, fields: t.Sequence[m.F], field: t.Any) -> t.Any:
    ns: t.Dict[str, t.Any] = {"__annotations__": {}, "__module__": m.MODULE}
    for f in fields:
        ns["__annotations__"][f.name] = f.hint()
        kw: t.Dict[str, t.Any] = {}
        if f.factory is not None:
            kw["default_factory"] = f.factory
        elif f.default is not m.NODEF:
            kw["default"] = f.default
        ns[f.name] = field(init=f.init, **kw)
    return m._new_class(name, (), ns)


def string_class(name: str, fields: t.Sequence[m.F]) -> t.Any:
    """A class whose annotations are strings, evaluated in the module's namespace."""
    import sys

    mod = vars(sys.modules[m.MODULE])
    ns: t.Dict[str, t.Any] = {"__annotations__": {}, "__module__": m.MODULE}
    for i, f in enumerate(fields):
        ref = f"_ann_{name}_{f.name}_{i}"
        mod[ref] = f.hint()
        ns["__annotations__"][f.name] = ref
        ns[f.name] = f.stdlib()
    return dataclasses.dataclass(kw_only=True)(m._new_class(name, (), ns))
