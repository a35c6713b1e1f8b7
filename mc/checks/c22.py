"""C22: dates, times, decimals and enum members are represented as their settings say."""

import calendar
import collections
import datetime as dt
import decimal
import itertools
import re
import types
import typing as t

import databind.core as dc
from databind.json import dump, get_object_mapper, load
from nr.date import date_format, datetime_format, time_format
from nr.date.format_sets import format_set

from mc import model as m
from mc.engine import Recorder, Space, thorough

ASSUMPTIONS = [
    "UTC offsets are whole minutes; fractions of seconds have up to six digits; texts do not end in a line break and "
    "have ASCII digits only",
    "texts that the Decimal constructor accepts beyond plain notation (blanks, underscores), signalling NaNs and "
    "payloads of NaNs under a Precision demand nothing",
    "a text that is an alias of several members of an enum demands nothing; one that is an alias of a member and the "
    "name of another is judged where the former is dumped as that text",
]


# -- a model of formats ------------------------------------------------------------------------------------------------

PARTS = {
    "Y": r"(?P<Y>[0-9]{4})", "m": r"(?P<m>[0-9]{2})", "d": r"(?P<d>[0-9]{2})", "H": r"(?P<H>[0-9]{2})",
    "M": r"(?P<M>[0-9]{2})", "S": r"(?P<S>[0-9]{2})", "f": r"(?P<f>[0-9]+)",
    "z": r"(?P<z>Z|[-+][0-9]{2}(?::?[0-9]{2})?)",
}  # fmt: skip
DATE_PARTS, TIME_PARTS = set("Ymd"), set("HMSfz")


class Fmt(t.NamedTuple):
    regex: t.Any
    template: str


def parts(template: str) -> t.List[str]:
    return re.findall(r"%(.)", template)


def fmt(template: str, regex: t.Optional[str] = None) -> Fmt:
    if regex is None:
        regex = "".join(PARTS[x[1]] if x[0] == "%" else re.escape(x) for x in re.findall(r"%.|[^%]+", template))
    else:
        regex = re.sub(r"%(.)", lambda k: PARTS[k[1]], regex)
    return Fmt(re.compile(regex), template)


def fixed_offset(s: str) -> dt.tzinfo:
    if s == "Z":
        return dt.timezone.utc
    s = s.replace(":", "")
    minutes = int(s[1:3]) * 60 + int(s[3:5] or 0)
    return dt.timezone(dt.timedelta(minutes=-minutes if s[0] == "-" else minutes))


def read(f: Fmt, typ: t.Any, text: str) -> t.Any:
    """The value of the text, or None."""
    match = f.regex.fullmatch(text)
    if match is None:
        return None
    got = {k: v for k, v in match.groupdict().items() if v is not None}
    if len(got.get("f", "")) > 6:
        raise m.Unspec
    try:
        value = dt.datetime(
            int(got.get("Y", 1900)), int(got.get("m", 1)), int(got.get("d", 1)), int(got.get("H", 0)), int(got.get("M", 0)),
            int(got.get("S", 0)), int(got.get("f", "0").ljust(6, "0")), fixed_offset(got["z"]) if "z" in got else None,
        )  # fmt: skip
    except ValueError:
        return None
    return value if typ is dt.datetime else value.date() if typ is dt.date else value.timetz()


def offset_text(v: t.Any) -> str:
    if v.tzinfo is None:
        return ""
    minutes = round(v.utcoffset().total_seconds() / 60)
    if minutes == 0:
        return "Z"
    return f"{'-' if minutes < 0 else '+'}{abs(minutes) // 60:02}:{abs(minutes) % 60:02}"


def write(f: Fmt, v: t.Any) -> str:
    def part(k: t.Any) -> str:
        c = k[1]
        if c == "z":
            return offset_text(v)
        if c == "f":
            return f"{v.microsecond:06}".rstrip("0") or "0"
        n = getattr(v, {"Y": "year", "m": "month", "d": "day", "H": "hour", "M": "minute", "S": "second"}[c])
        return f"{n:0{4 if c == 'Y' else 2}}"

    return re.sub("%(.)", part, f.template)


ISO_DATES = ["%Y(?:-%m(?:-%d)?)?", "%Y(?:%m%d?)?"]
ISO_TIMES = [r"%H(?::%M(?::%S(?:\.%f)?)?)?%z?", "%H(?:%M%S?)?%z?"]
ISO = {
    dt.date: [fmt("%Y-%m-%d", ISO_DATES[0]), fmt("%Y%m%d", ISO_DATES[1])],
    dt.time: [fmt("%H:%M:%S.%f%z", ISO_TIMES[0]), fmt("%H%M%S%z", ISO_TIMES[1])],
    dt.datetime: [fmt("%Y-%m-%dT%H:%M:%S.%f%z", f"{ISO_DATES[0]}T{ISO_TIMES[0]}"),
                  fmt("%Y%m%dT%H%M%S%z", f"{ISO_DATES[1]}T{ISO_TIMES[1]}")],
}  # fmt: skip
JAVA = {dt.date: [], dt.time: [], dt.datetime: [fmt("%Y-%m-%dT%H:%M:%S.%f%z", r"%Y-%m-%dT%H:%M(?::%S(?:\.%f)?)?%z?")]}
TYPES = (dt.date, dt.time, dt.datetime)


def of_string(template: str) -> t.Dict[t.Any, t.List[Fmt]]:
    used = set(parts(template))
    out: t.Dict[t.Any, t.List[Fmt]] = {x: [] for x in TYPES}
    if used <= DATE_PARTS | TIME_PARTS:
        out[dt.datetime].append(fmt(template))
        if used <= DATE_PARTS:
            out[dt.date].append(fmt(template))
        if used <= TIME_PARTS:
            out[dt.time].append(fmt(template))
    return out


def only(typ: t.Any, template: str) -> t.Dict[t.Any, t.List[Fmt]]:
    return {x: [fmt(template)] if x is typ else [] for x in TYPES}


MINE = format_set(
    "mine",
    date_formats=[date_format.compile("%d|%m|%Y"), date_format.compile("%m-%d-%Y")],
    datetime_formats=[datetime_format.compile("%Y/%m/%d@%H:%M")],
)
#: What can be given to DateFormat: (the object, its formats by type)
MENU: t.Dict[str, t.Tuple[t.Any, t.Dict[t.Any, t.List[Fmt]]]] = {
    **{x: (x, of_string(x)) for x in (
        "%Y-%m-%d", "%d.%m.%Y", "%Y-%d-%m", "%m/%Y", "%H:%M:%S", "%H:%M:%S.%f%z", "%Hh%M", "%Y-%m-%d %H:%M",
        "(%d)+%m*%Y %H:%M:%S.%f %z", "%q", "%Y%q",
    )},
    ".ISO_8601": (".ISO_8601", ISO),
    ".JAVA_OFFSET_DATETIME": (".JAVA_OFFSET_DATETIME", JAVA),
    "date": (date_format.compile("%Y%m%d"), only(dt.date, "%Y%m%d")),
    "time": (time_format.compile("%H%M"), only(dt.time, "%H%M")),
    "datetime": (datetime_format.compile("%Y%m%dT%H%M%S"), only(dt.datetime, "%Y%m%dT%H%M%S")),
    "set": (MINE, {dt.date: [fmt("%d|%m|%Y"), fmt("%m-%d-%Y")], dt.time: [], dt.datetime: [fmt("%Y/%m/%d@%H:%M")]}),
    "empty set": (format_set("empty"), {x: [] for x in TYPES}),
}  # fmt: skip


def utc(hours: float) -> dt.timezone:
    return dt.timezone(dt.timedelta(hours=hours))


VALUES: t.Dict[t.Any, t.List[t.Any]] = {
    dt.date: [dt.date(2003, 4, 5), dt.date(1, 1, 1), dt.date(9999, 12, 31), dt.date(2024, 2, 29)],
    dt.time: [dt.time(1, 2, 3), dt.time(23, 59, 59, 999999), dt.time(), dt.time(7, 8, 0, 10, utc(0)), dt.time(7, 8, 9, tzinfo=utc(-9.5))],
    dt.datetime: [dt.datetime(2003, 4, 5, 6, 7, 8), dt.datetime(1, 1, 1), dt.datetime(9999, 12, 31, 23, 59, 59, 999999, utc(0)),
                  dt.datetime(2024, 2, 29, 12, 0, 0, 120000, utc(5.75)), dt.datetime(1900, 1, 1, 0, 30)],
}  # fmt: skip

ALL_TEXTS: t.Dict[t.Any, t.List[str]] = {}
for _typ in TYPES:
    _texts: t.Dict[str, None] = {}
    for _obj, _table in MENU.values():
        for _f in (f for fs in _table.values() for f in fs):
            _source = [v for x in TYPES for v in VALUES[x][:3] if all(
                hasattr(v, {"Y": "year", "m": "month", "d": "day", "H": "hour", "M": "minute", "S": "second", "f": "microsecond",
                            "z": "tzinfo"}[c]) for c in parts(_f.template))]  # fmt: skip
            for _v in _source[:3]:
                _s = write(_f, _v)
                _texts[_s] = None
    for _s in list(_texts)[::3]:
        for _x in (_s[:-1], _s + "0", " " + _s, _s.replace(":", "-", 1), _s.replace("-", "", 1), _s.replace("0", "9")):
            _texts[_x] = None
    for _x in ("", "T", "Z", "2003", "2003-04", "200304", "20030405", "13.13.2003", "24:00:00", "00:60:00", "0000-01-01", "01h02",
               "20030405T06", "2003T06", "2003-04T06:07Z", "20030405T060708+0130", "2003-04-05T06:07:08.9-01", "06", "0607", "06Z"):
        _texts[_x] = None  # fmt: skip
    ALL_TEXTS[_typ] = list(_texts)


def load_model(formats: t.Sequence[Fmt], typ: t.Any, text: str) -> t.Any:
    for f in formats:
        v = read(f, typ, text)
        if v is not None:
            return v
    raise m.Rej


def dump_model(formats: t.Sequence[Fmt], v: t.Any) -> str:
    if not formats:
        raise m.Rej
    return write(formats[0], v)


def compare(rec: Recorder, what: str, exp: m.Expected, got: m.Outcome) -> bool:
    rec.trans()
    rec.outcome(f"{what.split('(')[0]} model:{exp.kind} code:{got.kind}")
    bad = m.judge(exp, got)
    if bad:
        rec.fail(f"{what} {bad}")
        return False
    rec.ok(exp.kind != "unspec")
    return True


def direct(fn: t.Callable[..., t.Any], *args: t.Any) -> m.Outcome:
    try:
        return m.Outcome("ok", fn(*args), None)
    except ValueError as exc:
        return m.Outcome("reject", None, exc)
    except Exception as exc:
        return m.Outcome("crash", None, exc)


def run_formats(case: t.Any, rec: Recorder) -> None:
    """A DateFormat with these formats."""
    names = case
    setting = dc.DateFormat(*[MENU[n][0] for n in names])
    for typ in TYPES:
        formats = [f for n in names for f in MENU[n][1][typ]]
        hint = t.Annotated[typ, setting]
        for text in ALL_TEXTS[typ]:
            exp = m.expect(load_model, formats, typ, text)
            if not compare(rec, f"load({text!r}, {typ.__name__} as {names})", exp, m.attempt(load, text, hint)):
                return
            if len(names) < 2 and not compare(rec, f"DateFormat({names}).parse({typ.__name__}, {text!r})", exp, direct(setting.parse, typ, text)):
                return
        for v in VALUES[typ]:
            exp = m.expect(dump_model, formats, v)
            if not compare(rec, f"dump({v!r}, {typ.__name__} as {names})", exp, m.attempt(dump, v, hint)):
                return
            if not compare(rec, f"DateFormat({names}).format({v!r})", exp, direct(setting.format, v)):
                return
        for other in (5, None, 1.5, [], {}, b"2003"):
            if not compare(rec, f"load({other!r}, {typ.__name__})", m.Expected("reject", None, ()), m.attempt(load, other, hint)):
                return
    rec.state(("formats", names))


PLACES = ("hint", "global", "call", "local", "parent", "hint over global", "global over hint", "none over local", "list", "map", "field",
          "field of list", "optional", "hint of optional", "outer hint", "two fields")  # fmt: skip


def run_places(case: t.Any, rec: Recorder) -> None:
    """Where the setting is attached decides to what it applies."""
    place, typ, first, second = case
    one, other = dc.DateFormat(MENU[first][0]), dc.DateFormat(MENU[second][0])
    f1, f2, iso = MENU[first][1][typ], MENU[second][1][typ], ISO[typ]
    A = t.Annotated
    settings = dc.Settings()
    call: t.Any = {}
    hint: t.Any = typ
    wrap: t.Callable[[t.Any], t.Any] = lambda x: x
    eff = f1
    if place == "hint":
        hint = A[typ, one]
    elif place == "global":
        settings.add_global(one)
    elif place == "call":
        call = {"settings": [one]}
    elif place == "local":
        settings.add_local(typ, one)
        others = [x for x in TYPES if x is not typ]
        for x in others:  # other types are not affected
            for v in VALUES[x][:2]:
                if not compare(rec, f"dump({v!r}) with a setting of {typ.__name__}", m.expect(dump_model, ISO[x], v),
                               m.attempt(get_object_mapper(settings).serialize, v, x)):  # fmt: skip
                    return
    elif place == "parent":
        settings.add_global(one)
        settings = dc.Settings(settings)
    elif place == "hint over global":
        settings.add_global(other)
        hint = A[typ, one]
    elif place == "global over hint":
        strong = dc.DateFormat(MENU[first][0])
        try:
            strong.priority = dc.Priority.HIGH  # type: ignore[misc]
        except Exception:
            return rec.count("not applicable")
        settings.add_global(strong)
        hint = A[typ, other]
    elif place == "none over local":
        settings.add_local(typ, one)
        hint = A[typ, "text", 5]
    elif place == "list":
        hint, wrap = t.List[A[typ, one]], lambda x: [x, x]
    elif place == "map":
        hint, wrap = t.Dict[str, A[typ, one]], lambda x: {"k": x}
    elif place in ("field", "two fields", "field of list"):
        ftype = t.List[A[typ, one]] if place == "field of list" else A[typ, one]
        fields = [m.F("a", m.INT)] if place == "field" else []
        cls: t.Any = te_record("Rec", {"a": ftype, **({"b": A[typ, other], "c": typ} if place == "two fields" else {})})
        pairs = [(x, y) for x in VALUES[typ][:2] for y in VALUES[typ][1:3]]
        for x, y in pairs:
            v = {"a": [x] if place == "field of list" else x}
            fmts: t.Dict[str, t.Any] = {"a": f1}
            if place == "two fields":
                v.update(b=y, c=x)
                fmts.update(b=f2, c=iso)

            def model(v: t.Any = v, fmts: t.Any = fmts) -> t.Any:
                out = {k: dump_model(fmts[k], z[0] if isinstance(z, list) else z) for k, z in v.items()}
                return {k: [z] if isinstance(v[k], list) else z for k, z in out.items()}

            exp = m.expect(model)
            if not compare(rec, f"dump({v!r}, {place} {first} {second})", exp, m.attempt(dump, v, cls)):
                return
            if exp.kind == "ok":

                def back(p: t.Any = exp.value, fmts: t.Any = fmts) -> t.Any:
                    return {k: [load_model(fmts[k], typ, z[0])] if isinstance(z, list) else load_model(fmts[k], typ, z) for k, z in p.items()}

                if not compare(rec, f"load({exp.value!r}, {place} {first} {second})", m.expect(back), m.attempt(load, exp.value, cls)):
                    return
        return rec.state(case)
    elif place == "optional":
        hint = t.Optional[A[typ, one]]
    elif place == "hint of optional":
        hint = A[t.Optional[typ], one]
    else:
        assert place == "outer hint"  # of a list, not of its items
        hint, wrap, eff = A[t.List[typ], one], lambda x: [x], iso
    mapper = get_object_mapper(settings)
    for v in VALUES[typ]:
        exp = m.expect(lambda: wrap(dump_model(eff, v)))
        if not compare(rec, f"dump({wrap(v)!r}, {place} {first} {second})", exp, m.attempt(mapper.serialize, wrap(v), hint, **call)):
            return
    for text in ALL_TEXTS[typ]:
        exp = m.expect(lambda: wrap(load_model(eff, typ, text)))
        if not compare(rec, f"load({wrap(text)!r}, {place} {first} {second})", exp, m.attempt(mapper.deserialize, wrap(text), hint, **call)):
            return
    rec.state(case)


def te_record(name: str, fields: t.Dict[str, t.Any]) -> t.Any:
    import typing_extensions

    return typing_extensions.TypedDict(name, fields)  # type: ignore[operator]


# -- all values in the default format ----------------------------------------------------------------------------------


def both(rec: Recorder, typ: t.Any, v: t.Any, more: t.Sequence[str] = ()) -> bool:
    text = dump_model(ISO[typ], v)
    if not compare(rec, f"dump({v!r}, {typ.__name__})", m.Expected("ok", text, ()), m.attempt(dump, v, typ)):
        return False
    for s in (text, *more):
        if not compare(rec, f"load({s!r}, {typ.__name__})", m.Expected("ok", v, ()), m.attempt(load, s, typ)):
            return False
    return True


def run_days(case: t.Any, rec: Recorder) -> None:
    year = case
    for month in range(0, 14):
        for day in range(0, 33):
            text = f"{year:04}-{month:02}-{day:02}"
            try:
                v = dt.date(year, month, day)
            except ValueError:
                assert not (1 <= month <= 12 and 1 <= day <= calendar.monthrange(year, month)[1]) or year == 0
                for x, typ in ((text, dt.date), (text.replace("-", ""), dt.date), (text + "T01:02", dt.datetime)):
                    if not compare(rec, f"load({x!r}, {typ.__name__})", m.Expected("reject", None, ()), m.attempt(load, x, typ)):
                        return
                continue
            more = [text.replace("-", "")]
            if day == 1:
                more += [text[:-3], text[:-3].replace("-", "")]
                if month == 1:
                    more += [text[:4]]
            if not both(rec, dt.date, v, more):
                return
            if not both(rec, dt.datetime, dt.datetime(year, month, day, 1, 2), [x + y for x in more[1:] + [text] for y in ("T01:02", "T01:02:00") if "-" in x]):
                return
    rec.state(("days", year))


def run_seconds(case: t.Any, rec: Recorder) -> None:
    hour = case
    for minute in range(0, 61):
        for second in range(0, 61):
            text = f"{hour:02}:{minute:02}:{second:02}"
            if hour > 23 or minute > 59 or second > 59:
                for x, typ in ((text, dt.time), (text.replace(":", ""), dt.time), ("2000-01-01T" + text, dt.datetime)):
                    if not compare(rec, f"load({x!r}, {typ.__name__})", m.Expected("reject", None, ()), m.attempt(load, x, typ)):
                        return
                continue
            v = dt.time(hour, minute, second)
            more = [text, text.replace(":", "")]
            if second == 0:
                more += [text[:5], text[:5].replace(":", "")]
                if minute == 0:
                    more += [text[:2]]
            if not both(rec, dt.time, v, more):
                return
            if not both(rec, dt.datetime, dt.datetime.combine(dt.date(2024, 2, 29), v), ["2024-02-29T" + text, "20240229T" + text.replace(":", "")]):
                return
    rec.state(("seconds", hour))


def run_fraction(case: t.Any, rec: Recorder) -> None:
    """All fractions with some leading digits."""
    for n in range(1, 5 if thorough() else 4):
        for rest in itertools.product("0123456789" if thorough() else "0189", repeat=n):
            digits = case + "".join(rest)
            micro = int(digits.ljust(6, "0"))
            more = [f"01:02:03.{digits}"]
            if not both(rec, dt.time, dt.time(1, 2, 3, micro), more):
                return
            if not both(rec, dt.datetime, dt.datetime(2024, 2, 29, 1, 2, 3, micro, utc(1)), [f"2024-02-29T{more[0]}+01:00", f"2024-02-29T{more[0]}+01"]):
                return
    rec.state(("fraction", case))


def run_offsets(case: t.Any, rec: Recorder) -> None:
    hour = case
    for minute in range(60):
        for sign in "+-":
            total = (hour * 60 + minute) * (-1 if sign == "-" else 1)
            tz = dt.timezone(dt.timedelta(minutes=total))
            forms = [f"{sign}{hour:02}:{minute:02}", f"{sign}{hour:02}{minute:02}"] + ([f"{sign}{hour:02}"] if not minute else []) + (["Z"] if not total else [])
            if not both(rec, dt.time, dt.time(1, 2, 3, 4, tz), [f"01:02:03.000004{x}" for x in forms]):
                return
            if not both(rec, dt.datetime, dt.datetime(2024, 2, 29, 1, 2, tzinfo=tz), [f"2024-02-29T01:02{x}" for x in forms]):
                return
    for bad in (f"{hour:02}", f"+{hour}:0", f"+{hour + 24}:00", f" +{hour:02}:00", f"+{hour:02}:", f"z{hour:02}", f"+{hour:02}:0", "z", "UTC"):
        for x, typ in ((f"01:02:03.5{bad}", dt.time), (f"2024-02-29T01:02{bad}", dt.datetime)):
            exp = m.expect(load_model, ISO[typ], typ, x)
            if not compare(rec, f"load({x!r}, {typ.__name__})", exp, m.attempt(load, x, typ)):
                return
    rec.state(("offsets", hour))


# -- decimals ----------------------------------------------------------------------------------------------------------


ROUNDINGS = [None, decimal.ROUND_UP, decimal.ROUND_DOWN, decimal.ROUND_CEILING, decimal.ROUND_FLOOR, decimal.ROUND_HALF_UP,
             decimal.ROUND_HALF_DOWN, decimal.ROUND_HALF_EVEN, decimal.ROUND_05UP]  # fmt: skip


def texts_of_decimals() -> t.List[str]:
    out = []
    digits = ["0", "5", "12", "125", "135", "9995", "00100", "1234567890" * 4]
    for sign in ("", "-", "+"):
        for whole in digits:
            for frac in ("", ".", ".0", ".5", ".45", ".55", ".250", "." + "123456789" * 4):
                for exp in ("", "E5", "e-5", "E+30"):
                    out.append(sign + whole + frac + exp)
        out += [sign + x for x in ("NaN", "Infinity", "inf", ".5", "E5", ".", "", "nan12", "0E-20", "0x1", "1,5", "1.2.3", "--1", "1e", "1e5.5")]
    return out


DECIMALS = texts_of_decimals()


def rounded(d: decimal.Decimal, prec: t.Optional[int], rounding: t.Optional[str]) -> decimal.Decimal:
    """*d* with at most *prec* digits, by integer arithmetic."""
    base = decimal.DefaultContext
    prec = base.prec if prec is None else prec
    rounding = base.rounding if rounding is None else rounding
    if not d.is_finite():
        if d.is_nan() and len(d.as_tuple().digits):
            raise m.Unspec
        return d
    sign, digits, exp = d.as_tuple()
    cut = len(digits) - prec
    if cut <= 0:
        return d
    n = int("".join(map(str, digits)))
    q, r = divmod(n, 10**cut)
    half = 5 * 10 ** (cut - 1)
    up = {
        decimal.ROUND_UP: r > 0, decimal.ROUND_DOWN: False, decimal.ROUND_CEILING: r > 0 and not sign, decimal.ROUND_FLOOR: r > 0 and bool(sign),
        decimal.ROUND_HALF_UP: r >= half, decimal.ROUND_HALF_DOWN: r > half, decimal.ROUND_HALF_EVEN: r > half or r == half and q % 2 == 1,
        decimal.ROUND_05UP: r > 0 and q % 10 in (0, 5),
    }[rounding]  # fmt: skip
    q += up
    e = t.cast(int, exp) + cut
    if len(str(q)) > prec:
        q, e = q // 10, e + 1
    return decimal.Decimal((sign, tuple(map(int, str(q))), e))


def run_decimals(case: t.Any, rec: Recorder) -> None:
    how, prec, rounding = case
    A, D = t.Annotated, decimal.Decimal
    given: t.Dict[str, t.Any] = {}
    if prec is not None:
        given["prec"] = prec
    if rounding is not None:
        given["rounding"] = rounding
    setting = dc.Precision(**given)
    settings = dc.Settings()
    hint: t.Any = D
    strict = True
    active = True
    if how == "hint":
        hint = A[D, setting]
    elif how == "global":
        settings.add_global(setting)
    elif how == "local":
        settings.add_local(D, setting)
    elif how == "lenient":
        hint, strict = A[D, setting, dc.Strict(False)], False
    elif how == "over":
        settings.add_global(dc.Precision(prec=1, rounding=decimal.ROUND_UP))
        hint = A[D, setting]
    else:
        assert how == "none"
        active = False
    mapper = get_object_mapper(settings)

    def model(p: t.Any) -> t.Any:
        if type(p) is str or not strict and type(p) in (int, float):
            if type(p) is str and (p != p.strip() or "_" in p):
                raise m.Unspec
            try:
                d = D(p)
            except decimal.InvalidOperation:
                raise m.Rej
            return rounded(d, prec, rounding) if active else d
        raise m.Rej

    # What surrounds the conversion must not matter.
    for ambient in (decimal.Context(prec=3), decimal.getcontext()) if how in ("none", "hint") else (decimal.getcontext(),):
        payloads: t.List[t.Any] = [*DECIMALS, 1, -15, 10**40 + 5, 0.1, 2.5, 1e300, 1.0, None, [], {}, b"1"]
        for p in payloads:
            exp = m.expect(model, p)
            with decimal.localcontext(ambient):
                got = m.attempt(mapper.deserialize, p, hint)
            if not compare(rec, f"load({p!r}, Decimal {case})", exp, got):
                return
            if exp.kind == "ok":
                v = exp.value
                with decimal.localcontext(ambient):
                    got = m.attempt(mapper.serialize, v, hint)
                if not compare(rec, f"dump({v!r}, Decimal {case})", m.Expected("ok", str(v), ()), got):
                    return
    rec.state(case)


def run_context(case: t.Any, rec: Recorder) -> None:
    """Precision with limits of the exponent and the other settings of a decimal context."""
    given = case
    setting = dc.Precision(**given)
    hint = t.Annotated[decimal.Decimal, setting]
    want = decimal.Context(**given)
    for p in DECIMALS:
        try:
            d = decimal.Decimal(p)
        except decimal.InvalidOperation:
            exp = m.Expected("reject", None, ())
        else:
            if d.is_nan():
                continue
            try:
                exp = m.Expected("ok", want.plus(d) if d != 0 else want.create_decimal(d), ())
            except decimal.DecimalException:
                exp = m.Expected("reject", None, ())
        if not compare(rec, f"load({p!r}, Decimal {given})", exp, m.attempt(load, p, hint)):
            return
    rec.state(repr(case))


def context_cases() -> t.Iterator[t.Any]:
    for prec in (None, 2, 30):
        for lo, hi in ((None, None), (-5, 5), (-10, 33), (0, 0)):
            for clamp in (None, 0, 1):
                for capitals in (None, 0, 1):
                    for rounding in (None, decimal.ROUND_UP):
                        given = dict(prec=prec, Emin=lo, Emax=hi, clamp=clamp, capitals=capitals, rounding=rounding)
                        yield {k: v for k, v in given.items() if v is not None}


# -- enumerations ------------------------------------------------------------------------------------------------------


BASES = {
    "Enum": "enum.Enum", "str": "str, enum.Enum", "int": "int, enum.Enum", "StrEnum": "enum.StrEnum", "Flag": "enum.Flag",
    "Enum auto": "enum.Enum", "IntEnum": "enum.IntEnum", "IntFlag": "enum.IntFlag", "methods": "enum.Enum",
}  # fmt: skip
ALIASES: t.Dict[str, t.Optional[t.Tuple[str, ...]]] = {
    "-": None, "x": ("x",), "x y": ("x", "y"), "own": ("{}",), "y own": ("y", "{}"), "swap": ("{next}",), "empty text": ("",), "number": ("1",),
}  # fmt: skip


def enum_values(base: str, n: int, same: bool) -> t.List[str]:
    if base in ("str", "StrEnum"):
        vals = ["'a'", "'ONE'", "'c'"]
    elif base in ("Flag", "IntFlag"):
        vals = ["1", "2", "4"]
    elif base == "Enum auto":
        vals = ["enum.auto()"] * 3
    elif base in ("int", "IntEnum"):
        vals = ["1", "-7", "10**30"]
    else:
        vals = ["1", "'ONE'", "(1, 2)"]
    if same:
        vals[1] = vals[0]
    return vals[:n]


def run_enum(case: t.Any, rec: Recorder) -> None:
    base, aliases, same, style = case
    names = ["ONE", "TWO", "THREE"][: len(aliases)]
    texts: t.Dict[str, t.Tuple[str, ...]] = {}
    lines = []
    for k, (name, value) in enumerate(zip(names, enum_values(base, len(names), same))):
        al = ALIASES[aliases[k]]
        ann = ""
        if al is not None:
            texts[name] = tuple(x.format(name, next=names[(k + 1) % len(names)]) for x in al)
            alias = f"dc.Alias({', '.join(map(repr, texts[name]))})"
            ann = f": t.Annotated[int, {alias}]"
            if style == "noise":
                ann = f": t.Annotated[int, 'doc', {alias}, 7]"
        elif style == "noise":
            ann = ": t.Any"
        lines.append(f"    {name}{ann} = {value}")
    if base == "methods":
        lines.insert(0, "    def f(self): return 1")
        lines.append("    @property\n    def zz(self): return 2")
        lines.append("    @classmethod\n    def _missing_(cls, value): return None")
    head = "from __future__ import annotations\n" if style == "future" else ""
    source = head + "import enum, typing as t\nimport databind.core as dc\n" + f"class E({BASES[base]}):\n" + "\n".join(lines)
    mod = types.ModuleType("mc_c22_enum")
    import sys

    sys.modules["mc_c22_enum"] = mod
    try:
        exec(compile(source, "<mc_c22>", "exec", dont_inherit=True), vars(mod))
    except (TypeError, ValueError):
        return rec.count("no enumeration")
    E: t.Any = mod.E  # type: ignore[attr-defined]
    integer = base == "IntEnum"
    dumped = {v: v.value if integer else texts.get(v.name, (v.name,))[0] for v in E}
    owners: t.Dict[str, t.Set[t.Any]] = {}
    aliased: t.Dict[str, int] = collections.Counter(s for al in texts.values() for s in al)
    for name, v in E.__members__.items():
        for s in (name, *(texts.get(v.name, ()) if name == v.name else ())):
            owners.setdefault(s, set()).add(v)

    def dec(p: t.Any) -> t.Any:
        if integer:
            if type(p) is not int:
                raise m.Unspec if isinstance(p, int) else m.Rej
            hits = {v for v in E if v.value == p}
        else:
            if type(p) is not str:
                raise m.Unspec if isinstance(p, str) else m.Rej
            hits = owners.get(p, set())
            if len(hits) > 1:
                if aliased[p] > 1:
                    raise m.Unspec
                hits = {v for v in hits if dumped[v] == p}
                if len(hits) != 1:
                    raise m.Unspec
        if not hits:
            raise m.Rej
        return next(iter(hits))

    payloads: t.List[t.Any] = [*owners, *(v.value for v in E), "x", "y", "", "one", "ONE ", "E.ONE", "value", "name", "f", "zz", "__members__",
                               "_missing_", 0, 1, 2, 3, -7, 10**30, 1.0, None, [], {}, "None", ["ONE"], "ONE|TWO"]  # fmt: skip
    if base in ("Flag", "IntFlag"):
        payloads.remove("ONE|TWO")
    try:
        for hint, wrap in ((E, lambda x: x), (t.List[E], lambda x: [x]), (t.Annotated[E, "doc"], lambda x: x)):
            for p in payloads:
                exp = m.expect(lambda: wrap(dec(p)))
                if not compare(rec, f"load({wrap(p)!r}) for\n{source}\n", exp, m.attempt(load, wrap(p), hint)):
                    return
            for v in E:
                if not compare(rec, f"dump({v!r}) for\n{source}\n", m.Expected("ok", wrap(dumped[v]), ()), m.attempt(dump, wrap(v), hint)):
                    return
            for v in ("ONE", 1, None, m.Color.RED, m.Level.LO):
                if not compare(rec, f"dump({v!r}) for\n{source}\n", m.Expected("reject", None, ()), m.attempt(dump, wrap(v), hint)):
                    return
        if not integer:
            keyed = t.Dict[E, int]
            for v in E:
                if not compare(rec, f"dump as key ({v!r}) for\n{source}\n", m.Expected("ok", {dumped[v]: 1}, ()), m.attempt(dump, {v: 1}, keyed)):
                    return
    finally:
        del sys.modules["mc_c22_enum"]
    rec.state(case)


def enum_cases() -> t.Iterator[t.Any]:
    deep = thorough()
    for base in BASES:
        for n in (1, 2, 3):
            for aliases in itertools.product(ALIASES if n < 3 or deep else ("-", "x", "y own", "swap"), repeat=n):
                for same in (False, True) if n > 1 else (False,):
                    for style in ("", "noise", "future") if n < 3 or deep else ("",):
                        yield base, aliases, same, style


def spaces() -> t.List[Space]:
    deep = thorough()
    years = range(0, 10000, 1 if deep else 100)
    more = [1, 4, 1899, 1999, 2023, 2024, 9999]
    return [
        Space("formats", lambda: (x for n in range(1, 4 if deep else 3) for x in itertools.permutations(MENU, n)), run_formats,
              f"all sequences of up to {3 if deep else 2} of {len(MENU)} formats x 3 types x all texts of all formats"),
        Space("places", lambda: ((p, x, f, s) for p in PLACES for x in TYPES for f in MENU
                                 for s in (MENU if deep else ("%Y-%m-%d", "%H:%M:%S", ".ISO_8601", "%q"))), run_places,
              f"{len(PLACES)} placements x 3 types x pairs of formats"),
        Space("days", lambda: sorted({*years, *more}), run_days, "all days and impossible days of the years"),
        Space("seconds", lambda: range(0, 25), run_seconds, "all seconds of a day, and impossible ones"),
        Space("fractions", lambda: [f"{x:02}" for x in range(100)] + [str(x) for x in range(10)] + [""], run_fraction,
              "all fractions of up to 6 digits" if deep else "fractions of up to 5 digits"),
        Space("offsets", lambda: range(0, 24), run_offsets, "all UTC offsets of whole minutes in all notations"),
        Space("decimals", lambda: [("none", None, None)] + [(h, p, r) for h in ("hint", "global", "local", "lenient", "over")
                                                            for p in ((None, 1, 2, 3, 5, 9, 28, 50) if deep else (None, 1, 3, 28)) for r in ROUNDINGS], run_decimals,
              f"{len(DECIMALS)} texts x precisions x roundings x placements"),
        Space("decimal contexts", context_cases, run_context, "exponent limits, clamping, capitals"),
        Space("enums", enum_cases, run_enum, f"{len(BASES)} kinds of enumerations with up to 3 members x aliases x annotation styles"),
    ]  # fmt: skip
