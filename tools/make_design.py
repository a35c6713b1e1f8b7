"""Writes /verif/DESIGN.md from the prose here, the bounds of the spaces, the evidence and the seeded bugs' results."""
import importlib
import json
import os
import pathlib
import sys

V = pathlib.Path(__file__).parent.parent
sys.path.insert(0, str(V))
from mc import engine  # noqa: E402

engine.setup_path()

#: id -> (what is specified, oracle, why the tests cannot)
P = {
    "C01": ("For every supported type T and value v of T: load(dump(v, T), T) == v with the same types throughout, and the same through dumps/loads where the JSON form is text-safe.",
            "canonical images (`model.canon`) of the value before and after; the model only selects which values a union can round-trip.",
            "Tests round-trip one value of a dozen types; the interesting failures are in compositions (an Optional in a tuple in a mapping keyed by enums...)."),
    "C02": ("load(p, T) gives exactly the value the documented representation assigns to p, and ConversionError for everything else; never another exception, never a partially right value.",
            "the reference decoder `T.dec` of mc/model.py, written from the documentation; tables of texts for dates, uuids, durations.",
            "Acceptance sets are infinite; the enumeration takes every well-formed payload of a type and every single-place mutation of it (replace, drop, add, rename) at every depth."),
    "C03": ("dump(v, T) gives exactly the documented JSON form (including list vs tuple, key order, str vs int) and rejects values that are no T.",
            "the reference encoder `T.enc`; foreign values are all values of the other leaf types at every position.",
            "Tests dump well-typed values only."),
    "C04": ("Text/number interchange happens on load only, for the documented words and numbers only, and only where Strict(False) is the setting in effect.",
            "a table of documented conversions and the scope model of settings.",
            "The matrix target x source x placement x strictness x direction has about 10^5 entries of which tests have a dozen."),
    "C05": ("The value of a field is that under its first present key, else its default, else None if optional; missing required keys and surplus keys are rejected unless ExtraKeys says otherwise; defaults are fresh for every load.",
            "`RecT.dec` and a model of ExtraKeys scoping.",
            "Every subset of keys x every combination of alias/default/required is needed to see precedence errors."),
    "C06": ("Flattened fields and a remainder share one JSON object with the plain fields: every key goes to exactly one of them, and dump puts them back.",
            "`RecT.enc/dec` over expanded fields.",
            "Failures need a particular arrangement of nested flattened fields, defaults and foreign keys."),
    "C07": ("With SerializeDefaults(False) a field is left out iff its value equals its default, and loading restores the value; otherwise all are present.",
            "`RecT.enc` with scope model.", "Needs combinations of default kinds, aliases and placement of the setting."),
    "C08": ("Each union style writes the documented shape, identifies the member by its id and reads back what it wrote; wrong ids, shapes and values are rejected.",
            "`TaggedT`; histories are judged against a table model after each registration.",
            "Styles x keys x members x malformed payloads."),
    "C09": ("Plain unions try members in order, take the exact match first, Optional passes None, literals are compared by value and type.",
            "`UnionT`, `OptT`, `LiteralT`.", "The order of members and the overlap of their acceptance sets matter: all ordered selections."),
    "C10": ("The setting in effect is the one of the highest priority, ties resolved by nearness: hint, class, call/mapper-local, conditional, global, parent.",
            "a list model of nine sources.", "2^9 presence patterns x priorities."),
    "C11": ("What is attached to a class, hint, field or call changes only that; siblings, subclasses, other calls and mappers behave as before.",
            "differential: every other position has the outcome it had in a process without the attachment (forked prefixes).",
            "Leaks show in histories, not in single calls."),
    "C12": ("Converters are asked in registration order (first=True in front), modules in place; NotImplementedError passes on, ConversionError is collected, anything else propagates, the first result wins.",
            "dispatch model over instrumented converters.", "All registration sequences x outcomes."),
    "C13": ("A fault in one sub-value is reported by a ConversionError whose context chain spells the path to it, with the file name given.",
            "the model's own path of the injected fault.", "Exhaustive single-fault injection at every position of every composed type."),
    "C14": ("Conversions modify neither payload nor value, share no mutable part of their arguments with the result or defaults, and do not depend on earlier conversions.",
            "deep snapshots before/after, identity walk over results, and the outcome of the same call in a fresh process (fork tree).",
            "History dependence needs histories: all sequences of interfering calls."),
    "C15": ("Concurrent conversions and table look-ups with a shared mapper, classes, settings give the outcomes of some serial order.",
            "every interleaving is compared with the serial outcomes.",
            "Schedules: tests run one thread. `mc/sched.py` is a cooperative scheduler that switches real threads at bytecode boundaries (sys.monitoring), explores all schedules up to a preemption bound by DFS re-execution, and models locks."),
    "C16": ("Through any history of registrations, removals and look-ups, ids and types of union member tables map onto each other consistently; deferred members are evaluated once; unknown ones raise ValueError.",
            "table model driven in step.", "Histories of dict-like state with deferred evaluation, entry points and imports."),
    "C17": ("A schema lists exactly the fields of the constructor, with type parameters substituted through generic bases and forward references resolved in the module that wrote them.",
            "symbolic substitution model; the signature of the class the stdlib builds.", "Hierarchies: parameters renamed, swapped, partly bound over several levels and diamonds."),
    "C18": ("databind.core.dataclasses behaves as the standard library except that required fields may follow ones with defaults.",
            "differential against `dataclasses` of the stdlib.", "The product of field kinds, options, inheritance and calls."),
    "C19": ("Metadata in Annotated that is no setting in use at that place does not change any outcome.",
            "differential against the bare hint.", "All places of all types x kinds of foreign objects."),
    "C20": ("JsonConverter (hint, class, field, global, conditional) and DeserializeAs take effect exactly where declared, in both directions resp. on load only; a declining converter falls through.",
            "reference model with instrumented converters.", "Placement x type constructor x decline modes."),
    "C21": ("All entry points agree on outcome, error path and file name; text functions equal the codec composed with the plain ones; copies of Settings and mappers are independent from the original from then on.",
            "metamorphic equality between entry points; an object model of settings and mappers, driven in step through every operation sequence, observed after every operation and only at the end.",
            "copy() is untested; sharing shows only after a later change to one side."),
    "C22": ("Dates, times and datetimes are written with the first applicable format in effect and read with any; decimals keep digits unless Precision says so; enums use first alias/name/value.",
            "tabulated independent renderings; the decimal module; every day, second and offset.",
            "Formats x placements x values x malformed texts."),
    "C23": ("Outcomes, including key order and text, are the same under all hash seeds.",
            "equality with the run under seed 0, over the smallest list of seeds that realises every iteration order of every set of up to four (thorough: five) of five names.",
            "The tests run under one seed and compare unordered."),
}

out = [(V / "tools" / "design_head.md").read_text().rstrip(), "", "## Properties", ""]
titles = {d["id"]: d["title"] for d in map(json.loads, open(V / "properties.jsonl"))}
cost = json.loads((V / "tools" / "costs.json").read_text()) if (V / "tools" / "costs.json").exists() else {}
for pid, (spec, oracle, why) in P.items():
    out += [f"### {pid}: {titles[pid]}", "", f"*Specified.* {spec}", "", f"*Oracle.* {oracle}", "", f"*Beyond tests because* {why[0].lower() + why[1:]}", ""]
    mod = importlib.import_module(f"mc.checks.{pid.lower()}")
    out += ["*Enumerated (quick bounds):*", ""]
    for s in mod.spaces():
        out.append(f"* **{s.name}**: {s.bound}")
    out += ["", "*Assumed:* " + "; ".join(mod.ASSUMPTIONS) + ".", ""]
    if pid in cost:
        out += ["*Cost:* " + cost[pid], ""]
out.append((V / "tools" / "design_tail.md").read_text().rstrip())
out += ["", "## Defects found and repaired", "",
        "Each was found by the named check (or while building it), shown on the real code, and repaired by a `fix:` commit;",
        "`known-findings.txt` has them as `fixed:` lines. None is open.", ""]
for line in (V / "known-findings.txt").read_text().splitlines():
    if line.startswith("fixed: "):
        p, h, msg = line[7:].split(" ", 2)
        out.append(f"* {p.split('=')[1]} `{h}` {msg}")
out += ["", "## Seeded bugs", "",
        "Each was written from a property's text and the code alone, passes the 67 tests, and has a demonstration.",
        "`caught by` is the check of its own property at the quick tier.", "", "| bug | needs | caught by |", "|---|---|---|"]
det = json.loads((V / "tools" / "detection.json").read_text()) if (V / "tools" / "detection.json").exists() else {}
for d in sorted((V / "seeded").iterdir()):
    meta = json.loads((d / "meta.json").read_text())
    out.append(f"| {d.name} | {meta['needs']} | {det.get(d.name, 'not run')} |")
extra = V / "tools" / "design_end.md"
if extra.exists():
    out += ["", extra.read_text().rstrip()]
(V / "DESIGN.md").write_text("\n".join(out) + "\n")
