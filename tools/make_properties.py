"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, pathlib

CONV = "databind/src/databind/json/converters.py"
SCHEMA = "databind/src/databind/core/schema.py"
SETT = "databind/src/databind/core/settings.py"
UNION = "databind/src/databind/core/union.py"
COREC = "databind/src/databind/core/converter.py"
CTX = "databind/src/databind/core/context.py"
MAPPER = "databind/src/databind/core/mapper.py"
DC = "databind/src/databind/core/dataclasses.py"
JMOD = "databind/src/databind/json/module.py"
JINIT = "databind/src/databind/json/__init__.py"
JSET = "databind/src/databind/json/settings.py"

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Dump then load is the identity on every supported type",
 "For every type built from the documented leaf types, collections, mappings, optionals, enums, literals, unions, named tuples, typed dicts and (generic, inherited, nested) dataclasses, and every value of it, loading the dump under the same type gives back an equal value of the same runtime type, with element and key order preserved. The same holds when the dumped form goes through JSON text (dumps/loads) in between, provided mapping keys dump to text.",
 ["inputs", "programs"], "all supported types (composed to any depth) and all their values",
 "The tests convert a handful of hand-picked values, each with a mapper assembled from two or three converters; they never compose type constructors and rarely do both directions.",
 [CONV, SCHEMA, JMOD, JINIT],
 [("converter pairs for each type, one branch per direction", CONV), ("order of converter registration", JMOD), ("schema derivation", SCHEMA)],
 ["load/dump/loads/dumps results"])

prop("C02", "Load returns a value of the requested type or raises ConversionError",
 "For every supported type and every JSON-like payload, load either returns the value that the documented representation assigns to the payload, which is then an instance of the requested type at every level, or raises ConversionError. It never returns a value of another type, never accepts a payload that the representation does not admit, never rejects one it does, and never fails with any other exception.",
 ["inputs", "programs"], "all supported types x all JSON-like payloads (well formed, mutated in one place, or unrelated to the type)",
 "Tests assert a few accepted payloads and about ten rejected ones; the complement of the accepted language is infinite.",
 [CONV, COREC, SCHEMA, JMOD],
 [("type tests and adapters in each converter's deserialize branch", CONV), ("error collection in Module.convert", COREC)],
 ["load results and exception types"])

prop("C03", "Dump emits exactly the documented JSON form, or raises ConversionError",
 "For every supported type and every Python object, dump returns the documented representation when the object is a value of that type, consisting only of None, bool, int, float, str, list and dict (outside Any), and raises ConversionError when it is not. No mismatched object is silently coerced, truncated or emitted, and no other exception escapes (an int serves for a float and back where nothing is lost, and any mapping for a mapping type).",
 ["inputs", "programs"], "all supported types x all Python objects (values of the type, values of other types, values with one foreign element)",
 "README promises full runtime type checking during serialization; tests check a dozen type/value mismatches.",
 [CONV, COREC, SCHEMA, JMOD],
 [("isinstance checks in each converter's serialize branch", CONV)],
 ["dump results and exception types"])

prop("C04", "Lenient scalar conversion happens only on load and only where strictness is off",
 "With strictness on (the default) a scalar is loaded only from its own JSON form, or between int and float when nothing is lost; with it off, numbers and booleans also load from their textual forms (truthy words to True, falsy words to False), text loads from scalars, and decimals load from numbers. Turning strictness off never changes what dump does, never affects values outside the scope of the setting, and a textual form that does not parse is a ConversionError.",
 ["inputs", "configurations"], "all source values x target scalar types x directions x places a strictness setting can be attached",
 "Tests try int and Decimal with one value each; the boolean words, lossless int/float rules and setting placement are not covered.",
 [CONV, SETT], [("strict and non-strict adapter tables", CONV), ("Strict lookup through the context", SETT)],
 ["load/dump results under Strict settings"])

prop("C05", "Field contract: alias, required, default and extra keys decide every load",
 "When a dataclass (or typed dict) is loaded, each field takes the value under the first of its aliases present in the payload (its own name if it has none), otherwise its default, and a field that is required is never defaulted. Unrecognised keys are an error unless the ExtraKeys setting that governs that very object allows them, in which case they are ignored and reported exactly once, as the precise set, to its recorder. Fields not taken from the payload get a fresh default per load.",
 ["configurations", "inputs"], "all combinations of field attributes (alias lists, default kind, Required, Optional, init) over several fields x all subsets of payload keys x ExtraKeys placements",
 "The corresponding test was commented out upstream; combinations of attributes are exponential.",
 [CONV, SCHEMA, SETT], [("field extraction from the payload and unused-key computation", CONV), ("required/default derivation", SCHEMA), ("ExtraKeys.inform", SETT)],
 ["load results", "ExtraKeys recorder calls"])

prop("C06", "Flattened and remainder fields partition the keys of one object, losslessly",
 "A flattened field's sub-fields appear, under their aliases and at any nesting depth, directly in the enclosing object, and a remainder field holds exactly the keys no other field claims; dump and load agree on this, so nothing is lost, duplicated or taken by two fields. Key collisions between a remainder and the other fields, two remainders in one object, and non-mapping remainder or flattened forms are rejected with ConversionError rather than overwriting data.",
 ["configurations", "inputs"], "all small schemas with flattened (nested up to two levels), aliased, defaulted and remainder fields x all payload key subsets and values",
 "One test covers one remainder field; flattening has no conversion test at all.",
 [CONV, SCHEMA], [("merging of flattened and remainder values on dump, key extraction on load", CONV), ("get_fields_expanded", SCHEMA)],
 ["load/dump results", "get_fields_expanded"])

prop("C07", "Omitting defaults on dump removes only what load restores",
 "With SerializeDefaults disabled, dump leaves out exactly those fields that have a default equal to their current value and that load would fill in again; with it enabled (the default) it leaves out nothing. Either way the output loads back to an equal object, and the setting governs exactly the object (class, hint or call) it was attached to.",
 ["configurations", "inputs"], "all combinations of field default kinds, requiredness, values equal/unequal to the default, flattening/remainder, and placements of the setting",
 "The only test of SerializeDefaults is commented out.",
 [CONV, SCHEMA, SETT], [("default comparison during dump", CONV), ("has_default/get_default", SCHEMA)],
 ["dump and load results"])

prop("C08", "Tagged unions: every style names the member and reads back what it wrote",
 "For nested, flat and keyed unions, with any discriminator and nesting key, dump emits exactly the documented shape with the id of the value's own member type, and load of that shape selects the member with that id and no other. A missing, non-string, unknown or surplus discriminator, a missing nested body, a non-member value, or a member the style cannot represent raises ConversionError.",
 ["configurations", "inputs"], "all union styles x key configurations x member sets x ways of declaring the union (hint, class decorator, registration) x payload shapes",
 "Tests exercise each style once on int/str members; key collisions, custom keys, unknown ids and dataclass members are not covered.",
 [CONV, SETT, UNION], [("member selection and shape building", CONV), ("Union setting", SETT), ("member tables", UNION)],
 ["load/dump results"])

prop("C09", "Untagged unions, optionals and literals pick the first member that fits",
 "A value or payload of a plain union is converted by the first member, in declaration order, that accepts it, and is rejected with ConversionError only if none does; None is handled by Optional and by nothing else. A literal accepts exactly its listed values, unchanged, and so discriminates union members when used on a field.",
 ["inputs", "programs"], "all ordered member selections (2-3 of the supported types, optionals and literal-tagged dataclasses) x all payloads/values of the alphabet x both directions",
 "Tests cover Union[int, str] with 42 and one literal-tagged pair.",
 [CONV], [("best-match loop", CONV), ("Optional and Literal converters", CONV)],
 ["load/dump results"])

prop("C10", "Setting lookup: highest priority wins, then the nearest source",
 "For any setting type and conversion context, the setting in effect is the one with the highest priority among those from the type hint's annotations, the class, type-local and conditional/provider and global settings of the mapper or the call, and parent providers; among equal priorities the nearest source in that order wins, and within a source the first added. A lookup never returns a setting of another type and returns nothing when no source supplies one.",
 ["configurations"], "all assignments of present/absent and priority to every source, including several settings per source",
 "No test exercises the precedence order or the priorities at all.",
 [SETT, CTX, MAPPER], [("Settings.get_setting and get_highest_setting", SETT), ("per-call settings chained to the mapper's", MAPPER)],
 ["Context.get_setting", "effect on load/dump"])

prop("C11", "A setting affects only the class, hint, field or call it was attached to",
 "After any sequence of class decorations, mapper configurations and calls, a setting placed on a class applies to that class and not to its bases, siblings, or nested members; one in a type hint applies to that occurrence only; one passed to a call is gone when the call ends; and one on a mapper stays with that mapper. A setting instance cannot be attached to two classes.",
 ["histories", "configurations"], "all sequences (bounded length) of decorations over a class hierarchy and of calls with and without settings",
 "Scoping needs several classes and several calls in different orders; tests check isolated single uses.",
 [SETT, MAPPER, JINIT, CTX], [("ClassDecoratorSetting.__call__ and get_class_settings", SETT), ("settings argument of ObjectMapper.convert", MAPPER)],
 ["get_class_setting", "load/dump results"],
 [("per-class setting list", "settings attached by decorators", SETT), ("mapper settings", "global/local/provider lists", SETT)])

prop("C12", "Converters are tried in registration order until one succeeds",
 "For every arrangement of registered converters (appended, prepended, nested in modules, supplied dynamically), a conversion calls them in exactly the registration order, stops at the first that returns, skips those that decline, keeps going past those that fail with ConversionError, and lets any other exception through. If none succeeds, a lone ConversionError is raised as it is, otherwise NoMatchingConverter carrying all the errors in order.",
 ["configurations", "histories"], "all registration sequences up to a bounded length x all converter outcomes",
 "Tests use fixed converter lists that succeed; the fall-through and error aggregation order are not enumerated.",
 [COREC, MAPPER, JMOD], [("Module.register/get_converters/convert", COREC)],
 ["call order seen by converters", "result or exception"],
 [("Module.converters", "ordered converter list", COREC)])

prop("C13", "Conversion errors point at the offending sub-value",
 "When exactly one place of a payload (or value) is at fault, the raised ConversionError's context chain leads from the root through the keys and indices to that place, carries the file name passed to the call, and formatting the error as text always works and shows its message and that path.",
 ["inputs", "fault_sequences"], "all supported nested types x every single-fault position in their payloads and values",
 "One test formats a two-level trace built by hand; no test checks that conversions report the right location.",
 [CTX, COREC, CONV], [("Context.spawn keys", CTX), ("format_context_trace and ConversionError.__str__", COREC)],
 ["ConversionError.context", "str(error)"])

prop("C14", "Conversions are pure: no input is modified and no history is remembered",
 "load and dump never modify the payload, value, type or settings they are given, and their results share no mutable containers with the input (outside Any) or with earlier results. Any call gives the same outcome after any sequence of earlier calls, successful or failed, on any types, as it gives in a fresh process.",
 ["histories", "inputs"], "all call sequences up to a bounded length over an alphabet of calls that share types, names, settings and failures",
 "Each test makes isolated calls; state leaking between calls needs particular sequences (same-named types, generic instantiations, failing calls).",
 [CONV, SCHEMA, MAPPER, SETT, UNION, JMOD], [("no module-level mutable state in converters; copies before mutation", CONV), ("schema derivation per call", SCHEMA)],
 ["outcome of each call in a history", "deep comparison of inputs before/after"],
 [("union evaluation cache, entry point cache, class settings", "the only intended memory between calls", UNION)])

prop("C15", "Concurrent conversions and lookups behave as if run one at a time",
 "When several threads convert with the same types, mapper and settings, or resolve and register union members, every thread observes a result it could have observed in some sequential order, with no spurious errors, lost registrations or mixed-up data, under every interleaving.",
 ["schedules"], "all thread interleavings at bytecode granularity up to a preemption bound, for small harnesses on shared mappers, types, unions and registries",
 "The tests are single threaded.",
 [UNION, SETT, MAPPER, CONV, COREC], [("lazily built entry point table", UNION), ("deferred member evaluation cache", UNION), ("per-conversion local state", CONV)],
 ["results and exceptions of each thread"],
 [("entry point cache", "lazily filled table of a union", UNION), ("deferred member cache", "evaluated union members", UNION)])

prop("C16", "Union member tables map ids and types consistently through any history",
 "After any sequence of registrations and lookups, a static, entry-point, import-based or chained member table maps every known id to the type last registered for it and that type back to the first id that names it, lists exactly its ids in order without duplicates, and reports any unknown id or type with ValueError. A chain answers from its first delegate that knows the id or type.",
 ["histories", "configurations"], "all operation sequences up to a bounded length over a small id/type alphabet and all delegate arrangements",
 "Union tables are only used indirectly in tests, never mutated after a lookup; chain, import and entry-point tables are untested.",
 [UNION, SETT], [("StaticUnionMembers, EntrypointUnionMembers, ImportUnionMembers, ChainUnionMembers", UNION), ("Union constructor and Union.register", SETT)],
 ["get_type_by_id, get_type_id, get_type_ids"],
 [("members and evaluation cache", "id -> type tables", UNION)])

prop("C17", "Schemas list exactly the constructor fields with their concrete types",
 "For every dataclass, through any inheritance, overriding, multiple inheritance and generic parametrisation, the schema has exactly the fields its constructor accepts, each with the annotated type of the class that defines it in method resolution order, type parameters replaced by the arguments in effect, and the right required flag and default; for typed dicts and named tuples likewise. Types that are not schemas are rejected with ValueError.",
 ["programs"], "all class hierarchies up to three classes over a small alphabet of field annotations, defaults, overrides and type arguments",
 "Tests pin about fifteen hierarchies; the space of override/generic combinations is combinatorial and was a source of five regressions in the changelog.",
 [SCHEMA], [("field origin and base traversal in convert_dataclass_to_schema", SCHEMA)],
 ["convert_to_schema / convert_dataclass_to_schema / convert_typed_dict_to_schema", "load results"])

prop("C18", "databind.core.dataclasses is a drop-in that also allows required-after-default",
 "For every class definition the standard dataclass decorator accepts, the replacement yields a class with the same constructor, fields, equality, representation and errors; where required fields follow defaulted ones (also through inheritance) it additionally accepts any positional or keyword call that supplies every required field, and raises TypeError for every call that does not.",
 ["programs", "inputs"], "all field sequences up to a bounded length over field kinds, inheritance splits and decorator options x all call shapes",
 "The module has no tests at all.",
 [DC], [("default injection and the generated post-init check", DC)],
 ["construction, fields(), repr, equality"])

prop("C19", "Annotations that are not settings in use never change a conversion",
 "Wrapping a type hint, at any position, in Annotated with metadata that does not concern the conversion (foreign objects, or settings the matching converter does not use there) leaves the outcome of every load and dump unchanged, for every kind of type hint.",
 ["programs", "inputs"], "all supported types with one position wrapped in irrelevant annotations x their payloads and values, both directions",
 "Each converter must unwrap annotations by itself; tests never annotate literals, unions, optionals or custom-converted classes with unrelated metadata.",
 [CONV, COREC], [("unwrapping of annotated hints in every converter", CONV)],
 ["load/dump results"])

prop("C20", "Converter and target overrides take effect exactly where declared",
 "A type with a JsonConverter setting (on the class, in the hint, or for the call) is converted by that converter in both directions wherever it occurs, and by the regular converters when it declines; a hint with DeserializeAs is loaded and dumped as the given type. Both apply at every position a type can occur in and to no other type.",
 ["configurations", "inputs"], "all placements of the overrides x converter behaviours x directions x positions in nested types",
 "Tests use one position (the root or one field) and one behaviour.",
 [JMOD, JSET, COREC, CONV], [("JsonConverterSupport lookup", JMOD), ("DelegateToClassmethodConverter", COREC), ("DeserializeAs in schema lookup", CONV)],
 ["load/dump results"])

prop("C21", "Every entry point agrees, and copies of mappers and settings are independent",
 "load/dump, loads/dumps and ObjectMapper methods give the same outcome for the same arguments, with the text functions equal to the JSON codec composed with the plain ones. After any sequence of configuration changes and copies, each mapper and settings object behaves according to exactly the changes made to it and those it had inherited when it was copied.",
 ["histories", "configurations"], "all operation sequences up to a bounded length over mapper/settings configuration, copying and conversion; all entry points over the value alphabet",
 "copy() is untested and the text functions are exercised once or not at all.",
 [MAPPER, SETT, JINIT], [("ObjectMapper.copy, Settings.copy", MAPPER), ("thin wrappers", JINIT)],
 ["load/dump/loads/dumps, ObjectMapper.*"],
 [("mapper module and settings", "lists that must not be shared by copies", MAPPER)])

prop("C22", "Date, time, decimal and enum representations follow their settings",
 "Dates, times and datetimes are dumped with the first applicable format in effect and loaded with any of the formats in effect, ISO 8601 by default, keeping date, time, fraction and offset exactly; decimals keep their digits unless a Precision setting asks for rounding; enum members are dumped under their first alias (or name, or integer value for integer enums) and load from any alias. Text outside those forms is rejected with ConversionError.",
 ["configurations", "inputs"], "all boundary values x formats/precisions/aliases x setting placements x well-formed and malformed texts",
 "Tests use one value per type and only default formats.",
 [CONV, SETT], [("DateFormat.parse/format", SETT), ("Datetime, Decimal and Enum converters", CONV), ("Precision.to_decimal_context", SETT)],
 ["load/dump results"])

prop("C23", "Results do not depend on hash ordering",
 "For the same input, two runs of the program under different hash seeds give identical outcomes, including the order of keys in dumped objects, the order of keys gathered into a remainder and the text produced by dumps; only the element order of dumped sets may differ.",
 ["configurations"], "all iteration orders of the internal key sets (every permutation, realised through hash seeds)",
 "The test suite runs under a fixed hash seed and compares dictionaries without order.",
 [CONV, SCHEMA], [("key sets in field extraction", CONV), ("typed dict field enumeration", SCHEMA)],
 ["dump/dumps/load results, byte for byte"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
