"""Writes /verif/known-findings.txt from the fix commits of /repo and the open findings listed here."""
import pathlib, subprocess

V = pathlib.Path(__file__).parent.parent
PROP = {
    "dates and times of a subclass": "C03",
    "NamedTuple classes without fields": "C02",
    "falsy keywords": "C04", "lossy float": "C02", "int to float overflow": "C02", "bytes were base64": "C02",
    "malformed decimal": "C02", "Precision setting": "C22", "unknown union members": "C08",
    "non-string key of a keyed": "C08", "Union.nesting_key when": "C08", "ImportUnionMembers.get_type_by_id": "C16",
    "characters of the type IDs": "C16", "stale types": "C16", "partially filled cache": "C15",
    "registered concurrently": "C15", "decorating a subclass": "C11", "annotated Literal": "C19",
    "support union type hints": "C19", "annotating an optional": "C19", "using_classmethods": "C20",
    "remainder field that equals its default": "C07", "colliding keys of flattened": "C06",
    "omitted fields that are required": "C07", "could not be converted with the JSON module": "C01",
    "typed dict without an optional key": "C03", "date that cannot be formatted": "C22",
    "abstract set types": "C02", "order of keys in a remainder": "C23", "mapping key of another type": "C13",
    "origin of dataclass fields": "C17", "listed their fields in random order": "C23", "last module name": "C16",
    "flattened field that has a remainder": "C06", "InitVar, init=False": "C18", "totality of the typed dict": "C17",
    "UTC offset of time": "C22", "format string for another": "C22", "not iterable to or from": "C02",
    "not convert to a hashable": "C03", "unhashable items of a set": "C02",
    "re-declares as class variables": "C17", "inherited typed dict keys": "C17", "named tuples ignored": "C17",
    "generic base class without type arguments": "C17",
    "removed the slots and descriptors": "C18",
    "the DeserializeAs setting was ignored": "C20",
    "flattened fields with the DeserializeAs setting": "C20",
    "dataclass() could not redefine a field": "C18",
    "unhashable metadata could not": "C22",
    "settings providers of length zero": "C21",
    "whose constructor registers converters": "C21",
    "add_conditional() raised": "C10", "cannot be flattened": "C06", "mapping that is deserialized differently": "C06", "share their name with a method": "C17", "annotated members of a plain union": "C19", "have no repr()": "C13", "evaluated a deferred union member at the same time": "C15",
}
EXTRA_FILE = V / "tools" / "findings_extra.txt"
if EXTRA_FILE.exists():
    for line in EXTRA_FILE.read_text().splitlines():
        if "=>" in line:
            k, v = line.split("=>")
            PROP[k.strip()] = v.strip()
OPEN: list = []
out = [
    "# fixed: genuine defects of the original tree, repaired by a commit in /repo (they suppress nothing).",
    "# open:  genuine defects that are recorded rather than repaired, by the case that fails.",
]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "de249b9.."], text=True)
for line in log.splitlines():
    h, msg = line.split(" ", 1)
    hits = [p for k, p in PROP.items() if k in msg]
    assert len(hits) == 1, (line, hits)
    out.append(f"fixed: property={hits[0]} {h} {msg.removeprefix('fix: ')}")
out += OPEN
(V / "known-findings.txt").write_text("\n".join(out) + "\n")
print(len(out) - 2)
