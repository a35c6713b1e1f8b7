"""Writes /verif/MANIFEST.json: one entry per check module that exists."""
import json, pathlib

V = pathlib.Path(__file__).parent.parent
BASE = (
    "Bounded: the property was checked on every case of the enumerated spaces listed in the evidence file, executing "
    "the real code on each; nothing is claimed beyond those bounds. Trusted: CPython, the reference model in "
    "mc/model.py (compared with the code on every trace) and "
)
T = {
    "C01": ("bounded exhaustive enumeration of types x values on the real code", "equality of canonical images."),
    "C02": ("bounded exhaustive enumeration of types x payloads against a reference model", "the tables of accepted texts."),
    "C03": ("bounded exhaustive enumeration of types x (mutated) values against a reference model", "the tables of texts."),
    "C04": ("exhaustive matrix of scalars x strictness placements x directions against a reference model", "the documented word list."),
    "C05": ("exhaustive enumeration of field configurations x payload key subsets against a reference model", "dataclasses of the standard library."),
    "C06": ("exhaustive enumeration of flattened/remainder schemas x payloads x values against a reference model", "dataclasses of the standard library."),
    "C07": ("exhaustive enumeration of default/value/setting combinations against a reference model", "dataclasses of the standard library."),
    "C08": ("exhaustive enumeration of union styles x keys x members x payload mutations against a reference model", "dataclasses of the standard library."),
    "C09": ("exhaustive enumeration of ordered member selections x payloads against a reference model", "typing's flattening of unions."),
    "C10": ("explicit-state enumeration of setting source x priority assignments against a lookup model", "the documented precedence."),
    "C11": ("exhaustive exploration of decoration/call histories (forked prefixes) against a scope model", "os.fork isolation."),
    "C12": ("exhaustive exploration of registration sequences x converter outcomes against a dispatch model", "instrumented converters."),
    "C13": ("exhaustive single-fault injection at every position of composed types", "the model's fault positions."),
    "C14": ("exhaustive exploration of call histories (fork tree) against fresh-process outcomes", "os.fork isolation."),
    "C15": ("stateless model checking of the real code: preemption-bounded DFS over thread interleavings", "a cooperative scheduler at bytecode granularity; sequential consistency of the interpreter."),
    "C16": ("explicit-state exploration of union member table histories against a table model", "importlib.metadata for entry points."),
    "C17": ("exhaustive enumeration of class hierarchies against symbolic field types", "a substitution model of type parameters."),
    "C18": ("exhaustive differential enumeration of class definitions x calls against the standard library", "dataclasses of the standard library."),
    "C19": ("exhaustive differential enumeration of annotation insertions", "the table of which settings matter where."),
    "C20": ("exhaustive enumeration of override placements x positions against a reference model", "instrumented converters."),
    "C21": ("exploration of configuration/copy histories and entry points against an object model", "the json codec."),
    "C22": ("exhaustive enumeration of format settings x placements x values against a reference model", "tabulated renderings of formats."),
    "C23": ("enumeration of hash seeds covering all set orders, outcomes compared across processes", "PYTHONHASHSEED as the only source of hash variation."),
}
props = [json.loads(l)["id"] for l in open(V / "properties.jsonl")]
checks, na = [], []
for p in props:
    if (V / "mc" / "checks" / f"{p.lower()}.py").exists():
        tech, trust = T[p]
        checks.append(
            {
                "property": p,
                "quick_cmd": f"/opt/venv/bin/python run.py {p}",
                "thorough_cmd": f"/opt/venv/bin/python run.py {p} --tier thorough",
                "evidence_file": f"evidence/{p}.json",
                "technique": "model checking: " + tech,
                "level": "model_checking",
                "level_note": BASE + trust,
            }
        )
    else:
        na.append({"property": p, "reason": "not built yet"})
doc = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
       "notes": "No hooks: the checks drive the public API of the code in /repo/databind/src, imported from the working tree without byte-code caches. Run one with 'run.py Cxx'; replay with 'run.py Cxx --replay FILE'."}
(V / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
print(len(checks), "checks")
