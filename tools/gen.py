#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from props import PROPS
NA = []
out = []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
    out.append(dict(id=p["id"], title=p["title"], statement=p["statement"],
        quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
        anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                     observe_at=["public API of the headers"], hook_needed=None)))
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(o) + "\n" for o in out))
checks = []
for p in PROPS:
    checks.append(dict(property=p["id"], quick_cmd=f"python3 run.py {p['id']} quick",
        thorough_cmd=f"python3 run.py {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json",
        technique="property-based testing and fuzzing: " + p["tech"], level="exploration",
        level_note=p["note"] or "Random and structured generation from a recorded seed, explicit oracle, AddressSanitizer on; a pass means no counterexample among the generated cases, not a proof. Trusts the compiler, the sanitizer and the oracle in harness/" + p["id"] + ".cpp."))
json.dump(dict(version=1, setup_cmd="python3 --version", checks=checks, not_applicable=NA,
    notes="No hooks are needed: the library is header-only and is compiled into the harnesses from /repo's working tree."),
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
conf = json.load(open(os.path.join(V, "checks.json")))["checks"]
for p in PROPS:
    assert p["id"] in conf, "no rule for " + p["id"]
    assert os.path.exists(os.path.join(V, "harness", p["id"] + ".cpp"))
try:
    import jsonschema
    S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for o in out: jsonschema.validate(o, S)
    jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(out))
except ImportError:
    print("jsonschema not available")
