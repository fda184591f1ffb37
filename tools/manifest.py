"""Regenerates MANIFEST.json from properties.jsonl and the check modules present (run by hand, result committed)."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "runtime monitoring: differential oracle (independent reference parser) over generated expressions",
    "C02": "runtime monitoring: differential oracle (independent reference parser) over generated queries",
    "C03": "runtime monitoring: printed text read back by an independent reference parser",
    "C04": "runtime monitoring: printed text read back by an independent reference parser",
    "C05": "runtime monitoring: independent lexer compares the token streams of both print modes",
    "C06": "runtime monitoring: fixpoint monitor over print/parse histories",
    "C07": "runtime monitoring: value oracle over hostile literals and identifiers in every position",
    "C08": "runtime monitoring: token corruption fuzzing against a reference recogniser, and a catalogue of unsupported constructs",
    "C09": "runtime monitoring: enumerated and generated types against an independent type table",
    "C10": "runtime monitoring: lattice law checker over all pairs and triples of a type universe, with a reference lattice",
    "C11": "runtime monitoring: independent typing rules evaluated next to the real code",
    "C12": "runtime monitoring: independent scope resolver evaluated next to the real code",
    "C13": "runtime monitoring: state snapshots around every operation of random histories",
    "C14": "runtime monitoring: mutation oracle over every attribute of generated trees",
    "C15": "runtime monitoring: recording visitor checked against an attribute walk",
    "C16": "runtime monitoring: command line runs compared with library results",
    "C17": "runtime monitoring: metamorphic checker over re-rendered inputs",
    "C18": "runtime monitoring: concurrent and multi-process runs compared with a sequential record",
    "C19": "runtime monitoring: independent function table against parsed, built and printed calls",
    "C20": "runtime monitoring: functions started inside the library counted while towers and lists of growing size are processed",
    "C21": "runtime monitoring: results compared across hostile process surroundings, interpreter state snapshots around operations, heap scans for retained inputs",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(ROOT, "mon", "checks", i.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": i, "reason": "no check built yet"})
        continue
    ns = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS"):
            ns[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({
        "property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough", "evidence_file": f"evidence/{i}.json",
        "technique": TECH[i], "level": "exploration",
        "level_note": "Violations are observed on real executions of the tree in /repo, so an alarm is a concrete failing input; a pass covers the executions "
                      "counted in the evidence file, not all inputs. Assumes: " + "; ".join(ns.get("ASSUMPTIONS", ["nothing further"])) + "."})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Pure Python: every check imports treeno from /repo's working tree without bytecode caches; no hooks are needed in /repo."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
