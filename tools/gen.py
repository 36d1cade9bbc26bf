"""Write properties.jsonl and MANIFEST.json from tools/spec.py."""
import json, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import spec
PY = "/opt/venv/bin/python"
GEN_NOTE = ("Bounded symbolic execution of the code traced from /repo on every run, over exact reals (not floats); every obligation is an SMT query "
            "that must be unsat, with a satisfiable twin against vacuity, and the encoding is validated against concrete runs of the real code. "
            "Bounds: {b}. Trusted: the IR interpreter and its library contracts (normal draws, QR, Cholesky, matrix exponential and square root, linear solve).")
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for q in spec.PROPS + spec.NOT_APPLICABLE:
        n = len(re.findall(r"[.](?:\s|$)", q["statement"]))
        assert len(q["title"]) <= 80, q["id"]
        assert n <= 3, (q["id"], n)
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                            "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                            "anchors": {"files": q["files"], "mechanism": q["mech"]}}) + "\n")
man = {"version": 1, "setup_cmd": f"{PY} -c \"import jax, sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3\"",
       "checks": [{"property": q["id"], "quick_cmd": f"{PY} run.py {q['id']}", "thorough_cmd": f"VERIF_TIER=thorough {PY} run.py {q['id']}",
                   "technique": "bounded symbolic execution of the traced JAX IR of the real code, decided by SMT (z3)",
                   "level": "other", "level_note": GEN_NOTE.format(b=q["text"]) + (" " + q["extra_note"] if q["extra_note"] else "")} for q in spec.PROPS],
       "not_applicable": [{"property": q["id"], "reason": spec.NA_REASON[q["id"]]} for q in spec.NOT_APPLICABLE],
       "notes": "The repository needs no hooks. Unguarded 'fix:' commits in /repo repair genuine defects, listed in known_findings.txt."}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
p = os.path.join(ROOT, "DESIGN.md")
if os.path.exists(p):
    s = open(p).read()
    a, b = "<!-- properties:begin -->", "<!-- properties:end -->"
    body = "\n".join(f"### {q['id']} {q['title']}\n{q['statement']}\n\n*Decided by.* {q['how']}\n\n*Bounds.* {q['text']}.\n\n*Beyond the tests.* {q['why']}\n" for q in spec.PROPS)
    body += "\n## Not applicable\n" + "\n".join(f"- {q['id']} {q['title']}: {spec.NA_REASON[q['id']]}" for q in spec.NOT_APPLICABLE) + "\n"
    open(p, "w").write(s[:s.index(a) + len(a)] + "\n" + body + s[s.index(b):])
    a, b = "<!-- seeded:begin -->", "<!-- seeded:end -->"
    s = open(p).read()
    sd = os.path.join(ROOT, "seeded")
    if os.path.isdir(sd) and a in s:
        rf = os.path.join(HERE, "seeded_results.json")
        res = json.load(open(rf)) if os.path.exists(rf) else {}
        rows = ["| planted change | what it breaks | needs | caught by |", "|---|---|---|---|"]
        for n in sorted(os.listdir(sd)):
            m = json.load(open(os.path.join(sd, n, "meta.json")))
            rows.append(f"| {n} | {m['what_it_breaks']} | {m['needs']} | {res.get(n, '')} |")
        open(p, "w").write(s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):])
