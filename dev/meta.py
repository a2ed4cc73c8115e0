"""Writes properties.jsonl and MANIFEST.json from one table (run in /verif)."""
import json

P = []
NA = []


def prop(id, title, statement, over, text, tests, files, mech, tech=None, note=None, na=None, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": tests,
         "anchors": {"files": ["src/pygmm/" + f for f in files],
                     "mechanism": [{"name": n, "where": "src/pygmm/" + w} for n, w in mech]}}
    assert len(title) <= 80, title
    P.append(d)
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CH.append({"property": id, "quick_cmd": "python3 -m sa.run %s --tier quick" % id,
                   "thorough_cmd": "python3 -m sa.run %s --tier thorough" % id,
                   "technique": tech, "level": "other", "level_note": note})


CH = []
ENG = ("Decided on the value graphs that an abstract interpreter of the repository's source builds (nothing of the package "
       "is executed); trusts the Python/numpy semantics written in sa/. ")
MODELS = ["model.py", "abrahamson_silva_kamai_2014.py", "boore_stewart_seyhan_atkinson_2014.py",
          "campbell_bozorgnia_2014.py", "chiou_youngs_2014.py", "idriss_2014.py"]

exec(open("dev/props.py").read())

if __name__ == "__main__":
    with open("properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa", "checks": CH, "not_applicable": NA,
         "notes": "All checks read the source in /repo/src/pygmm on every run; see DESIGN.md."}
    with open("MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(CH), "checks,", len(NA), "not applicable")
    import os
    for p in P:
        for f in p["anchors"]["files"] + [m["where"].split(":")[0] for m in p["anchors"]["mechanism"]]:
            assert "*" in f or os.path.exists("/repo/" + f), f
