"""Plants bugs: `python3 dev/seed.py SPEC.py [id ...]`.

SPEC defines BUGS = {id: dict(prop, edits=[(file, old, new)], demo, needs, what)}.
Each is applied in a scratch copy of /repo, tested (the existing tests must pass),
demonstrated and checked; kept under seeded/<id>/ when valid."""
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

PY = "/opt/venv/bin/python"
SH = """#!/bin/sh
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd, env=None, t=600):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=t, shell=isinstance(cmd, str))
    return p.returncode, p.stdout + p.stderr


def one(bid, b, only_check=False):
    out = []
    d = "/tmp/seed_" + bid
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    sd = "/verif/seeded/" + bid
    os.makedirs(sd, exist_ok=True)
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(d, "src/pygmm", f)
            s = open(p).read()
            if s.count(old) != 1:
                return bid, "EDIT %s matches %d times: %r" % (f, s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh(["git", "diff", "--no-ext-diff"], d)
        open(sd + "/patch.diff", "w").write(diff)
        open(sd + "/demo.sh", "w").write(SH)
        os.chmod(sd + "/demo.sh", 0o755)
        open(sd + "/demo.py", "w").write(b["demo"].strip() + "\n")
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]},
                  open(sd + "/meta.json", "w"), indent=1)
        r0, o0 = sh([sd + "/demo.sh"], "/repo")
        r1, o1 = sh([sd + "/demo.sh"], d)
        if r0 or not r1:
            out.append("DEMO clean=%d bug=%d %s" % (r0, r1, (o0 if r0 else o1)[-400:]))
        env = {"PYTHONPATH": d + "/src", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1"}
        r, o = sh("%s -m pytest -q -x -p no:cacheprovider --no-cov --timeout=300 2>&1 | tail -4" % PY, d, env)
        if "401 passed" not in o and "failed" in o or "error" in o.lower():
            out.append("TESTS " + o[-300:])
        else:
            out.append(o.strip().splitlines()[-1][:60])
        ev = "/tmp/seed_ev_" + bid
        hit = []
        props = [b["prop"]] if not os.environ.get("ALL") else [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
        for pr in props:
            r, o = sh(["python3", "-m", "sa.run", pr, "--jobs", "3"], "/verif",
                      {"PYGMM_REPO": d, "SA_EVIDENCE": ev, "PYTHONDONTWRITEBYTECODE": "1"}, 900)
            if r:
                hit.append("%s(rc%d: %s)" % (pr, r, "".join(l.strip()[:150] for l in o.splitlines() if l.startswith("  ") and "undecided" not in l or "BROKEN" in l)[:200]))
        out.append("CAUGHT " + "; ".join(hit) if hit else "MISSED by " + ",".join(props))
        shutil.rmtree(ev, ignore_errors=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return bid, " | ".join(out)


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:] or list(bugs)
    with cf.ThreadPoolExecutor(4) as ex:
        for bid, res in ex.map(lambda i: one(i, bugs[i]), ids):
            print(bid, bugs[bid]["prop"], res, flush=True)


if __name__ == "__main__":
    main()
