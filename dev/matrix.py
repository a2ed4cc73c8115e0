"""Which checks catch which planted changes (development aid): `python3 dev/matrix.py [id ...] [Cxx ...]`.

Applies each seeded change to a scratch copy of /repo and runs the checks on it."""
import os
import shutil
import subprocess
import sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a[0] == "C"] or sorted(os.listdir(root + "/seeded"))
checks = [a for a in sys.argv[1:] if a[0] == "C"] or ["C%02d" % i for i in list(range(1, 14)) + [17, 18] + list(range(30, 41))]
d = "/tmp/matrix_tree"
for b in ids:
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    subprocess.run(["git", "apply", "%s/seeded/%s/patch.diff" % (root, b)], cwd=d, check=True)
    got = []
    for c in checks:
        env = dict(os.environ, PYGMM_REPO=d, SA_EVIDENCE="/tmp/matrix_ev")
        r = subprocess.run([sys.executable, "-m", "sa.run", c], cwd=root, env=env, capture_output=True, text=True)
        if r.returncode:
            got.append(c if r.returncode == 1 else "%s(rc%d)" % (c, r.returncode))
    print(b, " ".join(got), flush=True)
shutil.rmtree(d, ignore_errors=True)
shutil.rmtree("/tmp/matrix_ev", ignore_errors=True)
