"""Which planted changes touch only lines of the original repository (development aid)."""
import os, re, subprocess, sys
base = subprocess.run("git -C /repo log --format=%h --reverse".split(), capture_output=True, text=True).stdout.split()[0]
root = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
for b in sys.argv[1:] or sorted(os.listdir(root)):
    f, ln, bad = None, 0, []
    for l in open(os.path.join(root, b, "patch.diff")):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            h = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--abbrev=6", "-L%d,%d" % (ln, ln), f], capture_output=True, text=True).stdout
            if not h.lstrip("^").startswith(base[:6]):
                bad.append(h.strip()[:90])
            ln += 1
        elif l.startswith(" "):
            ln += 1
    print(b, "ok" if not bad else bad)
