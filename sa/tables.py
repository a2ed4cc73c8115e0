"""Reader reproducing numpy.genfromtxt(names=True, delimiter=',') naming."""

DELETE = set("""~!@#$%^&*()-=+~\\|]}[{';: /?.>,<""")
EXCLUDE = {"return", "file", "print"}


def mangle(names):
    out = []
    seen = {}
    for i, n in enumerate(names):
        n = n.strip()
        n = n.replace(" ", "_")
        n = "".join(c for c in n if c not in DELETE)
        if n == "":
            n = "f%d" % i
        if n in EXCLUDE:
            n += "_"
        cnt = seen.get(n, 0)
        seen[n] = cnt + 1
        out.append(n + ("_%d" % cnt if cnt else ""))
    return out


def read_genfromtxt(path, skip):
    """({column: [floats]}, notes)"""
    notes = []
    with open(path, encoding="utf-8") as fh:
        lines = fh.read().split("\n")
    lines = lines[skip:]
    header = None
    rows = []
    for ln, line in enumerate(lines):
        if header is None:
            if not line.strip():
                continue
            first = line
            if "#" in first:
                first = "".join(first.split("#")[1:])
            if not first.strip():
                continue
            header = mangle([x for x in first.split(",")])
            continue
        line = line.split("#")[0]
        if not line.strip():
            continue
        vals = [x.strip() for x in line.split(",")]
        if len(vals) != len(header):
            notes.append("row %d has %d values for %d columns" % (len(rows), len(vals), len(header)))
            vals = (vals + [""] * len(header))[: len(header)]
        out = []
        for v in vals:
            try:
                out.append(float(v))
            except ValueError:
                out.append(float("nan"))
                notes.append("row %d: %r is not a number" % (len(rows), v))
        rows.append(out)
    if header is None:
        return {}, ["no header"]
    return {h: [r[i] for r in rows] for i, h in enumerate(header)}, notes
