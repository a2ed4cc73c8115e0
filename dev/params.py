"""Writes sa/spec/params.json, the published input ranges, from the current tree (reviewed by hand)."""
import json
import sys

sys.path.insert(0, "/verif")
from sa.drive import World  # noqa: E402
from sa.values import MISSING  # noqa: E402

w = World()
none = lambda v: None if v is MISSING else v
out = {}
for c in w.models:
    out[c.name] = {p.name: dict(kind=p.kind, required=p.required, default=none(p.default), lo=p.lo, hi=p.hi, options=p.options)
                   for p in w.params(c)}
with open("/verif/sa/spec/params.json", "w") as f:
    f.write("{\n" + ",\n".join('"%s": {\n%s\n}' % (c, ",\n".join(' "%s": %s' % (n, json.dumps(v)) for n, v in d.items()))
                               for c, d in sorted(out.items())) + "\n}\n")
