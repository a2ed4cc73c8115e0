"""Check runner: collects obligations from a rule, compares the findings with
the committed known findings, writes evidence and replay files."""
import collections
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

from .drive import World, AnalysisError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.txt")


class Report:
    """Findings of one unit of work; plain data only."""

    def __init__(self):
        self.obl = collections.Counter()     # rule -> obligations decided
        self.bad = []                        # violations
        self.open = collections.Counter()    # rule/reason -> left undecided
        self.samples = []
        self.insts = set()                   # analysed constructs
        self.facts = set()                   # (key, plain value) pairs collected for finish()

    def ok(self, rule, n=1):
        self.obl[rule] += n

    def fail(self, rule, construct, msg, where=None, case=None):
        self.obl[rule] += 1
        self.bad.append({"rule": rule, "construct": construct, "msg": msg, "where": where or "", "case": case or ""})

    def require(self, cond, rule, construct, msg, where=None, case=None):
        if cond:
            self.ok(rule)
        else:
            self.fail(rule, construct, msg, where, case)
        return bool(cond)

    def undecided(self, rule, why):
        self.open["%s: %s" % (rule, why)] += 1

    def inst(self, x):
        self.insts.add(x)

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def merge(self, o):
        self.obl.update(o.obl)
        self.bad.extend(o.bad)
        self.open.update(o.open)
        self.samples.extend(o.samples)
        self.insts |= o.insts
        self.facts |= o.facts


_ctx = {}
#: seconds for a unit and for all units; what is not decided by then is left undecided
UNIT = {"quick": 240, "thorough": 1800}
LIMIT = {"quick": 780, "thorough": 6 * 3600}


class Late(BaseException):
    pass


def _late(*a):
    raise Late()


def _work(i):
    rule, w, units, tier = _ctx["rule"], _ctx["w"], _ctx["units"], _ctx["tier"]
    rep = Report()
    left = _ctx.get("end", 1e18) - time.time()
    if left < 5:
        rep.undecided("engine", "unit %r not reached within the time limit" % (units[i],))
        return rep, None, set(), {}
    ip = w.ip
    m = ip.mark()
    n0 = len(ip.effects)
    t0 = set(ip.touched)
    u0 = dict(ip.unknowns)
    try:
        if left < 1e9:
            signal.signal(signal.SIGALRM, _late)
            signal.alarm(int(max(1, min(left, UNIT[tier]))))
        rule.run(w, units[i], rep, tier)
    except AnalysisError as e:
        return rep, "anchor: %s" % e, set(), {}
    except Late:
        rep.undecided("engine", "unit %r not decided within the time limit" % (units[i],))
    except Exception:
        tb = traceback.format_exc()
        rep.undecided("engine", "unit %r not analysed: %s" % (units[i], tb.strip().splitlines()[-1][:160]))
        if os.environ.get("SA_DEBUG"):
            print(tb, file=sys.stderr)
    finally:
        signal.alarm(0)
        ip.rollback(m)
        del ip.effects[n0:]
        del ip.path[:]
        ip.pathset.clear()
        ip.stmt_marks[:] = [0]
    unk = {k: v - u0.get(k, 0) for k, v in ip.unknowns.items() if v != u0.get(k, 0)}
    return rep, None, ip.touched - t0, unk


def load_known():
    """[(status, property, key)] — key is "rule | construct"."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                rest = line[len("KNOWN-FINDING:"):].strip()
                prop, rest = rest.split(None, 1)
                key, _, why = rest.partition(" :: ")
                out.append((prop.split("=", 1)[1], key.strip(), why.strip()))
    return out


def main(rule, pid, tier, jobs=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    edir = os.environ.get("SA_EVIDENCE") or os.path.join(HERE, "evidence")
    old = os.path.join(edir, "replay", pid + ".txt")
    if os.path.exists(old):
        os.remove(old)
    os.makedirs(os.path.join(edir, "replay"), exist_ok=True)
    try:
        w = World()
        units = list(rule.units(w, tier))
    except AnalysisError as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    _ctx.update(rule=rule, w=w, units=units, tier=tier, end=t0 + LIMIT[tier])
    total = Report()
    touched = set(w.ip.touched)
    unk = collections.Counter(w.ip.unknowns)
    broken = None
    jobs = jobs or min(8, os.cpu_count() or 1)
    if jobs > 1 and len(units) > 1:
        with mp.get_context("fork").Pool(jobs) as pool:
            results = pool.imap(_work, range(len(units)), chunksize=max(1, min(8, len(units) // (jobs * 6))))
            results = list(results)
    else:
        results = [_work(i) for i in range(len(units))]
    for rep, err, tch, u in results:
        total.merge(rep)
        touched |= tch
        unk.update(u)
        broken = broken or err
    if broken:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, broken))
        return 2
    if hasattr(rule, "finish"):
        rule.finish(w, total, tier)
    # group findings by rule and construct
    groups = collections.OrderedDict()
    for b in sorted(total.bad, key=lambda b: (b["rule"], b["construct"])):
        groups.setdefault((b["rule"], b["construct"]), []).append(b)
    known = {key: why for p, key, why in load_known() if p == pid}
    viol, listed = [], []
    for (r, c), bs in groups.items():
        key = "%s | %s" % (r, c)
        if key in known:
            listed.append((key, bs))
        else:
            viol.append((key, bs))
    nobl = sum(total.obl.values())
    floor = getattr(rule, "FLOOR", {})
    low = []
    for r, n in floor.items():
        if total.obl.get(r, 0) < n:
            low.append("%s: %d obligations, at least %d expected" % (r, total.obl.get(r, 0), n))
    for key, bs in listed:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, key, bs[0]["msg"]))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(rule, "LEVEL", "other"),
        "coverage": {
            "explanation": rule.__doc__.strip(),
            "obligations": nobl,
            "discharged": nobl - sum(len(b) for _, b in viol) - sum(len(b) for _, b in listed),
            "obligations_by_rule": dict(sorted(total.obl.items())),
            "undecided": dict(total.open.most_common(40)),
            "units": len(units),
            "constructs_analysed": len(total.insts),
            "functions_analysed": len(touched),
            "functions": sorted("%s:%s" % t[:2] if isinstance(t, tuple) else str(t) for t in touched)[:400],
            "unmodelled_constructs": dict(unk.most_common(20)),
            "known_findings": [k for k, _ in listed],
            "samples": total.samples[:6],
            "checker_cmd": "python3 -m sa.run %s" % pid,
            "trusted_base": ["the abstract semantics in /verif/sa (Python, numpy and scipy models)"],
        },
        "assumptions": getattr(rule, "ASSUMES", []),
        "violations": len(viol),
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d units, %d obligations, %d violations, %d known, %d undecided, %.1f s" % (
        pid, tier, len(units), nobl, len(viol), len(listed), sum(total.open.values()), time.time() - t0))
    for r, n in total.open.most_common(5):
        print("  undecided %dx %s" % (n, r))
    if viol:
        path = os.path.join(edir, "replay", pid + ".txt") if os.environ.get("SA_EVIDENCE") else os.path.join(
            "evidence", "replay", pid + ".txt")
        with open(os.path.join(HERE, path), "w") as f:
            for key, bs in viol:
                f.write("%s\n" % key)
                for b in bs[:5]:
                    f.write("   at %s\n   in %s\n   %s\n" % (b["where"], b["case"], b["msg"]))
                if len(bs) > 5:
                    f.write("   ... and %d more\n" % (len(bs) - 5))
        for key, bs in viol[:12]:
            print("  %s at %s in %s: %s" % (key, bs[0]["where"], bs[0]["case"], bs[0]["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if low:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, "; ".join(low)))
        return 2
    return 0
