"""Ownership (escape) analysis: every array or container handed out by a public
property, method or function is traced to the storage it can share memory with
(views, cached objects, instance attributes, module tables).  Sharing with a
shared coefficient table, with the model's own state, or with an argument the
caller passed in is a violation, because writing to the result would change
later results or the caller's data."""
from .common import *

LEVEL = "other"
FLOOR = {"fresh": 3000}


def units(w, tier):
    return model_units(w, tier, True) + free_units(w)


def reach(ip, v, arrs, objs, seen):
    """Arrays and containers reachable from a value."""
    if isinstance(v, Arr):
        arrs.append(v)
        return
    if isinstance(v, Gate):
        reach(ip, v.a, arrs, objs, seen)
        reach(ip, v.b, arrs, objs, seen)
    elif isinstance(v, Table):
        objs.append(v)
    elif isinstance(v, Tup):
        for x in v.items:
            reach(ip, x, arrs, objs, seen)
    elif isinstance(v, RecArr):
        for _, x in v.fields:
            reach(ip, x, arrs, objs, seen)
    elif isinstance(v, (ListV, SetV, DictV)):
        if v.addr in seen:
            return
        seen.add(v.addr)
        objs.append(v)
        for x in ip.get((v.addr, "i"), ()):
            if isinstance(v, DictV):
                x = x[1]
            reach(ip, x, arrs, objs, seen)
    elif isinstance(v, Inst):
        if v.addr in seen:
            return
        seen.add(v.addr)
        objs.append(v)
        for x in ip.attrs(v.addr).values():
            reach(ip, x, arrs, objs, seen)


def judge(w, val, inner, rep, construct, what, kwvals=()):
    ip = w.ip
    arrs, objs = [], []
    reach(ip, val, arrs, objs, set())
    istore, iobj = inner
    bad = False
    for a in arrs:
        for s in ip.storages(a):
            kind, desc = ip.sowner.get(s, ("case", ""))
            if kind == "shared":
                bad = True
                rep.fail("fresh", construct, "the result shares memory with shared data (%s)" % desc, construct, what)
            elif kind == "caller":
                bad = True
                rep.fail("fresh", construct, "the result shares memory with %s" % desc, construct, what)
            elif s in istore:
                bad = True
                rep.fail("fresh", construct, "the result shares memory with the model's own state (attribute %s)"
                         % istore[s], construct, what)
    for o in objs:
        if isinstance(o, Table):
            bad = True
            rep.fail("fresh", construct, "the result is the shared table %s" % o.name, construct, what)
            continue
        own = ip.owner.get(o.addr, ("case", ""))
        if own[0] == "shared" and isinstance(o, (ListV, DictV, SetV)):
            bad = True
            rep.fail("fresh", construct, "the result is a shared container (%s)" % own[1], construct, what)
        elif own[0] == "caller":
            bad = True
            rep.fail("fresh", construct, "the result is %s" % own[1], construct, what)
        elif o.addr in iobj:
            bad = True
            rep.fail("fresh", construct, "the result is the model's own object (attribute %s)" % iobj[o.addr],
                     construct, what)
    if not bad:
        rep.ok("fresh")


def internals(ip, m):
    st, ob = {}, {}
    for n, x in ip.attrs(m.addr).items():
        arrs, objs = [], []
        reach(ip, x, arrs, objs, set())
        for a in arrs:
            for s in ip.storages(a):
                st.setdefault(s, n)
        for o in objs:
            if not isinstance(o, Table):
                ob.setdefault(o.addr, n)
    return st, ob


def run(w, unit, rep, tier):
    ip = w.ip
    if unit[0] == "model":
        with get_case(w, unit, tier) as k:
            if k.m is None:
                return
            # arguments kept by the model must be copies
            for n, x in ip.attrs(k.m.addr).items():
                arrs, objs = [], []
                reach(ip, x, arrs, objs, set())
                for a in arrs:
                    for s in ip.storages(a):
                        if ip.sowner.get(s, ("case", ""))[0] == "caller":
                            rep.fail("fresh", "%s.%s" % (k.cls.name, "constructor"),
                                     "the model keeps %s without copying it" % ip.sowner[s][1], k.cls.name, k.label())
            for lab, val, exc, kw in api.observe(w, k):
                if exc is not None:
                    continue
                c = "%s.%s" % (k.cls.name, lab.split("(")[0])
                rep.inst(c)
                judge(w, val, internals(ip, k.m), rep, c, k.label() + "." + lab)
                rep.sample("%s.%s" % (k.label(), lab))
    else:
        f = next(x for x in frees(w) if x.label == unit[1])
        kw, v, exc = f.run(list(f.variants())[unit[3]])
        if exc is None:
            rep.inst(f.label)
            judge(w, v, ({}, {}), rep, f.label, "%s(%s)" % (f.label, api.describe(kw)))
