"""Developer tool (not a check): compares the analyser's value graphs with the
real package on random inputs.  Run with /opt/venv/bin/python."""
import os, sys, random, warnings, logging, math
sys.path.insert(0, "/verif")
sys.path.insert(0, os.environ.get("PYGMM_REPO", "/repo") + "/src")
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import numpy as np
np.seterr(all="ignore")
import pygmm, importlib
from sa.drive import *
from sa import numeval
from sa import graph as g

random.seed(int(os.environ.get("SEED", "1")))
w = World()
ip = w.ip
only = sys.argv[1:]
OBS = ["spec_accels", "ln_stds", "pga", "pgv", "pgd", "ln_std_pga", "ln_std_pgv", "ln_std_pgd", "periods",
       "duration", "std_err", "freqs", "ln_eas", "eas", "ln_std", "ratio", "duration_plus_sigma", "duration_minus_sigma",
       "d575_median", "d575_sigma"]
GEN = {"mag": (3, 8.2), "dist_rup": (1, 300), "dist_jb": (1, 300), "dist_x": (-50, 80), "dist_y0": (0, 50), "dist_hyp": (1, 300),
       "dist_epi": (1, 300), "depth_tor": (0, 12), "depth_hyp": (1, 30), "depth_bor": (8, 20), "depth_bot": (12, 20),
       "depth_1_0": (0.01, 1.5), "depth_2_5": (0.1, 6), "dip": (20, 90), "width": (3, 40), "v_s30": (150, 2100), "dpp_centered": (-3, 3),
       "dist_crjb": (0, 40), "pga_ref": (0.01, 1)}


def conc(v):
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if isinstance(v, Num):
        return numeval.evaluate(v.node, env)
    if isinstance(v, Arr):
        c = ip.content(v)
        if isinstance(c, D):
            r = [numeval.evaluate(x, env) for x in c.cells]
            return np.array(r, dtype=float).reshape(c.shape)
        r = numeval.evaluate(c.node, env)
        if c.shape is not None and not isinstance(r, list):
            return np.full(c.shape, r)
        return np.array(r, dtype=float)
    if isinstance(v, Gate):
        return conc(v.a if numeval.evaluate(v.cond, env) else v.b)
    if isinstance(v, Tup):
        return tuple(conc(x) for x in v.items)
    if isinstance(v, RecArr):
        return [conc(x) for _, x in v.fields]
    raise numeval.CannotEval(type(v).__name__)


bad = 0
for c in w.models:
    if only and c.name not in only:
        continue
    mod = importlib.import_module(c.mod)
    real = getattr(mod, c.name)
    sets = list(w.settings(c))
    n = ncmp = skip = mism = 0
    cant = {}
    ps = {p.name: p for p in w.params(c)}
    for vals in random.sample(sets, min(len(sets), int(os.environ.get("N", "12")))):
        rep = 0
        for rep in range(2):
            env = {"param": {}}
            kw = {}
            for k, v in vals.items():
                if isinstance(v, Num):
                    lo, hi = GEN[k]
                    p = ps[k]
                    if random.random() < .8:
                        lo = p.lo if p.lo is not None else lo
                        hi = p.hi if p.hi is not None else hi
                    x = random.uniform(lo, hi)
                    if random.random() < .15 and lo <= 0 <= hi:
                        x = 0.0
                    env["param"][k] = kw[k] = x
                else:
                    kw[k] = v
            n += 1
            rexc = None
            try:
                rm = real(pygmm.Scenario(**kw))
            except Exception as e:
                rexc = e
            with Case(w, c, vals) as k:
                if rexc is not None or k.exc:
                    if bool(rexc is not None) != bool(k.exc) or type(rexc).__name__ != k.exc.type:
                        mr = [e for e in k.effects() if e.kind == "may-raise"]
                        if not mr or k.exc:
                            print("EXC differs", c.name, kw, repr(rexc), k.exc, k.exc and k.exc.where)
                            bad += 1
                    continue
                for o in OBS:
                    rv = re = None
                    try:
                        rv = getattr(rm, o)
                    except Exception as e:
                        re = e
                    av, ae = k.get(o)
                    if re is not None or ae is not None:
                        if (re is None) != (ae is None) or type(re).__name__ != ae.type:
                            print("OBS EXC differs", c.name, o, repr(re), ae)
                            bad += 1
                        continue
                    try:
                        a = conc(av)
                    except numeval.CannotEval as e:
                        cant[(o, str(e)[:100])] = cant.get((o, str(e)[:100]), 0) + 1
                        continue
                    if isinstance(rv, np.recarray) or getattr(rv, "dtype", None) is not None and rv.dtype.names:
                        rv = [rv[nm] for nm in rv.dtype.names]
                    try:
                        r = np.asarray(rv, dtype=float)
                        a = np.asarray(a, dtype=float)
                        ok = r.shape == a.shape and np.allclose(r, a, rtol=1e-7, atol=1e-9, equal_nan=True)
                    except Exception as e:
                        ok = False
                        r = rv
                    ncmp += 1
                    if not ok:
                        mism += 1
                        bad += 1
                        if mism < 4:
                            print("MISMATCH", c.name, o, kw, getattr(r, "shape", None), getattr(a, "shape", None))
                            try:
                                i = np.argmax(np.abs(r - a))
                                print("   real", r.flat[i], "graph", a.flat[i], i)
                            except Exception as e:
                                print("  ", str(r)[:200], str(a)[:200])
    print("%-28s runs %d compared %d mismatches %d" % (c.name, n, ncmp, mism), cant or "")
print("bad", bad)
