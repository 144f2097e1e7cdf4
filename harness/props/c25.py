"""C25: sample statistics of simulated paths. MCSample.tla generates paths and exact statistics."""
import numpy as np
import lin
from common import q, mat, raises, diff, Rng

TIMEOUT = 60.0
ASSUMPTIONS = ["paths of at most eight periods and three variables; entries that are undefined (a constant series, no overlapping "
               "periods) are not judged"]


def cases(ctx):
    n = 900 if ctx.quick else 14000
    r = ctx.tlc("MCSample", {"Seed": ctx.seed, "First": 0, "Last": n - 1}, spec="Spec",
                invariants=["Running", "Bounded", "Shift", "Emit"])
    return [dict(c, id="smp-%d-%d" % (ctx.seed, c["k"]), seed=ctx.seed) for c in r.records]


def sample(c):
    return {k: c[k] for k in ("k", "path", "drop", "lags", "cov")}


def coverage(cs):
    return {"rejected_requests": sum(c["badLags"] for c in cs), "with_dropped_periods": sum(c["drop"] > 0 for c in cs)}


_models = {}


def world(n, seed):
    """a model whose path can be steered anywhere: v = a v(-1) + own shock"""
    import pynare
    if (n, seed) not in _models:
        g = Rng("c25", n, seed)
        en, ex = lin.names(g, n, n)
        a = [[0.5, -0.25, 0.75, 0.0][g.next(3 if i == 0 else 4)] for i in range(n)]
        ss = [g.next(5) - 2 for _ in range(n)]
        exprs = ["%s - %s = %s*(%s(-1) - %s) + %s" % (v, "(%d)" % s, x, v, "(%d)" % s, e) for v, s, x, e in zip(en, ss, a, ex)]
        order = g.shuffle(range(n))
        m = pynare.Model(endog=en, stoch=ex, exprs=[exprs[i] for i in order], initial=dict(zip(en, map(float, ss))))
        m.solve(order=1)
        _models[n, seed] = (m, np.array(a), np.array(ss, dtype=float), en)
    return _models[n, seed]


def run(c):
    g = Rng("c25", c["seed"], c["k"])
    n = c["n"]
    m, a, ss, en = world(n, c["k"] % 7)
    P = mat(c["path"])
    T = len(P)
    d = P - ss
    Z = np.zeros((T, n))
    Z[:T - 1] = d[1:] - a * d[:-1]
    e, s = raises(m.simulate, shocks=Z, init=P[0].copy())
    if e is not None:
        return "simulate raised %r" % e
    if not np.allclose(s.paths, P, atol=1e-7):
        return diff("paths", s.paths, P, 1e-7)
    before = s.paths.copy()
    msgs = []
    drop, p = c["drop"], c["lags"]
    calls = ["corr", "autocorr"] if g.next(2) else ["autocorr", "corr", "autocorr"]
    for what in calls:
        kw = {} if drop == 0 and g.next(2) else {"drop": drop}
        if what == "corr":
            e, r = raises(s.corr, **kw)
            bad = c["badDrop"]
        else:
            dflt = p == 5 and g.next(2)
            e, r = raises(s.autocorr, **(kw if dflt else dict(kw, p=p)))
            bad = c["badLags"]
        if bad:
            if e is None:
                msgs.append("%s(drop=%s, p=%s) of %d periods was answered" % (what, drop, p, T))
            elif not isinstance(e, ValueError):
                msgs.append("%s(drop=%s, p=%s) raised %r" % (what, drop, p, e))
            continue
        if e is not None:
            if drop < T:
                msgs.append("%s(drop=%s, p=%s) of %d periods raised %r" % (what, drop, p, T, e))
            continue
        if drop >= T:
            continue
        V = [q(c["cov"][j][j]) for j in range(n)]
        if list(r.index) != en:
            msgs.append("%s: rows are labelled %s, variables are %s" % (what, list(r.index), en))
            continue
        if what == "corr":
            if list(r.columns) != en or r.shape != (n, n):
                msgs.append("corr: columns are %s" % list(r.columns))
                continue
            for i in range(n):
                for j in range(n):
                    if V[i] and V[j]:
                        w = float(q(c["cov"][i][j])) / float(V[i] * V[j]) ** 0.5
                        x = float(r.loc[en[i], en[j]])
                        if not abs(x - w) < 1e-6:
                            msgs.append("corr(drop=%d) of %s and %s is %r, expected %r" % (drop, en[i], en[j], x, w))
        else:
            if list(r.columns) != ["k_%d" % (i + 1) for i in range(p)]:
                msgs.append("autocorr: columns are %s" % list(r.columns))
                continue
            for i in range(n):
                for h in range(len(c["acov"][i])):
                    if V[i]:
                        w = float(q(c["acov"][i][h]) / V[i])
                        x = float(r.loc[en[i], "k_%d" % (h + 1)])
                        if not abs(x - w) < 1e-6:
                            msgs.append("autocorr(p=%d, drop=%d) of %s at lag %d is %r, expected %r" % (p, drop, en[i], h + 1, x, w))
    if not np.array_equal(s.paths, before):
        msgs.append("the statistics changed the paths")
    return "\n".join(msgs + [str(P)]) if msgs else None
