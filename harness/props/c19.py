"""C19: variance decomposition. MCMoments.tla computes each shock's share exactly."""
import numpy as np
import lin
from common import mat, diff, raises, Rng

TIMEOUT = 90.0
ASSUMPTIONS = ["models of at most 5 variables, 3 shocks (or put together from two to four such) with dyadic coefficients, variables in units that differ by factors of up to 2^17 (and by thirds); shares compared within 1e-6; variables "
               "without variance have no shares and are not compared"]


def cases(ctx):
    n = 500 if ctx.quick else 7000
    return [c for c in lin.records(ctx, "MCMoments", {"Lags": 1}, n, n // 6, "dec", ["Theorems", "Emit"])
            if c["ix"]["state"]]


def sample(c):
    return {"k": c["k"], "classes": c["ix"]["cls"], "parts": c["parts"]}


def run(c):
    t = lin.text_of(c, c["seed"])
    m = lin.build(t, c["seed"], c["k"])
    g = Rng("c19", c["seed"], c["k"])
    parts = mat(c["parts"])
    tot = parts.sum(axis=1)
    pos = np.where(tot > 0)[0]
    with np.errstate(all="ignore"):
        share = parts / tot[:, None]
    how = g.next(3)
    if how:
        m.solve(order=how)
    msgs = []
    e, d = raises(m.stats.var_decomp)
    if e is not None:
        return "var_decomp raised %r\n%s" % (e, t.exprs)
    if np.shape(d) != share.shape:
        return "var_decomp has shape %s, expected %s" % (np.shape(d), share.shape)
    msgs.append(diff("shares", d[pos], share[pos], 1e-6))
    msgs.append(diff("row sums", d[pos].sum(axis=1), np.ones(len(pos)), 1e-9))
    # selections by name, in the requested order
    if len(pos):
        for rep in range(4):
            ei = g.shuffle(pos)[:1 + g.next(len(pos))]
            si = g.shuffle(range(c["m"]))[:1 + g.next(c["m"])]
            if g.next(2):
                si = list(range(c["m"]))
            ne, ns = [t.endog[i] for i in ei], [t.stoch[j] for j in si]
            kw = {}
            if rep != 1:
                kw["endog"] = ne[0] if len(ne) == 1 and g.next(2) else ne
            else:
                ei = list(range(c["n"]))
            if rep != 2:
                kw["stoch"] = ns[0] if len(ns) == 1 and g.next(2) else tuple(ns)
            else:
                si = list(range(c["m"]))
            e, d = raises(m.stats.var_decomp, **kw)
            w = share[np.ix_(ei, si)]
            if e is not None:
                msgs.append("var_decomp(%s) raised %r" % (kw, e))
            elif np.shape(d) != w.shape:
                msgs.append("var_decomp(%s) has shape %s, expected %s" % (kw, np.shape(d), w.shape))
            else:
                ok = [i for i, v in enumerate(ei) if tot[v] > 0]
                msgs.append(diff("var_decomp(%s)" % kw, d[ok], w[ok], 1e-6))
    for kw in ({"endog": ["no_such"]}, {"stoch": "no_such"}, {"endog": [t.endog[0], "no_such"]},
               {"endog": t.stoch[0]}, {"stoch": [t.endog[0]]}):
        e, d = raises(m.stats.var_decomp, **kw)
        if e is None:
            msgs.append("var_decomp(%s) was accepted" % kw)
    msgs = [x for x in msgs if x]
    return "\n".join(msgs[:4] + [str(t.exprs)]) if msgs else None
