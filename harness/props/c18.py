"""C18: theoretical means. MCSecond.tla (What = "mean") gives the exact mean deviations."""
import numpy as np
import lin, second
from common import vec, diff, raises, Rng

TIMEOUT = 200.0
ASSUMPTIONS = ["models of at most 8 variables whose stationary state covariance has representable rational entries"]


def cases(ctx):
    n = 700 if ctx.quick else 9000
    rs = lin.records(ctx, "MCSecond", {"What": "mean"}, n, n // 6, "me", ["Theorems", "Emit"])
    return [c for c in rs if c["bs"]]


def sample(c):
    return {"k": c["k"], "classes": c["ix"]["cls"], "mean_deviation": c["mean"],
            "equations": second.text_of(c, c["seed"]).exprs}


def coverage(cs):
    return {"class_assignments": len({tuple(c["ix"]["cls"]) for c in cs}),
            "with_correlated_shocks": sum(any(c["S"][i][j][0] for i in range(c["m"]) for j in range(i)) for c in cs)}


def run(c):
    t = second.text_of(c, c["seed"])
    m = lin.build(t, c["seed"], c["k"])
    g = Rng("c18", c["seed"], c["k"])
    yb = np.array([float(x) for x in t.ybar])
    # in units of the scale of the shocks, as precisely as the steady state allows
    lam = 2.0 ** c["sc"]
    want = vec(c["mean"])
    sc = max(1.0, float(np.abs(want).max()))
    tol = (1e-4 if any(c["units"]) else 1e-6) + 1e-14 / lam * float(np.abs(yb).max())
    msgs = []
    if g.next(2):
        m.solve(order=2)
    e, v = raises(m.stats.mean)
    msgs.append("mean: %r" % e if e else diff("mean at second order", (v - yb) / lam, want, tol, sc))
    if m.solution_order != 2:
        msgs.append("order %s" % m.solution_order)
    e, v = raises(m.stats.mean)
    msgs.append("mean again: %r" % e if e else diff("mean asked again", (v - yb) / lam, want, tol, sc))
    m.solve(order=1)
    e, v = raises(m.stats.mean)
    msgs.append("mean: %r" % e if e else diff("mean at first order", v, yb, 1e-6))
    m.solve(order=2)
    e, v = raises(m.stats.mean)
    msgs.append("mean: %r" % e if e else diff("mean at second order, later", (v - yb) / lam, want, tol, sc))
    msgs = [x for x in msgs if x]
    return "\n".join(msgs + [str(t.exprs), str(m.sigma)]) if msgs else None
