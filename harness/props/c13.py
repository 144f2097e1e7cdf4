"""C13: first-order simulation. Every behaviour of MCSim.tla (kind "sim") is replayed."""
from fractions import Fraction
import numpy as np
import lin
from common import mat, vec, diff, raises, Rng, close

TIMEOUT = 90.0
ASSUMPTIONS = ["paths of at most five periods with exact expected values; drawn shocks are checked against the rule on "
               "long paths, and their covariance within eleven standard errors"]


def cases(ctx):
    n = 600 if ctx.quick else 9000
    return [c for c in lin.records(ctx, "MCSim", {"Kind": "sim"}, n, n // 6, "sim", ["Rational", "Rest", "Emit"])
            if c["ix"]["state"]]


def sample(c):
    return {"k": c["k"], "classes": c["ix"]["cls"], "shock_rows": c["z"], "path": c["path"]}


def coverage(cs):
    return {"simulated_steps": sum(len(c["path"]) - 1 for c in cs)}


def expected(c, t):
    yb = np.array([float(x) for x in t.ybar])
    return mat(c["path"]) + yb, yb


def run(c):
    t = lin.text_of(c, c["seed"])
    m = lin.build(t, c["seed"], c["k"])
    g = Rng("c13", c["seed"], c["k"])
    want, yb = expected(c, t)
    T = len(c["path"])
    # the last row of shocks hits no period of the path
    Z = np.zeros((T, c["m"]))
    Z[:T - 1] = mat(c["z"], c["m"])
    Z[T - 1] = [g.next(5) - 2 for _ in range(c["m"])]
    z0 = Z.copy()
    init = want[0].copy()
    start = np.allclose(init, yb) and g.next(2)
    kw = {} if start else {"init": init}
    if g.next(2):
        kw["periods"] = T + 3                       # ignored when shocks are given
    arg = Z[:, 0].copy() if c["m"] == 1 and g.next(2) else Z
    if g.next(2):
        m.solve(order=1)
    else:
        kw["order"] = 1
    e, s = raises(m.simulate, shocks=arg, **kw)
    if e is not None:
        return "simulate raised %r\n%s" % (e, t.exprs)
    scale = max(1.0, float(np.abs(want).max()))
    msgs = [diff("paths", s.paths, want, 1e-7, scale),
            diff("innovations", s.shocks, z0 @ lin.chol(c).T, 1e-9)]
    if not np.array_equal(Z, z0) or not np.array_equal(init, want[0]):
        msgs.append("the caller's arrays were changed")
    if s.order != 1 or s.periods != T:
        msgs.append("order %s, periods %s" % (s.order, s.periods))
    # again: nothing is remembered from one simulation to the next
    e, s2 = raises(m.simulate, shocks=z0, init=want[0])
    msgs.append(diff("second simulation", s2.paths, want, 1e-7, scale) if e is None else repr(e))
    # what is no covariance matrix is refused
    if c["m"] > 1 and g.next(3) == 0:
        t2 = lin.text_of(c, c["seed"])
        t2.S = [[Fraction(int(i == j)) for j in range(c["m"])] for i in range(c["m"])]
        i, j = g.shuffle(range(c["m"]))[:2]
        t2.S[i][j] = t2.S[j][i] = Fraction(g.pick([2, -3, 5]), 1)
        e, m2 = raises(lin.build, t2, c["seed"], c["k"])
        if e is None:
            e, s2 = raises(m2.simulate, **g.pick([{"periods": 3}, {"shocks": z0}]))
            if e is None:
                msgs.append("shocks with covariance %s were simulated" % m2.sigma)
    # drawn shocks
    G, Gu = mat(c["G"]), mat(c["Gu"], c["m"])
    P = 4000 if g.next(12) == 0 else 1 + g.next(9)
    np.random.seed(c["k"] + 1)
    dflt = P < 1000 and g.next(3) == 0
    e, d = raises(m.simulate, **({} if dflt else {"periods": P}))
    if e is not None:
        msgs.append("simulate(periods=%s): %r" % (P, e))
    else:
        P = 20 if dflt else P
        if d.paths.shape != (P, c["n"]):
            msgs.append("drawn path has shape %s, expected %s" % (d.paths.shape, (P, c["n"])))
        else:
            dv = d.paths - yb
            nxt = dv[:-1] @ G.T + d.shocks[:P - 1] @ Gu.T
            sc = max(1.0, float(np.abs(dv).max()))
            msgs.append(diff("drawn path, start", dv[0], 0 * yb, 1e-9))
            msgs.append(diff("drawn path against the rule", dv[1:], nxt, 1e-7, sc))
            if P >= 1000 and np.diag(lin.chol(c)).all():
                zz = d.shocks @ np.linalg.inv(lin.chol(c)).T
                cv = zz.T @ zz / P
                if np.abs(cv - np.eye(c["m"])).max() > 11 * np.sqrt(2.0 / P):
                    msgs.append("drawn shocks have covariance %s after standardising" % cv)
    msgs = [x for x in msgs if x]
    return "\n".join(msgs + [str(t.exprs), str(z0)]) if msgs else None
