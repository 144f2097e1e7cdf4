"""C15: impulse responses. Behaviours of MCSim.tla (kind "irf") are replayed."""
import numpy as np
import lin
from common import mat, vec, diff, raises, Rng, f

TIMEOUT = 90.0
ASSUMPTIONS = ["exact expected responses for up to five periods, the policy rule of the specification beyond that",
               "at second order the response is compared with the simulation of the same impulse (C14 decides that one)"]


def cases(ctx):
    n = 500 if ctx.quick else 8000
    return [c for c in lin.records(ctx, "MCSim", {"Kind": "irf"}, n, n // 6, "irf", ["Rational", "Homogeneous", "Emit"])
            if c["ix"]["state"]]


def sample(c):
    return {"k": c["k"], "classes": c["ix"]["cls"], "shock": c["i"], "size": c["size"], "path": c["path"]}


def run(c):
    t = lin.text_of(c, c["seed"])
    m = lin.build(t, c["seed"], c["k"])
    g = Rng("c15", c["seed"], c["k"])
    m.solve(order=1)
    G, Gu = mat(c["G"]), mat(c["Gu"], c["m"])
    T = len(c["path"])
    want = mat(c["path"])
    size = f(c["size"])
    name = t.stoch[c["i"] - 1]

    def extended(first, periods):
        p = np.zeros((periods, c["n"]))
        if periods > 1:
            p[1] = first
        for s in range(2, periods):
            p[s] = G @ p[s - 1]
        return p
    msgs = []
    e, r = raises(m.impulse_response, name, T, size)
    if e is not None:
        return "impulse_response(%r, %s, %s) raised %r\n%s" % (name, T, size, e, t.exprs)
    sc = max(1.0, float(np.abs(want).max()))
    msgs.append(diff("response to %s of size %s" % (name, size), r.impulse, want, 1e-7, sc))
    if r.periods != T or r.size != size:
        msgs.append("periods %s size %s" % (r.periods, r.size))
    # defaults
    first = Gu @ lin.chol(c)[:, 0]
    e, r = raises(m.impulse_response)
    w = extended(first, 20)
    msgs.append(repr(e) if e else diff("default response", r.impulse, w, 1e-7, max(1.0, np.abs(w).max())))
    # the same by keyword, all shocks, several sizes: proportional to the size
    for j in range(c["m"]):
        first = Gu @ lin.chol(c)[:, j]
        sz = g.pick([1, -2, 3, 0.5])
        p = 1 + g.next(6)
        e, r = raises(m.impulse_response, exog=t.stoch[j], periods=p, size=sz)
        w = extended(sz * first, p)
        msgs.append(repr(e) if e else diff("response to %s (size %s)" % (t.stoch[j], sz), r.impulse, w, 1e-7,
                                           max(1.0, np.abs(w).max())))
    e, r = raises(m.impulse_response, "no_such_shock")
    if e is None:
        msgs.append("a response to an unknown shock was computed")
    if c["n"] and g.next(2):
        e, r = raises(m.impulse_response, t.endog[0])
        if e is None:
            msgs.append("a response to an endogenous variable was computed")
    if m.solution_order != 1:
        msgs.append("asking for a response changed the stored solution to order %s" % m.solution_order)
    # second order: one impulse of the same kind from the steady state
    e, _ = raises(m.solve, order=2)
    if e is None:
        e, r = raises(m.impulse_response, name, T, size)
        Z = np.zeros((T, c["m"]))
        Z[0, c["i"] - 1] = size
        e2, s = raises(m.simulate, shocks=Z)
        if e or e2:
            msgs.append("second order: %r %r" % (e, e2))
        else:
            yb = np.array([float(x) for x in t.ybar])
            msgs.append(diff("second-order response", r.impulse, s.paths - yb, 1e-9))
    else:
        msgs.append("solve(order=2): %r" % e)
    msgs = [x for x in msgs if x]
    return "\n".join(msgs + [str(t.exprs)]) if msgs else None
