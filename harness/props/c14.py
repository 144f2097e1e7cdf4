"""C14: second-order simulation. Behaviours of MCSecond.tla (What = "sim") are replayed."""
import numpy as np
import lin, second
from common import mat, vec, diff, raises, Rng

TIMEOUT = 200.0
ASSUMPTIONS = ["models of at most 8 variables; exact expected paths of up to five periods; longer drawn paths are compared with the rule of the "
               "specification evaluated in floating point"]


def cases(ctx):
    n = 260 if ctx.quick else 4000
    rs = lin.records(ctx, "MCSecond", {"What": "sim"}, n, n // 6, "ss", ["Theorems", "Emit"])
    return [c for c in rs if c["bs"]]


def sample(c):
    return {"k": c["k"], "classes": c["ix"]["cls"], "shock_rows": c["z"], "path": c["path"],
            "equations": second.text_of(c, c["seed"]).exprs}


def coverage(cs):
    return {"simulated_steps": sum(len(c["path"]) - 1 for c in cs),
            "from_the_steady_state": sum(not any(x[0] for x in c["path"][0]) for c in cs)}


def run(c):
    t = second.text_of(c, c["seed"])
    m = lin.build(t, c["seed"], c["k"])
    g = Rng("c14", c["seed"], c["k"])
    yb = np.array([float(x) for x in t.ybar])
    want = mat(c["path"]) + yb
    T, n, mm = len(c["path"]), c["n"], c["m"]
    Z = np.zeros((T, mm))
    Z[:T - 1] = mat(c["z"], mm)
    Z[T - 1] = [g.next(5) - 2 for _ in range(mm)]
    z0 = Z.copy()
    init = want[0].copy()
    kw = {} if np.allclose(init, yb) and g.next(2) else {"init": init}
    how = g.next(4)
    if how == 0:
        m.solve()
    elif how == 1:
        m.solve(order=2)
    elif how == 2:
        m.solve(order=1)
        kw["order"] = 2
    arg = Z[:, 0].copy() if mm == 1 and g.next(2) else Z
    e, s = raises(m.simulate, shocks=arg, **kw)
    if e is not None:
        return "simulate raised %r\n%s" % (e, t.exprs)
    sc = max(1.0, float(np.abs(want).max()))
    # the steady state is found to a precision that depends on the units of the variables
    tol = 1e-4 if any(c["units"]) else 1e-6
    msgs = [diff("paths", s.paths, want, tol, sc), diff("innovations", s.shocks, z0 @ lin.chol(c).T, 1e-9)]
    if s.order != 2 or s.periods != T:
        msgs.append("order %s, periods %s" % (s.order, s.periods))
    if not np.array_equal(Z, z0) or not np.array_equal(init, want[0]):
        msgs.append("the caller's arrays were changed")
    # the rule of the specification along a drawn path and along an impulse
    G, Gu = mat(c["G"]), mat(c["Gu"], mm)
    Q = np.array([mat(x) for x in c["Q"]]).reshape(n, len(c["bs"]) + mm, -1)
    dl = vec(c["del"])
    b = [i - 1 for i in c["bs"]]

    def rule(y, u):
        w = np.concatenate([y[b], u])
        return G @ y + Gu @ u + dl + np.einsum("iab,a,b->i", Q, w, w)
    np.random.seed(c["k"] + 5)
    P = 2 + g.next(8)
    e, d = raises(m.simulate, periods=P, shocks=0.125 * np.random.standard_normal((P, mm)))
    if e is not None:
        msgs.append("simulate: %r" % e)
    else:
        dv = d.paths - yb
        msgs.append(diff("path from the steady state, start", dv[0], 0 * yb, 1e-9))
        for p in range(1, P):
            w = rule(dv[p - 1], d.shocks[p - 1])
            if not np.all(np.isfinite(w)) or np.abs(w).max() > 1e6:
                break
            x = diff("period %d against the rule" % p, dv[p], w, tol, max(1.0, float(np.abs(w).max())))
            if x:
                msgs.append(x)
                break
    e, d = raises(m.simulate, periods=3)
    if e is not None or d.paths.shape != (3, n):
        msgs.append("simulate(periods=3): %r" % (e or d.paths.shape,))
    else:
        dv = d.paths - yb
        w = rule(dv[0], d.shocks[0])
        msgs.append(diff("drawn path, period 1", dv[1], w, tol, max(1.0, float(np.abs(w).max()))))
    # impulse: size standard deviations once, the constant in every period
    i = g.next(mm)
    size = g.pick([1, -1, 0.5, 2])
    e, r = raises(m.impulse_response, t.stoch[i], 4, size)
    if e is not None:
        msgs.append("impulse_response: %r" % e)
    else:
        y, u = np.zeros(n), size * lin.chol(c)[:, i]
        out = [y]
        for p in range(3):
            y = rule(y, u)
            u = 0 * u
            out.append(y)
        out = np.array(out)
        if np.abs(out).max() < 1e6:
            msgs.append(diff("impulse response", r.impulse, out, tol, max(1.0, float(np.abs(out).max()))))
    # first order afterwards: the first-order rule again
    e, s1 = raises(m.simulate, shocks=z0, init=init, order=1)
    if e is not None:
        msgs.append("simulate(order=1): %r" % e)
    else:
        y = init - yb
        out = [y]
        for p in range(T - 1):
            y = G @ y + Gu @ (lin.chol(c) @ z0[p])
            out.append(y)
        out = np.array(out) + yb
        msgs.append(diff("first-order path", s1.paths, out, tol, max(1.0, float(np.abs(out).max()))))
    msgs = [x for x in msgs if x]
    return "\n".join(msgs[:4] + [str(t.exprs), str(z0)]) if msgs else None
