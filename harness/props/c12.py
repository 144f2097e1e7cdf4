"""C12: second-order solution. MCSecond.tla builds nonlinear models around a chosen
second-order solution and proves by jets that it solves them."""
import numpy as np
import lin, second
from common import diff, raises, two_d
from props.c10 import check_first_order

TIMEOUT = 200.0
ASSUMPTIONS = ["models of at most 8 variables and 4 shocks (the larger ones put together from two smaller "
               "ones) with dyadic coefficients, variables in units that differ by factors of up to 2^17 (and by thirds); nonlinear terms are rendered as polynomials or as elementary functions with the same second-order expansion",
               "numerical agreement within 1e-6 relative"]


def cases(ctx):
    n = 260 if ctx.quick else 4000
    return lin.records(ctx, "MCSecond", {"What": "solve"}, n, n // 6, "so", ["Theorems", "Emit"])


def sample(c):
    return {"k": c["k"], "classes": c["ix"]["cls"], "equations": second.text_of(c, c["seed"]).exprs}


def coverage(cs):
    return {"class_assignments": len({tuple(c["ix"]["cls"]) for c in cs}),
            "without_states": sum(not c["bs"] for c in cs)}


def run(c):
    t = second.text_of(c, c["seed"])
    m = lin.build(t, c["seed"], c["k"])
    g = lin.Rng("c12", c["seed"], c["k"])
    how = g.next(3)
    if how == 0:
        e, s = raises(m.solve)
    elif how == 1:
        e, s = raises(m.solve, order=2)
    else:
        e, s = raises(lambda: m.solution)
    if e is not None:
        return "solvable model was rejected: %r\n%s" % (e, t.exprs)
    if s.order != 2:
        return "default order is %s" % s.order
    xx, xu, uu, d = second.expected(c)
    n, nb, mm = c["n"], len(c["bs"]), c["m"]
    sc = max(1.0, *[float(np.abs(x).max()) if x.size else 0 for x in (xx, xu, uu, d)])
    # the steady state is found to a precision that depends on the units of the variables
    tol = 1e-4 if any(c["units"]) else 1e-6
    msgs = [diff("ghxx", two_d(s.ghxx, n, nb * nb), xx, tol, sc),
            diff("ghxu", two_d(s.ghxu, n, nb * mm), xu, tol, sc),
            diff("ghuu", two_d(s.ghuu, n, mm * mm), uu, tol, sc),
            diff("del2 in units of the shocks' scale", np.ravel(s.del2) / 2.0 ** c["sc"], d, tol, sc)]
    l = s.lower_solution
    m.solve(order=1)
    check_first_order(m, c, msgs, "first order: ")
    f = m.solution
    msgs.append(diff("lower_solution.gy", l.gy, f.gy, 1e-9))
    msgs.append(diff("lower_solution.gu", l.gu, f.gu, 1e-9))
    msgs = [x for x in msgs if x]
    return "\n".join(msgs[:3] + [str(t.exprs), str(m.sigma)]) if msgs else None
