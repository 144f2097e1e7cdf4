"""C10: first-order solution. MCLin.tla builds models whose unique stable solution it has
proved (SolvesModel) and prints them; the real solution must be that one."""
import numpy as np
import lin
from common import mat, diff, raises, two_d, Rng

TIMEOUT = 60.0
ASSUMPTIONS = ["models of at most 5 variables and 3 shocks, or 20 and 12 put together from such, with dyadic coefficients, variables in units that differ by factors of up to 2^17 (and by thirds); eigenvalues of modulus "
               "at most 0.91 or exactly one on the stable side and at least 1.1 on the other",
               "numerical agreement within 1e-7 relative"]


def cases(ctx):
    n = 700 if ctx.quick else 12000
    return lin.records(ctx, "MCLin", {"Mode": "solvable"}, n, n // 5, "lin", ["Theorems", "Emit"])


def sample(c):
    return {"k": c["k"], "classes": c["ix"]["cls"], "shocks": c["m"], "equations": lin.text_of(c, c["seed"]).exprs}


def coverage(cs):
    return {"class_assignments": len({tuple(c["ix"]["cls"]) for c in cs})}


def check_first_order(m, c, msgs, tag=""):
    G, Gu = mat(c["G"]), mat(c["Gu"], c["m"])
    dr = [i - 1 for i in c["ix"]["dr"]]
    st = [i - 1 for i in c["ix"]["state"]]
    sol = m.solution
    want = G[np.ix_(dr, st)]
    got = two_d(sol.gy, len(dr), len(st))
    msgs.append(diff(tag + "gy", got, want, 1e-7))
    msgs.append(diff(tag + "gu", two_d(sol.gu, len(dr), c["m"]), Gu[dr], 1e-7))
    a = sol.arrays
    msgs.append(diff(tag + "arrays", two_d(a[0], len(dr), len(st)), want, 1e-7))


def run(c):
    t = lin.text_of(c, c["seed"])
    m = lin.build(t, c["seed"], c["k"])
    e, s = raises(m.solve, order=1)
    if e is not None:
        return "solvable model was rejected: %r\n%s" % (e, t.exprs)
    msgs = []
    check_first_order(m, c, msgs)
    if s is not m.solution or s.order != 1:
        msgs.append("solve(order=1) does not return the stored first-order solution")
    msgs = [x for x in msgs if x]
    return "\n".join(msgs + [str(t.exprs)]) if msgs else None
