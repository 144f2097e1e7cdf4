"""C08: derivatives. The symbolic derivatives of Fun.tla (checked there against exact two-jets) are compared
with the Jacobians and the Hessian of the real model, entry by entry in the documented layout."""
import numpy as np
import fun, lin
from common import Rng, vec, diff, raises

TIMEOUT = 60.0
ASSUMPTIONS = ["equations of up to 13 tokens over three variables, two shocks and two parameters; expressions that are "
               "not smooth at the steady state are not used"]


def cases(ctx):
    n = 900 if ctx.quick else 12000
    r = ctx.tlc("MCFun", {"Seed": ctx.seed + 1, "First": 0, "Last": n - 1, "Derivs": True},
                invariants=["Theorems", "Emit"], spec="Spec")
    out = []
    for c in r.records:
        c.update(id="dv-%d-%d" % (ctx.seed, c["k"]), seed=ctx.seed)
        x0, p = vec(c["x0"]), vec(c["params"])
        try:
            fun.resid(c, x0, p)
            J, H = fun.derivs(c, x0, p)
        except fun.Undefined:
            continue
        if fun.regular(J, c["n"]):
            out.append(c)
    return out


def sample(c):
    return {"k": c["k"], "equations": fun.text_of(c, "dv").exprs, "slots": c["slots"]}


def coverage(cs):
    nz = sum(1 for c in cs for h in c["hes"] for x in h if x[2] != ["N", 0, 1])
    return {"equations": sum(c["n"] for c in cs), "second_derivatives_that_are_not_identically_zero": nz}


def expected(c, p):
    n, m = c["n"], c["m"]
    x0 = vec(c["x0"])
    J, H = fun.derivs(c, x0, p)
    en, st = fun.order(c)
    cols = [s - 1 for s in en + st]
    Jd = J[:, cols]
    Hd = H[:, cols][:, :, cols].reshape(n, -1)
    Js = sum(J[:, o:3 * n:3] for o in range(3))
    return Jd, Hd, Js


def run(c):
    t = fun.text_of(c, "dv")
    e, m = raises(lin.build, t, c["seed"], c["k"])
    if e is not None:
        return "the model was rejected: %r\n%s" % (e, t.exprs)
    g = Rng("c08", c["seed"], c["k"])
    p = vec(c["params"])
    Jd, Hd, Js = expected(c, p)
    yb = np.array([float(x) for x in t.ybar])
    msgs = [diff("steady state", m.ss.values, yb, 1e-9)]
    todo = [("Jacobian", lambda: m.jacobian.array, Jd), ("Hessian", lambda: m.hessian.array, Hd),
            ("static Jacobian", lambda: m.steady_repr.jacobian.array, Js)]
    for name, get, want in g.shuffle(todo) + todo[:1]:
        e, got = raises(get)
        if e is not None:
            msgs.append("%s raised %r" % (name, e))
        else:
            msgs.append(diff(name, got, want, 1e-7, max(1.0, float(np.abs(want).max()))))
    for name, get, want in (("dynamic_repr.jacobian", lambda: m.dynamic_repr.jacobian.array, Jd),
                            ("dynamic_repr.hessian", lambda: m.dynamic_repr.hessian.array, Hd),
                            ("ss.jacobian", lambda: m.ss.jacobian.array, Js)):
        e, got = raises(get)
        msgs.append("%s raised %r" % (name, e) if e is not None
                    else diff(name, got, want, 1e-7, max(1.0, float(np.abs(want).max()))))
    msgs = [x for x in msgs if x]
    return "\n".join(msgs[:3] + [str(t.exprs), str(t.params)]) if msgs else None
