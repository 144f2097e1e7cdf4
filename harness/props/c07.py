"""C07: residuals. MCFun.tla writes equations token by token; the real model's dynamic and static
representations are evaluated at the specification's points."""
import numpy as np
import fun, lin
from common import Rng, q, vec, diff, raises

TIMEOUT = 60.0
ASSUMPTIONS = ["equations of up to 13 tokens over three variables, two shocks and two parameters; points in [-1/2, 1/2] "
               "around the steady state; expressions that are undefined at a point are not used"]


def cases(ctx):
    n = 900 if ctx.quick else 20000
    r = ctx.tlc("MCFun", {"Seed": ctx.seed, "First": 0, "Last": n - 1, "Derivs": True},
                invariants=["Theorems", "Emit"], spec="Spec")
    out = []
    for c in r.records:
        c.update(id="fn-%d-%d" % (ctx.seed, c["k"]), seed=ctx.seed)
        x0, p, p2 = vec(c["x0"]), vec(c["params"]), vec(c["params2"])
        if not fun.defined(c, [(x0, p), (x0, p2)] + [(vec(x), z) for x in c["points"] for z in (p, p2)]):
            continue
        try:
            J, J2 = (fun.derivs(dict(c, hes=[[]] * c["n"]), x0, z)[0] for z in (p, p2))
        except fun.Undefined:
            continue
        if fun.regular(J, c["n"]) and fun.regular(J2, c["n"]):
            c.pop("hes"), c.pop("jac")
            out.append(c)
    return out


def sample(c):
    return {"k": c["k"], "equations": fun.text_of(c).exprs, "slots": c["slots"]}


def coverage(cs):
    fs = set()

    def walk(t):
        if t[0] == "F":
            fs.add(t[1])
        elif t[0] == "b":
            fs.add(t[1])
        for x in t[1:]:
            if isinstance(x, list):
                walk(x)
    for c in cs:
        for e in c["eqs"]:
            walk(e[0]), walk(e[1])
    return {"functions_and_operators": sorted(fs), "equations": sum(c["n"] for c in cs),
            "exact_rational_values": sum(v[1] != 0 for c in cs for p in c["vals"] for v in p)}


def run(c):
    t = fun.text_of(c)
    e, m = raises(lin.build, t, c["seed"], c["k"])
    if e is not None:
        return "the model was rejected: %r\n%s" % (e, t.exprs)
    g = Rng("c07", c["seed"], c["k"])
    msgs = []
    en, st = fun.order(c)
    n, mm = c["n"], c["m"]
    p = vec(c["params"])

    def check(tag, p, exact):
        dyn, ss = m.dynamic_repr, m.steady_repr
        for j, pt in enumerate(c["points"]):
            x = vec(pt)
            want = fun.resid(c, x, p)
            if exact:
                for r in range(n):        # the specification's exact value, where it knows one
                    v = c["vals"][j][r]
                    if v[1] and abs(want[r] - v[0] / v[1]) > 1e-9 * max(1, abs(want[r])):
                        raise AssertionError("harness and specification disagree: %s %s" % (want[r], v))
            args = np.array([x[s - 1] for s in en + st])
            if g.next(3) == 0:
                args = [float(a) for a in args]
            e, got = raises(dyn, args)
            msgs.append("%s: dynamic residual raised %r" % (tag, e) if e is not None
                        else diff(tag + ": dynamic residual", got, want, 1e-8, max(1.0, float(np.abs(want).max()))))
            x0 = x.copy()
            x0[3 * n:] = 0
            try:
                want = fun.resid(c, x0, p)
                e, got = raises(dyn, np.array(args[:len(en)]))
                msgs.append("%s: without shocks raised %r" % (tag, e) if e is not None
                            else diff(tag + ": residual without shocks", got, want, 1e-8,
                                      max(1.0, float(np.abs(want).max()))))
            except fun.Undefined:
                pass
            xs = x0.copy()
            cur = x[1:3 * n:3]
            for o in range(3):
                xs[o:3 * n:3] = cur
            try:
                want = fun.resid(c, xs, p)
                e, got = raises(ss, np.array(cur))
                msgs.append("%s: static residual raised %r" % (tag, e) if e is not None
                            else diff(tag + ": static residual", got, want, 1e-8, max(1.0, float(np.abs(want).max()))))
            except fun.Undefined:
                pass
    check("as built", p, True)
    bad = [len(en) + mm + 1, len(en) - 1]
    if mm > 1:
        bad.append(len(en) + 1)
    for b in bad:
        if b in (len(en), len(en) + mm):
            continue
        e, _ = raises(m.dynamic_repr, np.ones(b))
        if e is None:
            msgs.append("dynamic representation accepted %d arguments (%d endogenous, %d shocks)" % (b, len(en), mm))
    for b in (n + 1, n - 1):
        e, _ = raises(m.steady_repr, np.ones(b))
        if e is None:
            msgs.append("static representation accepted %d arguments for %d variables" % (b, n))
    # new parameter values
    p2 = vec(c["params2"])
    how = g.next(3)
    new = {k: float(v) for k, v in zip(t.pnames, p2)}
    if how == 0:
        m.add_params(**new)
    else:
        for k in g.shuffle(sorted(new)):
            m.params[k] = new[k] if how == 1 else repr(new[k]) if new[k] >= 0 else new[k]
    e, _ = raises(check, "after new parameters", p2, False)
    if e is not None:
        msgs.append("after new parameters: %r" % e)
    msgs = [x for x in msgs if x]
    return "\n".join(msgs[:4] + [str(t.exprs), str(t.params)]) if msgs else None
