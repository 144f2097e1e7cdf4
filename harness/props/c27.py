"""C27: the equation container. Histories of MCEqList.tla are replayed."""
import numpy as np
from common import Rng, raises

TIMEOUT = 60.0
ASSUMPTIONS = ["texts of the equations are distinguishable by their residuals; the texts are compared by str() of the container"]


def cases(ctx):
    depth = 3 if ctx.quick else 4
    kw = dict(spec="Spec", properties=["RejectedKeeps", "LengthLaw"])
    r = ctx.tlc("MCEqList", {"Seed": ctx.seed, "Depth": depth, "Count": 0, "Mode": "all"},
                invariants=["OnlyEquations", "NoDuplicates", "Emit"], **kw)
    out = [dict(c, id="all-%d-%d" % (depth, i)) for i, c in enumerate(r.records)]
    n = 700 if ctx.quick else 15000
    r = ctx.tlc("MCEqList", {"Seed": ctx.seed, "Depth": 14, "Count": n, "Mode": "rand"},
                invariants=["OnlyEquations", "NoDuplicates", "Emit"], **kw)
    out += [dict(c, id="hist-%d-%d" % (ctx.seed, c["k"])) for c in r.records]
    for c in out:
        c["seed"] = ctx.seed
    return out


def sample(c):
    return {"id": c["id"], "history": [(o["act"], o["i"], o["j"], o["xs"], o["ok"]) for o in c["hist"]]}


def coverage(cs):
    return {"operations": sum(len(c["hist"]) for c in cs),
            "rejected_operations": sum(not o["ok"] for c in cs for o in c["hist"])}


BADS = ["x +", "x = = 2", ")", "", "x y", 3, None, 2.5, ["x = 1"], b"x = 1"]


def run(c):
    from pynare.core.expressions import ModelExprs
    from pynare.core.generic import StructuredModel
    g = Rng("c27", c["seed"], c["id"])
    first = [o for o in c["hist"]]
    texts = {}

    def text(i):
        if i not in texts:
            texts[i] = ["x = %d" % i, "x - %d" % i, "%d*1 = 2*%d - x" % (i, i), "x + 1 = %d + 1" % i,
                        "x - %d = 0" % i][g.next(5)]
        return texts[i]

    def obj(x):
        i, how = x
        if how == 9:
            return g.pick(BADS)
        return text(i) if how == 1 else ModelExprs.parse(text(i))
    start = 0
    L = ModelExprs() if g.next(2) else ModelExprs([])
    log, msgs = [], []
    # the container is used by itself or as the equations of a model
    model = None
    if g.next(3) == 0:
        model = StructuredModel(endog=["x"], params={}, exprs=[], language="dynare")
        L = model.exprs

    def look(want, tag):
        if len(L) != len(want):
            msgs.append("%s: %d equations, expected %d" % (tag, len(L), len(want)))
            return
        m = model or StructuredModel(endog=["x"], params={}, exprs=ModelExprs(L), language="dynare")
        got = [float(v) for v in np.ravel(m.steady_repr(np.array([0.0])))] if want else []
        for i, (v, w) in enumerate(zip(got, want)):
            if abs(abs(v) - w[0]) > 1e-9:
                msgs.append("%s: equation %d has residual %s at x = 0, expected that of %r" % (tag, i, v, text(w[0])))
                return
        lines = [x.replace(" ", "") for x in str(L).split("\n")[1:]]
        exp = []
        for w in want:
            t = text(w[0]).replace(" ", "") if w[1] == 1 else "=0"
            exp.append(t if "=" in t else t + "=0")
        if lines != exp:
            msgs.append("%s: texts %s, expected %s" % (tag, lines, exp))
    for t, op in enumerate(c["hist"]):
        a, i, j = op["act"], op["i"], op["j"]
        xs = [obj(x) for x in op["xs"]]
        log.append("%s i=%s j=%s %r" % (a, i, j, [x if isinstance(x, (str, int)) else type(x).__name__ for x in xs]))
        keep = list(xs)
        if a == "insert":
            e, _ = raises(L.insert, i, xs[0])
        elif a == "append":
            if model is not None and g.next(2) and not isinstance(xs[0], list):
                e, _ = raises(model.add_exprs, xs[0])
            else:
                e, _ = raises(L.append, xs[0])
        elif a == "set":
            e, _ = raises(L.__setitem__, i, xs[0])
        elif a == "del":
            e, _ = raises(L.__delitem__, i)
        elif a == "pop":
            e, _ = raises(L.pop, i)
        elif a == "extend":
            h = g.next(4)
            if h == 0:
                e, _ = raises(L.__iadd__, xs)
            elif h == 1:
                e, _ = raises(L.extend, (x for x in xs))
            elif h == 2 and model is not None:
                e, _ = raises(model.add_exprs, xs)
            else:
                e, _ = raises(L.extend, xs)
        elif a == "setslice":
            e, _ = raises(L.__setitem__, slice(i, j), xs)
        else:
            e, _ = raises(L.__delitem__, slice(i, j))
        if xs != keep:
            msgs.append("the caller's list was changed")
        if op["ok"] and e is not None:
            msgs.append("step %d (%s) was rejected: %r" % (t, log[-1], e))
        if not op["ok"] and e is None:
            msgs.append("step %d (%s) was accepted" % (t, log[-1]))
        look(op["list"], "after step %d (%s)" % (t, log[-1]))
        if msgs:
            return "\n".join(msgs + log)
    # a container made of the final content, and independence of it
    fin = c["hist"][-1]["list"]
    C = ModelExprs(L)
    n0 = len(C)
    L.append("x = 77")
    if len(C) != n0:
        return "a container made from another one shares its equations\n" + "\n".join(log)
    return None
