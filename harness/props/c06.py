"""C06: timing classes and orderings. MCTiming.tla grows sets of occurrences and states
the classification; every final set is written out as a model."""
import numpy as np
import lin
from common import raises, Rng

TIMEOUT = 60.0
ASSUMPTIONS = ["exhaustive over the occurrence patterns of two variables in two equations (thorough; a seeded third of "
               "them in the quick tier), sampled up to five variables",
               "models whose static variables cannot be told apart are rejected for that reason and are not used here"]
CTX = ["%s", "exp(%s) - 1", "%s^2 + %s", "sin(%s)", "-(-%s)", "%s/(2 - %s)", "(1 + %s)^2 - 1", "2*(%s)"]


def cases(ctx):
    a = ctx.tlc("MCTiming", {"Seed": ctx.seed, "N": 2, "Count": 1, "Mode": "all"}, spec="Spec",
                invariants=["Theorems", "Emit"], properties=["Grows"])
    n = 400 if ctx.quick else 8000
    b = ctx.tlc("MCTiming", {"Seed": ctx.seed, "N": 2, "Count": n, "Mode": "rand"}, spec="Spec",
                invariants=["Theorems", "Emit"], properties=["Grows"])
    one = ctx.tlc("MCTiming", {"Seed": ctx.seed, "N": 1, "Count": 1, "Mode": "all"}, spec="Spec",
                  invariants=["Theorems", "Emit"], properties=["Grows"])
    out = []
    for tag, recs in (("one", one.records), ("two", a.records), ("rnd", b.records)):
        for r in recs:
            r["places"] = sorted(r["places"])
            key = str(r["places"]) + str(r["k"])
            if r["legal"] and not r["ident"]:
                continue
            if tag == "two" and ctx.quick and Rng(ctx.seed, key).next(4):
                continue
            out.append(dict(r, id="%s-%s-%s" % (tag, r["k"], key), seed=ctx.seed))
    return out


def sample(c):
    return {"places": c["places"], "classes": c["cls"]}


def coverage(cs):
    return {"legal": sum(c["legal"] for c in cs), "rejected": sum(not c["legal"] for c in cs),
            "distinct_class_patterns": len({tuple(c["cls"]) for c in cs}),
            "distinct_occurrence_patterns": len({(tuple(c["lag"]), tuple(c["cur"]), tuple(c["led"])) for c in cs})}


def text_of(c):
    g = Rng("c06", c["seed"], c["id"])
    t = lin.Text()
    t.endog, t.stoch = lin.names(g, c["n"], 1)
    sides = [["", t.stoch[0] if r == 0 or g.next(3) == 0 else ""] for r in range(c["n"])]
    for v, o, r, co in g.shuffle(c["places"]):
        name = t.offs(t.endog[v - 1], o)
        x = g.pick(CTX)
        x = "(" + x.replace("%s", name) + ")"
        term = "%d*%s" % (abs(co), x)
        k = g.next(2)
        s = sides[r - 1][k]
        sign = (co < 0) != (k == 1)
        sides[r - 1][k] = (s + (" - " if sign else " + ") if s else ("-" if sign else "")) + term
    t.exprs = ["%s = %s" % (a or "0", b or "0") for a, b in sides]
    t.initial = {v: 0 for v in t.endog}
    t.S = [[lin.Fraction(1)]]
    return t


def ints(x):
    return [int(i) for i in np.asarray(x).ravel()]


def run(c):
    from pynare.errors import EndogIndexError
    t = text_of(c)
    e, m = raises(lin.build, t, c["seed"], c["id"])
    if not c["legal"]:
        return None if e is not None else "a variable that occurs nowhere or too far away was accepted: %s" % t.exprs
    if e is not None:
        return "a legal model was rejected: %r\n%s" % (e, t.exprs)
    ix = m.indexes
    z = lambda s: [i - 1 for i in s]
    inv = {v: p for p, v in enumerate(z(c["dr"]))}
    want = {"n_static": len(c["static"]), "n_forward": len(c["forward"]), "n_backward": len(c["state"]),
            "n_state": len(c["state"]), "n_mixed": len(c["mixed"]), "n_endog": c["n"],
            "n_dynamic": c["n"] - len(c["static"])}
    msgs = []
    for k, v in want.items():
        if int(getattr(ix, k)) != v:
            msgs.append("%s = %s, expected %s" % (k, getattr(ix, k), v))
    sets = {"static": c["static"], "pure_backward": c["back"], "mixed": c["mixed"], "pure_forward": c["fwd"],
            "state": c["state"], "backward": c["state"], "forward": c["forward"]}
    sets["dynamic"] = sorted(c["state"] + c["fwd"])
    for k, v in sets.items():
        if ints(getattr(ix, k)) != sorted(z(v)):
            msgs.append("indexes.%s = %s, expected %s" % (k, getattr(ix, k), z(v)))
        if ints(getattr(ix.dr, k)) != sorted(inv[i] for i in z(v)):
            msgs.append("indexes.dr.%s = %s" % (k, getattr(ix.dr, k)))
        if k not in ("state", "dynamic"):
            got = [str(x) for x in getattr(m, k + "_vars").names]
            if got != [t.endog[i] for i in sorted(z(v))]:
                msgs.append("%s_vars = %s" % (k, got))
    if [str(x) for x in m.state_vars.names] != [t.endog[i] for i in sorted(z(c["state"]))]:
        msgs.append("state_vars = %s" % m.state_vars.names)
    if ints(ix.dr_order) != z(c["dr"]):
        msgs.append("dr_order = %s, expected %s" % (ix.dr_order, z(c["dr"])))
    if ints(ix.dc_order) != z(c["dc"]):
        msgs.append("dc_order = %s, expected %s" % (ix.dc_order, z(c["dc"])))
    # Jacobian columns: lag, current, lead occurrences in declaration order, then shocks
    n_occ = len(c["lag"]) + len(c["cur"]) + len(c["led"])
    if m.jacobian.array.shape != (c["n"], n_occ + 1):
        msgs.append("jacobian has shape %s, expected %s" % (m.jacobian.array.shape, (c["n"], n_occ + 1)))
    return "\n".join(msgs + [str(t.exprs)]) if msgs else None
