"""C11: Blanchard-Kahn. MCLin.tla builds determinate, indeterminate, explosive and
rank-deficient models with exactly known eigenvalues."""
import re
import numpy as np
import lin
from common import raises, f, q

TIMEOUT = 60.0
ASSUMPTIONS = ["models of at most 5 variables, or 20 put together from such, with dyadic coefficients, variables in units that differ by factors of up to 2^17 (and by thirds), eigenvalues known exactly and either on the "
               "unit circle or at least 0.09 away from it",
               "eigenvalues compared within 1e-3 (repeated eigenvalues are ill-conditioned); those of modulus above 1e4 are taken as infinite"]


def cases(ctx):
    n = 800 if ctx.quick else 12000
    return lin.records(ctx, "MCLin", {"Mode": "all"}, n, n // 4, "bk", ["Theorems", "Emit"])


def sample(c):
    return {"k": c["k"], "kind": c["kind"], "classes": c["ix"]["cls"], "eigenvalues": c["eig"]}


def coverage(cs):
    out = {}
    for c in cs:
        out[c["kind"]] = out.get(c["kind"], 0) + 1
    return {"models_by_kind": out}


def match(got, want):
    """multisets of complex numbers agree"""
    big = 1e4
    got = [complex(x) for x in got]
    gi = [x for x in got if not abs(x) < big]
    gf = [x for x in got if abs(x) < big]
    wi = [x for x in want if x is None]
    wf = [x for x in want if x is not None]
    if len(gi) != len(wi) or len(gf) != len(wf):
        return False
    for w in sorted(wf, key=lambda z: (-abs(z), z.imag)):
        j = min(range(len(gf)), key=lambda i: abs(gf[i] - w))
        if abs(gf[j] - w) > 1e-3 * max(1.0, abs(w)):
            return False
        gf.pop(j)
    return True


def eig_of(c):
    return [None if not z else complex(f(z[0]), f(z[1])) for z in c["eig"]]


def named(c, text):
    """the message says which condition failed, and by how much"""
    if c["kind"] == "static":
        return "static" in text
    if c["kind"] == "rank":
        return "rank" in text and "static" not in text
    nums = re.findall(r"\b\d+\b", text.replace("(1980)", ""))
    expl = sum(1 for z in eig_of(c) if z is None or abs(z) > 1 + 1e-6)
    return "order" in text and nums[:2] == [str(expl), str(len(c["ix"]["forward"]))]


def run(c):
    from pynare.errors import ModelIdentificationError
    t = lin.text_of(c, c["seed"])
    e, m = raises(lin.build, t, c["seed"], c["k"])
    if e is not None:       # a rejection may come as early as when the model is built
        return None if c["kind"] not in ("ok", "unit") and isinstance(e, ModelIdentificationError) \
            else "building a model of kind %s: %r\n%s" % (c["kind"], e, t.exprs)
    ok = c["kind"] in ("ok", "unit")
    msgs = []
    e, ss = raises(lambda: m.statespace)
    if c["kind"] == "static":
        if e is not None and not isinstance(e, ModelIdentificationError):
            msgs.append("state space: %r, not the identification error" % e)
    elif e is not None:
        return "the state space is not available: %r\n%s" % (e, t.exprs)
    want = eig_of(c)
    if c["kind"] != "static" and not match(ss.eigen, want):
        msgs.append("eigenvalues %s, expected %s" % (np.asarray(ss.eigen), want))
    g = lin.Rng("c11", c["seed"], c["k"])
    acts = [("verify", lambda: m.statespace.verify()), ("solve(order=1)", lambda: m.solve(order=1)),
            ("solution", lambda: m.solution), ("simulate", lambda: m.simulate(periods=3, order=1))]
    if c["m"] == 0 or not c["ix"]["state"]:
        acts = acts[:3]
    # each is tried on a model on which nothing was asked before, in a seeded order, twice
    acts = g.shuffle(acts)[:2]
    for rep in (1, 2):
        for nm, a in acts:
            e, _ = raises(a)
            if ok and e is not None:
                msgs.append("%s rejected a model that meets both conditions: %r" % (nm, e))
            if not ok and e is None:
                msgs.append("%s accepted a model of kind %s" % (nm, c["kind"]))
            if not ok and e is not None and not isinstance(e, ModelIdentificationError):
                msgs.append("%s raised %r, not the identification error" % (nm, e))
            elif not ok and e is not None and not named(c, str(e).lower()):
                msgs.append("%s names another condition: %r (kind %s)" % (nm, e, c["kind"]))
    return "\n".join(msgs + [c["kind"], str(t.exprs)]) if msgs else None
