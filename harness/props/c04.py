"""C04: what the loaded model contains. MCModFile.tla's reading machine gives the contents of every accepted file."""
import numpy as np
import modfile
from props import c03
from common import Rng, load_text, raises, q, diff

TIMEOUT = 60.0
ASSUMPTIONS = c03.ASSUMPTIONS[:1] + ["files whose equations do not determine the variables, or whose moments form no covariance "
                                     "matrix, are not used; equations are linear in the variables (nonlinear ones: C01, C07)"]
CHUNK = 30


def cases(ctx):
    recs = [c for c in c03.records(ctx) if modfile.buildable(c)]
    return [{"id": "files-%d-%d" % (ctx.seed, i), "items": recs[i:i + CHUNK]} for i in range(0, len(recs), CHUNK)]


def sample(c):
    x = c["items"][0]
    return {"file": modfile.text(x, "c04")[1], "params": x["params"], "initial": x["init"], "var": x["var"], "co": x["co"]}


def coverage(cs):
    items = [x for c in cs for x in c["items"]]
    return {"files": len(items), "edited": sum(bool(x["edits"]) for x in items), "with locals": sum(bool(x["locals"]) for x in items),
            "with covariances": sum(bool(x["co"]) for x in items), "with boundary values": sum(bool(x["init"] or x["term"] or x["hist"]) for x in items)}


def M(v):
    return np.array([[float(q(x)) for x in r] for r in v])


def V(v):
    return np.array([float(q(x)) for x in v])


def occurrences(c):
    """the (period, variable) pairs that occur in the equations: lags, then current ones, then leads"""
    en, occ, inside = c["decl"]["var"], set(), False
    for s in c["file"]:
        if s["op"] in ("model", "end"):
            inside = s["op"] == "model"
        if not inside or s["op"] not in ("set", "eq"):
            continue
        if s["op"] == "set":
            occ.add((0, s["names"][0]))
        for e in (s["e1"], s["e2"]):
            for t in e["t"]:
                occ.add((t["o"], t["n"]))
                occ.add((0, t["p"]))
    return [(o, i) for o in (-1, 0, 1) for i in range(len(en)) if (o, en[i]) in occ]


def check(c, m, nm):
    en, ex = [nm[x] for x in c["decl"]["var"]], [nm[x] for x in c["decl"]["varexo"]]
    got = [v.name for v in m.endog]
    if got != en:
        return "endogenous variables are %s, declared are %s" % (got, en)
    got = [v.name for v in m.stoch]
    if got != ex:
        return "shocks are %s, declared are %s" % (got, ex)
    if list(m.endog.names) != en or list(m.stoch.names) != ex:
        return "names: %s %s" % (list(m.endog.names), list(m.stoch.names))
    want = {nm[k]: float(q(v)) for k, v in c["params"]}
    got = {k: float(v) for k, v in dict(m.params).items()}
    if set(want) != set(got) or any(abs(want[k] - got[k]) > 1e-9 * (1 + abs(want[k])) for k in want):
        return "parameters are %s, expected %s" % (got, want)
    want = {nm[k]: float(q(v)) for k, v in c["locals"]}
    got = {k: float(v) for k, v in dict(m.local_params).items()}
    if set(want) != set(got) or any(abs(want[k] - got[k]) > 1e-9 * (1 + abs(want[k])) for k in want):
        return "model-local values are %s, expected %s" % (got, want)
    vals = {f: {nm[k]: float(q(v)) for k, v in c[g]} for f, g in (("initial", "init"), ("terminal", "term"), ("historical", "hist"))}
    some = set().union(*vals.values())
    for f in vals:
        got = np.asarray(getattr(m, f), dtype=float)
        for i, n in enumerate(en):
            w = vals[f].get(n, 0.0 if f == "initial" and n not in some else np.nan)
            if n not in vals[f] and n not in some and f != "initial":
                w = np.nan if np.isnan(got[i]) else 0.0        # no boundary value at all: unset or zero
            if not (np.isnan(w) and np.isnan(got[i]) or abs(w - got[i]) < 1e-9 * (1 + abs(w))):
                return "%s value of %s is %r, expected %r" % (f, n, got[i], w)
    d = diff("shock covariances", np.atleast_2d(m.sigma), modfile.sigma(c), 1e-9)
    if d:
        return d
    A, B, C, D, c0 = M(c["A"]), M(c["B"]), M(c["C"]), M(c["D"]), V(c["c0"])
    n, k = len(en), len(ex)
    g = Rng("c04", c["k"], str(c["edits"]))
    occ = occurrences(c)
    if len(m.exprs) != n:
        return "%d equations, expected %d" % (len(m.exprs), n)
    for _ in range(2):
        x = np.array([(g.next(65) - 32) / 16 for _ in range(3 * n)])
        e = np.array([(g.next(65) - 32) / 16 for _ in range(k)])
        want = A @ x[:n] + B @ x[n:2 * n] + C @ x[2 * n:] + D @ e + c0
        got = m.dynamic_repr(np.concatenate([[x[n * (o + 1) + i] for o, i in occ], e]))
        d = diff("equations (left - right) at lag %s current %s lead %s shocks %s" % (x[:n], x[n:2 * n], x[2 * n:], e), got, want, 1e-8)
        if d:
            return d
        d = diff("static equations", m.steady_repr(x[:n]), (A + B + C) @ x[:n] + c0, 1e-8)
        if d:
            return d
    return None


def run(c):
    for x in c["items"]:
        nm, ls = modfile.text(x, "c04")
        t = "\n".join(ls) + "\n"
        e, m = raises(load_text, t)
        if e is not None:
            return "a well-formed file was rejected: %r\nedits %s\n%s" % (e, x["edits"], t)
        d = check(x, m, nm)
        if d:
            return "%s\nedits %s\n%s" % (d, x["edits"], t)
    return None
