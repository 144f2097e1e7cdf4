"""C23: occasionally binding constraints.  Accepted behaviours of MCOcc.tla are replayed into the
code, and plans recorded from the code on larger models are judged by MCOccTrace.tla."""
import json, os, tempfile, warnings
import numpy as np
import lin
from common import q, mat, vec, diff, raises, Rng

TIMEOUT = 120.0
ASSUMPTIONS = ["exact paths: up to four variables, three surprise shocks, four constrained periods (three with two constraints)",
               "recorded paths are judged to a thousandth, on models of up to six variables, six surprises and forty periods",
               "cases in which a condition holds with equality, or in which several regime sequences are consistent, are not judged"]


def cases(ctx):
    out = []
    plan = [(1, 4, 900), (2, 3, 420)] if ctx.quick else [(1, 4, 9000), (2, 3, 5000), (1, 6, 3000)]
    for cons, hor, n in plan:
        r = ctx.tlc("MCOcc", {"Seed": ctx.seed + hor, "First": 0, "Last": n - 1, "Horizon": hor, "Cons": cons, "Tries": 12},
                    spec="Spec", invariants=["Reference", "Sound", "Linear", "Emit"])
        for c in r.records:
            if c["few"]:
                out.append(dict(c, id="occ-%d-%d-%d-%d" % (cons, hor, ctx.seed, c["k"]), seed=ctx.seed + hor, what="exact"))
    n = 240 if ctx.quick else 2400
    r = ctx.tlc("MCOccModel", {"Seed": ctx.seed, "First": 0, "Last": n - 1}, spec="Spec", invariants=["Solves", "Emit"])
    for c in r.records:
        out.append(dict(c, id="rec-%d-%d" % (ctx.seed, c["k"]), seed=ctx.seed, what="recorded"))
    return out


def sample(c):
    if c["what"] == "recorded":
        return {"recorded_model": c["k"], "variables": c["n"], "constraints": len(c["con"])}
    return {"k": c["k"], "constraints": len(c["con"]), "regimes_foreseen": c["hs"], "shocks": c["us"], "path": c["path"]}


def coverage(cs):
    ex = [c for c in cs if c["what"] == "exact"]
    return dict({"exact_paths": len(ex), "exact_paths_that_bind": sum(any(h for h in c["hs"]) for c in ex),
                 "exact_plans": sum(len(c["hs"]) for c in ex)}, **RECORDED)


RECORDED = {}
SCALE = 1024


def record(c):
    """foreseen paths of one run, as integers: what the code says is expected at every surprise date"""
    w = World(c)
    g, m, n = w.g, c["m"], c["n"]
    T = 1 + g.next(6)
    size = [1, 2, 4][g.next(3)]
    U = np.array([[(g.next(2 * SCALE) - SCALE) * size if g.next(4) else 0 for _ in range(m)] for _ in range(T)], dtype=float)
    y0 = np.zeros(n) if g.next(2) else np.array([float(g.next(2 * SCALE) - SCALE) for _ in range(n)])
    P = 30 + g.next(10)
    base = w.args()
    plans, path = [], None
    for t in range(T, 0, -1):
        args = dict(base, init=y0 / SCALE, **w.shocks(U[:t] / SCALE))
        e, r = raises(solve, w, args, P, g.next(3) == 0)
        info = "\n".join([str(w.t.exprs), str(args), str(w.t.params)])
        if e is not None:
            return "constrained solution raised %r\n%s" % (e, info)
        s, log = r
        if log:
            return None
        p = np.asarray(s.paths, dtype=float)
        if p.shape != (P, n):
            return "paths have shape %s\n%s" % (p.shape, info)
        if not np.all(np.isfinite(p)):
            return "paths are not finite\n%s" % info
        if np.abs(p).max() > 100:
            return None
        p = np.rint(p * SCALE).astype(int).tolist()
        path = path or p
        plans.insert(0, p[t - 1:])
    return {"k": c["k"], "us": U.astype(int).tolist(), "y0": y0.astype(int).tolist(),
            "path": path[:T], "plans": plans, "info": info}


def judge(ctx, cs, results):
    traces = [(i, r) for i, r in enumerate(results) if isinstance(r, dict)]
    out = [None if isinstance(r, dict) else r for r in results]
    if not traces:
        return out
    seed = cs[traces[0][0]]["seed"]
    fd, path = tempfile.mkstemp(suffix=".ndjson")
    try:
        with os.fdopen(fd, "w") as h:
            for _, r in traces:
                h.write(json.dumps({k: r[k] for k in ("k", "us", "y0", "path", "plans")}) + "\n")
        v = ctx.tlc("MCOccTrace", {"Seed": seed, "File": path, "Scale": SCALE}, spec="Spec", invariants=["Emit"])
    finally:
        os.unlink(path)
    ok = {x["k"]: x["ok"] for x in v.records}
    for i, r in traces:
        if r["k"] not in ok:
            raise RuntimeError("trace %s was not judged" % r["k"])
        if not ok[r["k"]]:
            out[i] = "MCOccTrace rejects the recorded path\n%s\npath %s\nplans %s" % (r["info"], r["path"], r["plans"])
    RECORDED.update({"recorded_paths_judged": len(traces), "recorded_plans_judged": sum(len(r["plans"]) for _, r in traces)})
    return out


def cond(name, sg, bound, below, g):
    """text of name < bound (or > bound when not below), sg flips"""
    less = below == (sg > 0)
    b = bound if isinstance(bound, str) else lin.num(bound)
    k = g.next(4)
    if k == 0:
        return "%s %s %s" % (name, "<" if less else ">", b)
    if k == 1:
        return "%s %s %s" % (b, ">" if less else "<", name)
    if k == 2:
        return "%s - (%s) %s 0" % (name, b, "<" if less else ">")
    return "-%s %s -(%s)" % (name, ">" if less else "<", b)


class World(object):
    """the model, constraints and replacement equations of one case"""
    def __init__(self, c):
        g = self.g = Rng("c23", c["seed"], c["k"], len(c["con"]))
        nonlinear = g.next(2) == 0
        t = self.t = lin.text_of(c, c["seed"], nonlinear=nonlinear, zero_ss=g.next(3) == 0, wild=False)
        n, nc = c["n"], len(c["con"])
        order = g.shuffle(range(n))
        t.exprs = [t.exprs[i] for i in order]
        self.at = [order.index(c["core"] + j) for j in range(nc)]
        self.bounds, self.alts, self.cons = [], [], []
        for j, k in enumerate(c["con"]):
            b = q(k["bound"])
            if g.next(2):
                p = "bound%d" % j
                t.params.append((p, lin.num(b)))
                b = p
            a = c["alt"][j]
            const = a["k"] if not isinstance(b, str) else "(-%s)" % b
            self.alts.append(lin.row_text(t, a["a"], a["b"], a["c"], a["d"], const, g, nonlinear))
            sg = k["sg"][0]
            self.cons.append([cond(t.endog[k["w"] - 1], sg, b, True, g),
                              cond(t.endog[c["core"] + j], sg, b, False, g)])
        self.m = lin.build(t, c["seed"], c["k"])

    def args(self):
        g, n = self.g, len(self.t.exprs)
        ix = [i if g.next(4) else i - n for i in self.at]
        if len(self.alts) == 1:
            e = {ix[0]: self.alts[0]}
            con = self.cons[0] if g.next(2) else tuple(self.cons[0])
            return dict(constraint=con, exprs=e if g.next(2) else [e])
        e0, e1 = {ix[0]: self.alts[0]}, {ix[1]: self.alts[1]}
        both = {**e0, **e1} if g.next(2) else {**e1, **e0}
        return dict(constraint=self.cons if g.next(2) else tuple(tuple(x) for x in self.cons), exprs=[e0, e1, both])

    def shocks(self, U):
        """the shocks U (T x m, in declaration order) as arguments"""
        g, t = self.g, self.t
        m = len(t.stoch)
        if m == 1:
            k = g.next(4)
            if k == 0:
                return dict(shocks=list(U[:, 0]))
            if k == 1:
                return dict(shocks=U[:, 0].copy(), exog=t.stoch[0])
            return dict(shocks=U.copy(), exog=[t.stoch[0]] if k == 2 else (t.stoch[0],))
        live = [j for j in range(m) if np.any(U[:, j])]
        if len(live) == 1 and g.next(2):
            if live == [0] and g.next(2):
                return dict(shocks=U[:, 0].copy())
            return dict(shocks=U[:, live[0]].copy(), exog=t.stoch[live[0]])
        p = g.shuffle(range(m))
        return dict(shocks=U[:, p].copy(), exog=[t.stoch[i] for i in p])


def solve(w, args, periods, direct):
    opts = {"restrained": True} if len(w.alts) == 2 and w.g.next(3) == 0 else {}
    """the solution and whether anything was warned about"""
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        if direct:
            from pynare.core.solve import OccBinSolution
            s = OccBinSolution(w.m, **args).solve(periods=periods, **opts)
        else:
            s = w.m.solve(periods=periods, **args, **opts)
    return s, [str(x.message) for x in log if "algorithm" in str(x.message) or "regime" in str(x.message)]


def run(c):
    if c["what"] == "recorded":
        return record(c)
    w = World(c)
    g, t = w.g, w.t
    before = [str(x) for x in w.m.exprs]
    U = mat(c["us"], c["m"])
    T, P = len(U), len(c["path"])
    want = mat(c["path"])
    args = dict(w.args(), **w.shocks(U))
    y0 = vec(c["y0"])
    if np.any(y0) or g.next(3) == 0:
        args["init"] = y0.copy() if g.next(2) else list(y0)
    if g.next(2):
        w.m.solve(order=1)
    keep = {k: np.array(v, dtype=float).copy() for k, v in args.items() if k in ("shocks", "init")}
    direct = g.next(3) == 0
    e, r = raises(solve, w, args, P, direct)
    info = [str(t.exprs), str(args), str(c["hs"]), str(t.params)]
    if e is not None:
        return "\n".join(["constrained solution raised %r" % e] + info)
    s, log = r
    msgs = []
    if log:
        msgs.append("warned although guess-and-verify converges: %s" % log)
    scale = max(1.0, float(np.abs(want).max()))
    msgs.append(diff("path", s.paths, want, 1e-6, scale))
    sh = np.asarray(s.shocks, dtype=float)
    ref = keep["shocks"]
    msgs.append(diff("shocks", sh, np.concatenate([ref, np.zeros((P - T,) + ref.shape[1:])]), 1e-12))
    for k, v in keep.items():
        if not np.array_equal(np.asarray(args[k], dtype=float), v):
            msgs.append("the caller's %s were changed" % k)
    if [str(x) for x in w.m.exprs] != before:
        msgs.append("the model's equations were changed")
    if not any(h for h in c["hs"]) and not np.any(np.isnan(s.paths)):
        # never binding: the linear simulation
        w.m.solve(order=1)
        Z = np.zeros((P + 1, c["m"]))
        Z[:T] = U
        e, sim = raises(w.m.simulate, shocks=Z, init=y0 + np.array([float(x) for x in t.ybar]))
        if e is None:
            msgs.append(diff("linear simulation", sim.paths[1:] - np.array([float(x) for x in t.ybar]), s.paths, 1e-6, scale))
        elif not isinstance(e, NotImplementedError):
            msgs.append("simulate raised %r" % e)
    msgs = [x for x in msgs if x]
    return "\n".join(msgs + info) if msgs else None
