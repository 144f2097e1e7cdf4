"""C09: steady states and boundary values. MCSteady.tla: linear static systems with exact solutions, boundary
values and moving parameters; MCFun.tla: nonlinear equations with known roots, searched from nearby."""
import re
import numpy as np
import scipy.optimize as optim
import fun, lin, modfile
from fractions import Fraction as Fr
from common import Rng, q, vec, mat, diff, raises, load_text

TIMEOUT = 60.0
ASSUMPTIONS = ["well-conditioned static systems (diagonally dominant linear ones; nonlinear ones whose slopes lie between "
               "0.3 and 15), searched from starts within 3 of the root (linear) or 1/32 (nonlinear, from which searches on the equations of the specification end at a root)",
               "the tolerance of the search is 1e-5 in the slope of the sum of squares; residuals are accepted up to 1e-4"]


def searchable(c, x0, p, start):
    """whether searches along several routes, on the equations of the specification, all end at a root; leaves out
    starts from which any local search is lost (other local minima, borders of the domain)"""
    n = c["n"]

    def ssq(y):
        x = x0.copy()
        for o in range(3):
            x[o:3 * n:3] = y
        return float(np.sum(np.square(fun.resid(c, x, p))))
    for method, d in (("cg", 0), ("cg", 1e-3), ("cg", -1e-3), ("bfgs", 0)):
        try:
            r = optim.minimize(ssq, start + d, method=method)
        except fun.Undefined:
            return False
        if not r.success or r.fun > 1e-9:
            return False
    return True


def union(cs):
    """unrelated systems side by side: the solution is that of each of them"""
    N = sum(c["n"] for c in cs)
    out = {"n": N, "k": cs[0]["k"], "seed": cs[0]["seed"], "what": "lin", "id": "u" + cs[0]["id"]}
    offs = [sum(c["n"] for c in cs[:i]) for i in range(len(cs))]
    for X in "ABC":
        out[X] = [[[0, 1]] * o + row + [[0, 1]] * (N - o - c["n"]) for c, o in zip(cs, offs) for row in c[X]]
    for v in ("s", "initial", "terminal", "historical"):
        out[v] = sum((c[v] for c in cs), [])
    out["bounds"] = [[k, o + v, x] for c, o in zip(cs, offs) for k, v, x in c["bounds"]]
    out["shifts"], now = [], [c["ys"][0] for c in cs]
    out["ys"] = [sum(now, [])]
    for j, (c, o) in enumerate(zip(cs, offs)):
        for (r, x), y in zip(c["shifts"], c["ys"][1:]):
            out["shifts"].append([o + r, x])
            now[j] = y
            out["ys"].append(sum(now, []))
    return out


def cases(ctx):
    n = 500 if ctx.quick else 6000
    r = ctx.tlc("MCSteady", {"Seed": ctx.seed, "First": 0, "Last": n - 1}, spec="Spec",
                invariants=["Solves", "Current", "Emit"], properties=["Frozen"])
    out = [dict(c, id="st-%d-%d" % (ctx.seed, c["k"]), seed=ctx.seed, what="lin") for c in r.records]
    # larger systems: unions of two to four
    step = 12 if ctx.quick else 5
    out += [union(out[i:i + 2 + (i // step) % 3]) for i in range(0, len(out) - 4, step)]
    n = 500 if ctx.quick else 8000
    r = ctx.tlc("MCFun", {"Seed": ctx.seed + 2, "First": 0, "Last": n - 1, "Derivs": True},
                invariants=["Theorems", "Emit"], spec="Spec")
    for c in r.records:
        c.update(id="nl-%d-%d" % (ctx.seed, c["k"]), seed=ctx.seed, what="nl")
        x0, p = vec(c["x0"]), vec(c["params"])
        try:
            fun.resid(c, x0, p)
            J, H = fun.derivs(c, x0, p)
        except fun.Undefined:
            continue
        S = sum(J[:, o:3 * c["n"]:3] for o in range(3))
        sv = np.linalg.svd(S)[1]
        # moderate slopes around the root
        if not fun.regular(J, c["n"]) or sv.min() < 0.3 or sv.max() > 12 or np.abs(H).max() > 5:
            continue
        g = Rng("c09", ctx.seed, c["k"])
        n_ = c["n"]
        start = np.array([q(y) for y in c["x0"]][:3 * n_:3], dtype=float) + np.array([(g.next(5) - 2) / 64 for _ in range(n_)])
        start = np.round(64 * start) / 64
        if not searchable(c, x0, p, start):
            continue
        c["start"] = [[int(round(64 * v)), 64] for v in start]
        c.pop("hes")
        out.append(c)
    return out


def sample(c):
    if c["what"] == "lin":
        return {"bounds": c["bounds"], "solutions": c["ys"], "shifts": c["shifts"]}
    return {"equations": fun.text_of(c, "c09").exprs, "start": c["start"]}


def coverage(cs):
    return {"linear": sum(c["what"] == "lin" for c in cs), "nonlinear": sum(c["what"] == "nl" for c in cs)}


def run_lin(c):
    import pynare
    g = Rng("c09l", c["seed"], c["k"])
    n = c["n"]
    t = lin.Text()
    t.endog, t.stoch = lin.names(g, n, 1)
    t.params = [("rhs_%d" % i, lin.num(q(c["s"][i]))) for i in range(n)]
    for r in range(n):
        terms = [(q(X[r][i]), t.offs(t.endog[i], o)) for o, X in ((-1, c["A"]), (0, c["B"]), (1, c["C"]))
                 for i in range(n) if X[r][i][0]]
        s = ""
        for a, v in g.shuffle(terms):
            s += (" - " if a < 0 else " + ") + ("%s*%s" % (lin.num(abs(a)), v) if abs(a) != 1 else v)
        s = s[3:] if s.startswith(" + ") else "-" + s[3:]
        if r == 0:
            s += " + " + t.stoch[0]
        t.exprs.append("%s = rhs_%d" % (s, r) if g.next(2) else "rhs_%d = %s" % (r, s))
    b = {"initial": {}, "terminal": {}, "historical": {}}
    for kind, v, x in c["bounds"]:
        b[kind][t.endog[v - 1]] = q(x)
    if g.next(2):
        e, m = raises(pynare.Model, endog=t.endog, stoch=t.stoch, params=dict(t.params), exprs=t.exprs,
                      **{k: {a: float(x) for a, x in d.items()} for k, d in b.items()})
    else:
        txt = ["var %s;" % " ".join(t.endog), "varexo %s;" % t.stoch[0], "parameters %s;" % " ".join(p for p, _ in t.params)]
        txt += ["%s = %s;" % x for x in t.params] + ["model;"] + [x + ";" for x in t.exprs] + ["end;"]
        blocks, order = {"initial": "initval", "terminal": "endval", "historical": "histval"}, []
        for kind in g.shuffle(sorted(blocks)):
            rows = ["%s = %s;" % (t.endog[v - 1], lin.num(q(x))) for k2, v, x in c["bounds"] if k2 == kind]
            if rows or g.next(3) == 0:
                order += [blocks[kind] + ";"] + rows + ["end;"]
        e, m = raises(load_text, "\n".join(txt + order) + "\n")
    if e is not None:
        return "the model was rejected: %r\n%s\n%s" % (e, t.exprs, b)
    msgs = []
    for kind in ("initial", "terminal", "historical"):
        got = np.asarray(getattr(m, kind), dtype=float)
        for i in range(n):
            w = c[kind][i]
            if w[1] == 0:
                if not np.isnan(got[i]) and kind != "initial":
                    msgs.append("%s value of %s is %r but none was given (%s)" % (kind, t.endog[i], got[i], b))
            elif not abs(got[i] - w[0] / w[1]) < 1e-9:
                msgs.append("%s value of %s is %r, expected %s (%s)" % (kind, t.endog[i], got[i], w[0] / w[1], b))

    M = mat(c["A"]) + mat(c["B"]) + mat(c["C"])
    sv = np.linalg.svd(M)[1].min()
    far = 2e-4 / min(1.0, sv)

    def check(tag, s, y):
        v = np.asarray(m.ss.values, dtype=float)
        msgs.append(diff(tag + ": static equations at the steady state", M @ v - s, 0 * s, 2e-4 / min(1.0, sv)))
        msgs.append(diff(tag + ": steady state", v, vec(y), far))
        msgs.append(diff(tag + ": static representation", m.steady_repr(v), 0 * s, 2e-4 / min(1.0, sv)))
    # the same equations without shocks, as the plainest kind of model that has a steady state
    from pynare.core.generic import StructuredModel
    bare = [re.sub(r" \+ %s\b(?!\()" % re.escape(t.stoch[0]), "", x) for x in t.exprs]
    e, sm = raises(StructuredModel, endog=[pynare.core.variables.EndogVar(v, **{k: float(d[v]) for k, d in b.items() if v in d})
                                           for v in t.endog],
                   params=dict(t.params), exprs=bare, language="dynare")
    if e is not None:
        return "StructuredModel: %r\n%s" % (e, bare)

    def plain(tag, y):
        e, v = raises(lambda: np.asarray(sm.ss.values, dtype=float))
        msgs.append("%s: %r" % (tag, e) if e is not None else diff(tag + ": steady state (StructuredModel)", v, vec(y), far))
    s = vec(c["s"])
    check("as built", s, c["ys"][0])
    plain("as built", c["ys"][0])
    for (r, x), y in zip(c["shifts"], c["ys"][1:]):
        s[r - 1] = x[0] / x[1]
        name = "rhs_%d" % (r - 1)
        if g.next(2):
            m.add_params(**{name: float(s[r - 1])})
        else:
            m.params[name] = float(s[r - 1])
        check("%s = %s" % (name, s[r - 1]), s, y)
        if g.next(2):
            sm.add_params(**{name: float(s[r - 1])})
        else:
            sm.params[name] = float(s[r - 1])
        plain("%s = %s" % (name, s[r - 1]), y)
    # one more variable and its equation
    e, x = raises(sm.add_endog, "extra_v", initial=0.5)
    e2, x = raises(sm.add_exprs, "2*extra_v = 3 + 2*%s - 2*%s(-1)" % (t.endog[0], t.endog[0]))
    if e or e2:
        msgs.append("growing: %r %r" % (e, e2))
    else:
        plain("grown", c["ys"][len(c["shifts"])] + [[3, 2]])
    # the search asked for by name, with its own options, and what it reports
    kw = g.pick([{}, {"method": 8}, {"method": None}, {"method": ""}, {"method": 8.0}, {"tol": 1e-5}, {"method": 8, "tol": 1e9},
                 {"method": "nelder-mead", "options": {"xatol": 1e-8, "fatol": 1e-14, "maxiter": 20000, "maxfev": 20000}}])
    if "options" not in kw or n <= 3:
        sst = m.ss
        e, v = raises(sst.compute, **kw)
        if e is not None:
            msgs.append("steady state with %s: %r" % (kw, e))
        else:
            # a search that is content with any slope stays where it starts
            y = vec(c["ys"][len(c["shifts"])]) if kw.get("tol") != 1e9 else np.nan_to_num(np.asarray(m.initial, dtype=float))
            msgs.append(diff("steady state with %s" % kw, np.asarray(v, dtype=float), y, far))
            msgs.append(diff("values after the search with %s" % kw, np.asarray(sst.values, dtype=float), v, 1e-12))
            msgs.append(diff("results of the search with %s" % kw, np.asarray(sst.results.x, dtype=float), v, 1e-12))
        y = vec(c["ys"][len(c["shifts"])])
        e, v = raises(lambda: m.ss.results)
        msgs.append("results: %r" % e if e is not None else diff("results", np.asarray(v.x, dtype=float), y, far))
    if g.next(4) == 0:
        for method, kind in ((0, NotImplementedError), ("no such method", KeyError), (99, KeyError)):
            e, v = raises(m.ss.compute, method=method)
            if e is None or not isinstance(e, kind):
                msgs.append("steady state with method %r: %r" % (method, e or v))
    msgs = [x for x in msgs if x]
    return "\n".join(msgs[:3] + [str(t.exprs)]) if msgs else None


def run(c):
    if c["what"] == "lin":
        return run_lin(c)
    t = fun.text_of(c, "c09")
    t.initial = {t.endog[i]: q(c["start"][i]) for i in range(c["n"])}
    e, m = raises(lin.build, t, c["seed"], c["k"])
    if e is not None:
        return "the model was rejected: %r\n%s" % (e, t.exprs)
    v = np.asarray(m.ss.values, dtype=float)
    n = c["n"]
    x = vec(c["x0"])
    for o in range(3):
        x[o:3 * n:3] = v
    try:
        f = fun.resid(c, x, vec(c["params"]))
    except fun.Undefined:
        return "the steady state %s is outside the domain of the equations %s" % (v, t.exprs)
    d = diff("static equations at the steady state", f, 0 * f, 1e-4) or \
        diff("initial values", m.initial, vec(c["start"]), 1e-9)
    return d + "\n%s %s start %s" % (t.exprs, t.params, c["start"]) if d else None
