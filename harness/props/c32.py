"""C32: constrained-solution requests are carried out as asked or refused.  MCRequest.tla generates histories of
requests on one model, with the closed-form answer of each or the reasons for refusing it."""
import warnings
from fractions import Fraction as Fr
import numpy as np
import lin
from common import Rng, q, vec, mat, diff, raises, load_text

TIMEOUT = 120.0
ASSUMPTIONS = ["models of two autoregressive drivers with a follower each, whose constrained paths are known in closed form",
               "a request with several faults may be refused for any of them",
               "a path whose plans do not return to the reference regime within the horizon has to be warned about; its numbers are not judged",
               "drawn shocks: the path has to be the one that the same request with the reported shocks leads to"]


def cases(ctx):
    n, steps = (400, 7) if ctx.quick else (6000, 9)
    r = ctx.tlc("MCRequest", {"Seed": ctx.seed, "First": 0, "Last": n - 1, "Steps": steps}, spec="Spec",
                invariants=["Obeys", "Strict", "Emit"], properties=["Inert"])
    return [dict(c, id="rq-%d-%d-%d" % (ctx.seed, steps, c["k"]), seed=ctx.seed) for c in r.records]


def sample(c):
    return {"model": c["w"], "requests": c["log"]}


def coverage(cs):
    asks = [e for c in cs for e in c["log"] if e["op"] == "ask"]
    good = [e for e in asks if not e["faults"]]
    return {"requests": len(asks), "refused": len(asks) - len(good), "drawn": sum(e["drawn"] for e in good),
            "binding": sum(not e["drawn"] and e["binds"] for e in good),
            "warned": sum(not e["drawn"] and e["warned"] == "yes" for e in good)}


def num(r):
    return lin.num(q(r))


class World(object):
    def __init__(self, c):
        g = self.g = Rng("c32", c["seed"], c["k"])
        w = self.w = c["w"]
        self.m = w["m"]
        en, self.ex = lin.names(g, 4, self.m)
        self.z, self.x = en[:2], en[2:]
        self.rate = ["rate1", "rate2"]
        self.value = dict(zip(self.rate, map(q, c["r0"])))
        self.mu = [q(v) for v in w["mu"]]
        self.gain = [q(v) for v in w["g"]]
        self.order = g.shuffle(range(4))           # declaration order: z1 z2 x1 x2
        self.names = [en[i] for i in self.order]
        self.eqs = g.shuffle(range(4))             # order of the equations: drivers 0 1, followers 2 3
        self.ss = np.array([float(([self.mu[0], self.mu[1], self.gain[0] * self.mu[0], self.gain[1] * self.mu[1]])[i])
                            for i in self.order])
        self.style = [g.next(3) for _ in range(4)]
        self.bound = g.next(2) == 0                # bounds as parameters
        self.model = self.build()
        self.fresh, self.given = True, None

    def driver(self, i):
        z, mu = self.z[i], lin.num(self.mu[i])
        s = "%s - %s*(%s(-1) - (%s))" % (z, self.rate[i], z, mu)
        t = "(%s)" % mu
        for j, a in enumerate(self.w["M"][i]):
            if a[0]:
                t += " + (%s)*%s" % (num(a), self.ex[j])
        return "%s = %s" % ((s, t) if self.style[i] else (t, s))

    def follower(self, i, bind=False):
        """an equation of x in z, in deviations from the reference steady state"""
        x, z, mu = self.x[i], self.z[i], lin.num(self.mu[i])
        if bind:
            s = "%s - (%s)" % (x, lin.num(self.gain[i] * self.mu[i]))
            t = "%s + %s*(%s - (%s))" % (num(self.w["c"][i]), num(self.w["a"][i]), z, mu)
        else:
            s, t = x, "(%s)*%s" % (num(self.w["g"][i]), z)
        return "%s = %s" % ((s, t) if self.style[2 + i] else (t, s))

    def exprs(self, bind=()):
        return [self.driver(e) if e < 2 else self.follower(e - 2, e - 2 in bind) for e in self.eqs]

    def build(self, bind=(), endog=None, stoch=None, extra=None):
        import pynare
        en, ex = endog or self.names, stoch or self.ex
        ps = dict(self.value)
        if self.bound:
            ps.update({"bound%d" % (i + 1): q(self.w["b"][i]) for i in range(2)})
        ps.update(extra or {})
        ini = dict(zip(self.names, self.ss))
        eqs = self.exprs(bind)
        eqs = eqs + ["%s = 0" % v for v in en if v not in self.names]
        if self.g.next(2):
            return pynare.Model(endog=list(en), stoch=list(ex), params={k: float(v) for k, v in ps.items()}, exprs=eqs,
                                shocks={v: {"variance": 1.0} for v in ex}, initial={k: float(v) for k, v in ini.items()})
        t = ["var %s;" % " ".join(en), "varexo %s;" % " ".join(ex), "parameters %s;" % " ".join(ps)]
        t += ["%s = %s;" % (k, lin.num(v)) for k, v in ps.items()] + ["model;"] + [e + ";" for e in eqs] + ["end;", "initval;"]
        t += ["%s = %s;" % (k, lin.num(Fr(v))) for k, v in ini.items()] + ["end;", "shocks;"]
        t += ["var %s; stderr 1;" % v for v in ex] + ["end;"]
        return load_text("\n".join(t) + "\n")

    def pair(self, i):
        z, up, b = self.z[i], self.w["up"][i], ("bound%d" % (i + 1) if self.bound else num(self.w["b"][i]))
        b = b if up else "-(%s)" % b
        k = self.g.next(3)
        if k == 0:
            return ["%s %s %s" % (z, ">" if up else "<", b), "%s %s %s" % (z, "<=" if up else ">=", b)]
        if k == 1:
            return ["%s %s %s" % (b, "<" if up else ">", z), "%s %s %s" % (b, ">" if up else "<", z)]
        return ["%s - (%s) %s 0" % (z, b, ">=" if up else "<="), "%s %s %s" % (z, "<" if up else ">", b)]

    def path(self, p):
        return mat(p)[:, self.order]


def constraint(w, r):
    """the constraint argument of a request, and whether it is a single pair"""
    g, kind = w.g, r["con"]
    pairs = [w.pair(i - 1) for i in r["which"]]
    if kind == "fine":
        if len(pairs) == 1:
            return [pairs[0], tuple(pairs[0]), [pairs[0]], [tuple(pairs[0])]][g.next(4)]
        return [pairs, tuple(pairs), [tuple(p) for p in pairs], tuple(tuple(p) for p in pairs)][g.next(4)]
    if kind == "short":
        return pairs[0][:1] if r["odd"] else tuple(pairs[0][:1])
    if kind == "long":
        return pairs[0] + ["%s > 0" % w.z[0]] if r["odd"] else tuple(pairs[0] + pairs[0][:1])
    if kind == "half":
        p = [pairs[0], (pairs[1] if len(pairs) == 2 else w.pair(0))[:1]]
        return p if r["odd"] else p[::-1]
    if kind == "text":
        return pairs[0][0]
    if kind == "number":
        return [3, 2.5, True][r["odd"]]
    if kind == "triple":
        return [w.pair(0), w.pair(1), w.pair(0)]
    bad = {"broken": ["%s >", "(%s > 1", "%s 2"][r["odd"]] % w.z[0],
           "stranger": ["stranger > 1", "%s > stranger" % w.z[0], "%s - stranger < 0" % w.z[1]][r["odd"]]}[kind]
    i = g.next(len(pairs))
    pairs[i] = [bad, pairs[i][1]] if g.next(2) else [pairs[i][0], bad]
    return pairs if len(pairs) == 2 else pairs[0]


def regimes(w, r):
    g, kind = w.g, r["exprs"]
    if kind == "none":
        return {}
    at = {i: w.eqs.index(1 + i) for i in (1, 2)}
    ix = {i: a if g.next(3) else a - 4 for i, a in at.items()}
    eq = {i: w.follower(i - 1, True) for i in (1, 2)}
    if kind == "badeq":
        eq[r["which"][0]] = ["%s = = 1", "%s +", "2 %s"][r["odd"]] % w.x[0]
    if kind == "far":
        ix[r["which"][-1]] = [4, 17, -5][r["odd"]]
    es = [{ix[i]: eq[i]} for i in r["which"]]
    if len(es) == 1:
        return es[0] if g.next(2) else es
    if kind == "few":
        return es[0] if r["odd"] == 0 else es[:1] if r["odd"] == 1 else es
    both = {**es[0], **es[1]} if g.next(2) else {**es[1], **es[0]}
    return [es[0], es[1], both]


def arguments(w, r):
    """exog, shocks, init of a request"""
    g, a = w.g, {}
    nm = [w.ex[j - 1] if j <= w.m else "nobody" for j in r["exog"]]
    if nm:
        if len(nm) == 1 and g.next(2):
            a["exog"] = nm[0]
        else:
            a["exog"] = nm if g.next(2) else tuple(nm)
    U = np.array(r["u"], dtype=float)
    T, f = len(U), r["sform"]
    if f == "vector":
        a["shocks"] = U[:, 0].copy() if g.next(2) else [int(v) for v in U[:, 0]]
    elif f in ("column", "matrix"):
        a["shocks"] = U.copy() if g.next(2) else U.tolist()
    elif f == "number":
        a["shocks"] = T + 11
    elif f == "tuple":
        a["shocks"] = (T + 11,) if r["width"] == 1 and g.next(2) else (T + 11, r["width"])
    elif f == "words":
        a["shocks"] = [["a", "b"], "many", {"e": 1.0}][r["odd"]]
    else:
        a["shocks"] = [[[1.0], [1.0, 2.0]], [1.0, [2.0]], [[1.0, 2.0], 3.0]][r["odd"]]
    k = r["init"][0]
    if k == "given":
        d = [q(v) for v in r["init"][1]]
        full = [d[0], d[1], Fr(g.next(5) - 2), Fr(g.next(3))]      # the followers' past does not matter
        y = np.array([float(full[i]) for i in w.order])
        a["init"] = y if g.next(2) else list(y)
    elif k in ("short", "long"):
        a["init"] = [1.0, 2.0, 0.0] if k == "short" else np.ones(5)
    elif k == "words":
        a["init"] = ["a", "b", "c", "d"]
    return a


def noted(log):
    return [str(x.message) for x in log if "regime" in str(x.message) or "converge" in str(x.message)]


def ask(w, r, seed, fixed=None):
    """carry out a request; the paths, shocks and warnings"""
    from pynare.core.solve.binding import OccBinSolution, Constraint, solve_occbin_one_constraint, solve_occbin_two_constraints
    from pynare.regimes import RegimeSwitchingModel
    g = w.g
    a = arguments(w, r)
    if fixed is not None:
        a["shocks"] = fixed
    con = constraint(w, r)
    T = len(a["shocks"]) if fixed is not None else len(r["u"])
    P = None if r["extra"] < 0 else T + r["extra"]
    if r["sform"] in ("number", "tuple"):
        P = None
    md = w.model
    np.random.seed(seed)
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        if r["direct"]:
            k = r["models"]
            one = len(r["which"]) == 1
            binds = [[i - 1] for i in r["which"]] + ([] if one else [[0, 1]])
            alts = []
            other = g.next(len(binds))
            for j, b in enumerate(binds):
                kw = {}
                if j == other:
                    p = g.next(3)
                    if k == "endog":
                        kw["endog"] = w.names[:p] + ["further"] + w.names[p:]
                    elif k == "moved":
                        kw["endog"] = w.names[1:] + w.names[:1] if p else w.names[::-1]
                    elif k == "stoch":
                        kw["stoch"] = w.ex + ["another"] if p or w.m == 1 else w.ex[::-1]
                    elif k == "params":
                        kw["extra"] = {"unrelated": Fr(1)}
                alts.append(w.build(b, **kw))
            cons = con if g.next(2) or isinstance(con, str) else [list(p) if not isinstance(p, str) else p for p in con]
            cons = Constraint(cons, endog=md.endog if g.next(2) else list(w.names), params=md.model_scope,
                              exog=md.stoch if g.next(2) else list(w.ex))
            kw = dict(a, constraint=cons, periods=P)
            if one == (k != "count"):
                s, u = solve_occbin_one_constraint(ref=md, alt=alts[0], **kw)
            else:
                alts = (alts * 3)[:3]
                s, u = solve_occbin_two_constraints(ref=md, alt0=alts[0], alt1=alts[1], dbl=alts[2], **kw)
            return s, u, noted(log)
        ex = regimes(w, r)
        how = g.next(4)
        if r["exprs"] == "sigma":
            a["sigma"] = {w.ex[0]: 2.0}
        if r["con"] == "fine" and g.next(5) == 0:
            con = Constraint(con, endog=md.endog, params=md.model_scope)
        if how == 0:
            s = OccBinSolution(md, con, exprs=ex, **a).solve(periods=P)
        elif how == 1 and ex and "sigma" not in a:
            s = OccBinSolution(RegimeSwitchingModel(md, ex), con, **a).solve(periods=P)
        else:
            s = md.solve(constraint=con, exprs=ex, periods=P, **a)
            w.given = s
        return s.paths, s.shocks, noted(log)


def contents(md):
    return str(md.exprs), {k: float(v) for k, v in md.params.items()}, [str(v) for v in md.endog.names], \
        [str(v) for v in md.stoch.names]


def run(c):
    w = World(c)
    kept = None                                # the solution the model has to hold
    for i, e in enumerate(c["log"]):
        before = contents(w.model)
        msg, new = step(w, c, i, e)
        if new is not None:
            kept = new
        if msg is None and e["op"] != "set" and contents(w.model) != before:
            msg = "the model was changed"
        if msg is None and e["op"] != "linear" and w.model.solution_order != getattr(kept, "order", None):
            msg = "the order of the model's solution became %s" % w.model.solution_order
        if msg is None and kept is not None and e["op"] != "set" and w.fresh and w.model.solution is not kept:
            msg = "the model's solution was replaced"
        if msg:
            return "request %d: %s\n%s\nequations %s\nrates %s\nvariables %s %s" % (
                i + 1, msg, {k: v for k, v in e.items() if k != "path"}, w.exprs(), w.value, w.names, w.ex)
    return None


def step(w, c, i, e):
    """what is wrong with the answer, and the solution the model was given"""
    md = w.model
    if e["op"] == "set":
        nm = w.rate[e["i"] - 1]
        w.value[nm] = q(e["value"])
        md.params[nm] = float(w.value[nm])
        w.fresh = False                        # a linear solution is computed again when asked for
        return None, None
    if e["op"] == "order":
        x, _ = raises(md.solve, order=e["value"])
        return None if isinstance(x, ValueError) else "solve(order=%d) gave %r" % (e["value"], x), None
    if e["op"] == "linear":
        x, s = raises(md.solve, order=e["order"])
        if x is not None:
            return "solve(order=%d) raised %r" % (e["order"], x), None
        if s.order != e["order"] or md.solution_order != e["order"]:
            return "solved at order %s" % s.order, s
        w.fresh = True
        u = np.zeros((len(e["path"]) + 1, w.m))
        u[:len(e["u"])] = np.array(e["u"], dtype=float)
        x, sim = raises(md.simulate, shocks=u)
        if x is not None:
            return None if isinstance(x, NotImplementedError) and not any(w.value.values()) else "simulate raised %r" % x, s
        return diff("linear path", sim.paths[1:] - w.ss, w.path(e["path"]), 1e-7), s
    w.given = None
    msg = request(w, c, i, e)
    if w.given is not None:
        w.fresh = True
    return msg, w.given


def request(w, c, i, e):
    r = e["q"]
    x, got = raises(ask, w, r, 1000 * c["k"] + i)
    if e["faults"]:
        if x is None:
            return "carried out a request that should be refused (%s)" % ", ".join(sorted(e["faults"]))
        if "any" not in e["faults"] and not any(f in [k.__name__ for k in type(x).__mro__] for f in e["faults"]):
            return "refused with %r instead of %s" % (x, " or ".join(sorted(e["faults"])))
        return None
    if x is not None:
        return "refused with %r" % x
    paths, shocks, log = got
    if isinstance(paths, str):
        return paths
    if e["drawn"]:
        T = len(r["u"]) + 11
        want = (T,) if np.ndim(shocks) == 1 else (T, r["width"])
        if np.shape(shocks) != want or (np.ndim(shocks) == 1 and r["width"] != 1):
            return "drew shocks of shape %s" % (np.shape(shocks),)
        if len(np.unique(shocks)) != np.size(shocks) or np.abs(shocks).max() > 8:
            return "the shocks drawn are not independent normals: %s" % shocks
        x, again = raises(ask, w, dict(r, extra=-1, models="fine"), 0, np.array(shocks))
        if x is not None:
            return "the shocks drawn were refused: %r" % x
        return diff("path of drawn shocks", paths, again[0], 1e-9) or diff("shocks", shocks, again[1], 0)
    want = w.path(e["path"])
    P = len(want)
    if np.shape(paths) != np.shape(want):
        return "path of shape %s instead of %s" % (np.shape(paths), np.shape(want))
    if e["warned"] == "yes":
        return None if log else "no warning although the reference regime is not reached in time"
    if e["warned"] == "no" and log:
        return "warned about %s" % log
    U = np.array(r["u"], dtype=float)
    full = np.concatenate([U, np.zeros((P - len(U), U.shape[1]))])
    return diff("path", paths, want, 1e-7) or diff("shocks", np.reshape(shocks, np.shape(full)), full, 1e-12)
