"""Histories of Life.tla replayed on real models."""
import copy, json
import numpy as np
from common import Rng, q, vec, mat, diff, raises, two_d
from lin import num

FIELDS = ("endog", "stoch", "params", "exprs", "shocks", "initial", "terminal", "historical", "local_params")


def known(v):
    return v[1] != 0


def coef(k, f, rest, first):
    """signed text of k * f * rest"""
    a = abs(k)
    fs = [x for x in (f, rest) if x]
    if a != 1 or not fs:
        t = num(a)
        fs = ["(%s)" % t if "/" in t else t] + fs
    return (("-" if k < 0 else "") if first else (" - " if k < 0 else " + ")) + "*".join(fs)


def at(n, o):
    return n + ("(%+d)" % o if o else "")


def eq_text(e, g):
    parts = [(q(t["k"]), t["f"], at(t["n"], t["o"])) for t in e["t"]] + [(q(t["k"]), t["f"], "") for t in e["c"]] + \
            [(q(t["k"]), t["f"], t["n"]) for t in e["s"]] + \
            [(q(t["k"]), "", t["n"] + ("^2" if t["m"] == "" else "*" + at(t["m"], -1))) for t in e["q"]]
    parts = g.shuffle(parts)
    left = coef(q(e["l"]), "", e["v"], True)
    right = ""
    for k, f, r in parts:
        if g.next(5) == 0:
            left += coef(-k, f, r, False)
        else:
            right += coef(k, f, r, not right)
    return "%s = %s" % (left, right or "0")


def def_text(d, g):
    out = ""
    for t in d["t"]:
        out += coef(q(t["k"]), "", t["n"], not out)
    if not d["t"]:
        return float(q(d["c"]))
    return out + coef(q(d["c"]), "", "", False) if q(d["c"]) else out


def shocks_of(c, only=None):
    out = {}
    for s in c["stoch"]:
        if only and s["n"] != only:
            continue
        if known(s["v"]):
            out[s["n"]] = {"variance": float(q(s["v"]))}
    for x in c["co"]:
        if only and x["a"] != only:
            continue
        d = out.setdefault(x["a"], {})
        d.update({"other": x["b"], x["kind"]: float(q(x["v"]))})
    return out


def arguments(c, g, bounds=None):
    return dict(endog=list(c["endog"]), stoch=[s["n"] for s in c["stoch"]], params={d["n"]: def_text(d, g) for d in c["pars"]},
                exprs=[eq_text(e, g) for e in c["eqs"]], shocks=shocks_of(c),
                initial={n: float(q(v)) for n, v in zip(c["endog"], c["init"])},
                terminal=dict((bounds or {}).get("terminal", {})), historical=dict((bounds or {}).get("historical", {})),
                local_params={d["n"]: float(q(d["v"])) for d in c["locs"]})


def sigma(c):
    n = len(c["stoch"])
    S = np.zeros((n, n))
    ix = {s["n"]: i for i, s in enumerate(c["stoch"])}
    for i, s in enumerate(c["stoch"]):
        S[i, i] = float(q(s["v"])) if known(s["v"]) else 1.0
    for x in c["co"]:
        i, j = ix[x["a"]], ix[x["b"]]
        v = float(q(x["v"]))
        S[i, j] = S[j, i] = v * np.sqrt(S[i, i] * S[j, j]) if x["kind"] == "corr" else v
    return S


def occurrences(c):
    occ = set()
    for e in c["eqs"]:
        occ.add((0, e["v"]))
        occ.update((t["o"], t["n"]) for t in e["t"])
        occ.update((-1, t["m"]) for t in e["q"] if t["m"])
    return [(o, i) for o in (-1, 0, 1) for i, n in enumerate(c["endog"]) if (o, n) in occ]


class Meaning(object):
    """the numbers of a digest"""
    def __init__(self, d):
        self.d, self.c = d, d["content"]
        self.n, self.m = len(self.c["endog"]), len(self.c["stoch"])
        self.A, self.B, self.C = mat(d["A"]), mat(d["B"]), mat(d["C"])
        self.D, self.c0, self.ss = mat(d["D"], self.m), vec(d["c0"]), vec(d["ss"])
        self.occ = occurrences(self.c)
        self.key = json.dumps(self.c, sort_keys=True)

    def residual(self, x, e):
        n, c = self.n, self.c
        out = self.A @ x[:n] + self.B @ x[n:2 * n] + self.C @ x[2 * n:] + self.D @ e + self.c0
        for r, eq in enumerate(c["eqs"]):
            for t in eq["q"]:
                s = e[[y["n"] for y in c["stoch"]].index(t["n"])]
                out[r] -= float(q(t["k"])) * s * (s if t["m"] == "" else x[c["endog"].index(t["m"])])
        return out

    def jacobian(self):
        """at the steady state"""
        D = self.D.copy()
        for r, eq in enumerate(self.c["eqs"]):
            for t in eq["q"]:
                if t["m"]:
                    D[r, [y["n"] for y in self.c["stoch"]].index(t["n"])] -= float(q(t["k"])) * self.ss[self.c["endog"].index(t["m"])]
        L = {-1: self.A, 0: self.B, 1: self.C}
        return np.column_stack([L[o][:, i] for o, i in self.occ] + [D])


_fresh = {}


def fresh(me, order):
    """a newly built model with the content, solved at the order (0: not solved)"""
    import pynare
    key = (me.key, order)
    if key not in _fresh:
        if len(_fresh) > 60:
            _fresh.clear()
        m = pynare.Model(**arguments(me.c, Rng("fresh", me.key)))
        if order:
            m.solve(order=order)
        _fresh[key] = m
    return _fresh[key]


def path_shocks(me, n=4):
    g = Rng("path", me.m)
    return np.array([[(g.next(9) - 4) / 4 for _ in range(me.m)] for _ in range(n)])


def flat(x):
    return np.asarray(x, dtype=float)


def solution_arrays(s):
    if s.order == 1:
        return [flat(s.gy), flat(s.gu)]
    l = s.lower_solution
    return [flat(x) for x in (s.ghxx, s.ghxu, s.ghuu, s.del2, l.gy, l.gu)]


def moments(st):
    return [flat(st.cov()), flat(st.var()), flat(st.autocov(2)), flat(st.mean())]


def index_arrays(m):
    ix = m.indexes
    out = [flat([ix.n_static, ix.n_forward, ix.n_backward, ix.n_mixed, ix.n_state, ix.n_endog, ix.n_exog, ix.n_endog_inc]),
           flat(ix.dr_order)]
    return out + [flat(getattr(ix, a)) for a in ("state", "static", "forward", "backward", "mixed", "pure_forward", "pure_backward")]


def numbers(m, what, me):
    if what == "indexes":
        return index_arrays(m) + [[v.name for v in m.state_vars], [v.name for v in m.static_vars], [v.name for v in m.forward_vars]]
    if what == "statespace":
        w = flat(np.abs(m.statespace.eigen))
        return [np.sort(w[np.isfinite(w) & (w < 1e6)])]
    if what == "hessian":
        return [flat(m.hessian.array)]
    if what == "solution":
        s = m.solution
        return [flat([s.order])] + solution_arrays(s)
    if what == "first":
        s = m.first_order_solution
        return [flat(s.gy), flat(s.gu)]
    if what == "impulse":
        return [flat(m.impulse_response(me.c["stoch"][-1]["n"], periods=5).impulse)]
    if what == "moments":
        return moments(m.stats)
    if what == "simulate":
        return [flat(m.simulate(shocks=path_shocks(me)).paths)]
    raise ValueError(what)


def agree(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, list) or isinstance(y, list):
            if x != y:
                return False
        elif x.shape != y.shape or not np.allclose(x, y, 1e-5, 2e-5):
            return False
    return True


def show(a):
    return "; ".join(str(x) if isinstance(x, list) else np.array2string(x, precision=6, max_line_width=150) for x in a)


def differential(m, what, me, orders):
    """the answer of m against those of freshly built models with one of the orders"""
    e, got = raises(numbers, m, what, me)
    wants = []
    for o in sorted({2 if o == 0 else o for o in orders}) if orders else [0]:
        e2, want = raises(lambda: numbers(fresh(me, o), what, me))
        if (e is None) == (e2 is None) and (e is not None or agree(got, want)):
            return None
        wants.append(repr(e2) if e2 is not None else show(want))
    return "%s: %s\nbut a fresh model answers %s" % (what, repr(e) if e is not None else show(got), " or ".join(wants))


def stable(m, me):
    """the first-order rule solves the equations of the content"""
    n = me.n
    s = m.first_order_solution
    lag, lead = ({i for o, i in me.occ if o == p} for p in (-1, 1))
    kinds = [[i for i in range(n) if i not in lag and i not in lead], [i for i in range(n) if i in lag and i not in lead],
             [i for i in range(n) if i in lag and i in lead], [i for i in range(n) if i not in lag and i in lead]]
    dr, st = sum(kinds, []), kinds[1] + kinds[2]
    G, K = np.zeros((n, n)), np.zeros((n, me.m))
    if st:
        G[np.ix_(dr, st)] = two_d(s.gy, n, len(st))
    K[dr] = two_d(s.gu, n, me.m)
    J = me.jacobian()[:, len(me.occ):]
    return diff("first-order rule: equations for the state", me.A + me.B @ G + me.C @ G @ G, np.zeros((n, n)), 1e-4) or \
        diff("first-order rule: equations for the shocks", (me.B + me.C @ G) @ K + J, np.zeros((n, me.m)), 1e-4)


def ask(m, what, d):
    """None or what is wrong with the answer of m"""
    me = Meaning(d)
    c, n = me.c, me.n
    g = Rng("ask", me.key)
    if what == "residuals":
        for _ in range(2):
            x = np.array([(g.next(33) - 16) / 8 for _ in range(3 * n)])
            e = np.array([(g.next(33) - 16) / 8 for _ in range(me.m)])
            args = np.concatenate([[x[n * (o + 1) + i] for o, i in me.occ], e])
            z = diff("dynamic residual", m.dynamic_repr(args), me.residual(x, e), 1e-8) or \
                diff("static residual", m.steady_repr(x[n:2 * n]), (me.A + me.B + me.C) @ x[n:2 * n] + me.c0, 1e-8)
            if z:
                return z
        return None
    if what == "derivatives":
        return diff("Jacobian", m.jacobian.array, me.jacobian(), 2e-4) or diff("static Jacobian", m.steady_repr.jacobian.array, me.A + me.B + me.C, 1e-6) \
            or (differential(m, "hessian", me, []))
    if what == "steady":
        return diff("steady state", m.ss.values, me.ss, 1e-3) or diff("initial values", m.initial, vec(c["init"]), 1e-9)
    if what == "sigma":
        return diff("covariance of the shocks", np.atleast_2d(m.sigma), sigma(c), 1e-9)
    if what == "order":
        o = m.solution_order
        if (0 if o is None else o) not in d["ord"]:
            return "solution order is %r, expected one of %s" % (o, d["ord"])
        return None
    if what == "summary":
        e, x = raises(lambda: str(m.summary()))
        return "summary raised %r" % e if e is not None else None
    if what == "contents":
        got = ([v.name for v in m.endog], [v.name for v in m.stoch], len(m.exprs))
        want = (list(c["endog"]), [s["n"] for s in c["stoch"]], len(c["eqs"]))
        if got != want:
            return "contents %s, expected %s" % (got, want)
        for at_, have, vals in (("parameters", m.params, d["values"]), ("model-local values", m.local_params, [[x["n"], x["v"]] for x in c["locs"]])):
            want = {n: float(q(v)) for n, v in vals}
            got = {n: float(v) for n, v in have.items()}
            if set(want) != set(got) or any(abs(want[x] - got[x]) > 1e-9 for x in want):
                return "%s are %s, expected %s" % (at_, got, want)
        return None
    if d["bad"] and what in ("solution", "first", "impulse", "moments", "simulate"):
        e, _ = raises(numbers, m, what, me)
        return "%s was answered although no stable solution exists" % what if e is None else None
    if what == "solution" or what == "first":
        z = differential(m, what, me, d["ord"])
        if z:
            return z
        if what == "solution" and (m.solution_order not in d["ord"] or m.solution.order != m.solution_order):
            return "order of the solution is %r, reported %r, expected one of %s" % (m.solution.order, m.solution_order, d["ord"])
        return stable(m, me)
    return differential(m, what, me, d["ord"] if what in ("impulse", "moments", "simulate") else [])


ASKS = ["contents", "residuals", "derivatives", "steady", "indexes", "sigma", "statespace", "simulate", "impulse", "moments", "first",
        "solution", "order", "summary"]


def regimes(models, op, d, g, state):
    """a regime-switching model on models[op.m]; the alternatives join the models one after the other"""
    from pynare.regimes import RegimeSwitchingModel
    base = models[op["m"] - 1]
    if op["at"] == 1:
        alts = []
        for ps in op["alts"]:
            n = len(base.exprs)
            alts.append({p["i"] - 1 - (n if g.next(4) == 0 else 0): eq_text(p["e"], g) for p in g.shuffle(ps)})
        bd = state["latest"][op["m"] - 1]
        bd = dict(bd, ord=sorted(set(bd["ord"]) | {0}))
        for none in ({}, []):
            e, _ = raises(RegimeSwitchingModel, base, exprs=none)
            if e is None:
                return "a regime-switching model without alternatives was built"
        arg = alts[0] if op["form"] == "dict" else g.pick([list, tuple])(alts)
        keep = repr(arg)
        R = state["regimes"] = RegimeSwitchingModel(base, arg) if g.next(2) else RegimeSwitchingModel(base, exprs=arg)
        if len(R) != 1 + len(alts) or len(R.models) != len(R):
            return "%d regimes, expected one and %d alternatives" % (len(R), len(alts))
        if repr(arg) != keep:
            return "the caller's replacements changed to %r" % (arg,)
        for what in ("contents", "residuals", "sigma"):
            z = ask(R[0], what, bd) or ask(base, what, bd)
            if z:
                return "baseline: " + z
    R = state["regimes"]
    m = R[op["at"]] if g.next(2) else R.models[op["at"]]
    models.append(m)
    if m is base:
        return "an alternative is the original model itself"
    return ask(m, "contents", d) or ask(m, "residuals", d)


def apply(models, op, d, g, shared, state):
    """perform a step on the real models; returns a complaint or None"""
    import pynare
    act = op["act"]
    if act == "build":
        models.append(pynare.Model(**shared))
        return None
    m = models[op["m"] - 1]
    c = d["content"]
    if act == "copy":
        models.append(m.copy())
        return None
    if act == "regimes":
        return regimes(models, op, d, g, state)
    if act == "param":
        n, v = op["d"]["n"], def_text(op["d"], g)
        how = g.next(3)
        if how == 0:
            m.add_params(**{n: v})
        elif how == 1:
            m.params[n] = v
        else:
            m.params.update({n: v})
    elif act == "unparam":
        if g.next(2):
            del m.params[op["n"]]
        else:
            m.params.pop(op["n"])
    elif act == "local":
        m.local_params[op["n"]] = float(q(op["v"]))
    elif act == "expr":
        t, i = eq_text(op["e"], g), op["i"] - 1
        how = g.next(4)
        if how == 0:
            m.exprs[i] = t
        elif how == 1:
            m.exprs[i:i + 1] = [t]
        elif how == 2:
            m.exprs.pop(i)
            m.exprs.insert(i, t)
        else:
            m.exprs[i] = pynare.core.expressions.ModelExprs([t])[0]
    elif act == "swap":
        i, j = op["i"] - 1, op["j"] - 1
        m.exprs[i], m.exprs[j] = m.exprs[j], m.exprs[i]
    elif act == "grow":
        t = eq_text(op["e"], g)
        how = g.next(4)
        if how == 0:
            m.add_exprs(t)
        elif how == 1:
            m.exprs.append(t)
        name = op["v"] if g.next(2) else [op["v"]]
        m.add_endog(name, initial=float(q(op["x"])) if g.next(2) else {op["v"]: float(q(op["x"]))})
        if how == 2:
            m.add_exprs([t])
        elif how == 3:
            m.exprs.extend([t])
    elif act == "shock":
        s = shocks_of(c, op["n"])
        if s and g.next(2):
            kw = s[op["n"]]             # the moments themselves as keywords
        else:
            kw = {"shocks": s} if s or g.next(2) else {}
        m.add_stoch(op["n"] if g.next(2) else [op["n"]], **kw)
    elif act == "variance":
        m.stoch[op["i"] - 1].variance = float(q(op["v"]))
    elif act == "start":
        m.endog[op["i"] - 1].initial = float(q(op["v"]))
    elif act == "solve":
        o = op["o"]
        e, s = raises(m.solve, order=o) if o or g.next(2) else raises(m.solve)
        if (e is not None) != (o == 3 or d["bad"]):
            return "solve(order=%s): %r" % (o, e or s)
        if e is None and (s.order != (o or 2) or m.solution is not s and not agree(solution_arrays(m.solution), solution_arrays(s))):
            return "solve(order=%s) gives order %s" % (o, s.order)
        if e is not None and o == 3 and not isinstance(e, ValueError):
            return "solve(order=3) raised %r" % e
        return ask(m, "order", d)
    elif act == "simulate":
        o = op["o"]
        me = Meaning(d)
        z = path_shocks(me)
        e, s = raises(lambda: m.simulate(shocks=z, order=o) if o or g.next(2) else m.simulate(shocks=z))
        if o == 3 or d["bad"]:
            if e is None:
                return "simulate(order=%s) was answered" % o
        else:
            outs = []
            for w in ([o] if o else sorted({x or 2 for x in d["ord"]})):
                e2, s2 = raises(lambda: fresh(me, w).simulate(shocks=z))
                outs.append((e2, s2))
                if (e is None) == (e2 is None) and (e is not None or np.allclose(s.paths, s2.paths, 1e-5, 2e-5)):
                    break
            else:
                return "simulate(order=%s): %s\nexpected %s" % (o, e or s.paths, [x or y.paths for x, y in outs])
        return ask(m, "order", d)
    elif act == "ask":
        return ask(m, op["what"], d)
    return None


NEW = ("copy", "build", "regimes")       # steps that add a model


def replay(c, tag, final=ASKS, after_each=()):
    g = Rng(tag, c["seed"], c["k"], len(c["log"]))
    first = c["log"][0]["d"]["content"]
    bounds = {"terminal": {}, "historical": {}}
    for n in first["endog"]:
        for kind in bounds:
            if g.next(3) == 0:
                bounds[kind][n] = (g.next(9) - 4) / 4
    shared = arguments(first, g, bounds)
    if shared["shocks"] == {} and g.next(2):
        del shared["shocks"]
    before = copy.deepcopy(shared)
    models, latest, done = [], [], []
    state = {"latest": latest}
    for step in c["log"]:
        op, d = step["op"], step["d"]
        done.append(op)
        e, z = raises(apply, models, op, d, g, shared, state)
        if op["act"] in NEW:
            latest.append(d)
        else:
            latest[op["m"] - 1] = d
        if e is not None:
            z = "step raised %r" % e
        if not z:
            for w in after_each:
                i = latest.index(d) if op["act"] not in NEW else len(latest) - 1
                z = z or ask(models[i], w, d)
        if z:
            return report(z, done, before, "at the last step")
    for i, (m, d) in enumerate(zip(models, latest)):
        d = dict(d, ord=sorted(set(d["ord"]) | ({2} if 0 in d["ord"] else set())))
        for w in (g.shuffle(final) if g.next(2) else final):
            e, z = raises(ask, m, w, d)
            if e is not None:
                z = "%s raised %r" % (w, e)
            if z:
                return report(z, done, before, "finally, model %d, content\n%s" % (i + 1, json.dumps(d["content"])))
        for kind in bounds:
            want = [bounds[kind].get(n, np.nan) for n in first["endog"]]
            got = flat(getattr(m, kind))[:len(want)]
            if not np.allclose(got, want, equal_nan=True):
                return report("%s values are %s, expected %s" % (kind, got, want), done, before, "finally, model %d" % (i + 1))
    if repr(shared) != repr(before):
        return report("the caller's collections changed to %r" % shared, done, before, "finally")
    return None


def report(z, done, args, where):
    return "%s\n%s\nbuilt from %s\nsteps:\n%s" % (z, where, args, "\n".join("  " + json.dumps(o) for o in done))
