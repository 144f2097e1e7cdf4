"""C05: calibrations. Histories of MCCalib.tla are replayed into ModelCalibration, into the
parameters of a model and into constructions from the whole set of definitions."""
import numpy as np
from common import Rng, q, raises
import lin

TIMEOUT = 60.0
ASSUMPTIONS = ["definitions are a constant plus multiples plus a product of parameters, possibly inside a function or sign, written in several ways"]


def cases(ctx):
    depth = 3 if ctx.quick else 4
    r = ctx.tlc("MCCalib", {"Seed": ctx.seed, "Depth": depth, "Count": 0, "Mode": "all"}, spec="Spec",
                invariants=["Solved", "Emit"], properties=["RejectedKeeps", "Locality"])
    out = [dict(c, id="all-%d-%d" % (depth, i), kind="all") for i, c in enumerate(r.records)]
    n = 900 if ctx.quick else 15000
    r = ctx.tlc("MCCalib", {"Seed": ctx.seed, "Depth": 14, "Count": n, "Mode": "rand"}, spec="Spec",
                invariants=["Solved", "Emit"], properties=["RejectedKeeps", "Locality"], constraint="Sane")
    out += [dict(c, id="hist-%d-%d" % (ctx.seed, c["k"]), kind="rand") for c in r.records]
    for c in out:
        c["seed"] = ctx.seed
    return out


def sample(c):
    return {"id": c["id"], "history": [(o["act"], o["name"], o["ok"]) for o in c["hist"]]}


def coverage(cs):
    return {"operations": sum(len(c["hist"]) for c in cs),
            "rejected_operations": sum(not o["ok"] for c in cs for o in c["hist"])}


def text(d, g, names):
    """a definition as a number or as text"""
    c = q(d["c"])
    if d["kind"] == "num":
        k = g.next(4)
        if k == 0 and c.denominator == 1:
            return int(c)
        if k == 1:
            return lin.num(c)
        return float(c)
    parts = []
    if c != 0 or g.next(4) == 0:
        parts.append((c, ""))
    for co, n in d["lin"]:
        parts.append((q(co), names[n]))
    if d["prod"]:
        parts.append((1, " * ".join(names[n] for n in d["prod"])))
    out = ""
    for co, body in g.shuffle(parts):
        a = abs(co)
        t = lin.num(a) if not body else body if a == 1 and g.next(2) else "%s*%s" % (
            ("(%s)" if "/" in lin.num(a) else "%s") % lin.num(a), body)
        if body and a == 1 and g.next(3) == 0:
            t = "(%s)" % t
        out = (out + (" - " if co < 0 else " + ") + t) if out else ("-" if co < 0 else "") + t
    fn = d["fn"]
    if fn == "abs":
        out = ["sqrt((%s)^2)", "abs(%s)", "exp(log(sqrt((%s)*(%s)) + 1)) - 1"][g.next(3)].replace("%s", out)
    elif fn == "neg":
        out = ["-(%s)", "-1*(%s)", "0 - (%s)", "(-(%s))"][g.next(4)] % out
    elif fn == "id":
        out = ["+(%s)", "sign(%s)*abs(%s)", "(%s)^1", "sqrt((%s)^2)*sign(%s)"][g.next(4)].replace("%s", out)
    return out


def check(cal, want, names, msgs, tag):
    want = {names[k]: float(q(v)) for k, v in dict(want).items()}
    got = dict(cal)
    if set(got) != set(want):
        msgs.append("%s: parameters %s, expected %s" % (tag, sorted(got), sorted(want)))
        return
    for k, v in want.items():
        if not isinstance(got[k], (int, float, np.floating)) or abs(got[k] - v) > 1e-9 * max(1, abs(v)):
            msgs.append("%s: %s = %r, expected %s" % (tag, k, got[k], v))


def shown(cal, msgs):
    """the printed calibration: a heading, then every parameter with its value"""
    e, text = raises(str, cal)
    if e is not None:
        msgs.append("str() of the parameters raised %r" % e)
        return
    rows = [r.split("=") for r in text.split("\n")[1:]]
    got = {r[0].strip(): r[1].strip() for r in rows if len(r) == 2}
    if len(rows) != len(cal) or set(got) != set(cal):
        msgs.append("the printed parameters are %r, the parameters %s" % (text, dict(cal)))
        return
    for k, v in cal.items():
        e, x = raises(float, got[k])
        # as many decimals as are displayed
        if e is not None or abs(x - v) > 0.5000001 * 10.0 ** -len(got[k].partition(".")[2]) + 1e-9 * abs(v):
            msgs.append("%s = %r is printed as %r" % (k, v, got[k]))


def run(c):
    import pynare
    from pynare.core.variables import ModelCalibration
    g = Rng("c05", c["seed"], c["id"])
    pool = ["alpha", "a", "b1", "rho_e", "x2", "k", "ab", "B", "theta", "s", "nu_", "lambda", "nan", "E1"]
    names = dict(zip("abcdef", g.shuffle(pool))) if c["kind"] == "rand" or g.next(2) else {n: n for n in "abcdef"}
    msgs = []
    whole = c["kind"] == "rand" or g.next(8) == 0
    model = None
    if whole and g.next(2):
        model = pynare.Model(endog=["y"], stoch=["u"], exprs=["y = 0.5*y(-1) + u"], params={})
        cal = model.params
    else:
        cal = ModelCalibration({})
    defs = {}
    log = []
    for i, op in enumerate(c["hist"]):
        n = names[op["name"]]
        if op["act"] == "del":
            e, _ = raises(cal.pop if g.next(2) else cal.__delitem__, n)
            log.append("del %s" % n)
        else:
            v = text(op["def"], g, names)
            if g.next(6) == 0 and isinstance(v, str) and op["ok"]:
                import pynare.parsing as pp
                v = pp.parse_string(v)
            log.append("%s := %r" % (n, v))
            if model is not None and g.next(2):
                e, _ = raises(model.add_params, **{n: v})
            elif g.next(4) == 0:
                e, _ = raises(cal.update, {n: v})
            else:
                e, _ = raises(cal.__setitem__, n, v)
        if op["ok"] and e is not None:
            msgs.append("step %d (%s) was rejected: %r" % (i, log[-1], e))
        if not op["ok"] and e is None:
            msgs.append("step %d (%s) was accepted" % (i, log[-1]))
        if op["ok"]:
            if op["act"] == "del":
                defs.pop(n, None)
            else:
                defs[n] = v
        check(cal, op["values"], names, msgs, "after step %d (%s)" % (i, log[-1]))
        if model is not None and not msgs and i % 5 == 4:
            check(model.model_scope, op["values"], names, msgs, "scope after step %d" % i)
        if not msgs and g.next(3) == 0:
            shown(cal, msgs)
        if msgs:
            break
    if not msgs and whole:
        # the same definitions given at once, in several orders
        last = c["hist"][-1]["values"]
        for rep in range(3):
            order = g.shuffle(sorted(defs))
            d = {n: defs[n] for n in order}
            d0 = dict(d)
            e, cal2 = raises(ModelCalibration, d)
            if e is not None:
                msgs.append("definitions %s were rejected: %r" % (d, e))
                break
            check(cal2, last, names, msgs, "definitions in order %s" % order)
            if d != d0:
                msgs.append("the caller's definitions were changed")
        # an inconsistent set is rejected at construction as well
        bad = [o for o in c["hist"] if not o["ok"] and o["act"] == "set"]
        if bad and not msgs:
            j = c["hist"].index(bad[-1])
            dd = {}
            for o in c["hist"][:j]:
                if o["ok"]:
                    if o["act"] == "del":
                        dd.pop(names[o["name"]], None)
                    else:
                        dd[names[o["name"]]] = text(o["def"], g, names)
            dd[names[bad[-1]["name"]]] = text(bad[-1]["def"], g, names)
            e, _ = raises(ModelCalibration, dd)
            if e is None:
                msgs.append("inconsistent definitions %s were accepted" % dd)
    return "\n".join(msgs[:3] + ["; ".join(log)]) if msgs else None
