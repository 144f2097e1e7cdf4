"""C16: covariance of shocks. MCSigma.tla writes shocks blocks statement by statement."""
import numpy as np
import lin
from common import mat, diff, raises, Rng, q, load_text

TIMEOUT = 60.0
ASSUMPTIONS = ["every block for two shocks with at most three statements, sampled blocks of up to 16 statements for up to seven shocks; each "
               "variance and each pair is declared at most once"]


def cases(ctx):
    a = ctx.tlc("MCSigma", {"Seed": ctx.seed, "N": 2, "MaxLen": 3, "Count": 0}, spec="Spec",
                invariants=["Symmetric", "OrderFree", "Emit"], properties=["Local"])
    n = 150 if ctx.quick else 3000
    b = ctx.tlc("MCSigma", {"Seed": ctx.seed, "N": 0, "MaxLen": 0, "Count": n}, spec="Spec",
                invariants=["Symmetric", "OrderFree", "Emit"], properties=["Local"])
    recs = a.records + [r for r in b.records if not ctx.quick or len(r["st"]) >= r["n"] + (r["k"] + len(r["st"])) % 3]
    return [dict(r, id="sig-%s-%d-%s" % (r["k"], r["n"], r["st"]), seed=ctx.seed) for r in recs]


def sample(c):
    return {"shocks": c["n"], "statements": c["st"]}


def render(c, ex, g):
    out = []
    for s in c["st"]:
        a = ex[s[1] - 1]
        v = lin.num(q(s[-1]))
        if s[0] == "var":
            out.append("var %s = %s;" % (a, v))
        elif s[0] == "std":
            out.append("var %s; stderr %s;" % (a, v))
        elif s[0] == "cov":
            out.append("var %s, %s = %s;" % (a, ex[s[2] - 1], v))
        else:
            out.append("corr %s, %s = %s;" % (a, ex[s[2] - 1], v))
    return out


def run(c):
    import pynare
    g = Rng("c16", c["seed"], c["id"])
    n = c["n"]
    en, ex = lin.names(g, n, n)
    exprs = ["%s = 0.5*%s(-1) + %s" % (en[i], en[i], ex[i]) for i in range(n)]
    t = "var %s;\nvarexo %s;\nmodel;\n%s;\nend;\n" % (" ".join(en), " ".join(ex), ";\n".join(exprs))
    lines = render(c, ex, g)
    if lines:
        t += "shocks;\n%s\nend;\n" % "\n".join(lines)
    want = mat(c["S"])
    e, m = raises(load_text, t)
    if e is not None:
        return "the file was rejected: %r\n%s" % (e, t)
    msgs = [diff("sigma", m.sigma, want, 1e-12)]
    msgs.append(diff("sigma, asked again", m.sigma, want, 1e-12))
    # the same declarations given to the constructor
    sh = {}
    for s in c["st"]:
        d = sh.setdefault(ex[s[1] - 1], {})
        v = float(q(s[-1]))
        if s[0] == "var":
            d["variance"] = v
        elif s[0] == "std":
            d["variance"] = v * v
        else:
            o = ex[s[2] - 1]
            old = d.get("other")
            if old is None:
                d["other"] = o
                d["cov" if s[0] == "cov" else "corr"] = v
            else:
                if isinstance(old, str):
                    d["other"], d["cov"], d["corr"] = [old], [d.get("cov")], [d.get("corr")]
                d["other"].append(o)
                d["cov"].append(v if s[0] == "cov" else None)
                d["corr"].append(v if s[0] == "cor" else None)
    e, m2 = raises(pynare.Model, endog=en, stoch=ex, exprs=exprs, shocks=sh)
    msgs.append(repr(e) if e else diff("sigma (constructor)", m2.sigma, want, 1e-12))
    # a copy, and a model to which a shock is added afterwards
    e, m3 = raises(m.copy)
    msgs.append(repr(e) if e else diff("sigma (copy)", m3.sigma, want, 1e-12))
    if not e:
        e, x = raises(m3.add_stoch, g.pick(["new_s", ["new_s"]]),
                      **g.pick([{"shocks": {"new_s": {"variance": 0.49}}}, {"variance": 0.49}]))
        if e:
            return "add_stoch: %r" % e
        w = np.zeros((n + 1, n + 1))
        w[:n, :n] = want
        w[n, n] = 0.49
        msgs.append(diff("sigma after adding a shock", m3.sigma, w, 1e-12))
    msgs = [x for x in msgs if x]
    return "\n".join(msgs + [t]) if msgs else None
