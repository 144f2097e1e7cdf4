"""C20: alterations and queries of one model. MCLife.tla generates the histories and the contents after every step."""
import life

TIMEOUT = 120.0
ASSUMPTIONS = ["models of at most three variables, two shocks, four parameters and a model-local value; equations linear in the "
               "endogenous variables with squares of shocks and products of shocks and lags, each dominated by its own variable",
               "answers that are not computed by the specification (second-order rules, paths, moments) are compared with those "
               "of a freshly built model of the same content"]
INV = dict(spec="Spec", invariants=["Valid", "Fresh", "Emit"], properties=["Isolated", "Pure", "Kept"])


def histories(ctx, which, plans):
    out = []
    for first, n, steps, free in plans:
        r = ctx.tlc("MCLife", {"Seed": ctx.seed, "First": first, "Last": first + n - 1, "Steps": steps, "Free": free, "Which": which}, **INV)
        for i, c in enumerate(r.records):
            out.append(dict(c, id="h-%d-%d-%d-%d" % (ctx.seed, c["k"], steps, i), seed=ctx.seed))
    return out


def cases(ctx):
    return histories(ctx, 1, [(0, 260, 8, 0), (1000, 3, 2, 2)] if ctx.quick else [(0, 3000, 9, 0), (5000, 16, 2, 2), (6000, 2, 3, 3)])


def sample(c):
    return {"content": c["log"][0]["d"]["content"], "steps": [s["op"] for s in c["log"]]}


def coverage(cs):
    acts = {}
    for c in cs:
        for s in c["log"]:
            a = s["op"]["act"] + (":" + s["op"]["what"] if "what" in s["op"] else "")
            acts[a] = acts.get(a, 0) + 1
    pairs = {(a["op"]["act"], b["op"]["act"]) for c in cs for a, b in zip(c["log"], c["log"][1:])}
    return {"steps": acts, "pairs_of_steps": len(pairs)}


def run(c):
    return life.replay(c, "c20")
