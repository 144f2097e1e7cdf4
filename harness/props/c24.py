"""C24: regime-switching models. MCRegime.tla generates the histories and the contents of every regime."""
import life
from props import c20
from props.c20 import sample, coverage

TIMEOUT = 120.0
ASSUMPTIONS = c20.ASSUMPTIONS + ["the first regime is only compared with the baseline when it is built, not after later alterations of "
                                 "either of them"]


def cases(ctx):
    out = []
    for which, first, n, steps in ([(1, 40000, 300, 6), (2, 41000, 120, 6)] if ctx.quick else [(1, 40000, 3500, 8), (2, 45000, 1800, 7)]):
        r = ctx.tlc("MCRegime", {"Seed": ctx.seed, "First": first, "Last": first + n - 1, "Steps": steps, "Free": 0, "Which": which},
                    spec="SpecR", invariants=["Valid", "Fresh", "EmitR"], properties=["Pure", "Only"])
        for i, c in enumerate(r.records):
            out.append(dict(c, id="h-%d-%d-%d-%d" % (ctx.seed, c["k"], steps, i), seed=ctx.seed))
    return out


def run(c):
    return life.replay(c, "c24", final=["contents", "residuals", "derivatives", "sigma", "steady", "first", "simulate", "order"])
