"""C22: solution orders. MCLife.tla with mostly order requests."""
import life
from props import c20
from props.c20 import sample, coverage

TIMEOUT = 120.0
ASSUMPTIONS = c20.ASSUMPTIONS + ["a solve request that fails for want of a stable solution may or may not leave its order stored"]


def cases(ctx):
    return c20.histories(ctx, 3, [(20000, 200, 8, 0), (21000, 1, 3, 3)] if ctx.quick else [(20000, 2500, 10, 0), (25000, 3, 3, 3)])


def run(c):
    return life.replay(c, "c22", final=["order", "first", "solution", "simulate", "moments", "order", "contents"], after_each=("order",))
