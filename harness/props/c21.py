"""C21: copies and separately built models. MCLife.tla with copies and repeated constructions from one collection."""
import life
from props import c20
from props.c20 import sample, coverage

TIMEOUT = 120.0
ASSUMPTIONS = c20.ASSUMPTIONS + ["at most three models; terminal and historical values are given at construction only",
                                 "whether a copy inherits the stored solution of its original is left open"]


def cases(ctx):
    return c20.histories(ctx, 2, [(10000, 220, 7, 0), (11000, 2, 2, 2)] if ctx.quick else [(10000, 3000, 9, 0), (15000, 12, 2, 2), (16000, 2, 3, 3)])


def run(c):
    return life.replay(c, "c21")
