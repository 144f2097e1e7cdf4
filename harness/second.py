"""Second-order models of Second.tla as models of the code under test."""
from fractions import Fraction as Fr
import numpy as np
from common import Rng, q, mat, vec
import lin
from lin import Text, num, names


def devs(v, s):
    """(text, curvature): functions d + curvature d^2 + ... of the deviation d of v from s"""
    if s == 0:
        return [(v, Fr(0)), ("(exp(%s) - 1)" % v, Fr(1, 2)), ("sin(%s)" % v, Fr(0)),
                ("log(1 + %s)" % v, Fr(-1, 2)), ("(%s + 3*%s^2)" % (v, v), Fr(3)), ("%s/(1 - %s)" % (v, v), Fr(1))]
    S = "(%s)" % num(s)
    return [("(%s - %s)" % (v, S), Fr(0)), ("(%s^2 - %s^2)/(2*%s)" % (v, S, S), 1 / (2 * s)),
            ("(%s - %s^2/%s)" % (S, S, v), -1 / s), ("%s*log(%s/%s)" % (S, v, S), -1 / (2 * s)),
            ("(exp(%s - %s) - 1)" % (v, S), Fr(1, 2)), ("(%s - %s + (%s - %s)^2)" % (v, S, v, S), Fr(1))]


def slot_text(t, sl):
    k, i = sl
    if k == 4:
        return t.stoch[i - 1], Fr(0)
    return t.offs(t.endog[i - 1], {1: -1, 2: 0, 3: 1}[k]), t.ybar[i - 1]


def text_of(c, seed, nonlinear=None):
    g = Rng("second", seed, c["k"], c["n"])
    t = Text()
    n, m = c["n"], c["m"]
    t.endog, t.stoch = names(g, n, m)
    nonlinear = g.next(2) == 0 if nonlinear is None else nonlinear
    t.ybar = [q(x) for x in c["ybar"]]
    params = g.next(2) == 0
    xs = [(1, j) for j in c["bs"]] + [(4, j) for j in range(1, m + 1)]
    for r in range(n):
        terms = []
        quad = {}

        def add(a, b, co):
            k = (min(a, b), max(a, b))
            quad[k] = quad.get(k, Fr(0)) + co
        for h, a, b in c["H"][r]:
            add(tuple(a), tuple(b), q(h))
        for a in range(len(xs)):
            for b in range(len(xs)):
                add(xs[a], xs[b], q(c["R"][r][a][b]))
        lins = []
        for k, X in ((1, c["A"]), (2, c["B"]), (3, c["C"])):
            lins += [((k, i + 1), q(X[r][i])) for i in range(n) if X[r][i][0]]
        lins += [((4, j + 1), q(c["D"][r][j])) for j in range(m) if c["D"][r][j][0]]
        for sl, co in lins:
            v, s = slot_text(t, sl)
            d, kap = g.pick(devs(v, s)) if nonlinear and g.next(2) else devs(v, s)[0]
            terms.append((co, d))
            if kap:
                add(sl, sl, -co * kap)
        for (a, b), co in sorted(quad.items()):
            if co == 0:
                continue
            da, db = (devs(*slot_text(t, x))[0][0] for x in (a, b))
            if not nonlinear:
                body = "%s*%s" % (da, db) if a != b or g.next(2) else "%s^2" % da
            elif a == b:
                body = ["%s^2" % da, "2*(1 - cos(%s))" % da, "2*(exp(%s) - 1 - %s)" % (da, da),
                        "%s*%s" % (da, db), "%s*sin(%s)" % (da, da)][g.next(5)]
            else:
                body = ["%s*%s" % (da, db), "sin(%s*%s)" % (da, db), "(exp(%s*%s) - 1)" % (da, db),
                        "%s*(exp(%s) - 1)" % (da, db), "%s*%s" % (db, da)][g.next(5)]
            terms.append((co, body))
        sides = ["", ""]
        for co, body in g.shuffle(terms):
            k = g.next(2)
            co = -co if k else co
            if params and g.next(3) == 0:
                p = "cf%d" % len(t.params)
                t.params.append((p, num(abs(co))))
                cs = p
            else:
                cs = num(abs(co))
                if "/" in cs:
                    cs = "(%s)" % cs
            b = "%s*%s" % (cs, body)
            s = sides[k]
            sides[k] = (s + (" - " if co < 0 else " + ") + b) if s else ("-" if co < 0 else "") + b
        t.exprs.append("%s = %s" % (sides[0] or "0", sides[1] or "0"))
    t.initial = {t.endog[i]: t.ybar[i] for i in range(n)}
    t.S = [[q(x) * Fr(2) ** c.get("sc", 0) for x in row] for row in c["S"]]
    return t


def expected(c):
    """(ghxx, ghxu, ghuu, del2) in decision-rule order"""
    n, m = c["n"], c["m"]
    nb = len(c["bs"])
    dr = [i - 1 for i in c["ix"]["dr"]]
    pos = [c["bs"].index(i) for i in c["ix"]["state"]]      # states in decision-rule order
    Q = np.array([mat(x) for x in c["Q"]]).reshape(n, nb + m, nb + m)[dr]
    us = [nb + j for j in range(m)]
    xx = Q[:, pos][:, :, pos].reshape(n, nb * nb)
    xu = 2 * Q[:, pos][:, :, us].reshape(n, nb * m)
    uu = Q[:, us][:, :, us].reshape(n, m * m)
    return xx, xu, uu, vec(c["del"])[dr]
