"""Trees of Fun.tla: evaluation, text, and models made of them."""
import math
import numpy as np
from common import Rng, q, vec
import lin
from lin import Text, num
from fractions import Fraction as Fr


class Undefined(Exception):
    pass


PY = {"exp": math.exp, "log": math.log, "ln": math.log, "log10": math.log10, "sqrt": math.sqrt,
      "abs": abs, "sign": lambda x: (x > 0) - (x < 0), "sin": math.sin, "cos": math.cos,
      "tan": math.tan, "asin": math.asin, "acos": math.acos, "atan": math.atan, "erf": math.erf}
EDGE = {"abs": 0.0, "sign": 0.0}


def val(t, x, p, smooth=False):
    """value of a tree at slots x and parameters p; Undefined outside the domain (or, if smooth, at its border)"""
    k = t[0]
    if k == "N":
        return t[1] / t[2]
    if k == "V":
        return float(x[t[1] - 1])
    if k == "P":
        return float(p[t[1] - 1])
    try:
        if k == "F":
            a = val(t[2], x, p, smooth)
            if t[1] in EDGE and abs(a - EDGE[t[1]]) < 1e-3:
                raise Undefined
            if t[1] in ("asin", "acos") and abs(a) > 0.999 or t[1] in ("log", "ln", "log10", "sqrt") and a < 1e-3:
                raise Undefined
            if t[1] == "tan" and abs(math.cos(a)) < 1e-2:
                raise Undefined
            r = PY[t[1]](a)
        elif k == "u":
            a = val(t[2], x, p, smooth)
            r = -a if t[1] == "-" else a
        else:
            a, b = val(t[2], x, p, smooth), val(t[3], x, p, smooth)
            if t[1] == "+":
                r = a + b
            elif t[1] == "-":
                r = a - b
            elif t[1] == "*":
                r = a * b
            elif t[1] == "/":
                if abs(b) < 1e-3:
                    raise Undefined
                r = a / b
            else:
                if t[3][0] == "N" and t[3][2] == 1 and t[3][1] >= 0:
                    r = a ** t[3][1]
                else:
                    if abs(a) < 1e-3 or (a < 0 and b != round(b)):
                        raise Undefined
                    if a < 0 and not const(t[3]):
                        raise Undefined
                    r = a ** b
    except (ValueError, OverflowError, ZeroDivisionError):
        raise Undefined
    if isinstance(r, complex) or not math.isfinite(r) or abs(r) > 1e6:
        raise Undefined
    return r


def const(t):
    return t[0] in ("N", "P") or t[0] in ("F", "u") and const(t[2]) or t[0] == "b" and const(t[2]) and const(t[3])


PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "^": 4}


def text(t, name, g, ctx=0):
    """text with no more parentheses than the grammar needs, plus a few redundant ones"""
    k = t[0]
    if k == "N":
        s = num(Fr(t[1], t[2]))
        lev = 5 if t[1] >= 0 and "/" not in s else 0
        if "/" in s and t[1] >= 0:
            lev = 2
    elif k in "VP":
        s, lev = name(t), 5
    elif k == "F":
        s, lev = "%s(%s)" % (t[1], text(t[2], name, g)), 5
    elif k == "u":
        s, lev = t[1] + text(t[2], name, g, 3), 3
    else:
        o = t[1]
        p = PREC[o]
        sp = " " if g.next(2) else ""
        if o == "^":
            s, lev = text(t[2], name, g, 5) + sp + "^" + sp + text(t[3], name, g, 3), 4
        else:
            s, lev = text(t[2], name, g, p) + sp + o + sp + text(t[3], name, g, p + 1), p
    if lev < ctx or g.next(12) == 0 and k != "N":
        s = "(" + s + ")"
    return s


def namer(t, n):
    def name(x):
        if x[0] == "P":
            return t.pnames[x[1] - 1]
        s = x[1]
        if s > 3 * n:
            return t.stoch[s - 3 * n - 1]
        v, o = (s - 1) // 3, (s - 1) % 3 - 1
        return t.offs(t.endog[v], o)
    return name


def text_of(c, tag="fun"):
    g = Rng(tag, c["seed"], c["k"])
    t = Text()
    t.endog, t.stoch = lin.names(g, c["n"], c["m"])
    t.pnames = g.shuffle(["alp", "B2", "gam_1", "d", "def", "E"])[:len(c["params"])]
    t.params = [(n, num(q(v))) for n, v in zip(t.pnames, c["params"])]
    name = namer(t, c["n"])
    for l, r in c["eqs"]:
        a, b = text(l, name, g), text(r, name, g)
        if g.next(6) == 0:
            t.exprs.append("%s - (%s)" % (a, b))      # an equation without '=' is equal to zero
        else:
            t.exprs.append("%s = %s" % (a, b))
    t.ybar = [q(c["x0"][3 * i]) for i in range(c["n"])]
    t.initial = {t.endog[i]: t.ybar[i] for i in range(c["n"])}
    t.S = [[Fr(int(i == j)) for j in range(c["m"])] for i in range(c["m"])]
    return t


def resid(c, x, p):
    return np.array([val(l, x, p) - val(r, x, p) for l, r in c["eqs"]])


def defined(c, points):
    """all equations are defined with moderate values at the points (x, params)"""
    try:
        for x, p in points:
            resid(c, x, p)
    except Undefined:
        return False
    return True


def order(c):
    """argument order of the dynamic representation: slots by period, then declaration order, then the shocks"""
    n, m = c["n"], c["m"]
    s = set(c["slots"])
    return [3 * v + o + 1 for o in range(3) for v in range(n) if 3 * v + o + 1 in s], [3 * n + j + 1 for j in range(m)]


def derivs(c, x, p):
    """dense first and second derivatives over all slots"""
    n, d = c["n"], 3 * c["n"] + c["m"]
    J, H = np.zeros((n, d)), np.zeros((n, d, d))
    for r in range(n):
        for s, t in c["jac"][r]:
            J[r, s - 1] = val(t, x, p)
        for a, b, t in c["hes"][r]:
            H[r, a - 1, b - 1] = H[r, b - 1, a - 1] = val(t, x, p)
    return J, H


def regular(J, n):
    """the linearised equations determine the variables (construction needs this)"""
    A, B, C = J[:, 0:3 * n:3], J[:, 1:3 * n:3], J[:, 2:3 * n:3]
    ok = max(abs(np.linalg.det(A + B * z + C * z * z)) for z in (2.0, 0.7, -1.3)) > 1e-3
    st = [i for i in range(n) if not A[:, i].any() and not C[:, i].any()]
    if st and np.linalg.svd(B[:, st])[1].min() < 1e-3:
        return False
    S = A + B + C
    # the search differentiates the sum of squares numerically: it stays at an exact start only if slopes are moderate
    return ok and abs(np.linalg.det(S)) > 1e-3 and (S ** 2).sum(axis=0).max() < 250
