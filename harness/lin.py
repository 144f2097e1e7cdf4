"""Linear(isable) models of LinRE.tla as models of the code under test."""
import math
from fractions import Fraction
import numpy as np
from common import Rng, q, vec, mat, load_text

ENDOG = ["y", "x_1", "c", "zeta", "K9", "w", "pi_t", "aa", "Inv", "q2", "y_tm1", "b_", "n", "log_z", "mu",
         "lambda", "is", "nan", "Var", "E5"]
EXOG = ["e", "u_2", "Shk", "eps", "vv", "in", "pi"]


def num(x):
    """text of a rational: decimals where exact, else a quotient"""
    x = Fraction(x)
    d = x.denominator
    while d % 2 == 0:
        d //= 2
    while d % 5 == 0:
        d //= 5
    if d == 1:
        t = ("%.12f" % float(x)).rstrip("0").rstrip(".")
        if Fraction(t) == x:
            return t
    return "%d/%d" % (x.numerator, x.denominator)


class Text(object):
    """a model as structured data; renders to a file or to constructor arguments"""
    def __init__(self):
        self.endog, self.stoch = [], []
        self.params = []          # (name, text)
        self.exprs = []
        self.initial = {}         # name -> Fraction
        self.S = None             # covariance, list of lists of Fraction
        self.locals = []          # (name, text)

    def offs(self, name, o):
        return name if o == 0 else "%s(%+d)" % (name, o)


def tame(c):
    """the search for the steady state, started there, ends at once: its numerical gradient is small"""
    J = mat(c["A"]) + mat(c["B"]) + mat(c["C"])
    return (np.maximum(1, np.abs(vec(c["ybar"]))) * (J ** 2).sum(axis=0)).max() < 200


def unit(e):
    """the code p + 100 t stands for 2^p 3^t"""
    t = (e + 50) // 100
    return Fraction(2) ** (e - 100 * t) * Fraction(3) ** t


def in_units(c):
    """the record as the specification restates it: variable i is measured in units 1 / unit(units[i])"""
    k = c.get("units")
    if not k or not any(k) or "G" not in c:
        return c
    n = c["n"]

    def P(r, e):
        x = q(r) * unit(e)
        return [x.numerator, x.denominator]

    def M(X, r=lambda i: 0, l=lambda j: 0):
        return [[P(x, r(i) + l(j)) for j, x in enumerate(row)] for i, row in enumerate(X)]
    up, dn = lambda i: k[i], lambda i: -k[i]
    d = dict(c, ybar=[P(x, k[i]) for i, x in enumerate(c["ybar"])], G=M(c["G"], up, dn), Gu=M(c["Gu"], up))
    for X in "ABC":
        d[X] = M(c[X], l=dn)
    if "path" in c:
        d["path"] = M(c["path"], l=up)
    if "cov" in c:
        d["cov"] = M(c["cov"], up, up)
        d["acov"] = [M(a, up, up) for a in c["acov"]]
        d["parts"] = M(c["parts"], lambda i: 2 * k[i])
    if "H" in c:
        b = [i - 1 for i in c["bs"]]
        w = lambda a: -k[b[a]] if a < len(b) else 0
        s = lambda sl: 0 if sl[0] == 4 else -k[sl[1] - 1]
        d["H"] = [[[P(h, s(x) + s(y)), x, y] for h, x, y in row] for row in c["H"]]
        d["R"] = [M(X, w, w) for X in c["R"]]
        d["Q"] = [M(X, lambda a: k[i] + w(a), w) for i, X in enumerate(c["Q"])]
        d["del"] = [P(x, k[i]) for i, x in enumerate(c["del"])]
        d["mean"] = [P(x, k[i]) for i, x in enumerate(c["mean"])]
    return d if tame(d) else c


def records(ctx, module, constants, n, wide, tag, invariants):
    """n models of a module, and some that are put together from several"""
    out = []
    for large, num in ((False, n), (True, wide)):
        r = ctx.tlc(module, dict({"Seed": ctx.seed, "First": 0, "Last": num - 1, "Large": large}, **constants),
                    invariants=invariants, spec="Spec")
        if large:
            r.records = [c for c in r.records if tame(c)]
        out += [dict(in_units(c), id="%s%s-%d-%d" % (tag, "w" if large else "", ctx.seed, c["k"]), seed=ctx.seed) for c in r.records]
    return out


def names(g, n, m):
    en = (g.shuffle(ENDOG) + ["more_%d" % i for i in range(n - len(ENDOG))])[:n]
    ex = (g.shuffle([x for x in EXOG if x not in en]) + ["further_%d" % i for i in range(m - len(EXOG))])[:m]
    return en, ex


def dev(v, s, g, nonlinear, wild=True):
    """text of a function of v that is zero with slope one at v = s; defined everywhere unless wild"""
    s = Fraction(s)
    if not nonlinear:
        if s == 0:
            return v
        return "(%s - %s)" % (v, num(s)) if s > 0 else "(%s + %s)" % (v, num(-s))
    k = g.next(6)
    if not wild and k in (2, 3, 5):
        k = 2 if s == 0 else 5
    if s == 0:
        return [v, "(exp(%s) - 1)" % v, "sin(%s)" % v, "log(1 + %s)" % v,
                "(%s + 3*%s^2)" % (v, v), "%s/(1 - %s)" % (v, v)][k]
    S = "(%s)" % num(s)
    return ["(%s - %s)" % (v, S), "(%s^2 - %s^2)/(2*%s)" % (v, S, S), "(%s - %s^2/%s)" % (S, S, v),
            "%s*log(%s/%s)" % (S, v, S), "(exp(%s - %s) - 1)" % (v, S),
            "(%s - %s + (%s - %s)^2)" % (v, S, v, S)][k]


def equations(t, c, g, nonlinear, params, ybar, wild=True):
    """texts of the equations A y(-1) + B y + C y(+1) + D u = 0"""
    n, m = c["n"], c["m"]
    for r in range(n):
        terms = []
        # an equation may be written in other units
        unit = Fraction(1, g.pick([1, 1, 1, 1, 1, 128, 1024, 8192]))
        for o, X in ((-1, c["A"]), (0, c["B"]), (1, c["C"])):
            for i in range(n):
                if X[r][i][0]:
                    terms.append((unit * q(X[r][i]), t.offs(t.endog[i], o), ybar[i]))
        for j in range(m):
            if c["D"][r][j][0]:
                terms.append((unit * q(c["D"][r][j]), t.stoch[j], Fraction(0)))
        terms = g.shuffle(terms)
        left, right = "", ""
        for a, v, s in terms:
            side = g.next(3) == 0
            a = -a if side else a
            d = dev(v, s, g, nonlinear and g.next(2) == 0, wild)
            if params and g.next(2) == 0:
                p = "cf%d" % len(t.params)
                t.params.append((p, num(abs(a))))
                co = p
            elif abs(a) == 1 and g.next(2):
                co = ""
            else:
                co = num(abs(a))
                if "/" in co:
                    co = "(%s)" % co
            body = d if not co else ("%s*%s" % (co, d) if g.next(2) else "%s*%s" % (d, co))
            cur = right if side else left
            if a < 0:
                cur += " - " + body if cur else "-" + body
            else:
                cur += " + " + body if cur else body
            if side:
                right = cur
            else:
                left = cur
        t.exprs.append("%s = %s" % (left or "0", right or "0"))


def text_of(c, seed, nonlinear=None, params=None, zero_ss=False, wild=True):
    g = Rng("lin", seed, c["k"], c["n"])
    t = Text()
    t.endog, t.stoch = names(g, c["n"], c["m"])
    nonlinear = g.next(2) == 0 if nonlinear is None else nonlinear
    params = g.next(2) == 0 if params is None else params
    ybar = [Fraction(0)] * c["n"] if zero_ss else [q(x) for x in c["ybar"]]
    t.ybar = ybar
    equations(t, c, g, nonlinear, params, ybar, wild)
    t.initial = {t.endog[i]: ybar[i] for i in range(c["n"])}
    t.S = [[q(x) * Fraction(2) ** c.get("sc", 0) for x in row] for row in c["S"]]
    return t


def sqrt_exact(x):
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    return Fraction(n, d) if n * n == x.numerator and d * d == x.denominator else None


def shock_statements(t, g):
    out = []
    m = len(t.stoch)
    for i in g.shuffle(range(m)):
        v = t.S[i][i]
        sd = sqrt_exact(v)
        if v == 1 and g.next(3) == 0:
            continue
        if sd is not None and g.next(2) == 0:
            out.append("var %s; stderr %s;" % (t.stoch[i], num(sd)))
        else:
            out.append("var %s = %s;" % (t.stoch[i], num(v)))
    for i in range(m):
        for j in range(i):
            if t.S[i][j] != 0:
                a, b = (i, j) if g.next(2) else (j, i)
                if g.next(2):
                    out.append("var %s, %s = %s;" % (t.stoch[a], t.stoch[b], num(t.S[i][j])))
                else:
                    r = float(t.S[i][j]) / math.sqrt(float(t.S[i][i] * t.S[j][j]))
                    out.append("corr %s, %s = %s;" % (t.stoch[a], t.stoch[b], ("%.17f" % r)))
    return out


def mod_text(t, g):
    o = ["var %s;" % g.pick([" ", ", "]).join(t.endog)]
    if t.stoch:
        o.append("varexo %s;" % " ".join(t.stoch))
    o = g.shuffle(o)
    if t.params:
        o.append("parameters %s;" % " ".join(p for p, _ in t.params))
        o += ["%s = %s;" % x for x in t.params]
    o.append("model;")
    o += ["#%s = %s;" % x for x in t.locals]
    o += [e + ";" for e in t.exprs]
    o.append("end;")
    blocks = []
    if any(t.initial.values()) or g.next(2):
        blocks.append(["initval;"] + ["%s = %s;" % (v, num(x)) for v, x in t.initial.items()] + ["end;"])
    if t.stoch:
        sh = shock_statements(t, g)
        if sh:
            blocks.append(["shocks;"] + sh + ["end;"])
    for b in g.shuffle(blocks):
        o += b
    return "\n".join(o) + "\n"


def ctor_args(t, g):
    shocks = {}
    m = len(t.stoch)
    for i in range(m):
        d = {"variance": float(t.S[i][i])}
        oth = [(j, t.S[i][j]) for j in range(i) if t.S[i][j] != 0]
        if len(oth) == 1:
            d["other"] = t.stoch[oth[0][0]]
            if g.next(2):
                d["cov"] = float(oth[0][1])
            else:
                d["corr"] = float(oth[0][1]) / math.sqrt(float(t.S[i][i] * t.S[oth[0][0]][oth[0][0]]))
        elif oth:
            d["other"] = [t.stoch[j] for j, _ in oth]
            d["cov"] = [float(v) for _, v in oth]
            d["corr"] = [None] * len(oth)
        shocks[t.stoch[i]] = d
    return dict(endog=list(t.endog), stoch=list(t.stoch), params=dict(t.params), shocks=shocks,
                exprs=list(t.exprs), initial={k: float(v) for k, v in t.initial.items()})


def build(t, seed, key=0):
    """the model, by one of the two routes a user has"""
    import pynare
    g = Rng("build", seed, key)
    if g.next(2) == 0 and not t.locals:
        return pynare.Model(**ctor_args(t, g))
    return load_text(mod_text(t, g))


def chol(c):
    return mat(c["L"], c["m"])


def row_text(t, a, b, c, d, const, g, nonlinear):
    """text of a y(-1) + b y + c y(+1) + d u + const = 0, y in deviations from the steady state"""
    terms = []
    for o, X in ((-1, a), (0, b), (1, c)):
        for i, x in enumerate(X):
            if x[0]:
                terms.append((q(x), dev(t.offs(t.endog[i], o), t.ybar[i], g, nonlinear and g.next(2) == 0, False)))
    for j, x in enumerate(d):
        if x[0]:
            terms.append((q(x), t.stoch[j]))
    if isinstance(const, str):
        terms.append((Fraction(1), const))
    elif q(const):
        terms.append((q(const), "1"))
    sides = ["", ""]
    for x, body in g.shuffle(terms):
        s = g.next(2)
        x = -x if s else x
        co = num(abs(x))
        body = body if abs(x) == 1 else "(%s)*%s" % (co, body) if "/" in co else "%s*%s" % (co, body)
        sides[s] += (" - " if sides[s] else "-") + body if x < 0 else (" + " if sides[s] else "") + body
    return "%s = %s" % (sides[0] or "0", sides[1] or "0")
