"""Files of ModFile.tla as text."""
import numpy as np
from fractions import Fraction as Fr
from common import Rng, q
from lin import num

ROLES = {"x": ["y", "k_1", "Cons", "var1", "endo", "lambda"], "y": ["c", "y2", "modelx", "exp_1", "e1", "is"], "w": ["w", "Z", "log_w", "end_", "n", "for"],
         "e": ["e", "eps_a", "shock"], "u": ["u", "nu", "U2", "in"], "a": ["alpha", "a", "varx", "not"], "b": ["beta", "B", "sin_"],
         "d": ["delta", "d1", "pm1"], "h": ["h", "helper", "tmp1", "class"], "g": ["g", "G_", "par"], "z": ["zz", "loc", "theta", "None"],
         "v": ["vv", "l2", "model_"], "q": ["undeclared", "qq", "x9"]}


def mapping(g):
    return {k: g.pick(v) for k, v in ROLES.items()}


def term(t, nm, g, model):
    k = q(t["k"])
    name = nm[t["n"]]
    if t["o"]:
        name += "(%+d)" % t["o"]
    fs = [name] + ([nm[t["p"]]] if t["p"] else [])
    fs = g.shuffle(fs)
    a = abs(k)
    c = num(a)
    if "/" in c:
        c = "(%s)" % c
    if a == 1 and g.next(2):
        body = "*".join(fs)
    elif g.next(3) == 0:
        body = "*".join(fs[:1] + [c] + fs[1:])
    else:
        body = "*".join([c] + fs)
    if g.next(6) == 0:
        body = "(%s)" % body
    return k < 0, body


def expr(e, nm, g, lead=True):
    """text; the first character is never a parenthesis or sign when lead is false"""
    c = q(e["c"])
    parts = [term(t, nm, g, True) for t in e["t"]]
    if c != 0 or not parts or not lead:
        s = num(abs(c))
        parts = [(c < 0, s)] + parts if g.next(2) or not lead else parts + [(c < 0, s)]
    out = ""
    for neg, b in parts:
        out = (out + g.pick([" - ", "-"]) + b if neg else out + g.pick([" + ", "+"]) + b) if out else ("-" + b if neg else b)
    return out


def lhs8(e, nm, g):
    """left side of an equation statement: starts with a number"""
    out = ""
    for t in e["t"]:
        k = q(t["k"])
        name = nm[t["n"]] + ("(%+d)" % t["o"] if t["o"] else "")
        b = "%s*%s" % (num(abs(k)), name) + ("*" + nm[t["p"]] if t["p"] else "")
        out = out + (" - " if k < 0 else " + ") + b if out else b
    return out or "0"


def statement(s, nm, g, model_block=False):
    op, ns = s["op"], [nm[n] for n in s["names"]]
    semi = ";" if s["semi"] else ""
    sp = g.pick([" ", "", "  "])
    if op in ("var", "varexo", "parameters"):
        return op + " " + g.pick([" ", ", ", ","]).join(ns) + semi
    if op in ("model", "initval", "endval", "histval", "shocks", "end"):
        return op + semi
    if op == "set":
        return ns[0] + sp + "=" + sp + expr(s["e1"], nm, g) + semi
    if op == "local":
        return "#" + sp + ns[0] + " = " + expr(s["e1"], nm, g) + semi
    if op == "eq":
        tag = g.pick(["[name='eq %s'] " % g.next(9), "[name = 'a; b', mcp='x > 0'] "]) if model_block and g.next(8) == 0 else ""
        l, r = lhs8(s["e1"], nm, g), expr(s["e2"], nm, g)
        if g.next(6) == 0:
            return tag + "%s - (%s)" % (l, r) + semi
        return tag + l + sp + "=" + sp + r + semi
    e = expr(s["e1"], nm, g)
    if op == "svar":
        return "var %s = %s" % (ns[0], e) + semi
    if op == "sdev":
        return "var %s; stderr %s" % (ns[0], e) + semi
    return "%s %s, %s = %s" % ("var" if op == "scov" else "corr", ns[0], ns[1], e) + semi


def text(c, tag):
    g = Rng("modfile", tag, c["seed"], c["k"], c["edits"])
    nm = mapping(g)
    return nm, lines(c["file"], nm, g)


def lines(f, nm, g):
    out, block = [], ""
    for s in f:
        if s["op"] in ("model", "initval", "endval", "histval", "shocks", "end"):
            block = s["op"]
        out.append(statement(s, nm, g, block == "model"))
    return out


def sigma(c):
    es = c["decl"]["varexo"]
    n = len(es)
    S = np.eye(n)
    var = {k: float(q(v)) for k, v in c["var"]}
    for i, e in enumerate(es):
        S[i, i] = var.get(e, 1.0)
    for a, b, kind, v in c["co"]:
        i, j = es.index(a), es.index(b)
        x = float(q(v))
        if kind == "scorr":
            x *= np.sqrt(max(S[i, i], 0) * max(S[j, j], 0))
        S[i, j] = S[j, i] = x
    return S


def buildable(c):
    """a specified, accepted file whose equations and covariances let a model be constructed"""
    if not c["ok"] or c["open"] or not c["lin"]:
        return False
    num_ok = all(v[1] for m in (c["A"], c["B"], c["C"], c["D"]) for r in m for v in r) and all(v[1] for v in c["c0"]) and \
        all(v[1] for s in ("params", "locals", "init", "term", "hist", "var") for _, v in c[s]) and all(x[3][1] for x in c["co"])
    if not num_ok:
        return False
    A, B, C = (np.array([[v[0] / v[1] for v in r] for r in c[x]]) for x in "ABC")
    n = len(A)
    if abs(np.linalg.det(A + B + C)) < 1e-2 or np.abs(A + B + C).max() > 40:
        return False
    if max(abs(np.linalg.det(A + B * z + C * z * z)) for z in (2.0, 0.7, -1.3)) < 1e-2:
        return False
    st = [i for i in range(n) if not A[:, i].any() and not C[:, i].any()]
    if st and np.linalg.svd(B[:, st])[1].min() < 1e-2:
        return False
    # a variable whose coefficients cancel still counts as occurring: only the numbers above matter
    S = sigma(c)
    return bool(np.linalg.eigvalsh(S).min() > 1e-6)
