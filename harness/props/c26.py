"""C26: printed summaries. MCSummary.tla prints a report section by section, every cell an exact
quantity under its label; the real report is parsed back and compared cell by cell."""
import math
import numpy as np
import lin, second
from common import q, raises, Rng

TIMEOUT = 120.0
ASSUMPTIONS = ["models of at most 5 variables and 3 shocks with dyadic coefficients; 1 to 9 digits; numbers the "
               "specification's 32-bit rationals cannot hold are not compared (labels and layout still are)",
               "correlations of a variable without variance are not defined and not compared"]


def cases(ctx):
    plan = (("model", 260), ("first", 260), ("second", 200), ("stats", 260)) if ctx.quick else \
           (("model", 4000), ("first", 4000), ("second", 3000), ("stats", 4000))
    out = []
    for rep, n in plan:
        r = ctx.tlc("MCSummary", {"Seed": ctx.seed, "First": 0, "Last": n - 1, "Report": rep},
                    invariants=["Tables", "OffNeverShown", "Emit"], spec="Spec")
        for c in r.records:
            if rep == "stats" and not c["bs"]:
                continue
            out.append(dict(c, id="%s-%d-%d" % (rep, ctx.seed, c["k"]), seed=ctx.seed, rep=rep))
    return out


def sample(c):
    return {"k": c["k"], "report": c["rep"], "options": c["opt"], "sections": [s["title"] for s in c["doc"]]}


def coverage(cs):
    return {"cells": sum(len(r["cells"]) for c in cs for s in c["doc"] for r in s["rows"]),
            "cells_not_compared": sum(x[0] in ("any", "none") for c in cs for s in c["doc"] for r in s["rows"]
                                      for x in r["cells"]),
            "digits": sorted({c["opt"]["sig"] for c in cs}),
            "reports": {r: sum(c["rep"] == r for c in cs) for r in ("model", "first", "second", "stats")}}


def value(x):
    """the number of a cell; None where it is not compared"""
    if x[0] in ("any", "none", "big"):
        return None
    if x[0] == "q":
        return float(q(x[1]))
    if x[0] == "sd":
        return math.sqrt(q(x[1]))
    if x[0] == "over":
        return float(q(x[1])) / math.sqrt(float(q(x[2]) * q(x[3])))
    if x[0] == "mod":
        return math.sqrt(float(q(x[1]) ** 2 + q(x[2]) ** 2))
    raise KeyError(x)


def label(l, t, pn):
    k = l[0]
    if k == "word":
        return l[1]
    if k == "plag":
        return "p = %d" % l[1]
    if k == "pair":
        return "%s, %s" % (label(l[1], t, pn), label(l[2], t, pn))
    v = {"var": t.endog, "lag": t.endog, "shock": t.stoch, "param": pn}[k][l[1] - 1]
    return v + "(-1)" if k == "lag" else v


def number(tok, sig, what):
    """a printed number and its last digit's unit"""
    if "nan" in tok or "inf" in tok:
        return float(tok)
    if "." in tok:
        if len(tok.split(".")[1]) != sig:
            raise ValueError("%s is printed as %s, %d digits were asked for" % (what, tok, sig))
    return float(tok)


def check_cell(tok, x, sig, what, sc):
    try:
        v = number(tok, 0 if x == "count" else sig, what)
    except ValueError as e:
        return str(e) if "printed" in str(e) else "%s is printed as %r" % (what, tok)
    if isinstance(x, list) and x[0] == "big":
        return None if math.isinf(v) or abs(v) > 1e5 else "%s is printed as %s, it is infinite" % (what, tok)
    w = value(x)
    if w is None:
        return None
    tol = 0.5 * 10.0 ** -sig * (1 + 1e-6) + 1e-7 * max(1.0, abs(w), sc)
    if not abs(v - w) <= tol:
        return "%s is printed as %s, its value is %.10g" % (what, tok, w)
    return None


def check_section(lines, s, t, pn, sig):
    msgs = []
    title = lines[0].strip()
    if title != s["title"]:
        return ["section %r, expected %r" % (title, s["title"])]
    body = [l for l in lines[1:] if l.split() != ["+"] and l.strip()]
    rows = s["rows"]
    if s["kind"] == "count":
        want = ["%s %d" % (r["lab"][1], r["cells"][0][1][0]) for r in rows]
        got = [" ".join(l.split()) for l in body]
        return [] if got == want else ["%s\n got  %s\n want %s" % (title, got, want)]
    if s["kind"] == "assign":
        got = {}
        for l in body:
            nm, _, v = l.partition("=")
            if nm.strip() in got:
                msgs.append("parameter %r is listed twice" % nm.strip())
            got[nm.strip()] = v.strip()
        want = {label(r["lab"], t, pn): r["cells"][0] for r in rows}
        if set(got) != set(want):
            return ["parameters listed: %s, expected %s" % (sorted(got), sorted(want))]
        return [m for m in (check_cell(got[k], want[k], sig, "parameter " + k, 0.0) for k in want) if m]
    if rows or body:
        cols = [label(c, t, pn) for c in s["cols"]]
        if body[0].split() != " ".join(cols).split():
            return ["%s: columns %s, expected %s" % (title, body[0].split(), cols)]
        body = body[1:]
    if s["kind"] == "eig":
        return check_eigen(body, rows, sig)
    k = len(s["cols"])
    sc = [value(x) for r in rows for x in r["cells"]]
    sc = max([0.0] + [abs(x) for x in sc if x is not None])
    i = 0
    for l in body:
        tok = l.split()
        lab, cells = " ".join(tok[:-k]), tok[-k:]
        if len(tok) < k:
            return ["%s: row %r has too few entries" % (title, l)]
        while i < len(rows) and label(rows[i]["lab"], t, pn) != lab:
            if rows[i]["must"]:
                msgs.append("%s: row %r is missing before row %r" % (title, label(rows[i]["lab"], t, pn), lab))
                return msgs
            i += 1
        if i == len(rows):
            return msgs + ["%s: unexpected row %r" % (title, l)]
        for x, tk, cl in zip(rows[i]["cells"], cells, cols):
            m = check_cell(tk, x, sig, "%s row %r column %r" % (title, lab, cl), sc)
            if m:
                msgs.append(m)
        i += 1
    left = [label(r["lab"], t, pn) for r in rows[i:] if r["must"]]
    if left:
        msgs.append("%s: rows %s are missing" % (title, left))
    return msgs


def check_eigen(body, rows, sig):
    got = [[float(x) for x in l.split()] for l in body]
    if len(got) != len(rows):
        return ["%d eigenvalues are listed, expected %d" % (len(got), len(rows))]
    u = 10.0 ** -sig
    for a, b in zip(got, got[1:]):
        if b[2] < a[2] - u and not math.isinf(b[2]):
            return ["eigenvalues are not in ascending order: %s" % got]
    left = list(got)
    for r in rows:
        w = [value(x) for x in r["cells"]]
        if w[2] is None:
            hit = [g for g in left if math.isinf(g[2]) or math.isnan(g[2]) or g[2] > 1e5]
        else:
            tol = 0.5 * u + 1e-5 * max(1.0, abs(w[2]))
            hit = [g for g in left if all(abs(a - b) <= tol for a, b in zip(g, w))]
        if not hit:
            return ["eigenvalue %s is not listed among %s" % (w, got)]
        left.remove(hit[0])
    return []


def split(text):
    """(heading, sections): blank lines part the sections of a report"""
    parts, cur = [], []
    for l in text.split("\n"):
        if l.strip() == "" and cur:
            parts.append(cur)
            cur = []
        elif l.strip():
            cur.append(l)
    if cur:
        parts.append(cur)
    return parts


def run(c):
    g = Rng("c26", c["seed"], c["k"], c["rep"])
    o = c["opt"]
    if c["quad"]:
        t = second.text_of(c, c["seed"])
    else:                                 # the second-order mean is that of the linear model
        t = lin.text_of(c, c["seed"], nonlinear=False if c["rep"] == "stats" and o["order"] == 2 else None)
    # parameters of the summary's own: values only
    vals = [q(x) for x in o["pars"]["values"]]
    pn = ["par_%s%d" % ("abcdefghij"[i], 10 ** i) for i in range(len(vals))]
    if c["rep"] == "model":
        t2 = lin.Text()
        t2.__dict__.update(t.__dict__)
        if t.params:                      # coefficients become numbers, so the calibration is the drawn one
            import re
            sub = dict(t.params)
            t2.exprs = [re.sub(r"\bcf\d+\b", lambda mm: "(%s)" % sub[mm.group()], e) for e in t.exprs]
        t2.params = [(n, lin.num(v)) for n, v in zip(pn, vals)]
        t = t2
    m = lin.build(t, c["seed"], c["k"])
    kw = {}
    sig = o["sig"]
    if sig != 6 or g.next(2):
        kw["sig"] = sig
    if g.next(2):
        kw["pad"] = o["pad"]
    if c["rep"] in ("model", "stats"):
        if o["selected"]:
            w = o["want"]
            kw["only"] = w[0] if len(w) == 1 and g.next(2) else tuple(w) if g.next(2) else list(w)
        for f in o["off"]:
            kw[f] = 0 if f == "autocorr" else False
    if c["rep"] == "model":
        if not o["pars"]["all"]:
            sh = [pn[i - 1] for i in o["pars"]["shown"]]
            kw["params"] = sh[0] if len(sh) == 1 and g.next(2) else sh
        if "params" in o["off"]:
            kw["params"] = False if g.next(2) else ""
        obj = m
        head = "model summary:"
    elif c["rep"] == "first":
        how = g.next(3)
        if how == 0:
            obj = m.solve(order=1)
        elif how == 1:
            obj = m.first_order_solution
        else:
            obj = m.solve(order=2).lower_solution
        head = None
    elif c["rep"] == "second":
        obj = m.solve(order=2) if g.next(2) else m.solution
        if o["more"] >= 0:
            kw["thresh"] = o["more"]
        head = None
    else:
        m.solve(order=o["order"])
        if "autocorr" not in kw:
            kw["autocorr"] = o["lags"]
        obj = m.stats
        head = "statistics summary:"
    e, text = raises(lambda: str(obj.summary(**kw)))
    if e is not None:
        return "summary(%s) raised %r\n%s" % (kw, e, t.exprs)
    msgs = []
    parts = split(text)
    if head is not None:
        if not parts or " ".join(parts[0]).strip() != head:
            return "heading %r\n%s" % (parts[:1], text)
        parts = parts[1:]
    else:
        parts = [sum(parts, [])]
    doc = c["doc"]
    if len(parts) != len(doc):
        return "summary(%s): sections %s, expected %s\n%s" % (kw, [p[0] for p in parts], [s["title"] for s in doc], text)
    for p, s in zip(parts, doc):
        msgs += check_section(p, s, t, pn, sig)
    if c["rep"] in ("model", "stats"):
        for bad, exc in (("no_such", ValueError), (["eigen" if c["rep"] == "model" else "corr", "nothing"], ValueError),
                         (5, TypeError)):
            e, _ = raises(obj.summary, only=bad)
            if not isinstance(e, exc):
                msgs.append("only=%r: %r" % (bad, e))
    if c["rep"] == "model":
        e, _ = raises(lambda: str(m.summary(params=["no_such_parameter"])))
        if e is None:
            msgs.append("an unknown parameter was summarised")
    if not msgs:
        return None
    return "summary(%s)\n%s\n%s\n%s" % (kw, "\n".join(msgs[:4]), text, t.exprs)
