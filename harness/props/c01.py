"""C01: expression meaning. MCExpr.tla enumerates every viable token prefix (with its
syntax tree) and every shortest non-viable extension; each is given to every place of the
real code that reads expressions."""
import math
from common import Rng, raises

TIMEOUT = 60.0
STOP_AFTER = 40
FUNCS = ["exp", "log", "ln", "log10", "sqrt", "abs", "sign", "sin", "cos", "tan", "asin", "acos",
         "atan", "erf"]
OPERANDS = ["2", "3", "0.5", "7", "a", "bb_2", "1.25", "c3"]
# names stand for fractions in half of the batches, for whole numbers in the other half
SCOPES = [{"a": 0.75, "bb_2": 1.5, "c3": 4.0}, {"a": 3, "bb_2": 2, "c3": 4}]
COMPS = ["<", "<=", ">", ">=", "=="]
ASSUMPTIONS = ["token strings up to the stated length; one concrete instantiation of operands, "
               "functions and comparison symbols per string and seed",
               "cases whose exact value is undefined, complex or a near tie of a comparison are "
               "compared for acceptance only"]

PY = {"exp": math.exp, "log": math.log, "ln": math.log, "log10": math.log10, "sqrt": math.sqrt,
      "abs": abs, "sign": lambda x: (x > 0) - (x < 0), "sin": math.sin, "cos": math.cos,
      "tan": math.tan, "asin": math.asin, "acos": math.acos, "atan": math.atan, "erf": math.erf}


class Undefined(Exception):
    pass


def value(t, toks, SCOPE):
    k = t[0]
    if k == "N":
        x = toks[t[1] - 1]
        return SCOPE[x] if x in SCOPE else float(x)
    if k == "F":
        v = value(t[2], toks, SCOPE)
        if abs(v) < 1e-6:           # near a jump of sign and the like
            raise Undefined
        try:
            r = PY[toks[t[1] - 1]](v)
        except (ValueError, OverflowError):
            raise Undefined
    elif k == "u":
        v = value(t[2], toks, SCOPE)
        r = -v if t[1] == "-" else v
    else:
        l, rr = value(t[2], toks, SCOPE), value(t[3], toks, SCOPE)
        o = t[1]
        try:
            if o == "C":
                c = [x for x in toks if x in COMPS][0]
                if abs(l - rr) < 1e-7 * max(1, abs(l)):
                    raise Undefined
                return {"<": l < rr, "<=": l <= rr, ">": l > rr, ">=": l >= rr, "==": l == rr}[c]
            r = {"+": lambda: l + rr, "-": lambda: l - rr, "*": lambda: l * rr,
                 "/": lambda: l / rr, "^": lambda: l ** rr}[o]()
        except (ZeroDivisionError, OverflowError, ValueError):
            raise Undefined
    if isinstance(r, complex) or not math.isfinite(r) or abs(r) > 1e9:
        raise Undefined
    return r


def concretise(s, seed):
    """concrete tokens of an abstract string"""
    g = Rng("c01", seed, "".join(s))
    out = []
    for k in s:
        if k == "N":
            out.append(g.pick(OPERANDS))
        elif k == "F":
            out.append(g.pick(FUNCS))
        elif k == "C":
            out.append(g.pick(COMPS))
        else:
            out.append(k)
    return out


def text(toks, python, g, tight):
    out = ""
    for t in toks:
        if t == "^" and python:
            t = "**"
        if out:
            a, b = out[-1], t[0]
            word = lambda c: c.isalnum() or c in "_."
            if (word(a) and word(b)) or (a in "*/" and b in "*/") or (a in "<>=" and b in "<>=") \
                    or not tight and g.next(3) == 0:
                out += " "
        out += t
    return out


def cases(ctx):
    n = 7 if ctx.quick else 8
    r = ctx.tlc("MCExpr", {"MaxLen": n}, invariants=["RoundTrip", "Balanced", "Emit"])
    recs = r.records
    if ctx.quick:
        # all strings up to length 6; a seeded third of the longest ones
        keep = [x for i, x in enumerate(recs)
                if len(x["s"]) < n or Rng(ctx.seed, "".join(x["s"])).next(3) == 0]
    else:
        keep = recs
    good = [x for x in keep if x["ok"]]
    bad = [x for x in keep if not x["ok"]]
    out = []
    for kind, lst, size in (("ok", good, 60), ("bad", bad, 300)):
        # a power next to a function is instantiated several times
        lst = [[x["s"], x["t"], j] for x in lst
               for j in range(8 if kind == "ok" and "F" in x["s"] and "^" in x["s"] else 1)]
        for i in range(0, len(lst), size):
            out.append({"id": "%s-%d" % (kind, i), "kind": kind, "items": lst[i:i + size],
                        "seed": ctx.seed, "full": not ctx.quick})
    return out


def sample(c):
    return {"kind": c["kind"], "strings": ["".join(s) for s, _, _ in c["items"][:5]]}


def coverage(cs):
    return {"strings_accepted_and_valued": sum(len(c["items"]) for c in cs if c["kind"] == "ok"),
            "strings_rejected": sum(len(c["items"]) for c in cs if c["kind"] == "bad"),
            "exhaustive": False}


def same(x, y):
    try:
        return abs(float(x) - float(y)) <= 1e-9 * max(1.0, abs(float(y)))
    except Exception:
        return False


def mod_file(defs, eqs, scope):
    names = ["p%d" % i for i in range(len(defs))]
    ends = ["w%d" % i for i in range(len(eqs))] or ["w0"]
    t = ["var %s;" % " ".join(ends), "varexo zz;"]
    t.append("parameters a bb_2 c3 %s;" % " ".join(names))
    t += ["%s = %s;" % x for x in scope.items()]
    t += ["%s = %s;" % (n, d) for n, d in zip(names, defs)]
    t.append("model;")
    t += ["%s = %s;" % (e, x) for e, x in zip(ends, eqs or ["1"])]
    t.append("end;")
    return "\n".join(t)


def run(case):
    from pynare.parsing import evaluate, parse_string, read_model
    from pynare.core.generic import StructuredModel
    msgs = []
    g = Rng("render", case["seed"], case["id"])
    SCOPE = SCOPES[Rng("scope", case["seed"], case["id"]).next(2)]
    items = []
    for s, t, j in case["items"]:
        toks = concretise(s, case["seed"] if j == 0 else "%s/%d" % (case["seed"], j))
        items.append((s, t, toks, text(toks, False, g, g.next(2)), text(toks, True, g, g.next(2))))

    if case["kind"] == "bad":
        for n, (s, t, toks, std, py) in enumerate(items):
            e, v = raises(evaluate, std, SCOPE)
            if e is None:
                msgs.append("evaluate(%r) is not an expression but gave %r" % (std, v))
            e, v = raises(evaluate, py, SCOPE, exp="python")
            if e is None:
                msgs.append("evaluate(%r, exp='python') is not an expression but gave %r" % (py, v))
            if s and (case["full"] or n % 3 == g.next(3)):
                e, v = raises(read_model, mod_file([std], [], SCOPE), "dynare")
                if e is None:
                    msgs.append("definition %r was accepted" % std)
                if "C" not in s:
                    e, v = raises(read_model, mod_file([], [std], SCOPE), "dynare")
                    if e is None:
                        msgs.append("equation w0 = %r was accepted" % std)
                    e, v = raises(StructuredModel, endog=["w0"], params=SCOPE,
                                  exprs=["w0 = " + std], language="dynare")
                    if e is None:
                        msgs.append("StructuredModel accepted equation w0 = %r" % std)
            if len(msgs) > 4:
                break
        return "\n".join(msgs[:5]) or None

    vals = []
    for s, t, toks, std, py in items:
        try:
            v = value(t, toks, SCOPE)
        except Undefined:
            v = None
        vals.append(v)
        e, tree = raises(parse_string, std)
        if e is not None:
            msgs.append("parse_string(%r) raised %r" % (std, e))
            tree = std
        # a text in either notation, and a tree, which can be evaluated again
        for txt, kw in ((std, {}), (py, {"exp": "python"}), (tree, {}), (tree, {})):
            e, got = raises(evaluate, txt, SCOPE, **kw)
            if v is None:
                if e is not None and "yntax" in type(e).__name__:
                    msgs.append("evaluate(%r = %s, %s) was rejected: %r" % (txt, std, kw, e))
            elif e is not None:
                msgs.append("evaluate(%r = %s, %s) raised %r instead of %r" % (txt, std, kw, e, v))
            elif not same(got, v):
                msgs.append("evaluate(%r = %s, %s) = %r, expected %r" % (txt, std, kw, got, v))
    # inside a file: parameter definitions and model equations
    k = [i for i, x in enumerate(items) if vals[i] is not None and "C" not in x[0]]
    if k:
        defs = [items[i][3] for i in k]
        e, o = raises(read_model, mod_file(defs, defs, SCOPE), "dynare")
        if e is not None:
            msgs.append("file with definitions %r...: %r" % (defs[:3], e))
        else:
            from pynare.core.variables import ModelCalibration
            cal = ModelCalibration(o._parameters)
            for j, i in enumerate(k):
                if not same(cal["p%d" % j], vals[i]):
                    msgs.append("parameter %r = %r, expected %r" % (defs[j], cal["p%d" % j], vals[i]))
            md = StructuredModel(endog=o._endogenous, params=o._parameters,
                                 exprs=o._model_expression_asts, language="dynare")
            res = md.steady_repr([0.0] * len(k))
            md2 = StructuredModel(endog=["w%d" % j for j in range(len(k))], params=SCOPE,
                                  exprs=["%s = w%d" % (d, j) for j, d in enumerate(defs)],
                                  language="dynare")
            res2 = md2.steady_repr([0.0] * len(k))
            for j, i in enumerate(k):
                if not same(-res[j], vals[i]):
                    msgs.append("equation w = %s: right side %r, expected %r" % (defs[j], -res[j], vals[i]))
                if not same(res2[j], vals[i]):
                    msgs.append("equation %s = w: left side %r, expected %r" % (defs[j], res2[j], vals[i]))
    return "\n".join(msgs[:5]) or None
