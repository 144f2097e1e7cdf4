"""C02: comments, whitespace, termination. MCLex.tla types every short character string at places of a file and
decides what remains of it; MCFill.tla fills the gaps between tokens, and disturbs tokens."""
import numpy as np
from common import load_text, raises

TIMEOUT = 40.0
CHUNK = 60
ASSUMPTIONS = ["strings over / * % newline ' \" ; a 1 blank - at eleven places of a file; fillers and disturbances of the four files of LexFiles.tla",
               "'reading ends' is observed within %d s for %d files" % (TIMEOUT, CHUNK)]


def cases(ctx):
    out = []
    if ctx.quick:
        r = ctx.tlc("MCLex", {"Seed": ctx.seed, "Longest": 5, "Free": 2, "Sample": 5}, spec="Spec",
                    invariants=["Online", "Again", "Emit"], properties=["Stable", "Silent"])
        runs = [(1, (7, 10, 3, 10), 0), (2, (55, 85, 25, 65), 1)]
    else:
        r = ctx.tlc("MCLex", {"Seed": ctx.seed, "Longest": 6, "Free": 3, "Sample": 13}, spec="Spec",
                    invariants=["Online", "Again", "Emit"], properties=["Stable", "Silent"])
        runs = [(1, (1, 1, 1, 1), 0), (2, (26, 40, 12, 30), 0), (3, (220, 600, 40, 300), 2), (1, (4, 9, 1, 6), 1)]
    lex = sorted(r.records, key=lambda c: (c["canon"], c["open"], c["text"]))
    for i in range(0, len(lex), CHUNK):
        out.append({"id": "lex-%d-%d" % (ctx.seed, i), "lex": [[c["text"], c["canon"], c["open"]] for c in lex[i:i + CHUNK]]})
    for f in range(4):
        recs = []
        for fills, samp, noise in runs:
            r = ctx.tlc("MCFill", {"Seed": ctx.seed, "File": f + 1, "MaxFills": fills, "Sample": samp[f], "Noise": noise},
                        spec="Spec", invariants=["Neutral", "Spaced", "Emit"])
            recs += r.records
        for i in range(0, len(recs), CHUNK):
            out.append({"id": "fill-%d-%d-%d" % (ctx.seed, f, i), "base": recs[0]["base"],
                        "fill": [[c["text"].replace("~", "\u00e9\u4e2d").replace(" \f\n", " \v\n"), c["noise"]]
                                 for c in recs[i:i + CHUNK]]})
    return out


def sample(c):
    return {"text": (c.get("lex") or c["fill"])[0][0], "same_as": c.get("base") or c["lex"][0][1]}


def coverage(cs):
    lx = [x for c in cs for x in c.get("lex", [])]
    fl = [x for c in cs for x in c.get("fill", [])]
    return {"typed strings": len(lx), "unterminated": sum(x[2] for x in lx), "filled files": sum(not x[1] for x in fl),
            "disturbed files": sum(bool(x[1]) for x in fl)}


def extract(m):
    out = [[v.name for v in m.endog], [v.name for v in m.stoch], sorted((k, float(v)) for k, v in m.params.items()),
           sorted((k, float(v)) for k, v in m.local_params.items())]
    n = len(m.endog)
    nums = [np.asarray(getattr(m, a), dtype=float) for a in ("initial", "terminal", "historical")]
    nums += [np.atleast_2d(m.sigma), np.asarray(m.steady_repr(np.zeros(n))), np.asarray(m.steady_repr(np.arange(1., n + 1))),
             np.asarray(m.dynamic_repr.jacobian.array, dtype=float), np.asarray(len(m.exprs))]
    return out, nums


def same(a, b):
    return a[0] == b[0] and all(x.shape == y.shape and np.allclose(x, y, 1e-9, 1e-9, equal_nan=True) for x, y in zip(a[1], b[1]))


_seen = {}


def outcome(t):
    if t not in _seen:
        e, m = raises(load_text, t)
        _seen[t] = (e, None if e is not None else extract(m))
    return _seen[t]


def run(c):
    for t, canon, is_open in c.get("lex", []):
        if is_open:
            e, _ = raises(load_text, t)
            if e is None:
                return "a file with an unterminated comment or string was accepted:\n%s" % t
            continue
        e0, x0 = outcome(canon)
        e, x = outcome(t)
        if (e is None) != (e0 is None):
            return "%s\n%s\nbut without comments\n%s\n%s" % ("rejected: %r" % e if e else "accepted:", t, canon,
                                                            "is rejected: %r" % e0 if e0 else "is accepted")
        if e is None and not same(x, x0):
            return "comments change the model\n%s\nversus\n%s\n%r\n%r" % (t, canon, x, x0)
    if "base" in c:
        e0, x0 = outcome(c["base"])
        if e0 is not None:
            return "a well-formed file was rejected: %r\n%s" % (e0, c["base"])
    for t, noise in c.get("fill", []):
        if noise:
            raises(load_text, t)          # ends with a model or an exception
            continue
        e, m = raises(load_text, t)
        if e is not None:
            return "rejected because of comments or whitespace: %r\n%r" % (e, t)
        x = extract(m)
        if not same(x, x0):
            return "comments or whitespace change the model\n%r\nversus\n%s\n%r\n%r" % (t, c["base"], x, x0)
    return None
