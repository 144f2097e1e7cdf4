"""C17: theoretical second moments. MCMoments.tla computes them exactly."""
import numpy as np
import lin
from common import mat, diff, raises, Rng

TIMEOUT = 90.0
ASSUMPTIONS = ["models of at most 5 variables, 3 shocks (or put together from two to four such) with dyadic coefficients, variables in units that differ by factors of up to 2^17 (and by thirds) whose exact moments fit the "
               "specification's 32-bit rationals, with the shocks' covariances multiplied by powers of two from 2^-40 to 2^6; correlations of variables without variance are not compared"]
LAGS = 3


def cases(ctx):
    n = 400 if ctx.quick else 6000
    return [c for c in lin.records(ctx, "MCMoments", {"Lags": LAGS}, n, n // 5, "mom", ["Theorems", "Emit"])
            if c["ix"]["state"]]


def sample(c):
    return {"k": c["k"], "classes": c["ix"]["cls"], "S": c["S"], "cov": c["cov"]}


def coverage(cs):
    return {"lags": LAGS}


def ratio(a, sd, pos):
    with np.errstate(all="ignore"):
        return (a / np.outer(sd, sd))[np.ix_(pos, pos)]


def still(got, sd, sc):
    """the deviation of a variable that never moves is zero, up to the root of a rounding error"""
    return np.where((sd == 0) & (got >= 0) & (got < 1e-6 * sc ** 0.5), 0.0, got)


def compare(st, c, msgs, tag, p):
    cov = mat(c["cov"])
    var = np.diag(cov)
    sd = np.sqrt(var)
    pos = np.where(var > 0)[0]
    sc = max(1.0, float(var.max()))
    lam = 2.0 ** c["sc"]        # covariances are compared in units of the scale of the shocks
    ac = np.array([mat(a) for a in c["acov"]])[:p]
    for name, args, want, f in (
            ("cov", (), cov, lambda x: x / lam), ("var", (), var, lambda x: x / lam),
            ("std", (), sd, lambda x: still(np.asarray(x) / lam ** 0.5, sd, sc)),
            ("corr", (), ratio(cov, sd, pos), lambda x: np.asarray(x)[np.ix_(pos, pos)]),
            ("autocov", (p,), ac, lambda x: x / lam),
            ("autocorr", (p,), np.array([ratio(a, sd, pos) for a in ac]),
             lambda x: np.asarray(x)[:, pos][:, :, pos])):
        e, got = raises(getattr(st, name), *args)
        if e is not None:
            msgs.append("%s %s raised %r" % (tag, name, e))
            continue
        try:
            got = f(got)
        except Exception as ex:      # noqa: BLE001 - wrong shape
            msgs.append("%s %s has shape %s" % (tag, name, np.shape(got)))
            continue
        x = diff("%s %s" % (tag, name), got, want, 1e-6, sc if "cov" in name or name == "var" else None)
        if x:
            msgs.append(x)
        if name == "var" and (np.asarray(got) < 0).any():
            msgs.append("%s var is negative: %s" % (tag, got))


def run(c):
    import pynare
    t = lin.text_of(c, c["seed"])
    m = lin.build(t, c["seed"], c["k"])
    g = Rng("c17", c["seed"], c["k"])
    msgs = []
    p = 1 + g.next(LAGS)
    how = g.next(3)
    if how == 0:
        m.solve(order=1)
        compare(m.stats, c, msgs, "order 1", p)
        m.solve(order=2)
        compare(m.stats, c, msgs, "order 2", p)
    elif how == 1:                # nothing solved yet; then explicitly at first order
        compare(m.stats, c, msgs, "unsolved", p)
        if not msgs:
            m.solve(order=1)
            compare(m.stats, c, msgs, "order 1", p)
    else:
        m.solve(order=g.next(2) + 1)
        compare(Functions(m), c, msgs, "functions", p)
    # default number of lags
    e, a = raises(m.stats.autocov)
    if e is not None or a.shape != (5, c["n"], c["n"]):
        msgs.append("autocov() %r" % (e or a.shape,))
    return "\n".join(msgs[:4] + [str(t.exprs)]) if msgs else None


class Functions(object):
    """the moments as plain functions of a model"""
    def __init__(self, m):
        self.m = m

    def __getattr__(self, k):
        import pynare.stats as s
        return lambda *a: getattr(s, k)(self.m, *a)
