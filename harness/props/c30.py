"""C30: plots. MCPlot.tla draws figures series by series; the real figures are taken apart again."""
import numpy as np
import lin
from common import Rng, raises

TIMEOUT = 200.0
ASSUMPTIONS = ["figures are drawn with matplotlib's Agg backend and read back from its objects (lines, legends)"]


def cases(ctx):
    k = {"MaxSeries": 10, "MaxSide": 3, "MaxGrid": 8} if ctx.quick else {"MaxSeries": 26, "MaxSide": 5, "MaxGrid": 14}
    r = ctx.tlc("MCPlot", k, invariants=["EachOnce", "Balanced", "Arranged", "Emit"], spec="Spec")
    out = []
    for c in sorted(r.records, key=lambda c: (c["n"], c["layout"])):
        for how in ("direct", "simulation", "impulse"):
            if how != "direct" and (c["n"] > 6 or c["layout"][0] == "grid" and (c["n"] + c["shape"][0]) % 3):
                continue
            out.append(dict(c, how=how, seed=ctx.seed,
                            id="%s-%d-%s" % (how, c["n"], "x".join(str(x) for x in c["layout"]))))
    return out


def sample(c):
    return {k: c[k] for k in ("n", "layout", "shape", "how")}


def coverage(cs):
    return {"series": sum(c["n"] for c in cs), "figures_of": {h: sum(c["how"] == h for c in cs)
                                                              for h in ("direct", "simulation", "impulse")}}


def model(n, g):
    t = lin.Text()
    t.endog, t.stoch = lin.names(g, n, 1 + g.next(2))
    t.exprs = ["%s = 0.%d*%s(-1) + %d*%s" % (v, 2 + i, v, i + 1, g.pick(t.stoch)) for i, v in enumerate(t.endog)]
    t.S = [[1 if i == j else 0 for i in range(len(t.stoch))] for j in range(len(t.stoch))]
    return t


def run(c):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    g = Rng("c30", c["seed"], c["id"])
    n, l = c["n"], c["layout"]
    T = 3 + g.next(12)
    if c["how"] == "direct":
        from pynare.plotting import PathPlot
        rs = np.random.RandomState(g.next(10 ** 6))
        data = rs.standard_normal((T, n)) * 10.0 ** g.next(3) + (5 * g.next(2))
        labels = ["v%d_%s" % (i, "abcdefgh"[g.next(8)]) for i in range(n)]
        lab = [list(labels), tuple(labels), np.array(labels)][g.next(3)]
        obj = PathPlot(data, lab)
    else:
        t = model(n, g)
        m = lin.build(t, c["seed"], c["id"])
        labels = list(t.endog)
        np.random.seed(g.next(1000))
        if c["how"] == "simulation":
            obj = m.simulate(periods=T, order=1)
            data = np.array(obj.paths)
        else:
            obj = m.impulse_response(periods=T) if hasattr(m, "impulse_response") else None
            if obj is None:
                import pynare
                m.solve(order=1)
                obj = pynare.impulse_response(m, periods=T)
            data = np.array(obj.impulse)
    kw = {}
    if l[0] == "one":
        kw["subplots"] = False
        if g.next(2):
            kw["layout"] = "rect"
    elif l[0] == "grid":
        kw["layout"] = (l[1], l[2]) if g.next(2) else [l[1], l[2]]
    elif l[0] != "rect" or g.next(2):
        kw["layout"] = l[0]
    style = {}
    if g.next(3) == 0:
        style = [{"linestyle": "--"}, {"alpha": 0.5}, {"color": "red"}, {"marker": "o"}][g.next(4)]
    if g.next(3) == 0:
        kw.update([{"figsize": (5, 5)}, {"sharex": True}, {"tight_layout": False}, {"squeeze": False}][g.next(4)])
    args = ()
    if g.next(3) == 0 and "subplots" not in kw:
        args = (True,)
        if "layout" in kw and g.next(2):
            args = (True, kw.pop("layout"))
    elif kw.get("subplots") is False and g.next(2):
        kw.pop("subplots")
        args = (False,)
    try:
        e, axes = raises(obj.plot, *args, **dict(kw, **style))
        call = "plot(%s) of %d series" % (", ".join([repr(a) for a in args] + ["%s=%r" % x for x in {**kw, **style}.items()]), n)
        if e is not None:
            return "%s raised %r" % (call, e)
        msgs = []
        flat = list(np.ravel(np.array(axes, dtype=object)))
        fig = flat[0].figure
        if len(fig.axes) != len(flat) or any(a not in fig.axes for a in flat):
            msgs.append("the axes returned are not those of the figure")
        # the arrangement, read off the figure itself
        gs = flat[0].get_subplotspec().get_gridspec()
        if [gs.nrows, gs.ncols] != c["shape"]:
            msgs.append("arranged as %d x %d, expected %d x %d" % (gs.nrows, gs.ncols, *c["shape"]))
        if len(flat) != c["shape"][0] * c["shape"][1]:
            msgs.append("%d panels" % len(flat))
        seen = []
        most = -(-n // (c["shape"][0] * c["shape"][1]))
        for a in flat:
            ssp = a.get_subplotspec()
            here = ssp.rowspan.start * gs.ncols + ssp.colspan.start
            own = sorted(c["panels"][here]) if here < len(c["panels"]) else []
            count = len(seen)
            lines = [x for x in a.get_lines() if len(x.get_xdata()) == T]
            leg = a.get_legend()
            txt = [x.get_text() for x in leg.get_texts()] if leg else []
            if len(txt) != len(lines):
                msgs.append("a panel has %d series and legend %s" % (len(lines), txt))
                continue
            if len(lines) > most:
                msgs.append("a panel has %d series" % len(lines))
            hd = leg.legend_handles if leg else []
            for x, y, h in zip(lines, txt, hd):
                if not np.array_equal(x.get_xdata(), np.arange(T)):
                    msgs.append("periods are %s" % x.get_xdata())
                if h.get_color() != x.get_color():
                    msgs.append("legend of %s does not have the colour of its line" % y)
                hit = [j for j in range(n) if labels[j] == y]
                if not hit:
                    msgs.append("label %r" % y)
                elif not np.array_equal(np.asarray(x.get_ydata(), float), data[:, hit[0]]):
                    msgs.append("the line labelled %r is not its series" % y)
                else:
                    seen.append(hit[0])
                for k, v in style.items():
                    if getattr(x, "get_" + k)() != v:
                        msgs.append("%s was not applied" % k)
            if not msgs and sorted(j + 1 for j in seen[count:]) != own:
                msgs.append("panel %d (row after row) shows series %s, expected %s" % (here + 1, [j + 1 for j in seen[count:]], own))
        if not msgs and sorted(seen) != list(range(n)):
            msgs.append("series shown: %s" % sorted(seen))
        for bad in ("triangle", (1, 2, 3), None, ""):
            e, _ = raises(obj.plot, layout=bad)
            if not isinstance(e, ValueError):
                msgs.append("layout=%r: %r" % (bad, e))
        return "\n".join([call] + msgs[:4]) if msgs else None
    finally:
        plt.close("all")
