"""C28: collections of variables. Histories of MCVars.tla are replayed into VarArray and,
where the operations are ones a model offers, into the variables of a model."""
import numpy as np
from common import Rng, raises

TIMEOUT = 60.0
ASSUMPTIONS = ["names within one collection are distinct, as they are in any accepted model"]


def cases(ctx):
    n = 1500 if ctx.quick else 30000
    r = ctx.tlc("MCVars", {"Seed": ctx.seed, "Depth": 8, "Count": n}, spec="Spec",
                invariants=["Homogeneous", "LookupInverse", "Emit"])
    return [dict(c, id="vars-%d-%d" % (ctx.seed, c["k"]), seed=ctx.seed) for c in r.records]


def sample(c):
    return {"id": c["id"], "history": [(o["act"], o["x"], o["ok"], o["ids"]) for o in c["hist"]]}


def coverage(cs):
    return {"operations": sum(len(c["hist"]) for c in cs),
            "lookups": sum(len(o["ask"]) for c in cs for o in c["hist"]),
            "rejected_operations": sum(not o["ok"] for c in cs for o in c["hist"])}


STEM = ["y", "x", "k1", "pi_t", "ab", "a", "b", "abc", "e", "zeta", "Y", "lambda", "None"]


def run(c):
    from pynare.core.variables import VarArray, EndogVar, StochVar, DetermVar
    cls = {"endog": EndogVar, "stoch": StochVar, "determ": DetermVar}
    g = Rng("c28", c["seed"], c["id"])
    stems = g.shuffle(STEM)
    objs = {}

    def name(i):
        return "%s%d" % (stems[i // 10 % len(stems)], i % 10) if i % 10 != 1 else stems[i // 10 % len(stems)]

    def var(i, kind):
        return objs.setdefault((i, kind), cls[kind](name(i)))
    A = VarArray([])
    msgs, log = [], []
    for t, op in enumerate(c["hist"]):
        a, n = op["act"], len(A)
        e, B = None, A
        log.append("%s %s" % (a, {k: op[k] for k in ("i", "j", "x", "junk")}))
        if a == "cat":
            new = [var(i, op["x"]["kind"]) for i in op["x"]["ids"]]
            if op["junk"]:
                new = new + [g.pick(["a name", 3, None])]
                e, B = raises(lambda: VarArray(list(A) + new))
            else:
                how = g.next(4)
                if how == 0:
                    e, B = raises(lambda: np.concatenate((A, VarArray(new))))
                elif how == 1:
                    e, B = raises(lambda: VarArray(list(A) + new))
                elif how == 2:
                    e, B = raises(lambda: np.concatenate([A, new]))
                else:
                    h = len(new) // 2
                    e, B = raises(lambda: np.concatenate((A, VarArray(new[:h]), VarArray(new[h:]))))
        elif a == "mix":
            new = [var(i, op["x"]["kind"]) for i in op["x"]["ids"]]
            p = min(max(op["i"] + (n if op["i"] < 0 else 0), 0), n)
            if g.next(2):
                e, B = raises(lambda: VarArray(list(A)[:p] + new + list(A)[p:]))
            else:
                e, B = raises(lambda: np.concatenate((A[:p], new, A[p:])))
        elif a == "rev":
            B = A[::-1] if g.next(2) else A[np.arange(n)[::-1]]
        elif a == "rot":
            B = A[(np.arange(n) + op["i"]) % n] if n else A
        elif a == "even":
            B = A[::2] if g.next(2) else A[np.arange(n) % 2 == 0]
        elif a == "slice":
            B = A[op["i"]:op["j"]]
        elif a == "one":
            e, v = raises(lambda: A[op["i"]])
            if e is None and op["ok"] and v.name != name(op["ids"][op["i"]]):
                msgs.append("element %d is %s" % (op["i"], v))
        if op["ok"] != (e is None):
            msgs.append("step %d (%s): %r, expected to be %s" % (t, log[-1], e, "accepted" if op["ok"] else "rejected"))
            break
        if e is None and a != "one":
            A = B
        want = [name(i) for i in op["ids"]]
        if not isinstance(A, VarArray):
            msgs.append("step %d gives %s" % (t, type(A)))
            break
        if list(A.names) != want or [v.name for v in A] != want or len(A) != len(want):
            msgs.append("step %d: names %s, expected %s" % (t, list(A.names), want))
        if A.vtype != op["kind"]:
            msgs.append("step %d: kind %r, expected %r" % (t, A.vtype, op["kind"]))
        # lookups
        for i, p in zip(op["ask"], op["locs"]):
            kind = op["kind"] or "endog"
            for key in (name(i), var(i, kind)):
                e, got = raises(A.get_loc, key)
                if p < 0:
                    if e is None:
                        msgs.append("get_loc(%r) = %r for an unknown name" % (key, got))
                elif e is not None or int(got) != p:
                    msgs.append("get_loc(%r) = %r %r, expected %d" % (key, got, e, p))
                if (key in A) != (p >= 0):
                    msgs.append("%r in the collection: %s" % (key, key in A))
        q = [name(i) if g.next(3) else var(i, op["kind"] or "endog") for i in op["ask"]]
        q = tuple(q) if g.next(2) else q
        e, got = raises(A.get_loc, q)
        if op["found"]:
            if e is not None or [int(x) for x in got] != op["locs"]:
                msgs.append("get_loc(%r) = %r %r, expected %s" % (q, got, e, op["locs"]))
            elif len(q) and [v.name for v in A[got]] != [name(i) for i in op["ask"]]:
                msgs.append("selecting %r gives %s" % (q, A[got]))
        elif e is None:
            msgs.append("get_loc(%r) = %r with an unknown name" % (q, got))
        for bad in (3, None, 2.5):
            if bad in A:
                msgs.append("%r is in the collection" % (bad,))
        if msgs:
            break
    return "\n".join(msgs[:3] + log) if msgs else None
