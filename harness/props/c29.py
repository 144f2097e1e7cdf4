"""C29: which model a path names. Histories of MCFiles.tla are replayed in a scratch directory."""
import glob, os, pathlib, shutil, tempfile
from common import Rng, raises

TIMEOUT = 120.0
ASSUMPTIONS = ["file names with at most one dot; the bundled models that load (four of six) are compared with a copy "
               "of their file loaded by its absolute path"]
BUNDLED = ["simple_linear", "basic_nk", "four_eq_nk", "herbst_schorfheide"]


def cases(ctx):
    d = 4 if ctx.quick else 5
    r = ctx.tlc("MCFiles", {"Seed": ctx.seed, "Depth": d, "Count": 0, "Mode": "all"},
                invariants=["SameFile", "Written", "Emit"], properties=["Unread"], spec="Spec")
    out = [dict(c, id="all-%d" % i) for i, c in enumerate(r.records)]
    keep = 900 if ctx.quick else 15000
    if len(out) > keep:
        step = len(out) / keep
        out = [out[int(i * step)] for i in range(keep)]
    n = 500 if ctx.quick else 6000
    r = ctx.tlc("MCFiles", {"Seed": ctx.seed, "Depth": 12, "Count": n, "Mode": "rand"},
                invariants=["SameFile", "Written", "Emit"], properties=["Unread"], spec="Spec")
    out += [dict(c, id="walk-%d-%d" % (ctx.seed, c["k"])) for c in r.records]
    for c in out:
        c["seed"] = ctx.seed
    return out


def sample(c):
    return {"id": c["id"], "history": c["hist"]}


def coverage(cs):
    k = {}
    for c in cs:
        for o in c["hist"]:
            if o["act"] == "load":
                k[o["res"]["kind"]] = k.get(o["res"]["kind"], 0) + 1
    return {"loads_by_outcome": k}


TEXT = "var x; varexo e; parameters a; a = 0.%d; model; x = a*x(-1) + e; end; shocks; var e = 1; end;\n"
BROKEN = ["var x; model; x = = 1; end;", "var x; model; x = zz; end;", "model", "var x, x; model; x = 1; end;"]
_mem = {}


def facts(m):
    return (list(m.endog.names), list(m.stoch.names), {k: float(v) for k, v in m.params.calib.items()}, len(m.exprs))


def bundled(name):
    if name not in _mem:
        import pynare
        root = os.path.dirname(pynare.__file__)
        p = [x for x in glob.glob(os.path.join(root, "examples", "**", name + ".*"), recursive=True)
             if x.endswith((".mod", ".txt"))]
        # the same model may be kept in more than one place
        _mem[name] = [facts(pynare.Model.from_path(os.path.abspath(x))) for x in p]
    return _mem[name]


def run(c):
    import pynare
    old = os.getcwd()
    os.chdir("/")
    top = tempfile.mkdtemp(prefix="c29")
    g = Rng("c29", c["seed"], c["id"])
    msgs = []
    try:
        for d in ("a/b", "c"):
            os.makedirs(os.path.join(top, d))
        os.chdir(top)
        for i, o in enumerate(c["hist"]):
            tag = "step %d %s" % (i + 1, {k: v for k, v in o.items()})
            if o["act"] == "cd":
                os.chdir(os.path.join(top, *o["to"]))
            elif o["act"] in ("write", "remove"):
                p = os.path.join(top, *(o["at"][0] + ["".join(o["at"][1])]))
                if o["act"] == "remove":
                    os.unlink(p)
                else:
                    with open(p, "w") as f:
                        f.write(TEXT % (10 + o["id"]) if o["id"] else g.pick(BROKEN))
            else:
                s = o["path"]
                p = os.path.join(*([top] if s["abs"] else []), *s["steps"], "".join(s["name"]))
                p = pathlib.Path(p) if o["obj"] else p
                e, m = raises(pynare.Model.from_path, p)
                r = o["res"]
                if r["kind"] == "missing":
                    if not isinstance(e, FileNotFoundError):
                        msgs.append("%s: there is no such file, but %s" % (tag, repr(e) if e else "a model was loaded"))
                elif r["kind"] == "broken":
                    if e is None or isinstance(e, FileNotFoundError):
                        msgs.append("%s: the malformed file gave %r" % (tag, e))
                elif e is not None:
                    msgs.append("%s: raised %r" % (tag, e))
                else:
                    if m.name != r["name"]:
                        msgs.append("%s: the model is called %r" % (tag, m.name))
                    got = facts(m)
                    if r["kind"] == "file":
                        if got != (["x"], ["e"], {"a": float("0.%d" % (10 + r["id"]))}, 1):
                            msgs.append("%s: the model is not the file's: %s" % (tag, got))
                    elif got not in bundled(r["id"]):
                        msgs.append("%s: the model is not the bundled one: %s" % (tag, got))
    finally:
        os.chdir(old if os.path.isdir(old) else "/")
        shutil.rmtree(top, ignore_errors=True)
    return "\n".join(msgs[:3]) if msgs else None
