"""C03: which files are accepted. MCModFile.tla writes well-formed files and edits them; its reading machine
decides; every file is loaded from disk."""
import modfile
from common import Rng, load_text, raises

TIMEOUT = 60.0
ASSUMPTIONS = ["files with up to three endogenous variables, two shocks, three parameters, two helpers and two model-local "
               "names, with up to two edits; files on which the property is silent (see ModFile.Unspecified) are not used",
               "files whose equations do not determine the variables are not used as accepted files"]
CHUNK = 40


def records(ctx, thorough_files=150):
    out = []
    if ctx.quick:
        runs = [(0, 59, 1, 8, 0), (60, 89, 2, 20, 0)]
    else:
        runs = [(0, thorough_files - 1, 1, 2, 0), (200, 259, 2, 18, 0)]
    for a, b, edits, samp, _ in runs:
        r = ctx.tlc("MCModFile", {"Seed": ctx.seed, "First": a, "Last": b, "MaxEdits": edits, "Sample": samp},
                    invariants=["WellFormed", "Hoisted", "Commute", "Optional", "Emit"], spec="Spec", heap="8g")
        out += r.records
    for c in out:
        c["seed"] = ctx.seed
    return out


def cases(ctx):
    out = []
    recs = [c for c in records(ctx) if not c["open"] and (not c["ok"] or modfile.buildable(c))]
    keep = [{k: c[k] for k in ("k", "file", "edits", "ok", "why", "seed")} for c in recs]
    for i in range(0, len(keep), CHUNK):
        out.append({"id": "files-%d-%d" % (ctx.seed, i), "items": keep[i:i + CHUNK]})
    return out


def sample(c):
    return {"file": modfile.text(c["items"][0], "c03")[1], "ok": c["items"][0]["ok"], "edits": c["items"][0]["edits"]}


def coverage(cs):
    why = {}
    for c in cs:
        for x in c["items"]:
            why[x["why"] or "accepted"] = why.get(x["why"] or "accepted", 0) + 1
    return {"files": sum(len(c["items"]) for c in cs), "verdicts": why}


def run(c):
    for x in c["items"]:
        _, ls = modfile.text(x, "c03")
        t = "\n".join(ls) + "\n"
        e, _ = raises(load_text, t)
        if x["ok"] and e is not None:
            return "a well-formed file was rejected: %r\nedits %s\n%s" % (e, x["edits"], t)
        if not x["ok"] and e is None:
            return "a file that breaks a rule was accepted (%s)\nedits %s\n%s" % (x["why"], x["edits"], t)
    return None
