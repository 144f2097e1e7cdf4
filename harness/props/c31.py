"""C31: the grammar of model files and the place of faults. Grammar.tla is a pushdown recogniser of the language with the
uses of names as events; MCGrammar.tla derives random files from it, disturbs and lays them out, and says what must come
out: accepted, or rejected at one of a set of lines, for one of a set of names."""
import re
import warnings
from common import load_text, raises

CHUNK = 25
TIMEOUT = 60.0
ASSUMPTIONS = ["a file that is accepted by the grammar and has no fault in its names may still be refused for other reasons (values, numbers of equations)",
               "deterministic shocks and commands after the model are outside the grammar; files that give a block twice get no verdict on names",
               "only the line of a message is compared, not the column"]


def cases(ctx):
    size = (240, 360, 70, 2) if ctx.quick else (2000, 3000, 90, 1)
    recs = []
    for extra in ((0,) if ctx.quick else (0, 1, 2)):
        r = ctx.tlc("MCGrammar", {"Seed": ctx.seed + 100 * extra, "Walks": size[0], "Copies": size[1], "Longest": size[2], "Cuts": size[3]},
                    spec="Spec", invariants=["Viable", "Online", "Earliest", "Same", "Emit"])
        recs += r.records
    recs.sort(key=lambda c: (c["id"], c["text"]))
    recs = [c for c in recs if c["say"] != "any"]
    return [{"id": "files-%d-%d" % (ctx.seed, i), "files": recs[i:i + CHUNK]} for i in range(0, len(recs), CHUNK)]


def sample(c):
    return c["files"][0]


def coverage(cs):
    fs = [x for c in cs for x in c["files"]]
    out = {k: sum(x["say"] == k for x in fs) for k in ("accept", "syntax", "names", "command")}
    out["ended too early"] = sum(x["say"] == "syntax" and x["bad"] == x["tokens"] + 1 for x in fs)
    return out


def verdict(c):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        e, _ = raises(load_text, c["text"])
    said = "%s: %s" % (type(e).__name__, e)
    line = [int(n) for n in re.findall(r"\b(?:line|row)\s+(\d+)", str(e))] if e is not None else []
    if c["say"] == "accept":
        if e is not None and (line or type(e).__name__ == "PynareSyntaxError"):
            return "a well-formed file was rejected: %s" % said
        return None
    if e is None:
        return "a file with a fault on line %s was accepted" % c["lines"]
    if c["say"] == "command":
        return None
    if not line:
        return "the fault on line %s is reported without its line: %s" % (c["lines"], said)
    if not set(line) <= set(c["lines"]):
        return "the fault on line %s is reported elsewhere: %s" % (c["lines"], said)
    return None


def run(c):
    for x in c["files"]:
        m = verdict(x)
        if m:
            return "%s\n%s\n%s" % (m, x["text"], "names %s" % x["names"] if x["names"] else "")
    return None
