"""Running TLC on the modules of /verif/spec and collecting what they print."""
import json, os, re, shutil, subprocess, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """The specification (not the code under test) failed."""


class Result(object):
    def __init__(self, records, states, distinct, out, ok=True):
        self.records, self.states, self.distinct, self.out, self.ok = \
            records, states, distinct, out, ok


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v, key=str)) + "}"
    raise TypeError(v)


def run(module, constants=None, init="Init", next="Next", invariants=(), constraint=None,
        properties=(), spec=None, postcondition=None, timeout=840, workers=8, heap="6g",
        env=None, accept_failure=False, deadlock=False, extra=()):
    """Model-check spec/<module>.tla; returns the JSON records printed by the spec."""
    tmp = tempfile.mkdtemp(prefix="vtlc")
    try:
        cfg = []
        for k, v in (constants or {}).items():
            cfg.append("CONSTANT %s = %s" % (k, tla(v)))
        if spec:
            cfg.append("SPECIFICATION " + spec)
        else:
            cfg += ["INIT " + init, "NEXT " + next]
        for i in invariants:
            cfg.append("INVARIANT " + i)
        for i in properties:
            cfg.append("PROPERTY " + i)
        if constraint:
            cfg.append("CONSTRAINT " + constraint)
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        path = os.path.join(tmp, "m.cfg")
        with open(path, "w") as f:
            f.write("\n".join(cfg) + "\n")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m",
               "-Djava.io.tmpdir=" + tmp, "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(tmp, "meta"),
               "-noGenerateSpecTE", "-config", path]
        if not deadlock:
            cmd.append("-deadlock")
        cmd += list(extra)
        cmd.append(os.path.join(SPEC, module + ".tla"))
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, cwd=tmp, env=e)
        except subprocess.TimeoutExpired:
            raise TLCError("TLC did not finish %s in %ss" % (module, timeout))
        out = p.stdout.decode("utf8", "replace")
        recs, rest = [], []
        for line in out.splitlines():
            if line.startswith('"') and line.endswith('"'):
                try:
                    recs.append(json.loads(json.loads(line)))
                    continue
                except ValueError:
                    pass
            rest.append(line)
        rest = "\n".join(rest)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", rest)
        ok = p.returncode == 0 and m is not None
        if not ok and not accept_failure:
            raise TLCError("TLC failed on %s (rc %s):\n%s" % (module, p.returncode, rest[-6000:]))
        # workers print in any order
        recs.sort(key=lambda c: (c.get("k", 0) if isinstance(c, dict) and isinstance(c.get("k", 0), int) else 0,
                                 json.dumps(c, sort_keys=True)))
        st = tuple(int(x.replace(",", "")) for x in m.groups()) if m else (0, 0)
        return Result(recs, st[0], st[1], rest, ok)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
