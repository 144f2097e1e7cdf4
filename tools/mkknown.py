#!/usr/bin/env python3
"""Writes /verif/known_findings.json: the repaired defects (from the fix: commits) and OPEN."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = []     # {"property","id","status":"open","observed_contains","what"}
MAP = [("rounded to below zero", "C17"), ("equations have different scales", "C10"), ("names python reserves", "C03"), ("models whose shocks are small", "C19"), ("location of every reserved", "C31"), ("line of malformed", "C31"), ("end in the middle of a shock", "C31"), ("name undeclared variables", "C31"), ("assigned again", "C03"), ("variable exponent of zero", "C08"), ("search starts at zero", "C09"), ("a sign applies", "C01"), ("adjacent function", "C01"), ("left over after", "C01"), ("empty text", "C02"),
       ("end comments", "C02"), ("unexpected token before", "C03"), ("without a shocks block", "C03"),
       ("histval values", "C04"), ("no value yet", "C03"), ("non-model variables", "C04"), ("as a vector or as a column", "C32"), ("models without regimes", "C32"), ("accept Constraint objects", "C32"), ("linear solution when solving under", "C32"), ("do not belong", "C03"),
       ("only endogenous", "C03"), ("periods of a lead", "C03"), ("more than one period", "C06"), ("x(+0)", "C06"),
       ("exactly one place", "C06"), ("current period have zero", "C08"), ("negative, complex", "C11"),
       ("failed verification", "C11"), ("has to be identified", "C11"), ("static variables only", "C10"),
       ("unit roots", "C11"), ("no or a single state", "C12"), ("twice when simulating", "C14"),
       ("simulate models with a single", "C13"), ("terms twice in the mean", "C18"), ("number of lags", "C17"),
       ("select stochastic", "C19"), ("look up several", "C28"), ("concatenated variables", "C28"),
       ("enters the covariance", "C16"), ("count regimes", "C24"), ("calibrations own", "C05"),
       ("equation lists copy", "C27"), ("queries of an altered", "C20"), ("copies of models keep", "C21"),
       ("occasionally binding paths use", "C23"), ("alternative regimes are linearised", "C23"), ("initial values can be passed", "C23"),
       ("numpy removed", "C26"), ("state-shock coefficients", "C26"), ("negative coefficients", "C26"),
       ("autocorrelations with their lag", "C26"), ("are all zero", "C26"), ("plots of a single", "C30"), ("plots can be positional", "C30"), ("rectangular plot", "C30"), ("accept squeeze", "C30"), ("absolute values and signs", "C01"),
       ("bundled examples", "C29"), ("boundary and shocks block of a file", "C04"), ("rank condition was met", "C11"),
       ("var function of the stats", "C17"), ("keywords of add_stoch", "C20"), ("singular covariance", "C13")]
out = list(OPEN)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], stdout=subprocess.PIPE).stdout.decode()
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    p = [b for a, b in MAP if a in s]
    assert p, s
    out.append({"property": p[0], "status": "fixed", "commit": h, "what": s[5:],
                "record": "fixed: property=%s %s %s" % (p[0], h, s[5:])})
json.dump(out, open(os.path.join(H, "known_findings.json"), "w"), indent=1)
open(os.path.join(H, "known_findings.json"), "a").write("\n")
print(len(out))
