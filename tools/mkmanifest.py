#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = "trusts rustc's MIR, the transfer functions of std/syn/quote/derive_utils in engine/models.py and the frozen tables; symbolic collections are unrolled to 2 elements"
DER = "the macro's MIR is interpreted abstractly per argument list and number of variants; token templates are decided for every payload type and generics"
C = {}
def c(i, tech, note, thorough=False):
    C[i] = (tech, note, thorough)
c("C01", "MIR abstract interpretation to token templates + dispatch-shape analysis", "All documented traits, 1-3 variants; " + DER + "; " + TRUST)
c("C02", "MIR abstract interpretation to token templates vs frozen trait method table", "All documented traits; the table of forwarded methods is frozen in engine/oracle.py; " + TRUST)
c("C03", "MIR abstract interpretation to token templates + where-clause analysis", "All documented traits, 1-3 variants; " + TRUST)
c("C04", "MIR abstract interpretation to token templates + unsafe-token and pin-projection analysis", "All documented traits and Transpose, 1-3 variants; " + TRUST)
c("C05", "MIR abstract interpretation to token templates + obligation check per pinned method", "Single names and lists mixing pinned traits, 1-3 variants; " + TRUST)
c("C06", "MIR abstract interpretation with a symbolic trait name vs documented name table", "The lookup is decided for every spelling; lists up to 4 names; " + TRUST)
c("C07", "MIR abstract interpretation over dependency/alias argument lists", "All ordered sublists up to length 3 (thorough 4) of each dependency group; " + TRUST, True)
c("C08", "per-feature type-check and MIR abstract interpretation; compile-fail opt-in witnesses", "Each feature alone, none, all (thorough: all pairs and all-but-one); " + TRUST, True)
c("C09", "MIR abstract interpretation to token templates + variant/side mapping analysis", "1-3 variants; acceptance decided over parameter/payload shapes up to 3 (thorough 4); " + TRUST, True)
c("C10", "name-resolution lint over the token templates obtained by MIR abstract interpretation", "All documented traits; one known finding (Send in ParallelExtend); " + TRUST)
try:
    exec(open(os.path.join(V, "tools/manifest_ae.py")).read())
except FileNotFoundError:
    pass
NA = {
 "C30": "Quantifies over run-time behaviour of arbitrary user programs; a static argument would need the semantics of the user's code. Its static content is covered piecewise by C01-C29.",
 "C31": "Whether an arbitrary user program's types unify after expansion is decided by rustc on that program; no static analysis of the macro's source bounds the user's types and lifetimes.",
 "C32": "Inlining and allocation are properties of optimised machine code of user programs; deciding them needs compiled artefacts or measurements, not the macro's source.",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in C:
        t, n, th = C[i]
        d = {"property": i, "quick_cmd": "python3 engine/check.py %s quick" % i, "technique": t, "level": "other", "level_note": n}
        if th:
            d["thorough_cmd"] = "python3 engine/check.py %s thorough" % i
        checks.append(d)
    else:
        na.append({"property": i, "reason": NA.get(i, "not yet decided by a check in this revision")})
json.dump({"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
