"""Registry: property -> list of procedures (facts, property) -> (obligations, functions analysed)."""
from . import zk, uintc, curvec, paillierc, hashc, paramsc, secretsc, bitvecc, protoc, provc, panicc, sssc, sharec, wrapc

REGISTRY = {}
RULES = {}
TECH = {}
NOTES = {}

CT = ("Contracts: gated-SSA value-flow analysis of the MIR of each named function on symbolic arguments (all paths at once, loops summarised, local helpers "
      "followed), its result, the final content of its mutable arguments and the exact condition under which it panics brought into canonical form "
      "(polynomial/linear arithmetic, path conditions decided by case splitting and linear inequalities) and compared with the prescribed ones.")
CT_TECH = "gated-SSA value-flow analysis of MIR, canonical forms compared with a contract per function (result, effects, panic condition)"
CT_NOTE = ("Decided for all argument values and all type parameters at once, relative to the documented behaviour of the external crates' operations "
           "(crypto-bigint, k256, serde, digest), which stay uninterpreted.")

for m in (zk, hashc, paramsc, secretsc, bitvecc, protoc, provc, panicc, wrapc):
    for p, fs in m.REGISTRY.items():
        REGISTRY.setdefault(p, []).extend(fs)
    for p, r in m.RULES.items():
        RULES[p] = (RULES[p] + " " if p in RULES else "") + r
    for p, r in getattr(m, "TECH", {}).items():
        TECH.setdefault(p, r)
    for p, r in getattr(m, "NOTES", {}).items():
        NOTES[p] = (NOTES[p] + " " if p in NOTES else "") + r
for m in (uintc, curvec, paillierc, sssc, sharec, wrapc):
    for p in m.ct.props():
        REGISTRY.setdefault(p, []).append(getattr(m, "run", m.ct.run))
        if CT not in RULES.get(p, ""):
            RULES[p] = (RULES[p] + " " if p in RULES else "") + CT
        TECH.setdefault(p, CT_TECH)
        if CT_NOTE not in NOTES.get(p, ""):
            NOTES[p] = (NOTES[p] + " " if p in NOTES else "") + CT_NOTE
