"""C01-C06: the nine proof systems in src/zk."""
from .. import zkproofs


def run(F, prop):
    obs, funcs = [], set()
    for K in zkproofs.ALL:
        p = K(F)
        obs += [o for o in p.check() if o.prop == prop]
        funcs |= p.funcs
    return obs, funcs


BASE = ("Gated-SSA value-flow analysis of the MIR of each proof system's prover and verifier (all paths at once, loops summarised, "
        "local helpers followed), brought into a canonical form over the ring of integers/scalars and the abelian groups of points, "
        "ciphertexts and ring-Pedersen commitments. ")
RULES = {
    "C01": BASE + "Rule: the acceptance condition implies that the stored challenge equals the function of a hash transcript with the proof's own "
    "domain tag whose items include every commitment, every public input, the setup and aux; the prover uses the same transcript.",
    "C02": BASE + "Rule: the acceptance condition implies each published equation (as a canonical formal sum equal to zero), in every repetition, and "
    "mentions every field of the proof.",
    "C03": BASE + "Rule: the acceptance condition implies is_in_exponent_range(response, bound) with exactly the prescribed symbolic bound, in every repetition.",
    "C04": BASE + "Rule: the acceptance condition implies that every per-repetition table has the prescribed symbolic length and that the challenge has that many entries.",
    "C05": BASE + "Rule: with the prover's result substituted for the proof and the witness relations for the public inputs, the acceptance condition reduces to true "
    "(range literals by matching the mask's sampler with the checked bound), and no abort is reachable.",
    "C06": BASE + "Rule: every response minus its prescribed secret part is exactly one value drawn in that run (and that repetition) from the caller's generator by the "
    "prescribed sampler with the prescribed arguments, pairwise distinct draws.",
}
REGISTRY = {p: [run] for p in RULES}

T = "gated-SSA value-flow analysis of MIR, canonicalised over the proof system's algebra, against a table of the published proof systems"
TECH = {p: T for p in RULES}
N = ("Decided for all inputs and parameter sets (terms are symbolic in the scheme parameters); functions of uint, curve, params, paillier and tools are taken as given here "
     "and have their own checks (C11-C15, C17, C30).")
NOTES = {p: N for p in RULES}
