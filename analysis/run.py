"""run.py PROPERTY: build the facts of /repo's current tree, decide one property, write its evidence."""
import sys, os, json, time, hashlib, subprocess, traceback, fcntl, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(HERE, ".work"))
sys.setrecursionlimit(200000)

from .obligations import Ob  # noqa: E402


def tree_hash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "src"), os.path.join(HERE, "driver", "src"), os.path.join(HERE, "stub"), os.path.join(HERE, "tools")]
    files = [os.path.join(REPO, "Cargo.toml"), os.path.join(REPO, "Cargo.lock"), os.path.join(HERE, "driver", "Cargo.toml")]
    for r in roots:
        for d, ds, fs in os.walk(r):
            if "__pycache__" in d or "/target" in d:
                continue
            files += [os.path.join(d, f) for f in fs if not f.endswith(".pyc")]
    for f in sorted(files):
        if os.path.exists(f):
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def facts(variant=""):
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, f"{variant}facts-{tree_hash()}.json")
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out):
            for f in os.listdir(WORK):
                if f.startswith(f"{variant}facts-") and f.endswith(".json"):
                    os.remove(os.path.join(WORK, f))
            tmp = out + ".tmp"
            env = dict(os.environ, SYNFACTS_VARIANT=variant)
            r = subprocess.run(["bash", os.path.join(HERE, "tools", "facts.sh"), tmp], capture_output=True, text=True, env=env)
            if r.returncode != 0:
                print(r.stdout[-2000:], r.stderr[-6000:], file=sys.stderr)
                print("check: /repo's current tree could not be compiled for analysis", file=sys.stderr)
                sys.exit(2)
            os.rename(tmp, out)
    from .facts import Facts

    return Facts(out)


def known():
    k = {}
    p = os.path.join(HERE, "known-findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(C\d+) key=(\S+) (.*)", line.strip())
        if m:
            k[(m.group(1), m.group(2))] = m.group(3)
    return k


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from .props import REGISTRY

    F = facts()
    rep = []
    funcs = set()
    try:
        for fn in REGISTRY[prop]:
            obs, fs = fn(F, prop)
            rep += obs
            funcs |= set(fs)
        if tier == "thorough" or prop == "C19":  # C19 is also about overflow, which only this build makes visible
            # the same rules on the program as compiled with debug assertions and overflow checks
            from . import terms

            F2 = facts("debug")
            F2.debug = True
            terms.reset()
            for fn in REGISTRY[prop]:
                obs, fs = fn(F2, prop)
                for o in obs:
                    o.key2 = "debug-build:" + o.key
                rep += obs
                funcs |= set(fs)
    except Exception as e:
        tb = traceback.format_exc()
        print(tb, file=sys.stderr)
        rep.append(Ob(prop, f"analysis:{type(e).__name__}", False, (tb.strip().split("\n")[-3] if tb.count("\n") > 3 else "").strip(),
                      f"the current source could not be analysed, so the property is not established: {e}"))
    rep = [o for o in rep if o.prop == prop]
    if not rep:
        rep.append(Ob(prop, "analysis:vacuous", False, "", "no obligation was generated"))
    kn = known()
    bad, listed = {}, {}
    for o in rep:
        if not o.ok:
            (listed if (prop, o.key) in kn else bad).setdefault(o.key, o)
    edir = os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    vfile = os.path.join(edir, f"{prop}.violations.txt")
    with open(vfile, "w") as f:
        for k, o in bad.items():
            f.write(f"{prop} {k}\n  at: {o.where}\n  {o.detail}\n\n")
    for k, o in listed.items():
        print(f"KNOWN-FINDING: property={prop} {k} at {o.where}: {kn[(prop, k)]}")
    for k, o in bad.items():
        print(f"  {k}\n    at {o.where}\n    {o.detail[:1500]}")
        print(f"VIOLATION property={prop} replay=evidence/{prop}.violations.txt")
    good = [o for o in rep if o.ok]
    from .props import RULES

    step = max(1, len(good) // 12)
    ev = dict(
        property=prop, tier=tier, seed=seed, level="other",
        coverage=dict(
            explanation=RULES.get(prop, ""),
            obligations=len(rep), discharged=len(good), known_findings=len(listed),
            functions_analysed=len(funcs), functions_in_crate=len(F.fns),
            functions=sorted(funcs)[:400],
            samples=[f"{o.key} [{o.where}] {o.detail[:200]}" for o in good[::step][:14]],
        ),
        assumptions=ASSUME,
        wall_s=round(time.time() - t0, 2), violations=len(bad),
    )
    json.dump(ev, open(os.path.join(edir, f"{prop}.json"), "w"), indent=1)
    print(f"{prop}: {len(rep)} obligations, {len(good)} hold, {len(listed)} known findings, {len(bad)} violations; {len(funcs)} functions analysed; {ev['wall_s']} s")
    sys.exit(1 if bad else 0)


ASSUME = [
    "rustc's type checker and MIR construction (nightly toolchain of the sandbox) represent the program faithfully",
    "the documented behaviour of the external crates (core, alloc, crypto-bigint, elliptic-curve, k256, subtle, serde, digest) as modelled in analysis/models.py and the specifications",
    "stub/manul reproduces the signatures of the manul crate that the sandbox lacks (used by protocols/ and entities.rs only)",
]

if __name__ == "__main__":
    main()
