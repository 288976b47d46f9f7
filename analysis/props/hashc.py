"""C07 and the hash part of C29: contracts of tools/hashing.rs and of the parameter and identifier hashes, plus the whole-crate hashing rules."""
from ..low import *
from .. import hashrules, protos, calls, roots
from ..obligations import Ob

ct = Book()
H = "tools::hashing::"
BE64, BE32 = "core::num::<impl u64>::to_be_bytes", "core::num::<impl u32>::to_be_bytes"
CH, CB, RAWB, FIN = H + "Chain::chain", H + "Chain::chain_bytes", H + "Chain::chain_raw_bytes", H + "Hasher::<D>::finalize"
NEW = H + "Hasher::<D>::new_with_dst"


def length(x):
    return mk0("len", x)


def f(x, *ks):
    for k in ks:
        x = fld(x, k)
    return x


# ---- framing: eight bytes of length, then the bytes; nothing else
ct("C07", CB)(lambda C, d, b: dict(ret=call(RAWB, "Self", call(RAWB, "Self", d, call(BE64, "", length(b))), b)))


def absorb(d, b):
    return mk0("upd", "digest::Update::update", 0, d, b)


def framed(d, b):
    return absorb(absorb(d, call(BE64, "", length(b))), b)


ct("C07", f"<{H}Hasher<D> as {H}Chain>::chain_raw_bytes")(lambda C, d, b: dict(ret=rec(H + "Hasher", **{"0": absorb(f(d, "0"), b)})))
ct("C07", NEW)(lambda C, t: dict(ret=rec(H + "Hasher", **{"0": framed(call("default", "D"), t)})))
ct("C07", H + "Hasher::<D>::finalize_to_reader")(lambda C, d: dict(ret=call("digest::ExtendableOutput::finalize_xof", "D", f(d, "0"))))


@ct("C07", FIN)
def _(C, d, n):
    nbytes = mk0("bin", "Div", add(const(7), mul(const(2), mk0("in", "n:a1"))), const(8))
    x = call("digest::ExtendableOutput::finalize_xof", "D", f(d, "0"))
    return dict(ret=rec(H + "HashOutput", **{"0": mk0("upd", "digest::XofReader::read", 1, x, mk0("repeat", const(0), nbytes))}))


# ---- a hashable object is what its serialization feeds to the digest
def hashed(who, d, x, T_, DT):
    s = call("serde::Serialize::serialize", T_, x, agg("hashing_serializer::HashingSerializer", ("digest",), [call(H + "Chain::as_digest_mut", DT, d)]))
    return dict(ret=mk0("upd", H + "Chain::as_digest_mut", 0, d), aborts=b_not(is_ok(s)), lost=True)


ct("C07", f"<T as {H}Hashable>::chain")(lambda C, x, d: hashed("", d, x, "T", "C"))
ct("C07", CH)(lambda C, d, x: hashed("", d, x, "T", "Self"))
ct("C07", f"<{H}Hasher<D> as {H}Chain>::as_digest_mut")(lambda C, d: dict(mem={0: d}))


# ---- the identifiers: what they hash, decided on the items that reach the digest
def items(t):
    """The items absorbed by a chain of hash calls, and where it starts."""
    out = []
    while True:
        if t.op == "call" and t.args[0] in (CH, CB):
            out.append(t.args[3])
            t = t.args[2]
        elif t.op == "call" and t.args[0] == NEW:
            return t, out
        elif t.op == "fold":
            n, bv, acc, init, body = t.args
            inner, its = items(body)
            out.append(("all", n, bv, tuple(its)) if inner is acc else ("?",))
            t = init
        elif t.op == "agg" and len(t.args[2]) == 1 and False:
            t = t.args[2][0]
        else:
            return t, out


def contains(t, x):
    seen = set()

    def go(y):
        if y is x:
            return True
        if isinstance(y, tuple):
            return any(go(z) for z in y)
        if not isinstance(y, T) or id(y) in seen:
            return False
        seen.add(id(y))
        return any(go(z) for z in y.args)

    return go(t)


PP = "<P as params::traits::SchemeParams>::"
LEAF = (CH, CB, NEW, re.escape(FIN), re.escape(NEW))


class Ids:
    """What the session and epoch identifiers bind."""

    def __init__(self, F):
        self.F, self.obs = F, []
        self.R = Runner(F)
        self.C = self.R.C

    def want(self, path, base, need, out=None):
        f_ = self.R.find(path)
        if f_ is None:
            self.obs.append(Ob("C29", f"{path}:anchor", False, path, "the function the property is about no longer exists"))
            return
        vf, r, ins = self.R.analyse(f_, (re.escape(CH), re.escape(CB), re.escape(NEW), re.escape(FIN)))
        t = self.C(r.ret)
        where = f"{f_.get('file','')} {path}"
        if out:
            got = out(self.C, t)
            self.obs.append(Ob("C29", f"{path}:length", got is not None, where, "the identifier is the hash at the scheme's security level" if got is not None else f"the identifier is not the finalized hash: {show(t,6)[:300]}"))
            if got is None:
                return
            t = got
        b, its = items(t)
        ok = base(b)
        self.obs.append(Ob("C29", f"{path}:start", ok, where, f"the hash starts from {show(b,4)[:120]}"))
        for nm, fn in need:
            ok = any(fn(self.C, i) for i in its)
            self.obs.append(Ob("C29", f"{path}:binds:{nm}", ok, where, f"{nm} is " + ("" if ok else "not ") + "hashed"))

    def run(self):
        sec = mk0("const", PP + "SECURITY_BITS")

        def tail(lbl):
            def o(C, t):
                h = t if lbl == "hash" else fld(t, "0")
                return h.args[2] if h.op == "call" and h.args[0] == FIN and C(h.args[3]) is C(sec) else None

            return o

        def is_new(b):
            return b.op == "call" and b.args[0] == NEW

        def within(*xs):
            return lambda C, i: isinstance(i, T) and any(same(C, i, x) for x in xs)

        def same(C, i, x):
            return C(i) is C(x)

        def be32(x):
            x = mk0("const", x) if isinstance(x, str) else x
            return within(call(BE32, "", x), call(BE32, "", mk0("trunc", "u32", x)))

        CRV = PP + "Curve"

        def order(C, i):
            crv = f"<{CRV} as elliptic_curve::Curve>::ORDER"
            o = mk0("const", crv)
            if isinstance(i, tuple) and i[0] == "all":
                _, n, bv, its = i
                limb = fld(mk0("elem", o, bv), "0")
                return same(C, n, length(o)) and any(
                    isinstance(y, T) and (same(C, y, call("core::num::<impl u64>::to_le_bytes", "", limb)) or same(C, y, call(BE64, "", limb))) for y in its
                )
            return False

        def generator(C, i):
            g = C(call("elliptic_curve::Group::generator", ""))
            return isinstance(i, T) and contains(C(i), g)

        params = [
            ("the curve order", order),
            ("the curve generator", generator),
            ("the prime size", be32(f"<{PP}Paillier as paillier::params::PaillierParams>::PRIME_BITS")),
            ("the security level", be32(PP + "SECURITY_BITS")),
            ("the security parameter", be32(PP + "SECURITY_PARAMETER")),
            ("the bound L", be32(PP + "L_BOUND")),
            ("the bound L'", be32(PP + "LP_BOUND")),
            ("the slack EPS", be32(PP + "EPS_BOUND")),
        ]
        a0, a1 = mk0("in", "a0"), mk0("in", "a1")
        self.want("params::traits::chain_scheme_params", lambda b: b is a0, params)
        self.want("entities::internal::Sid::new", is_new, [*params, ("the shared randomness", within(a0)), ("the set of participants", within(a1))], tail("Sid"))
        self.want("protocols::interactive_signing::Epid::new", is_new,
                  [*params, ("the shared randomness", within(a0)), ("the public key shares", within(fld(a1, "shares"))), ("the public auxiliary data", within(fld(a1, "aux")))], tail("Epid"))
        for m in ("key_init::PublicData::<P>", "aux_gen::PublicData::<P>", "key_refresh::PublicData::<P, Id>"):
            self.want(f"protocols::{m}::hash", is_new, [("the session identifier", within(a1)), ("the maker's identity", within(mk0("in", "a2")))], tail("hash"))
        self.uses()
        return self.obs, self.R.funcs

    def uses(self):
        """Every proof made or checked, and every commitment hashed in a run, names the session and its maker."""
        P = protos.Proto(self.F)
        sess = P.session_fields()
        for adt, p, fs in P.contexts():
            sid, me = sess[adt.split("::")[1]]
            ok = bool(sid and me)
            self.obs.append(Ob("C29", f"{adt}@{p}:context", ok, p, "the rounds carry the session identifier and the local identity" if ok else f"{adt} built here does not carry the session identifier (of this run's randomness and parties) and the local identity"))
        pat = re.compile(r"zk::\w+::\w+Proof::<.*>::(new|verify)$|protocols::\w+::PublicData::<.*>::hash$")
        sites = {}
        for s in calls.all_sites(self.F):
            if pat.match(s.callee) and "protocols::" in s.fn["path"]:
                sites.setdefault(s.fn["path"], []).append(s)
        R = roots.Roots(self.F)
        seen = set()
        for fp, ss in sorted(sites.items()):
            for r in sorted(R.roots(fp)):
                role, meth = P.role(r)
                vf = P.vf(r) if role else None
                if vf is None:
                    self.obs.append(Ob("C29", f"{r}:use", False, r, f"proofs are made or checked outside the rounds of a protocol, or the analysis does not follow it {P.err.get(r,'')}"))
                    continue
                self.R.funcs |= {r}
                hit = 0
                for pc, n, a, site in vf.events:
                    if not pat.match(n) or site[0] != fp:
                        continue
                    hit += 1
                    if n.endswith("::hash"):
                        comps = [a[1], a[2]]
                    else:
                        comps = list(a[-1].args[2:]) if isinstance(a[-1], T) and a[-1].op == "agg" else [a[-1]]
                    tags = [P.tag(c, r, sess) for c in comps if isinstance(c, T)]
                    who = "PEER" if (meth in ("receive_message", "verify_messages_constitute_error")) else "ME"
                    for nm, ok in (("session", "SID" in tags), ("maker", who in tags)):
                        k = f"{r}:{n}:{nm}"
                        if (k, ok) in seen:
                            continue
                        seen.add((k, ok))
                        self.obs.append(Ob("C29", k, ok, f"{site[2]} {r}", f"{n} is given the {nm}" + ("" if ok else f": NOT in {', '.join(show(c,5)[:80] for c in comps if isinstance(c,T))}")))
                if not hit:
                    self.obs.append(Ob("C29", f"{r}:{fp}:unseen", False, r, f"the proof calls in {fp} are not reached by the analysis of this round"))


def run(F, prop):
    if prop == "C29":
        return Ids(F).run()
    obs, fs = ct.run(F, prop)
    o2, f2 = hashrules.check(F, prop)
    return obs + o2, fs | f2


REGISTRY = {"C07": [run], "C29": [run]}
RULES = {
    "C29": "Rules: (1) value flow of Sid::new, Epid::new and chain_scheme_params: every scheme parameter, the randomness, the party set (or key shares and auxiliary data) reach the digest, whose output is finalized at the security level; "
    "(2) the context built by every entry point carries that identifier and the local identity; (3) at every call of a proof's new/verify and of a commitment hash inside a round or an evidence check the auxiliary data contains that identifier and the maker's identity (by provenance), and each commitment hash absorbs both.",
    "C07": "Rules: (1) contracts of the hashing interface (length framing, tag first, serialization of objects), by value-flow analysis; (2) raw digest operations are used only inside it; "
    "(3) every hash is started with a constant tag (resolved through helpers by value flow) and no tag is shared by two purposes; (4) every type ever hashed is self-delimiting under the hashing "
    "serializer, decided recursively over its serialization, with generic items decided at their instantiations.",
}
TECH = {"C29": "value-flow provenance of identifier hashes and of the auxiliary data at every proof call site of every protocol round", "C07": "value-flow contracts of the hashing interface; whole-program call-site rules on resolved MIR (confinement, tag typestate, recursive framing of hashed types)"}
NOTES = {"C29": "The hash of the key shares and auxiliary data is taken to bind them through their serialization (C07).", "C07": "Assumes the caller's party-identifier type has a self-delimiting serialization and that manul's SerializableMap serializes as a length-prefixed sequence."}

if __name__ == "__main__":
    import sys
    from ..facts import Facts

    F = Facts("/tmp/facts.json")
    for p, fn in (("C07", run), ("C29", run)):
        obs, fs = fn(F, p)
        for o in obs:
            if not o.ok:
                print("FAIL", o.key, o.where, o.detail[:1500])
        print(p, len(obs), sum(o.ok for o in obs))
