"""The nine proof systems."""
from .zkspec import *
from . import zkspec as Z


def SP(n):
    return mk0("const", f"<P as params::traits::SchemeParams>::{n}")


L, LP, EPS = SP("L_BOUND"), SP("LP_BOUND"), SP("EPS_BOUND")
SECPAR, SECBITS = SP("SECURITY_PARAMETER"), SP("SECURITY_BITS")
PRIME_BITS = mk0("const", "<<P as params::traits::SchemeParams>::Paillier as paillier::params::PaillierParams>::PRIME_BITS")


def plus(*xs):
    r = const(0)
    for x in xs:
        r = padd(r, x if isinstance(x, T) else const(x))
    return r


def W(x):
    return alg.wire(x)


def call(name, *a):
    return mk0("call", name, "", *a)


def masked(x, pk):
    """a masked randomizer and the modulus it belongs to"""
    m = call("paillier::keys::PublicKeyPaillier::<P>::modulus", pk)
    return (lambda iv: fld(x(iv), "0")) if callable(x) else fld(x, "0"), m


def rp_modulus(setup):
    return ("RPMOD", setup)


SCALAR_XOF = "curve::arithmetic::Scalar::<P>::from_xof_reader"
BITS_XOF = "tools::bitvec::BitVec::from_xof_reader"
BITS = "tools::bitvec::BitVec::bits"
RPMOD = "paillier::ring_pedersen::RPParams::<P>::modulus"


def scalar_challenge(rd, t):
    return [x for x in walk(t) if x.op == "call" and x.args[0] == SCALAR_XOF and x.args[2] is rd]


class P(Proof):
    """common forms"""

    setup = IN("setup")

    def challenge_field(self):
        return self.me("e")

    def challenge_form(self, rd, C):
        return self.find(rd, SCALAR_XOF)

    def find(self, rd, fn, *rest):
        for t in (self.acc_raw, self.ret_raw):
            if t is None:
                continue
            for x in walk(t):
                if x.op == "call" and x.args[0] == fn and x.args[2] is rd:
                    return x
        return None

    acc_raw = ret_raw = None

    def dstterm(self):
        return mk0("c", self.dst, "bytes")

    def mod_of(self, setup=None):
        """the modulus of the verifier's ring-Pedersen setup, as the code spells it"""
        return mk0("call", RPMOD, "", setup if setup is not None else self.setup)


class Sch(P):
    name, dst = "sch", "P_sch"
    struct = "zk::sch::SchProof"
    new_path, verify_path = "zk::sch::SchProof::<P>::new", "zk::sch::SchProof::<P>::verify"
    new_args = ("proof_secret", "x", "commitment", "cap_x", "aux")
    verify_args = ("self", "commitment", "cap_x", "aux")

    def challenge_field(self):
        return fld(self.me("challenge"), "0")

    def items(self):
        return {"aux": IN("aux"), "X": IN("cap_x"), "commitment": IN("commitment")}

    def ranges(self, env):
        return {}

    def equations(self, env, C):
        z, e = Rg(self.me("proof")), Rg(env["e"])
        A, X = Gr(fld(IN("commitment"), "0")), Gr(IN("cap_x"))
        return {"zG=A+eX": (lambda iv: zero(z * GEN - A - e * X), False)}

    def witness(self):
        return {IN("cap_x"): (Rg(IN("x")) * GEN).t, fld(IN("commitment"), "0"): (Rg(fld(IN("proof_secret"), "0")) * GEN).t}

    def check_masks(self, ret, C, W):
        v = C(fld(ret, "proof"))
        e = C(fld(fld(ret, "challenge"), "0"))
        m = psub(v, pmul(e, IN("x")))
        self.ob("C06", "mask:proof", m is fld(IN("proof_secret"), "0"), W, f"response minus e*x must be the committed mask; it is {show(m, 8)[:200]}")
        # the mask itself: sampled in SchSecret::random, committed in SchCommitment::new
        W = "zk::sch::SchSecret::<P>::random"
        vf, r = self.run(W, ("rng",))
        t = C(fld(r.ret, "0"))
        self.ob("C06", "mask:secret", t.op == "fresh" and t.args[0] == SAMPLERS["scalar"], W, f"mask is {show(t, 6)[:200]}")
        W = "zk::sch::SchCommitment::<P>::new"
        vf, r = self.run(W, ("secret",))
        t = C(fld(r.ret, "0"))
        self.ob("C05", "commitment", t is gmul(fld(IN("secret"), "0"), G), W, f"commitment is {show(t, 6)[:200]}")


class Elog(P):
    name, dst = "elog", "P_elog"
    struct = "zk::elog::ElogProof"
    new_path, verify_path = "zk::elog::ElogProof::<P>::new", "zk::elog::ElogProof::<P>::verify"
    new_args = ("rng", "secret", "public", "aux")
    verify_args = ("self", "public", "aux")

    def items(self):
        d = {n: self.me("cap_" + n) for n in "anb"}
        d.update({n.upper(): self.pub("cap_" + n) for n in "lmxy"})
        d["h"] = self.pub("h")
        d["aux"] = IN("aux")
        return d

    def ranges(self, env):
        return {}

    def equations(self, env, C):
        e = Rg(env["e"])
        z, u = Rg(self.me("z")), Rg(self.me("u"))
        A, N, B = (Gr(self.me("cap_" + n)) for n in "anb")
        Lp, M, X, Y, h = (Gr(self.pub(n)) for n in ("cap_l", "cap_m", "cap_x", "cap_y", "h"))
        return {
            "zG=A+eL": (lambda iv: zero(z * GEN - A - e * Lp), False),
            "uG+zX=N+eM": (lambda iv: zero(u * GEN + z * X - N - e * M), False),
            "uh=B+eY": (lambda iv: zero(u * h - B - e * Y), False),
        }

    def witness(self):
        y, lam = Rg(self.sec("y")), Rg(self.sec("lambda"))
        X, h = Gr(self.pub("cap_x")), Gr(self.pub("h"))
        return {self.pub("cap_l"): (lam * GEN).t, self.pub("cap_m"): (y * GEN + lam * X).t, self.pub("cap_y"): (y * h).t}

    def masks(self, env):
        e = Rg(env["e"])
        return {"z": ("scalar", [], e * Rg(self.sec("lambda"))), "u": ("scalar", [], e * Rg(self.sec("y")))}


class EncElg(P):
    name, dst = "enc_elg", "P_enc_elg"

    def secret_ranges(self):
        return {"x": L}
    struct = "zk::enc_elg::EncElgProof"
    new_path, verify_path = "zk::enc_elg::EncElgProof::<P>::new", "zk::enc_elg::EncElgProof::<P>::verify"
    new_args = ("rng", "secret", "public", "setup", "aux")
    verify_args = ("self", "public", "setup", "aux")

    def keys(self):
        return {self.pub("cap_c"): self.pub("pk0")}

    def rand_keys(self):
        return {self.sec("rho"): self.pub("pk0")}

    def units(self):
        return {"z2": masked(self.me("z2"), self.pub("pk0"))}

    def items(self):
        d = {"cap_" + n: self.me("cap_" + n) for n in "sdyzt"}
        d.update(pk0=W(self.pub("pk0")), C=W(self.pub("cap_c")), A=self.pub("cap_a"), B=self.pub("cap_b"), X=self.pub("cap_x"))
        d.update(setup=W(self.setup), aux=IN("aux"))
        return d

    def ranges(self, env):
        return {"z1": (self.me("z1"), plus(L, EPS))}

    def equations(self, env, C):
        e = Rg(env["e"])
        ez = Rg(zint(env["e"]))
        z1, z3, w, z2 = Rg(self.me("z1")), Rg(self.me("z3")), Rg(self.me("w")), self.me("z2")
        pk0 = self.pub("pk0")
        A, B, X, Cc = (Gr(self.pub("cap_" + n)) for n in "abxc")
        D = Pre(self.me("cap_d"), pk0)
        T_, S = Pre(self.me("cap_t"), self.setup), Pre(self.me("cap_s"), self.setup)
        return {
            "Enc(z1;z2)=D*C^e": (lambda iv: zero(Enc(pk0, z1, z2) - D - ez * Cc), False),
            "z1G+wA=Y+eX": (lambda iv: zero(scl(z1) * GEN + w * A - Gr(self.me("cap_y")) - e * X), False),
            "wG=Z+eB": (lambda iv: zero(w * GEN - Gr(self.me("cap_z")) - e * B), False),
            "commit(z1,z3)=T*S^e": (lambda iv: zero(Com(self.setup, z1, z3) - T_ - ez * S), False),
        }

    def witness(self):
        x, b = Rg(self.sec("x")), Rg(self.sec("b"))
        return {
            self.pub("cap_c"): Enc(self.pub("pk0"), x, self.sec("rho")).t,
            self.pub("cap_b"): (b * GEN).t,
            self.pub("cap_x"): (scl(x) * GEN + b * Gr(self.pub("cap_a"))).t,
        }

    def masks(self, env):
        C, ret = env["C"], env["ret"]
        e, ez = Rg(env["e"]), Rg(zint(env["e"]))
        mu = self.rho_of(ret, C, "cap_s", self.sec("x"))
        return {
            "z1": ("exp", [plus(L, EPS)], ez * Rg(self.sec("x"))),
            "w": ("scalar", [], e * Rg(self.sec("b"))),
            "z2": ("randomizer", [self.pub("pk0")], ez * Gr(self.sec("rho"))),
            "z3": ("scaled", [plus(L, EPS), self.N(C)], ez * mu),
        }

    def N(self, C):
        return C.modulus_term(self.setup)

    def rho_of(self, ret, C, field, x):
        """the commitment randomness of a ring-Pedersen commitment field of the prover's output, checked to be
        its own fresh sample"""
        f = C(fld(ret, field))
        inner = f.args[2] if f.op == "call" and f.args[0] == "wire" else f
        rest = gsub(inner, gmul(x.t if isinstance(x, Rg) else x, rps(self.setup)))
        parts = gparts(rest)
        k = parts.get(rpt(self.setup))
        ok = k is not None and len(parts) == 1 and is_fresh(k, "scaled", L, self.N(C))
        self.ob("C06", f"randomizer:{field}", ok, self.new_path,
                f"{field} must commit to its value with one fresh sample from 2^L scaled by the setup modulus; it is {show(f, 8)[:300]}")
        if ok:
            used = self.__dict__.setdefault("_rho", {})
            self.ob("C06", f"distinct:{field}", clash(k, used) is None, self.new_path, "commitment randomness used once")
            used[k] = field
        return Rg(k if k is not None else const(0))


class AffG(EncElg):
    name, dst = "aff_g", "P_aff_g"

    def secret_ranges(self):
        return {"x": L, "y": LP}
    struct = "zk::aff_g::AffGProof"
    new_path, verify_path = "zk::aff_g::AffGProof::<P>::new", "zk::aff_g::AffGProof::<P>::verify"

    def keys(self):
        p = self.pub
        return {p("cap_c"): p("pk0"), p("cap_d"): p("pk0"), p("cap_y"): p("pk1")}

    def rand_keys(self):
        return {self.sec("rho"): self.pub("pk0"), self.sec("rho_y"): self.pub("pk1")}

    def units(self):
        return {"w": masked(self.me("w"), self.pub("pk0")), "w_y": masked(self.me("w_y"), self.pub("pk1"))}

    def items(self):
        d = {"cap_" + n: self.me("cap_" + n) for n in ("a", "b_x", "b_y", "e", "f", "s", "t")}
        p = self.pub
        d.update(pk0=W(p("pk0")), pk1=W(p("pk1")), C=W(p("cap_c")), D=W(p("cap_d")), Y=W(p("cap_y")), X=p("cap_x"))
        d.update(setup=W(self.setup), aux=IN("aux"))
        return d

    def ranges(self, env):
        return {"z1": (self.me("z1"), plus(L, EPS)), "z2": (self.me("z2"), plus(LP, EPS))}

    def equations(self, env, C):
        p, m, s = self.pub, self.me, self.setup
        e = Rg(env["e"])
        ez = Rg(zint(env["e"]))
        z1, z2, z3, z4 = (Rg(m("z%d" % i)) for i in (1, 2, 3, 4))
        return {
            "C^z1*Enc0(z2;w)=A*D^e": (lambda iv: zero(z1 * Gr(p("cap_c")) + Enc(p("pk0"), z2, m("w")) - Pre(m("cap_a"), p("pk0")) - ez * Gr(p("cap_d"))), False),
            "z1G=Bx+eX": (lambda iv: zero(scl(z1) * GEN - Gr(m("cap_b_x")) - e * Gr(p("cap_x"))), False),
            "Enc1(z2;wy)=By*Y^-e": (lambda iv: zero(Enc(p("pk1"), z2, m("w_y")) - Pre(m("cap_b_y"), p("pk1")) + ez * Gr(p("cap_y"))), False),
            "commit(z1,z3)=E*S^e": (lambda iv: zero(Com(s, z1, z3) - Pre(m("cap_e"), s) - ez * Pre(m("cap_s"), s)), False),
            "commit(z2,z4)=F*T^e": (lambda iv: zero(Com(s, z2, z4) - Pre(m("cap_f"), s) - ez * Pre(m("cap_t"), s)), False),
        }

    def witness(self):
        x, y = Rg(self.sec("x")), Rg(self.sec("y"))
        p = self.pub
        return {
            p("cap_d"): (x * Gr(p("cap_c")) + Enc(p("pk0"), -y, self.sec("rho"))).t,
            p("cap_y"): Enc(p("pk1"), y, self.sec("rho_y")).t,
            p("cap_x"): (scl(x) * GEN).t,
        }

    def masks(self, env):
        C, ret = env["C"], env["ret"]
        ez = Rg(zint(env["e"]))
        x, y = Rg(self.sec("x")), Rg(self.sec("y"))
        m = self.rho_of(ret, C, "cap_s", x)
        mu = self.rho_of(ret, C, "cap_t", -y)
        N = self.N(C)
        return {
            "z1": ("exp", [plus(L, EPS)], ez * x),
            "z2": ("exp", [plus(LP, EPS)], -(ez * y)),
            "z3": ("scaled", [plus(L, EPS), N], ez * m),
            "z4": ("scaled", [plus(L, EPS), N], ez * mu),
            "w": ("randomizer", [self.pub("pk0")], ez * Gr(self.sec("rho"))),
            "w_y": ("randomizer", [self.pub("pk1")], -(ez * Gr(self.sec("rho_y")))),
        }


class Fac(EncElg):
    name, dst = "fac", "P_fac"

    def secret_ranges(self):
        return {}
    struct = "zk::fac::FacProof"
    new_path, verify_path = "zk::fac::FacProof::<P>::new", "zk::fac::FacProof::<P>::verify"
    new_args = ("rng", "sk0", "setup", "aux")
    verify_args = ("self", "pk0", "setup", "aux")
    XOF = "uint::public_signed::PublicSigned::<T>::from_xof_reader_in_exponent_range"

    def keys(self):
        return {}

    def challenge_form(self, rd, C):
        x = self.find(rd, self.XOF)
        return x if x is not None and x.args[3] is C(L) else None

    def units(self):
        return {}

    def items(self):
        d = {"cap_" + n: self.me("cap_" + n) for n in "pqabt"}
        d.update(pk0=W(IN("pk0")), setup=W(self.setup), aux=IN("aux"))
        return d

    def ranges(self, env):
        b = plus(L, EPS, PRIME_BITS, -2)
        return {"z1": (self.me("z1"), b), "z2": (self.me("z2"), b)}

    def equations(self, env, C):
        m, s = self.me, self.setup
        e = Rg(env["e"])
        z1, z2, w1, w2, v = (Rg(m(n)) for n in ("z1", "z2", "w1", "w2", "v"))
        N0 = Rg(mk0("call", "paillier::keys::PublicKeyPaillier::<P>::modulus_signed", self.targs(C), IN("pk0")))
        R_ = N0 * Gr(rps(s))
        return {
            "commit(z1,w1)=A*P^e": (lambda iv: zero(Com(s, z1, w1) - Pre(m("cap_a"), s) - e * Pre(m("cap_p"), s)), False),
            "commit(z2,w2)=B*Q^e": (lambda iv: zero(Com(s, z2, w2) - Pre(m("cap_b"), s) - e * Pre(m("cap_q"), s)), False),
            "Q^z1*t^v=T*R^e": (lambda iv: zero(z1 * Pre(m("cap_q"), s) + v * Gr(rpt(s)) - Pre(m("cap_t"), s) - e * R_), False),
        }

    def targs(self, C):
        for x in walk(self.acc_raw):
            if x.op == "call" and x.args[0].endswith("::modulus_signed"):
                return x.args[1]
        return "?"

    def sk(self, n):
        for x in walk(self.ret_raw):
            if x.op == "call" and x.args[0] == f"paillier::keys::SecretKeyPaillier::<P>::{n}":
                return x
        raise Missing(f"{self.new_path}: {n}")

    def witness(self):
        p, q = Rg(self.sk("p_signed")), Rg(self.sk("q_signed"))
        pk = self.sk("public_key")
        d = {IN("pk0"): pk}
        for x in walk(self.acc_raw):
            if x.op == "call" and x.args[0].endswith("::modulus_signed"):
                d[mk0("call", x.args[0], x.args[1], pk)] = (p * q).t
        return d

    def masks(self, env):
        C, ret = env["C"], env["ret"]
        e = Rg(env["e"])
        p, q = Rg(self.sk("p_signed")), Rg(self.sk("q_signed"))
        mu = self.rho_of(ret, C, "cap_p", p)
        nu = self.rho_of(ret, C, "cap_q", q)
        N = self.N(C)
        root = C.root_term(PRIME_BITS)
        return {
            "z1": ("scaled", [plus(L, EPS), root], e * p),
            "z2": ("scaled", [plus(L, EPS), root], e * q),
            "w1": ("scaled", [plus(L, EPS), N], e * mu),
            "w2": ("scaled", [plus(L, EPS), N], e * nu),
            "v": ("scaled_wide", [plus(L, EPS), pmul(N, C.pk_modulus(self.sk("public_key")))], -(e * p * nu)),
        }


class AffGStar(P):
    name, dst = "aff_g_star", "P_aff_g*"

    def secret_ranges(self):
        return {"x": L, "y": LP}
    struct = "zk::aff_g_star::AffGStarProof"
    substructs = {"commitments": "zk::aff_g_star::AffGStarProofCommitment", "elements": "zk::aff_g_star::AffGStarProofElement"}
    new_path, verify_path = "zk::aff_g_star::AffGStarProof::<P>::new", "zk::aff_g_star::AffGStarProof::<P>::verify"
    new_args = ("rng", "secret", "public", "aux")
    verify_args = ("self", "public", "aux")
    rep = SECPAR

    def keys(self):
        p = self.pub
        return {p("cap_c"): p("pk0"), p("cap_d"): p("pk0"), p("cap_y"): p("pk1")}

    def challenge_form(self, rd, C):
        return self.find(rd, BITS_XOF)

    def rep_ok(self, X, C):
        return X.args[3] is C(SECPAR)

    def lengths(self):
        return {"commitments": (self.me("commitments"), SECPAR), "elements": (self.me("elements"), SECPAR)}

    def rand_keys(self):
        return {self.sec("rho"): self.pub("pk0"), self.sec("mu"): self.pub("pk1")}

    def units(self):
        return {n: masked(lambda iv, n=n: self.el(n, iv), self.pub(k)) for n, k in (("w", "pk0"), ("lambda", "pk1"))}

    def items(self):
        p = self.pub
        return dict(commitments=self.me("commitments"), pk0=W(p("pk0")), pk1=W(p("pk1")), C=W(p("cap_c")), D=W(p("cap_d")), Y=W(p("cap_y")), X=p("cap_x"), aux=IN("aux"))

    def el(self, n, iv):
        return fld(elem(self.me("elements"), iv), n)

    def co(self, n, iv):
        return fld(elem(self.me("commitments"), iv), n)

    def bit(self, env, iv):
        return elem(mk0("call", BITS, self.bits_ty(), env["e0"]), iv)

    def bits_ty(self):
        for x in walk(self.acc_raw):
            if x.op == "call" and x.args[0] == BITS:
                return x.args[1]
        return ""

    def sel(self, env, iv, x):
        """x if the challenge bit is set, else 0"""
        b = tobool(self.bit(env, iv))
        if isinstance(x, Gr):
            return Gr(ite(b, x.t, ZEROG))
        return Rg(ite(b, x.t, const(0)))

    def ranges(self, env):
        return {"z": (lambda iv: self.el("z", iv), plus(L, EPS)), "z_prime": (lambda iv: self.el("z_prime", iv), plus(LP, EPS))}

    def equations(self, env, C):
        p, el, co, sel = self.pub, self.el, self.co, self.sel
        return {
            "C^z*Enc0(z';w)=A*D^e": (lambda iv: zero(Rg(el("z", iv)) * Gr(p("cap_c")) + Enc(p("pk0"), el("z_prime", iv), el("w", iv)) - Pre(co("cap_a", iv), p("pk0")) - sel(env, iv, Gr(p("cap_d")))), True),
            "zG=R+eX": (lambda iv: zero(scl(el("z", iv)) * GEN - Gr(co("cap_r", iv)) - sel(env, iv, Gr(p("cap_x")))), True),
            "Enc1(z';lambda)=B*Y^-e": (lambda iv: zero(Enc(p("pk1"), el("z_prime", iv), el("lambda", iv)) - Pre(co("cap_b", iv), p("pk1")) + sel(env, iv, Gr(p("cap_y")))), True),
        }

    def witness(self):
        x, y = Rg(self.sec("x")), Rg(self.sec("y"))
        p = self.pub
        return {
            p("cap_d"): (x * Gr(p("cap_c")) + Enc(p("pk0"), -y, self.sec("rho"))).t,
            p("cap_y"): Enc(p("pk1"), y, self.sec("mu")).t,
            p("cap_x"): (scl(x) * GEN).t,
        }

    def masks(self, env):
        p = self.pub
        ee = dict(e0=env["e"])
        x, y, rho, mu = Rg(self.sec("x")), Rg(self.sec("y")), Gr(self.sec("rho")), Gr(self.sec("mu"))
        return {
            "elements[].z": ("exp", [plus(L, EPS)], lambda iv: self.sel(ee, iv, x)),
            "elements[].z_prime": ("exp", [plus(LP, EPS)], lambda iv: self.sel(ee, iv, -y)),
            "elements[].w": ("randomizer", [p("pk0")], lambda iv: self.sel(ee, iv, rho)),
            "elements[].lambda": ("randomizer", [p("pk1")], lambda iv: self.sel(ee, iv, -mu)),
        }


class Dec(AffGStar):
    name, dst = "dec", "P_dec"

    def secret_ranges(self):
        # "$y in +-2^{l' + eps + 1 + ceil(log2(num_parties))}$"
        return {"x": L, "y": psub(self.wbound(), EPS)}
    struct = "zk::dec::DecProof"
    substructs = {"commitments": "zk::dec::DecProofCommitment", "elements": "zk::dec::DecProofElement"}
    new_path, verify_path = "zk::dec::DecProof::<P>::new", "zk::dec::DecProof::<P>::verify"
    new_args = ("rng", "secret", "public", "setup", "aux")
    verify_args = ("self", "public", "setup", "aux")

    def keys(self):
        p = self.pub
        return {p("cap_k"): p("pk0"), p("cap_d"): p("pk0")}

    def rand_keys(self):
        return {self.sec("rho"): self.pub("pk0")}

    def units(self):
        return {"nu": masked(lambda iv: self.el("nu", iv), self.pub("pk0"))}

    def items(self):
        p = self.pub
        return dict(commitments=self.me("commitments"), pk0=W(p("pk0")), K=W(p("cap_k")), X=p("cap_x"), D=W(p("cap_d")), S=p("cap_s"), G=p("cap_g"), setup=W(self.setup), aux=IN("aux"))

    def wbound(self):
        """l' + eps + 1 + ceil_log2(n) + eps, written 2 + l' + 2 eps + ilog2(n - 1) by the crate"""
        n = self.pub("num_parties")
        il = None
        for t in (self.acc_raw, self.ret_raw):
            for x in walk(t) if t is not None else []:
                if x.op == "call" and x.args[0].endswith("::ilog2") and x.args[2] is psub(n, const(1)):
                    il = x
        if il is None:
            raise Missing("zk::dec: bound on w does not depend on ilog2(num_parties - 1)")
        return plus(LP, EPS, EPS, 2, il)

    def ranges(self, env):
        return {"z": (lambda iv: self.el("z", iv), plus(L, EPS)), "w": (lambda iv: self.el("w", iv), self.wbound())}

    def equations(self, env, C):
        p, el, co, sel = self.pub, self.el, self.co, self.sel
        return {
            "Enc(w;nu)*K^-z=A*D^e": (lambda iv: zero(Enc(p("pk0"), el("w", iv), el("nu", iv)) - Rg(el("z", iv)) * Gr(p("cap_k")) - Pre(co("cap_a", iv), p("pk0")) - sel(env, iv, Gr(p("cap_d")))), True),
            "zG=C+eX": (lambda iv: zero(scl(el("z", iv)) * GEN - Gr(co("cap_c", iv)) - sel(env, iv, Gr(p("cap_x")))), True),
            "w*capG=B+eS": (lambda iv: zero(scl(el("w", iv)) * Gr(p("cap_g")) - Gr(co("cap_b", iv)) - sel(env, iv, Gr(p("cap_s")))), True),
        }

    def witness(self):
        x, y = Rg(self.sec("x")), Rg(self.sec("y"))
        p = self.pub
        return {
            p("cap_d"): (Enc(p("pk0"), y, self.sec("rho")) - x * Gr(p("cap_k"))).t,
            p("cap_x"): (scl(x) * GEN).t,
            p("cap_s"): (scl(y) * Gr(p("cap_g"))).t,
        }

    def masks(self, env):
        p = self.pub
        ee = dict(e0=env["e"])
        x, y, rho = Rg(self.sec("x")), Rg(self.sec("y")), Gr(self.sec("rho"))
        return {
            "elements[].z": ("exp", [plus(L, EPS)], lambda iv: self.sel(ee, iv, x)),
            "elements[].w": ("exp", [self.wbound()], lambda iv: self.sel(ee, iv, y)),
            "elements[].nu": ("randomizer", [p("pk0")], lambda iv: self.sel(ee, iv, rho)),
        }

    def abort_ok(self, ab, c):
        # ilog2(n - 1) aborts for n < 2 only; presigning needs at least two parties (C27 checks that)
        n = self.pub("num_parties")
        return implies(c, b_not(Canon().posp(psub(n, const(1))))) if c.op == "ite" else False


# ---------------------------------------------------------------- residues
MONTY = "uint::traits::ToMontgomery::to_montgomery"
POW = "uint::traits::Exponentiable::pow"
POWB = "crypto_bigint::PowBoundedExp::pow_bounded_exp"
BITSV = "crypto_bigint::BitOps::bits_vartime"
ADDMOD = "uint::secret_unsigned::SecretUnsigned::<T>::add_mod"
PK = "paillier::keys::PublicKeyPaillier::<P>::"
SK = "paillier::keys::SecretKeyPaillier::<P>::"
alg.RINGCALLS |= {"mpow", "monty", "crt", RP + "base_value", RP + "base_randomizer"}


def o_monty(c, ty, a):
    """x mod the modulus of the key whose Montgomery parameters are used"""
    x, par = a
    key = par.args[2] if par.op == "call" and par.args[0].endswith("::monty_params_mod_n") else None
    if key is None:
        return None

    def f(y):
        if y.op == "call" and y.args[0] == RETR and modkey(y.args[2]) is key:
            return y.args[2]
        return mk0("call", "monty", "", key, y)

    return lift(x, f)


def o_retr(c, ty, a):
    return lift(a[0], lambda x: mk0("call", RETR, "", x))


def mpow(b, e):
    if b.op == "ite" or e.op == "ite":
        at = top(b, e)
        return ite(node(at, TRUE, FALSE), mpow(cof(b, at, True), cof(e, at, True)), mpow(cof(b, at, False), cof(e, at, False)))
    if b.op == "call" and b.args[0] == "mpow":
        return mpow(b.args[2], pmul(b.args[3], e))
    r = const(1)
    for m, k in pol(e).items():
        if m == ():
            if not 0 <= k <= 16:
                return mk0("call", "mpow", "", b, e)
            x = b
            n = k
        else:
            x = mk0("call", "mpow", "", b, mkpoly({m: 1 if k > 0 else -1}))
            n = abs(k)
        for _ in range(n):
            r = pmul(r, x)
    return r


def o_pow(c, ty, a):
    return mpow(a[0], a[1])


def o_powb(c, ty, a):
    b, z, n = a
    if n.op == "call" and n.args[0].endswith(("::bits_vartime", "::bits", "::bits_precision")) and n.args[2] is z:
        return mpow(b, z)


RESIDUE_OPS = {MONTY: o_monty, RETR: o_retr, POW: o_pow, POWB: o_powb}


class Prm(P):
    name, dst = "prm", "P_prm"
    struct = "zk::prm::PrmProof"
    new_path, verify_path = "zk::prm::PrmProof::<P>::new", "zk::prm::PrmProof::<P>::verify"
    new_args = ("rng", "secret", "setup", "aux")
    verify_args = ("self", "setup", "aux")
    rep = SECBITS

    def verify_ops(self):
        return RESIDUE_OPS

    def challenge_field(self):
        return fld(self.me("challenge"), "0")

    def challenge_form(self, rd, C):
        return self.find(rd, BITS_XOF)

    def rep_ok(self, X, C):
        return X.args[3] is C(SECBITS)

    def comm(self):
        return fld(self.me("commitment"), "0")

    def lengths(self):
        return {"proof": (self.me("proof"), SECBITS), "commitment": (self.comm(), SECBITS)}

    def items(self):
        return dict(commitment=self.me("commitment"), setup=W(self.setup), aux=IN("aux"))

    def units(self):
        return {n: (mk0("call", RP + n, "", self.setup), None) for n in ("base_randomizer", "base_value")}

    def honest_unit(self, C, a):
        m = call("paillier::ring_pedersen::RPSecret::<P>::modulus", IN("secret"))
        a = [x.args[2] if x.op == "call" and x.args[0] == RETR else x for x in a if x is not m]
        if len(a) == 1:
            b = a[0]
            while b.op == "call" and b.args[0] == "mpow":
                b = b.args[2]
            if b.op == "call" and b.args[0] in (RP + "base_randomizer", RP + "base_value") and b.args[2] is self.setup:
                return TRUE

    def ranges(self, env):
        return {}

    bits_ty = AffGStar.bits_ty
    bit = AffGStar.bit

    def equations(self, env, C):
        t = mk0("call", RP + "base_randomizer", "", self.setup)
        s = mk0("call", RP + "base_value", "", self.setup)

        def eqn(iv):
            a = mk0("call", "monty", "", self.setup, elem(self.comm(), iv))
            b = tobool(self.bit(env, iv))
            return C.eqp(mpow(t, elem(self.me("proof"), iv)), pmul(a, ite(b, s, const(1))))

        return {"t^z=A*s^e": (eqn, True)}

    def prover_ops(self):
        d = dict(RESIDUE_OPS)

        def addmod(c, ty, a):
            """addition modulo the totient, used as an exponent of an element of that group"""
            m = a[2]
            if m.op == "call" and m.args[0].endswith("RPSecret::<P>::totient_nonzero") and m.args[2] is IN("secret"):
                return padd(a[0], a[1])

        d[ADDMOD] = addmod
        return d

    def lam(self):
        return mk0("call", "paillier::ring_pedersen::RPSecret::<P>::lambda", "", IN("secret"))

    def witness(self):
        t = mk0("call", RP + "base_randomizer", "", self.setup)
        return {mk0("call", RP + "base_value", "", self.setup): mpow(t, self.lam()),
                mk0("call", RP + "modulus", "", self.setup): mk0("call", "paillier::ring_pedersen::RPSecret::<P>::modulus", "", IN("secret"))}

    def check_masks(self, ret, C, W):
        e = None
        for rd in readers(C(ret)):
            e = e or self.find(rd, BITS_XOF)
        if e is None:
            raise Missing(W + ": challenge")
        v, iv = self.field_of(ret, C, "proof[].")
        b = tobool(self.bit(dict(e0=e), iv))
        m = psub(v, ite(b, self.lam(), const(0)))
        good = m.op == "fresh" and m.args[0] == "paillier::ring_pedersen::RPSecret::<P>::random_residue_mod_totient" and [x for x in m.args[4:] if x.op != "rng"] == [IN("secret")]
        good = good and iv in m.args[3]
        self.ob("C06", "mask:proof[]", good, W, f"each response minus e*lambda must be its own residue sampled below the group order; it is {show(m, 8)[:300]}")


class Mod(P):
    name, dst = "mod", "P_mod"
    struct = "zk::mod_::ModProof"
    substructs = {"proof": "zk::mod_::ModProofElem"}
    new_path, verify_path = "zk::mod_::ModProof::<P>::new", "zk::mod_::ModProof::<P>::verify"
    new_args = ("rng", "sk", "aux")
    verify_args = ("self", "pk", "aux")
    rep = SECBITS
    RESID = PK + "invertible_residue_from_xof_reader"

    def verify_ops(self):
        return RESIDUE_OPS

    def challenge_field(self):
        return fld(self.me("challenge"), "0")

    def challenge_form(self, rd, C):
        for t in (self.acc_raw, self.ret_raw):
            for x in walk(t) if t is not None else []:
                if x.op == "seq" and contains(x, lambda y: y is rd) and x.args[2].op == "call" and x.args[2].args[0] == self.RESID:
                    return x
        return None

    def rep_ok(self, X, C):
        iv = fresh_iv()
        y = elem(X, iv)
        st = y.args[3]
        return length(X) is C(SECBITS) and st.op == "fold" and st.args[0] is iv and st.args[3].op == "call" and st.args[3].args[0] == READER

    def comm(self):
        return fld(self.me("commitment"), "0")

    def lengths(self):
        return {"proof": (self.me("proof"), SECBITS)}

    def items(self):
        return dict(pk=W(IN("pk")), commitment=self.me("commitment"), aux=IN("aux"))

    def ranges(self, env):
        return {}

    def mo(self, x):
        return mk0("call", "monty", "", IN("pk"), x)

    def el(self, n, iv):
        return fld(elem(self.me("proof"), iv), n)

    def equations(self, env, C):
        N = mk0("call", PK + "modulus", "", IN("pk"))

        def composite(iv):
            for a, p in conjuncts(self.acc_raw):
                if not p and a.op == "call" and a.args[0].split("::")[-1].startswith("is_prime") and a.args[2] is N:
                    return b_not(node(a, TRUE, FALSE))
            return FALSE

        def gcd(iv):
            return C.unit(self.comm(), N)

        y = lambda iv: self.mo(elem(env["e"], iv))
        Ns = mk0("call", PK + "modulus_signed", "", IN("pk"))

        def zN(iv):
            return C.eqp(mpow(self.mo(self.el("z", iv)), Ns), y(iv))

        def x4(iv):
            a, b = tobool(self.el("a", iv)), tobool(self.el("b", iv))
            v = pmul(y(iv), ite(a, const(-1), const(1)))
            v = pmul(v, ite(b, self.mo(self.comm()), const(1)))
            x = self.mo(self.el("x", iv))
            return C.eqp(pmul(pmul(x, x), pmul(x, x)), v)

        return {"N composite": (composite, False), "gcd(N,w)=1": (gcd, False), "z^N=y": (zN, True), "x^4=(-1)^a w^b y": (x4, True)}

    def honest_unit(self, C, a):
        N = [x for x in a if x.op == "call" and x.args[0] == PK + "modulus"]
        r = [x for x in a if x not in N]
        if len(N) == 1 and len(r) == 1:
            x = r[0]
            if x.op == "call" and x.args[0] == self.RESID and x.args[2] is N[0].args[2]:
                return TRUE
            if x.op == "fresh" and x.args[0] == SK + "random_nonsquare_residue":
                return TRUE

    # honest prover
    def prover_ops(self):
        d = dict(RESIDUE_OPS)
        S = SK + "rns_sqrt"
        J = SK + "rns_join"

        def lifted(name):
            def f(c, ty, a):
                return lift(hoist(a[1]), lambda x: mk0("call", name, ty, a[0], x))

            return f

        d[S] = lifted(S)
        d[J] = lifted(J)

        def hoist(p):
            """The cases of a pair"""
            if p.op == "agg" and len(p.args) == 4:
                return lift(p.args[2], lambda x: lift(p.args[3], lambda y: mk0("agg", p.args[0], p.args[1], x, y)))
            return p

        def pkof(sk):
            return mk0("call", SK + "public_key", "", sk)

        def crt(sk, pair):
            if pair.op == "ite":
                return lift(pair, lambda x: crt(sk, x))
            key = pkof(sk)
            if pair.op == "agg" and len(pair.args) == 4 and all(x.op == "fld" and x.args[1] == k for x, k in zip(pair.args[2:], "01")) and pair.args[2].args[0] is pair.args[3].args[0]:
                if not (pair.args[2].args[0].op == "call" and pair.args[2].args[0].args[0] == SK + "rns_split"):
                    pair = pair.args[2].args[0]
            if pair.op == "agg" and len(pair.args) == 4:
                def side(k):
                    def f(a):
                        if a.op == "fld" and a.args[1] == k and a.args[0].op == "call" and a.args[0].args[0] == SK + "rns_split" and a.args[0].args[2] is sk:
                            return mk0("call", "monty", "", key, a.args[0].args[3])
                        return mk0("fld", a, "?" + k)

                    return f

                p, q = phom(pair.args[2], side("0")), phom(pair.args[3], side("1"))
                if p is q:
                    return p
            return mk0("call", "crt", "", key, sk, pair)

        def monty(c, ty, a):
            x, par = a
            key = par.args[2] if par.op == "call" and par.args[0].endswith("::monty_params_mod_n") else None

            def f(y):
                if y.op == "call" and y.args[0] == J and key is pkof(y.args[2]):
                    return crt(y.args[2], y.args[3])
                return o_monty(c, ty, [y, par]) or mk0("call", MONTY, ty, y, par)

            return lift(x, f)

        def square(c, ty, a):
            def f(v):
                if v.op == "call" and v.args[0] == "crt":
                    s = v.args[4]
                    # payload of rns_sqrt: its square is the argument
                    if s.op == "fld" and s.args[0].op == "call" and s.args[0].args[0] == S and s.args[0].args[2] is v.args[3]:
                        return crt(v.args[3], s.args[0].args[3])
                return pmul(v, v)

            return lift(a[0], f)

        def squares(d):
            """Squares of rns_sqrt payloads inside products."""
            for _ in range(4):
                r, again = const(0), False
                for m, k in pol(d).items():
                    x = const(k)
                    for a, e in m:
                        if e >= 2 and a.op == "call" and a.args[0] == "crt" and (sq := square(None, "", [a])) is not None and sq is not pmul(a, a):
                            again = True
                            for _ in range(e // 2):
                                x = pmul(x, sq)
                            e %= 2
                        for _ in range(e):
                            x = pmul(x, a)
                    r = padd(r, x)
                d = r
                if not again or d.op == "ite":
                    break
            return d

        d["__poly__"] = squares

        def pw(c, ty, a):
            b, e = a
            inv = [x for m in pol(e) for x, k in m if x.op == "call" and x.args[0] == SK + "inv_modulus"] if e.op != "ite" else []
            r = mpow(b, e)
            if r.op == "call" and r.args[0] == "mpow":
                ms = list(pol(r.args[3]).items())
                if len(ms) == 1:
                    m, k = ms[0]
                    names = sorted(x.args[0] for x, q in m if x.op == "call")
                    if k == 1 and names == sorted([SK + "inv_modulus", PK + "modulus_signed"]):
                        sk = [x for x, q in m if x.args[0] == SK + "inv_modulus"][0].args[2]
                        pk = [x for x, q in m if x.args[0] == PK + "modulus_signed"][0].args[2]
                        if pk is pkof(sk):
                            return r.args[2]
            return r

        def prime(c, ty, a):
            if a[0].op == "call" and a[0].args[0] == PK + "modulus":
                return FALSE

        d.update({MONTY: monty, "crypto_bigint::Square::square": square, POW: pw,
                  "crypto_primes::RandomPrimeWithRng::is_prime_with_rng": prime})
        return d

    def witness(self):
        return {IN("pk"): mk0("call", SK + "public_key", "", IN("sk"))}

    def abort_ok(self, ab, c):
        # one of (+-1, +-w) * y is a fourth power modulo a Paillier-Blum N, and w has Jacobi symbol -1
        return contains(c, lambda x: x.op == "call" and x.args[0] == SK + "rns_sqrt")

    def check_masks(self, ret, C, W):
        t = C(fld(fld(ret, "commitment"), "0"))
        ok = t.op == "fresh" and t.args[0] == SK + "random_nonsquare_residue"
        self.ob("C06", "randomizer:commitment", ok, W, f"w must be a fresh non-square residue; it is {show(t, 6)[:200]}")
        self.check_patterns(ret, C, W)

    def check_patterns(self, ret, C, W):
        """a root always exists: of (-1)^a w^b y for the four (a, b), all four are tried"""
        proof = fld(ret, "proof")
        t = unroll(proof)
        sk = IN("sk")
        par = mk0("call", PK + "monty_params_mod_n", "", mk0("call", SK + "public_key", "", sk))
        inner = lambda x: x.op == "call" and x.args[0] == SK + "rns_sqrt"
        tried, ys = set(), set()
        for x in walk(t):
            if inner(x) and not contains(x.args[3], inner):
                tried.add(C(mk0("call", MONTY, "", mk0("call", SK + "rns_join", "", x.args[2], x.args[3]), par)))
        w = C(mk0("call", MONTY, "", fld(fld(ret, "commitment"), "0"), par))
        for v in tried:
            for m in pol(v):
                ys |= {a for a, _ in m if a.op == "call" and a.args[0] == "monty" and a is not w}
        want = {pmul(pmul(y, const(s)), b) for y in ys for s in (1, -1) for b in (w, const(1))}
        self.ob("C05", "sign-patterns", len(ys) == 1 and tried >= want, W,
                f"square roots are sought of y, -y, w*y and -w*y; sought: {' | '.join(sorted(show(x, 5)[:220] for x in tried))}")


def unroll(t):
    """Loops of a constant number of steps, step by step."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x.id)
        if r is None:
            new = tuple(go(y) for y in x.args)
            r = tm.rebuild(x.op, new) if new != x.args else x
            if r.op == "fold" and r.args[0].op == "c" and r.args[0].args[0] <= 16:
                dom, bv, acc, s, body = r.args
                for i in range(dom.args[0]):
                    s = go(subst(body, {bv: const(i), acc: s}))
                r = s
            memo[x.id] = r
        return r

    return go(t)


ALL = [Sch, Elog, EncElg, AffG, AffGStar, Dec, Fac, Mod, Prm]
