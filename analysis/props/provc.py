"""C20, C21, C22: what a received message is checked against, in terms of who sent what in which round."""
import re
from .. import terms as tm
from ..terms import *
from ..obligations import Ob
from ..protos import *
from ..prov import *
from .protoc import ok_of, conj, under

KL = {"e": "echo_broadcast", "n": "normal_broadcast", "d": "direct_message"}
DROP = re.compile(r"::(into_precomputed|to_precomputed|to_wire|into_wire|clone)$|core::convert::(Into::into|From::from)$|^into$")


def compact(t):
    """a canonical rendering: conversions between the stored and the working form of a value are dropped, sums are unordered"""
    memo = {}

    def s(x):
        if isinstance(x, tuple):
            return "(" + ", ".join(sorted(s(y) for y in x)) + ")"
        if not isinstance(x, T):
            return str(x)
        r = memo.get(x.id)
        if r is None:
            r = memo[x.id] = go(x)
        return r

    def go(x):
        op, a = x.op, x.args
        if op == "call":
            n = a[0]
            if n == "BODY":
                return f"{a[3].args[0][0]}{a[2].args[0]}[{s(a[4])}]"
            if n == "AT":
                return f"{s(a[2])}[{s(a[3])}]"
            if DROP.search(n):
                if len(a) == 3:
                    return s(a[2])
                if n.endswith("::to_precomputed"):
                    return f"ct({', '.join(s(y) for y in a[2:])})"
            if n in ("core::ops::Add::add", "core::ops::AddAssign::add_assign"):
                return "(" + " + ".join(sorted(s(y) for y in a[2:])) + ")"
            if n.endswith("mul_by_generator"):
                return f"{s(a[2])}*G"
            return n.split("::")[-1] + "(" + ", ".join(s(y) for y in a[2:]) + ")"
        if op == "fld":
            return f"{s(a[0])}.{a[1]}"
        if op == "in":
            return re.sub(r"^E:\w+$", "E", str(a[0])).replace("E.aux_info.public.0", "AUX")
        if op == "agg":
            if a[0] == "tuple":
                return "(" + ", ".join(s(y) for y in a[2:]) + ")"
            return str(a[0]).split("::")[-1] + "{" + ", ".join(f"{n}: {v}" for n, v in sorted((str(n), s(v)) for n, v in zip(a[1], a[2:]))) + "}"
        if op == "eq":
            return "(" + " == ".join(sorted((s(a[0]), s(a[1])))) + ")"
        if op == "c":
            return repr(a[0])
        if op == "ite":
            return f"if {s(a[0])} {{{s(a[1])}}} else {{{s(a[2])}}}"
        return op + "(" + ", ".join(s(y) for y in a) + ")"
    return s(t).replace("E.aux_info.public.0", "AUX").replace("E.key_share.public.0", "PUB").replace("AD.aux.0", "AUX").replace("AD.shares.0", "PUB").replace("AD.message", "E.message").replace("AD.ids", "E.all_ids").replace("num_parties(AD.aux)", "len(ALL)")


def lit(n, who, f):
    """e2.rid style reference to a field of a message body"""
    return fld(body(int(n[1:]), KL[n[0]], who), f)


class Sp:
    """vocabulary for the statement tables"""

    def __init__(self, m):
        self.e = mk0("in", f"E:{m}")
        self.aux_map = fld(fld(fld(self.e, "aux_info"), "public"), "0")
        self.pub = fld(fld(fld(self.e, "key_share"), "public"), "0")

    def pk(self, who):
        return fld(call("AT", self.aux_map, who), "paillier_pk")

    def rp(self, who):
        return fld(call("AT", self.aux_map, who), "rp_params")

    def share(self, who):
        return call("AT", self.pub, who)

    def ct(self, c, who):
        return call("paillier::encryption::CiphertextWire::<P>::to_precomputed", c, self.pk(who))


def add(x, y):
    return call("core::ops::Add::add", x, y)


def st(**kw):
    return kw


G = call("elliptic_curve::Group::generator")


def statements(m):
    """(round, message part, field) -> (statement after the proof, auxiliary data); a table field is checked for every entry FOR"""
    S = Sp(m)
    L = lit
    if m == "key_init":
        x = call("XORALL", L("e2", EACH, "rho"))
        return {(3, "psi"): ("n", [L("n2", PEER, "cap_a"), L("n2", PEER, "cap_x"), tup(SID, PEER, x)])}
    if m in ("aux_gen", "key_refresh"):
        x = call("XORALL", L("e2", EACH, "rid"))
        out = {(2, "psi"): ("n", [L("e2", PEER, "rp_params"), tup(SID, PEER)]),
               (3, "psi_prime"): ("n", [L("n2", PEER, "paillier_pk"), tup(SID, PEER, x)]),
               (3, "psi"): ("d", [L("n2", PEER, "paillier_pk"), L("e2", ME, "rp_params"), tup(SID, PEER, x)])}
        if m == "key_refresh":
            out[(3, "hat_psis")] = ("e", [call("AT", L("n2", PEER, "cap_as"), FOR), call("AT", L("n2", PEER, "cap_xs"), FOR), tup(SID, PEER, x)])
        return out
    if m == "interactive_signing":
        aux = tup(SID, PEER)
        at = lambda mm, k: call("AT", mm, k)
        gamma = call("SUMALL", L("e2", EACH, "cap_gamma"))

        def enc(c, b, x):
            return ("d", [st(pk0=S.pk(PEER), cap_c=S.ct(L("e1", PEER, c), PEER), cap_a=L("e1", PEER, "cap_y"), cap_b=L("e1", PEER, b), cap_x=L("e1", PEER, x)), S.rp(ME), aux])

        def aff(kind, ds, fs, x, part):
            return (part, [st(pk0=S.pk(FOR), pk1=S.pk(PEER), cap_c=S.ct(L("e1", FOR, "cap_k"), FOR), cap_d=S.ct(at(L("n2", PEER, ds), FOR), FOR),
                              cap_y=S.ct(at(L("e2", PEER, fs), FOR), PEER), cap_x=x)] + ([S.rp(FOR)] if kind == "g" else []) + [aux])

        def dec(x, ds, fs, s, g):
            others = lambda t: call("SUMOTHERS", PEER, t)
            return ("e", [st(pk0=S.pk(PEER), cap_k=S.ct(L("e1", PEER, "cap_k"), PEER), cap_x=x,
                             cap_d=add(others(S.ct(at(L("n2", EACH, ds), PEER), PEER)), others(S.ct(at(L("e2", PEER, fs), EACH), PEER))),
                             cap_s=s, cap_g=g, num_parties=tm.length(ALL)), S.rp(PEER), aux])
        return {
            (1, "psi0"): enc("cap_k", "cap_a1", "cap_a2"),
            (1, "psi1"): enc("cap_g", "cap_b1", "cap_b2"),
            (2, "psis"): aff("g", "cap_ds", "cap_fs", L("e2", PEER, "cap_gamma"), "n"),
            (2, "hat_psis"): aff("g", "hat_cap_ds", "hat_cap_fs", S.share(PEER), "n"),
            (2, "psi_elog"): ("n", [st(cap_l=L("e1", PEER, "cap_b1"), cap_m=L("e1", PEER, "cap_b2"), cap_x=L("e1", PEER, "cap_y"), cap_y=L("e2", PEER, "cap_gamma"), h=G), aux]),
            (3, "psi_prime"): ("n", [st(cap_l=L("e1", PEER, "cap_a1"), cap_m=L("e1", PEER, "cap_a2"), cap_x=L("e1", PEER, "cap_y"), cap_y=L("n3", PEER, "cap_delta"), h=gamma), aux]),
            (5, "psi_star"): dec(L("e2", PEER, "cap_gamma"), "cap_ds", "cap_fs", call("mul_by_generator", L("e3", PEER, "delta")), G),
            (6, "hat_psi_star"): dec(S.share(PEER), "hat_cap_ds", "hat_cap_fs", L("n3", PEER, "cap_s"), gamma),
            (5, "psis"): aff("s", "cap_ds", "cap_fs", L("e2", PEER, "cap_gamma"), "e"),
            (6, "hat_psis"): aff("s", "hat_cap_ds", "hat_cap_fs", S.share(PEER), "e"),
        }
    return {}


# rounds that may skip the entry for the local party: its counterpart was verified in round 2 against the local setup
OWN_DONE = {("interactive_signing", 5), ("interactive_signing", 6)}
PROOF = re.compile(r"zk::\w+::\w+Proof\b")
VERIFY = re.compile(r"zk::\w+::\w+Proof::<.*>::verify$")


def proof_fields(F, ty):
    out = []
    for f in F.adts[ty]["variants"][0]["fields"]:
        s = F.types[f[1]].get("s", "")
        if PROOF.search(s) or re.search(r"\b\w+Proof<", s):
            out.append((f[0], bool(re.search(r"Map<", s))))
    return out


def matches(V, got, want):
    def p(t):
        return compact(V.own(V.norm(t)))
    if len(got) != len(want):
        return [f"{len(got)} arguments"]
    bad = []
    for g, w in zip(got, want):
        if isinstance(w, dict):
            h = agg_fields(g) if g.op == "agg" else {}
            for k, v in w.items():
                if k not in h or p(h[k]) != p(v):
                    bad.append(f"{k} is {compact(h[k])[:200] if k in h else 'absent'}, must be {compact(v)[:200]}")
        elif p(g) != p(w):
            bad.append(f"{compact(g)[:200]}, must be {compact(w)[:200]}")
    return bad


def check_proofs(F, prop):
    V = Prov(F)
    obs, funcs = [], set()

    def ob(key, ok, where, detail=""):
        obs.append(Ob(prop, key, ok, where, detail))

    for m, ty, why in V.bad:
        ob(f"{m}:{ty}:anchor", False, f"src/protocols/{m}.rs", why)
    n = 0
    for r in V.rs:
        p = r.path.get("receive_message")
        if p is None:
            continue
        V.mod = r.module
        table = statements(r.module)
        nm = f"{r.module}:{r.ty}"
        fields = [(k, f, mp) for k, ts in r.sent.items() for t in ts for f, mp in proof_fields(F, t)]
        if not fields:
            continue
        funcs |= set(V.P.vf(p).analysed)
        ret = V.P.result(p)
        acc = ok_of(ret)
        lits = []
        for a in conj(acc):
            if a.op == "is":
                continue
            b = V.norm(V.glob(a, r.module, p, PEER))
            pos_, neg_ = implies(acc, atom(a)), implies(acc, b_not(atom(a)))
            if pos_ or neg_:
                lits.append((tobool(b), pos_, a))
        for kind, f, mp in fields:
            n += 1
            key = f"{nm}:{f}"
            want = table.get((r.id, f))
            if want is None or KL[want[0]] != kind:
                ob(key + ":statement", False, p, f"no statement is prescribed for the proof {f} in the {kind} of round {r.id}")
                continue
            part = fld(body(r.id, kind, PEER), f)
            found, why, lit_ = False, [], None
            # sets of parties that the keys of the table are known to be equal to
            same = {x for b, pos_, _ in lits if pos_ and b.op == "ite" and b.args[0].op == "eq" and b.args[1] is TRUE for x in b.args[0].args if any(y.op == "keys" and y.args[0] is part for y in b.args[0].args)}
            for b, pos_, raw in lits:
                if not mp:
                    vs = [(b.args[0], pos_)] if b.op == "ite" and b.args[1] is TRUE and b.args[2] is FALSE else []
                    me = part
                else:
                    vs = []
                    me = call("AT", part, FOR)
                    if b.op == "ite" and b.args[1] is TRUE and b.args[2] is FALSE and not pos_ and b.args[0].op == "call" and b.args[0].args[0] == "ANY" and (b.args[0].args[2] is part or b.args[0].args[2] in same):
                        ok = b_not(tobool(b.args[0].args[3]))
                        if (r.module, r.id) in OWN_DONE:
                            ok = subst(ok, {x: FALSE for x in subterms(ok) if x.op == "eq" and set(x.args) == {ME, FOR}})
                        vs = [(x, True) for x in conj(ok) if implies(ok, atom(x))]
                for v, sign in vs:
                    if sign and v.op == "call" and VERIFY.search(v.args[0]) and v.args[2] is me:
                        bad = matches(V, list(v.args[3:]), want[1])
                        if bad:
                            why += bad
                        else:
                            found, lit_ = True, raw
            ob(key + ":verified", found, p, f"accepting a message requires its proof {f} to verify against {', '.join(compact(w) if isinstance(w, T) else '{' + ', '.join(k + ': ' + compact(x) for k, x in w.items()) + '}' for w in want[1])[:700]}"
               + ("" if found else f"; found: {why[:4]}" if why else "; no such check is found"))
            if found:
                bad = sender_fault(V, ret, acc, lit_)
                ob(key + ":attributed", not bad, p, "a proof that does not verify is reported as an error of the sender" + (f"; instead: {bad}" if bad else ""))
    ob("proofs", n >= 17, "src/protocols", f"{n} proofs in messages")
    return obs, funcs


def failing(ret, acc, a):
    """the result when the literal a alone has the value that rejects"""
    d = {}
    for x in atoms_of(acc):
        t = implies(acc, atom(x))
        f = implies(acc, b_not(atom(x)))
        if x is a:
            d[x] = FALSE if t else TRUE
        elif t or f:
            d[x] = TRUE if t else FALSE
    return subst(ret, d)


def sender_fault(V, ret, acc, a):
    """what a rejection because of the literal a can be, other than an error of the sender"""
    # a missing entry of a local table is a local error; that the tables are complete is C24
    gets = {x: FALSE for x in subterms(ret) if x.op == "is" and x.args[0].op == "call" and x.args[0].args[0] in GETS}
    bad = []
    for v in outcomes(firsts(failing(subst(ret, gets), subst(acc, gets), next(iter(atoms_of(subst(atom(a), gets))))))):
        if not (v.op == "agg" and str(v.args[0]).endswith("::Err")):
            bad.append(show(v, 4)[:120])
            continue
        for e in outcomes(v.args[2]):
            e = unconv(e)
            if not (e.op == "call" and e.args[0].endswith("::protocol") and "ReceiveError" in e.args[0]):
                bad.append(show(e, 4)[:120])
    return bad[:3]


def firsts(t):
    """values a loop was left with, in view of the condition for leaving it"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        r = memo.get(x.id)
        if r is None:
            new = tuple(go(y) for y in x.args)
            r = x if new == x.args else rebuild(x.op, new)
            if r.op == "first":
                b = restrict(r.args[3], r.args[2])
                if not contains(b, lambda y: y is r.args[1]):
                    r = b
                elif b is not r.args[3]:
                    r = mk0("first", r.args[0], r.args[1], r.args[2], b)
            memo[x.id] = r
        return r
    return go(t)


def outcomes(t):
    """the possible values; a value a loop was left with is any value the loop body leaves with"""
    out, seen, st_ = [], set(), [t]
    while st_:
        x = st_.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            st_ += [x.args[1], x.args[2]]
            continue
        path, y = [], x
        while y.op == "fld":
            path.append(y.args[1])
            y = y.args[0]
        if y.op == "first" and path:
            st_.append(project(y.args[3], path[::-1]))
        elif x.op != "undef":
            out.append(x)
    return out


def project(t, path):
    def go(x):
        for f in path:
            if x.op == "agg" and f not in x.args[1]:
                return mk0("undef")
            x = fld(x, f)
        return x
    return lift(t, go)


# ---------------------------------------------------------------- C20
COMMITTED = {"key_init": "rho", "aux_gen": "rid", "key_refresh": "rid"}


def check_commitments(F, prop):
    from ..roots import run_vf, known_leaf
    V = Prov(F)
    obs, funcs = [], set()

    def ob(key, ok, where, detail=""):
        obs.append(Ob(prop, key, ok, where, detail))

    for m, rnd in COMMITTED.items():
        V.mod = m
        r1, r2 = V.byid.get((m, 1)), V.byid.get((m, 2))
        p = r2 and r2.path.get("receive_message")
        if not p or not r1:
            ob(f"{m}:anchor", False, f"src/protocols/{m}.rs", "rounds 1 and 2 not found")
            continue
        funcs |= set(V.P.vf(p).analysed)
        acc = ok_of(V.P.result(p))
        found = None
        for a in conj(acc):
            if a.op == "eq" and implies(acc, atom(a)):
                b = tobool(V.norm(V.glob(a, m, p, PEER)))
                if b.op != "ite" or b.args[0].op != "eq" or b.args[1] is not TRUE:
                    continue
                for x, y in (b.args[0].args, b.args[0].args[::-1]):
                    if x.op == "fld" and x.args[0].op == "call" and x.args[0].args[0] == "BODY" and x.args[0].args[2] is const(1) and x.args[0].args[4] is PEER \
                            and y.op == "call" and re.search(r"protocols::\w+::PublicData::<.*>::hash$", y.args[0]):
                        found = (x, y, a)
        ob(f"{m}:checked", bool(found), p, "accepting revealed data requires the hash of that data, the session identifier and the sender to equal the value the sender committed to in round 1")
        if not found:
            continue
        x, y, a = found
        kind = x.args[0].args[3].args[0]
        ob(f"{m}:broadcast", kind == "echo_broadcast", r1.path.get("receive_message", p), f"the commitment is sent in an echoed broadcast of round 1 (found in the {kind})")
        data = y.args[2]
        ob(f"{m}:bound", list(y.args[3:]) == [SID, PEER], p, f"the commitment is computed over the session and the sender: {[compact(z) for z in y.args[3:]]}")
        have = {compact(v): k for k, v in agg_fields(data).items()} if data.op == "agg" else {}
        n = 0
        for k, ts in r2.sent.items():
            for t in ts:
                for f in F.adts[t]["variants"][0]["fields"]:
                    n += 1
                    w = compact(fld(body(2, k, PEER), f[0]))
                    ob(f"{m}:covers:{f[0]}", w in have, p, f"the revealed {f[0]} ({k}) takes part in the hash that is compared; hashed are {sorted(have)}")
        ob(f"{m}:covers", n >= 3, p, f"{n} revealed fields")
        ob(f"{m}:randomness", compact(fld(body(2, 'echo_broadcast', PEER), rnd)) in have, p, f"the contribution {rnd} to the shared randomness takes part in the hash and is sent in an echoed broadcast")
        bad = sender_fault(V, V.P.result(p), acc, a)
        ob(f"{m}:attributed", not bad, p, "revealed data that does not match is reported as an error of the sender" + (f"; instead: {bad}" if bad else ""))
        mine = V.own(V.norm(subst(y, {PEER: ME})))
        sent = V.own(V.norm(fld(body(1, kind, ME), x.args[1])))
        ob(f"{m}:own", mine is sent or compact(mine) == compact(sent), r1.path.get("make_" + kind, p), "the local party commits to the hash of what it reveals in round 2")
        # the hash covers all it is given
        hp = [q for q in F.by_path if re.match(rf"protocols::{m}::PublicData::<.*>::hash$", q)]
        if len(hp) != 1 or data.op != "agg":
            ob(f"{m}:hash", False, p, "hash function not found")
            continue
        funcs.add(hp[0])
        ret = run_vf(F, F.by_path[hp[0]][0], known_leaf).result.ret
        a0 = mk0("in", "a0")
        for f in F.adts[str(data.args[0])]["variants"][0]["fields"]:
            ok = contains(ret, lambda z: z is fld(a0, f[0]))
            ob(f"{m}:hash:{f[0]}", ok, hp[0], f"{f[0]} is hashed")
        for i, w in ((1, "the session identifier"), (2, "the sender")):
            ob(f"{m}:hash:a{i}", contains(ret, lambda z: z is mk0("in", f"a{i}")), hp[0], f"{w} is hashed")
    return obs, funcs


# ---------------------------------------------------------------- C22
def literals(cond):
    """(atom, required truth value) that a condition consists of; None when it is not a conjunction of literals"""
    out = []
    x = cond
    while x.op == "ite":
        if x.args[1] is FALSE:
            out.append((x.args[0], False))
            x = x.args[2]
        elif x.args[2] is FALSE:
            out.append((x.args[0], True))
            x = x.args[1]
        else:
            return None
    return out if x is TRUE else None


def reports(V, r):
    """error variant -> (the literal whose failure is reported, the truth value that is reported, the error's fields)"""
    p = r.path["receive_message"]
    ret = V.P.result(p)
    acc = ok_of(ret)
    gets = {x: FALSE for x in subterms(ret) if x.op == "is" and x.args[0].op == "call" and x.args[0].args[0] in GETS}
    ret, acc = subst(ret, gets), subst(acc, gets)
    out = {}
    for a in atoms_of(acc):
        t, f = implies(acc, atom(a)), implies(acc, b_not(atom(a)))
        if a.op == "is" or not (t or f):
            continue
        for v in outcomes(firsts(failing(ret, acc, a))):
            for e in outcomes(v.args[2]) if v.op == "agg" and str(v.args[0]).endswith("::Err") else ():
                e = unconv(e)
                if e.op == "call" and e.args[0].endswith("::protocol"):
                    for w in outcomes(unconv(e.args[2])):
                        w = unconv(w)
                        if w.op == "agg" and w.args[0] == "variant" or w.op == "agg":
                            fs = {n: V.norm(V.glob(x, r.module, p, PEER)) for n, x in agg_fields(w).items()}
                            c = tobool(V.norm(V.glob(atom(a), r.module, p, PEER)))
                            c = b_not(c) if t else c
                            if c.op == "ite" and c.args[0].op == "call" and c.args[0].args[0] == "ANY" and c.args[1] is TRUE:
                                c = tobool(c.args[0].args[3])
                                c = subst(c, {x: FALSE for x in subterms(c) if x.op == "eq" and set(x.args) == {ME, FOR}})
                            out.setdefault(str(w.args[0]).split("::")[-1], []).append((c, fs))
    return out


def established(V, m, rid):
    """what the acceptance of the earlier rounds' messages equates, for any party's message: (term in PEER, value without a party)"""
    out = []
    for r in V.rs:
        p = r.path.get("receive_message")
        if r.module != m or r.id >= rid or not p or V.P.vf(p) is None:
            continue
        acc = ok_of(V.P.result(p))
        for a in atoms_of(acc):
            if a.op == "eq" and implies(acc, atom(a)):
                b = tobool(V.norm(V.glob(a, m, p, PEER)))
                if b.op == "ite" and b.args[0].op == "eq" and b.args[1] is TRUE and b.args[2] is FALSE:
                    for x, y in (b.args[0].args, b.args[0].args[::-1]):
                        if contains(x, lambda z: z is PEER) and not contains(y, lambda z: z is PEER or z is ME):
                            out.append((x, y))
    return out


def check_evidence(F, prop):
    V = Prov(F)
    obs, funcs = [], set()

    def ob(key, ok, where, detail=""):
        obs.append(Ob(prop, key, ok, where, detail))

    for m, ty, why in V.bad:
        ob(f"{m}:{ty}:anchor", False, f"src/protocols/{m}.rs", why)
    total = 0
    for (m, ty, me), (pv, role) in sorted(V.P.methods.items()):
        if role != "ProtocolError" or me != "verify_messages_constitute_error":
            continue
        if V.P.vf(pv) is None:
            ob(f"{m}:anchor", False, pv, V.P.err.get(pv, ""))
            continue
        ret = V.P.result(pv)
        if ret.op == "undef":
            continue  # C23
        V.mod = m
        funcs |= set(V.P.vf(pv).analysed)
        adts = {(x.args[0], x.args[1]) for x in subterms(ret) if x.op == "is" and re.match(r"protocols::\w+::\w*Error$", str(x.args[1]))}
        if len(adts) != 1:
            ob(f"{m}:anchor", False, pv, "the errors are not told apart by one enumeration")
            continue
        err, adt = adts.pop()
        vs = [v if isinstance(v, str) else v["name"] for v in F.adts[adt]["variants"]]
        raised = {}
        for r in V.rs:
            if r.module == m and r.path.get("receive_message"):
                funcs |= set(V.P.vf(r.path["receive_message"]).analysed)
                for v, cs in reports(V, r).items():
                    raised.setdefault(v, []).extend((r, c, fs) for c, fs in cs)
        for v in sorted(raised):
            if v not in vs:
                ob(f"{m}:{v}:known", False, pv, "reported but not an error this evidence check knows")
        for k, v in enumerate(vs):
            key = f"{m}:{v}"
            total += 1
            rs = raised.get(v, [])
            ob(key + ":raised", len(rs) == 1, pv, f"reported for exactly one failed check of a received message; found {len(rs)}")
            if len(rs) != 1:
                continue
            r, c, fs = rs[0]
            t = under(ret, err, adt, k, len(vs))
            d = {mk0("in", "a1"): FMT, mk0("in", "a2"): PEER, mk0("in", "a3"): mk0("in", "SHARED"), mk0("in", "a4"): mk0("in", "AD"),
                 mk0("in", "a5"): msg(r.id, PEER), mk0("in", "a6"): mk0("in", "PREVIOUS"), mk0("in", "a7"): mk0("in", "ECHOS")}
            g = subst(t, d)
            uses = {x.args[1] for x in subterms(g) if x.op == "fld" and x.args[0] is err}
            e2 = subst(err, d)
            direct = contains(g, lambda x: x.op == "fld" and x.args[1] == "direct_message" and x.args[0] is msg(r.id, PEER))
            g = V.norm(subst(g, {fld(e2, n): x for n, x in fs.items()}))
            acc = ok_of(g)
            # evidence that cannot be decoded is rejected; what remains is the verdict
            for x in atoms_of(acc):
                if x.op == "is":
                    acc = subst(acc, {x: TRUE if implies(acc, atom(x)) else FALSE})
            ls, want = literals(acc), literals(c)
            if not ls or not want:
                ob(key + ":same", False, pv, f"the verdict is not a plain conjunction of checks: {show(acc, 4)[:200]}")
                continue
            p_ = lambda a: compact(V.own(V.norm(a)))
            W = {(p_(a), s) for a, s in want}
            got = set()
            before = {subst(x, {PEER: w}): y for x, y in established(V, m, r.id) for w in (PEER, FOR)}
            for a, s in ls:
                b = V.own(V.norm(tobool(atom(a))))
                b = tobool(subst(b, before)) if (p_(a), s) not in W else b
                if b.op == "ite" and b.args[0].op == "call" and b.args[0].args[0] == "ANY":
                    b = ite(b.args[0].args[3], b.args[1], b.args[2]) if b.args[0].args[3] in (TRUE, FALSE) else b
                if b is TRUE and s or b is FALSE and not s or a.op == "eq" and s and p_(a.args[0]) == p_(a.args[1]):
                    continue
                got.add((p_(a), s))
            ob(key + ":same", got == W, pv,
               f"evidence is accepted exactly when the receiver's own check fails: {sorted(W)[0][0][:600]}" + ("" if got == W else f"; the evidence decides {[x[0][:600] for x in sorted(got - W)]}"))
            if direct:
                dep = sorted(x for x in uses) or (["the receiver"] if contains(c, lambda x: x is ME) else [])
                ob(key + ":bound", not dep, pv, "a verdict on a direct message depends only on the message and on public data" + (f"; it depends on {[x.split('.')[-1] for x in dep]}, which the reporter chooses and no message binds" if dep else ""))
    ob("errors", total >= 36, "src/protocols", f"{total} provable errors")
    return obs, funcs


REGISTRY = {"C20": [check_commitments], "C21": [check_proofs], "C22": [check_evidence]}
BASE = ("Every value a round's receive_message or an evidence check depends on is traced, by value-flow analysis of the MIR of all rounds (fields of the round structures are followed back "
        "through finalize and make_round of the preceding rounds to the session's entry point), to its provenance: which party sent it, in which round, in which part of the message, or "
        "which local datum it is. ")
RULES = {
    "C20": BASE + "Rule: accepting a revealed contribution implies that the hash of all fields the sender reveals, the session and the sender's identity equals the value that sender put into its "
    "echoed broadcast of round 1; a mismatch is the sender's fault; the local commitment is made over what is later revealed; the hash function depends on each of its inputs.",
    "C21": BASE + "Rule: for each field of a received message that holds a proof (or a map of proofs), accepting the message implies the success of that proof's verification (for every entry) "
    "on the prescribed statement, keys, setup and auxiliary data, compared by provenance; a failure is reported as an error of the sender.",
    "C22": BASE + "Rule: for each provable error, the condition under which the evidence is accepted is the negation of the literal whose failure the receiver reports with that error, after "
    "replacing the error's fields by what the receiver puts there; a verdict on a direct message depends on nothing chosen by the reporter.",
}
TECH = {p: "gated-SSA value-flow analysis of MIR across all protocol rounds; acceptance conditions expressed by provenance of each value and compared with the prescribed statements" for p in REGISTRY}
NOTES = {p: "The manul crate is not available offline: its API is a stub with the same signatures, and its session logic (message routing, echo consistency) is assumed to behave as documented." for p in REGISTRY}
NOTES["C22"] += " Known findings: dec, enc-elg, fac and share-change evidence."
