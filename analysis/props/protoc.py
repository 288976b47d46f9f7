"""C23, C24, C25: message parts in the protocols."""
import re
from .. import terms as tm
from ..terms import *
from ..obligations import Ob
from ..protos import *


def under(t, err, adt, k, n):
    """the term with the error known to be the k-th of n variants"""
    m = {mk0("is", err, adt, j): (TRUE if j == k else FALSE) for j in range(n)}
    return along(subst(t, m))


def along(t):
    """the same term, where whatever stands under a condition is read knowing that condition"""
    memo, occ = {}, {}

    def atoms(x):
        r = occ.get(x.id)
        if r is None:
            r = set()
            if x.op == "ite":
                r.add(x.args[0])
            for y in x.args:
                for z in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(z, T):
                        r |= atoms(z)
            r = occ[x.id] = frozenset(r)
        return r

    def go(x, known):
        if not isinstance(x, T):
            return tuple(go(y, known) for y in x) if isinstance(x, tuple) else x
        at = atoms(x)
        if not at:
            return x
        known = {k: v for k, v in known.items() if k in at}
        key = (x.id, frozenset((k.id, v) for k, v in known.items()))
        if key in memo:
            return memo[key]
        if x.op == "ite":
            c = x.args[0]
            if c in known:
                r = go(x.args[1] if known[c] else x.args[2], known)
            else:
                a, b = go(x.args[1], {**known, c: True}), go(x.args[2], {**known, c: False})
                r = a if a is b else rebuild("ite", (go(c, known), a, b))
        else:
            new = tuple(go(y, known) for y in x.args)
            r = x if new == x.args else rebuild(x.op, new)
        memo[key] = r
        return r

    return go(t, {})


def ok_of(t):
    return tobool(is_ok(t))


# ---------------------------------------------------------------- C25
def check_parts(F, prop):
    P = Proto(F)
    obs, funcs = [], set()

    def ob(key, ok, where, detail=""):
        obs.append(Ob(prop, key, ok, where, detail))

    rs, bad = rounds(P)
    for m, ty, why in bad:
        ob(f"{m}:{ty}:anchor", False, f"src/protocols/{m}.rs", why)
    for r in rs:
        nm = f"{r.module}:{r.ty}"
        p = r.path.get("receive_message")
        if p is None:
            ob(nm + ":receive", False, nm, "no receive_message")
            continue
        ret = P.result(p)
        acc = ok_of(ret)
        funcs |= set(P.vf(p).analysed)
        msg = mk0("in", "a3")
        for kind, T_ in r.sent.items():
            part = fld(msg, kind)
            ob(f"{nm}:one-type:{kind}", len(T_) <= 1, r.path.get("make_" + kind, p), f"sends {sorted(T_)}")
            if T_:
                t = next(iter(T_))
                des = [x for x in subterms(ret) if (c := part_call(x)) and c[0] == "deserialize" and c[1] == kind and x.args[2] is part]
                good = [x for x in des if part_call(x)[2] == t]
                acc_ok = any(implies(acc, ok_of(x)) for x in good)
                ob(f"{nm}:{kind}:decoded", acc_ok, p,
                   f"accepting a message requires its {kind} to decode as {t}, the type this round sends; decoded as {sorted({str(part_call(x)[2]) for x in des})}")
                used = [x for x in good if uses_value(ret, x)]
                ob(f"{nm}:{kind}:used", bool(used), p, f"the decoded {kind} takes part in what the round accepts or keeps")
            else:
                none = [x for x in subterms(ret) if (c := part_call(x)) and c[0] == "assert_is_none" and x.args[2] is part]
                ob(f"{nm}:{kind}:absent", any(implies(acc, ok_of(x)) for x in none), p,
                   f"accepting a message requires its {kind}, which this round does not send, to be absent")
    # the tables that judge invalid messages
    ids = {}
    for r in rs:
        ids.setdefault(r.module, {})[r.id] = r
    for m, byid in sorted(ids.items()):
        for kind in KINDT:
            p = next((p for (m2, ty, me), (p, role) in P.methods.items() if m2 == m and role == "Protocol" and me == f"verify_{kind}_is_invalid"), None)
            if p is None:
                ob(f"{m}:table:{kind}", False, f"src/protocols/{m}.rs", "no table")
                continue
            if P.vf(p) is None:
                ob(f"{m}:table:{kind}", False, p, P.err.get(p, "not analysed"))
                continue
            funcs |= set(P.vf(p).analysed)
            ret = P.result(p)
            for i, r in sorted(byid.items(), key=lambda x: str(x[0])):
                if i is None:
                    continue
                t = subst(ret, {mk0("in", "a1"): const(i), mk0("in", "n:a1"): const(i)})
                c = part_call(t)
                T_ = r.sent[kind]
                want = ("verify_is_not", kind, next(iter(T_))) if T_ else ("verify_is_some", kind, None)
                ob(f"{m}:table:{kind}:{i}", c is not None and c == want and t.args[2] is mk0("in", "a2"), p,
                   f"for round {i} the {kind} is judged by {want[0]}" + (f" as {want[2]}" if want[2] else "") + f"; found {show(t, 5)[:160]}")
            t = subst(ret, {mk0("in", "a1"): const(99), mk0("in", "n:a1"): const(99)})
            ob(f"{m}:table:{kind}:other", ok_of(t) is FALSE, p, "evidence for a round that does not exist is rejected")
    return obs, funcs


def uses_value(ret, x):
    v = fld(x, "Ok.0")
    return any(t.op == "fld" and t.args[0] is v for t in subterms(ret)) or any(v in t.args for t in subterms(ret) if t.op in ("call", "agg"))


# ---------------------------------------------------------------- C23
RM = "manul::protocol::RequiredMessages::new"
RMP = "manul::protocol::RequiredMessageParts::"


def parts_of(t):
    out = set()
    while t.op == "call" and t.args[0].startswith(RMP):
        n = t.args[0][len(RMP):]
        if n.startswith("and_"):
            out.add(n[4:])
            t = t.args[2]
        else:
            out.add(n)
            return out if out <= set(KINDT) else None
    return None


def items_of(t):
    """elements of an Option of a collection built from a literal"""
    if t.op == "agg" and str(t.args[0]).endswith("::None"):
        return []
    if t.op == "agg" and str(t.args[0]).endswith("::Some"):
        t = unconv(t.args[2])
        if t.op == "agg":
            return list(t.args[2:])
        n = length(t)
        if n.op == "c":
            return [elem(t, const(i)) for i in range(n.args[0])]
    return None


def required(t):
    """(parts of the judged message, {round: parts}, rounds whose echoes are attached)"""
    if not (t.op == "call" and t.args[0] == RM):
        return None
    ps, pv, ec = parts_of(t.args[2]), items_of(t.args[3]), items_of(t.args[4])
    if ps is None or pv is None or ec is None:
        return None
    prev = {}
    for x in pv:
        a = list(x.args[2:]) if x.op == "agg" else []
        if len(a) != 2 or round_number(a[0]) is None or parts_of(a[1]) is None:
            return None
        prev[round_number(a[0])] = parts_of(a[1])
    ech = {round_number(x) for x in ec}
    return None if None in ech else (ps, prev, ech)


MSG, PREV, ECHO = mk0("in", "a5"), mk0("in", "a6"), mk0("in", "a7")


def reads(t):
    """messages an evidence check decodes: (source, round or None, kind, type, term)"""
    out = []
    for x in subterms(t):
        c = part_call(x)
        if c and c[0] == "deserialize":
            out.append(origin(x.args[2]) + (c[1], c[2], x))
        elif x.op == "call" and x.args[0].endswith("DeserializeAll::deserialize_all"):
            ks = x.args[1].split(";")
            kind = next((KINDS[k] for k in KINDS if "::" + k in ks[0]), None)
            out.append(origin(x.args[2]) + (kind, base(ks[-1]), x))
    return out


def origin(part):
    src = {a for a in (MSG, PREV, ECHO) if contains(part, lambda y: y is a)}
    rn = {round_number(y.args[3]) for y in subterms(part) if y.op == "call" and y.args[0].endswith("GetRound::get_round")}
    if src == {MSG} and part.op == "fld" and part.args[0] is MSG:
        return "message", None
    if len(src) == 1 and len(rn) == 1:
        return "previous" if src == {PREV} else "echoes" if src == {ECHO} else "?", rn.pop()
    return "?", None


def check_evidence_reads(F, prop):
    P = Proto(F)
    obs, funcs = [], set()

    def ob(key, ok, where, detail=""):
        obs.append(Ob(prop, key, ok, where, detail))

    rs, bad = rounds(P)
    for m, ty, why in bad:
        ob(f"{m}:{ty}:anchor", False, f"src/protocols/{m}.rs", why)
    byid = {(r.module, r.id): r for r in rs}
    for m, ty in sorted({(m, ty) for (m, ty, me), (p, role) in P.methods.items() if role == "ProtocolError"}):
        pr = P.methods.get((m, ty, "required_messages"))
        pv = P.methods.get((m, ty, "verify_messages_constitute_error"))
        if not pr or not pv or P.vf(pr[0]) is None or P.vf(pv[0]) is None:
            ob(f"{m}:anchor", False, f"{m}::{ty}", "evidence methods not analysed: " + P.err.get(pv[0] if pv else "", ""))
            continue
        pr, pv = pr[0], pv[0]
        funcs |= set(P.vf(pr).analysed) | set(P.vf(pv).analysed)
        for p, w in ((pr, "required_messages"), (pv, "verification")):
            if P.vf(p).result.ret.op == "undef":
                ob(f"{m}:{w}:panics", False, p, "always panics")
        if P.result(pr).op == "undef" or P.result(pv).op == "undef":
            continue
        adts = {(x.args[0], x.args[1]) for x in subterms(P.result(pv)) if x.op == "is" and re.match(r"protocols::\w+::\w*Error$", str(x.args[1]))}
        adts |= {(x.args[0], x.args[1]) for x in subterms(P.result(pr)) if x.op == "is" and re.match(r"protocols::\w+::\w*Error$", str(x.args[1]))}
        if len(adts) != 1:
            ob(f"{m}:anchor", False, pv, f"the errors are told apart by {sorted(str(a[1]) for a in adts)}")
            continue
        err, adt = adts.pop()
        vs = [v if isinstance(v, str) else v["name"] for v in F.adts[adt]["variants"]]
        for k, v in enumerate(vs):
            nm = f"{m}:{v}"
            req = required(under(P.result(pr), err, adt, k, len(vs)))
            if req is None:
                ob(nm + ":declared", False, pr, "the required messages of this error are not a literal table")
                continue
            ps, prev, ech = req
            raised = sorted(r.id for r in rs if r.module == m and f"{adt}::{v}" in r.errors)
            t = under(P.result(pv), err, adt, k, len(vs))
            rd = reads(t)
            ob(nm + ":reads", bool(rd), pv, "decides from at least one message")
            ok = True
            for src, rn, kind, typ, x in rd:
                w = f"{src}{'' if rn is None else ' ' + str(rn)} {kind} as {typ}"
                if src == "message":
                    decl = kind in ps
                    sent = [byid[(m, i)] for i in raised]
                elif src == "previous":
                    decl = kind in prev.get(rn, ())
                    sent = [byid[(m, rn)]] if (m, rn) in byid else []
                elif src == "echoes":
                    decl = rn in ech
                    sent = [byid[(m, rn)]] if (m, rn) in byid else []
                else:
                    decl, sent = False, []
                key = f"{nm}:{src}{'' if rn is None else rn}:{kind}"
                ob(key + ":declared", decl, pv, f"reads {w}; declared: message {sorted(ps)}, previous {({a: sorted(b) for a, b in prev.items()})}, echoes {sorted(ech)}")
                ob(key + ":type", (bool(sent) or src == "message" and not raised) and all(typ in r.sent[kind] for r in sent), pv,
                   f"reads {w}; sent there: {sorted(set().union(*[r.sent[kind] for r in sent])) if sent else 'nothing'}")
    return obs, funcs


# ---------------------------------------------------------------- C24
WITHOUT = "tools::protocol_shortcuts::Without::without"


def all_parties(P, sess):
    """module -> context fields that hold the set of all parties: the sets the session identifier or the set of peers is made from"""
    out = {}
    for adt, p, fs in P.contexts():
        m = adt.split("::")[1]
        ks = set()
        if fs and P.role(p)[0] == "EntryPoint":
            src = {v.args[2] for v in fs.values() if v.op == "call" and v.args[0] == WITHOUT and v.args[3] is mk0("in", "a3")}
            for v in fs.values():
                if P.is_sid(v, "EntryPoint"):
                    src |= {x for x in v.args[2:] if isinstance(x, T)}
            ks = {k for k, v in fs.items() if v in src}
        out[m] = ks if m not in out else out[m] & ks
    return out


def map_fields(F, ty):
    """fields of a message struct that are maps keyed by party identifiers"""
    out = []
    for f in F.adts[ty]["variants"][0]["fields"]:
        t = F.types[f[1]]
        if re.search(r"(BTreeMap|SerializableMap|HashMap)<(&\w* ?)?(Id|I)\b", t.get("s", "")):
            out.append(f[0])
    return out


# the parties a table must list: every party, or every party but the one that sends the table
TABLES = {"key_refresh": "all", "interactive_signing": "others"}


def conj(b):
    """literals that a condition implies"""
    out, seen = [], set()
    st = [b]
    while st:
        x = st.pop()
        if id(x) in seen or x is TRUE or x is FALSE:
            continue
        seen.add(id(x))
        if x.op == "ite":
            out.append(x.args[0])
            st += [x.args[1], x.args[2]]
        else:
            out.append(x)
    return out


def check_tables(F, prop):
    P = Proto(F)
    sess = P.session_fields()
    allp = all_parties(P, sess)
    obs, funcs = [], set()

    def ob(key, ok, where, detail=""):
        obs.append(Ob(prop, key, ok, where, detail))

    rs, bad = rounds(P)
    for m, ty, why in bad:
        ob(f"{m}:{ty}:anchor", False, f"src/protocols/{m}.rs", why)
    n = 0
    for r in rs:
        nm = f"{r.module}:{r.ty}"
        p = r.path.get("receive_message")
        if p is None:
            continue
        ret = P.result(p)
        acc = ok_of(ret)
        funcs |= set(P.vf(p).analysed)
        atoms = [a for a in conj(acc) if a.op == "eq" and implies(acc, a)]
        for kind, T_ in r.sent.items():
            for t in T_:
                for f in map_fields(F, t):
                    n += 1
                    want = TABLES.get(r.module, "others")
                    found = []
                    for a in atoms:
                        for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
                            k = keyset(x)
                            if k is None or not (k.op == "fld" and k.args[1] == f):
                                continue
                            d = k.args[0]
                            c = part_call(d.args[0]) if d.op == "fld" and d.args[1] == "Ok.0" else None
                            if c and c[0] == "deserialize" and c[1] == kind and c[2] == t and d.args[0].args[2] is fld(mk0("in", "a3"), kind):
                                found.append(y)
                    good = [y for y in found if party_set(P, r.module, y, allp) == want]
                    ob(f"{nm}:{kind}.{f}", bool(good), p,
                       f"accepting a message requires the keys of {f} to be {'all parties' if want == 'all' else 'all parties but the sender'}; "
                       f"required to equal {[show(y, 4) for y in found]}")
    ob("tables", n >= 9, "src/protocols", f"{n} per-party tables in messages")
    return obs, funcs


def keyset(x):
    x = unconv(x)
    return unconv(x.args[0]) if x.op == "keys" else unconv(x.args[2]) if x.op == "call" and x.args[0] == "keys" else None


def party_set(P, m, y, allp):
    y = unconv(y)
    a0 = mk0("in", "a0")

    def is_all(z):
        z = unconv(z)
        return z.op == "fld" and z.args[1] in allp.get(m, ()) and z.args[0].op == "fld" and z.args[0].args[0] is a0
    if is_all(y):
        return "all"
    if y.op == "call" and y.args[0] == WITHOUT and is_all(y.args[2]) and y.args[3] is mk0("in", "a2"):
        return "others"
    return None


BASE = ("Gated-SSA value-flow analysis of every protocol method (all paths at once), the message-handling calls recognised by their resolved trait method and type arguments. ")
REGISTRY = {"C25": [check_parts], "C23": [check_evidence_reads], "C24": [check_tables]}
RULES = {
    "C25": BASE + "Rule: for each round and message part, the condition for accepting a message implies that a part the round sends decodes as the very type that is sent, and that "
    "a part it does not send is absent; the tables that judge invalid messages name, for each round identifier, the same type or absence, and reject other identifiers.",
    "C23": BASE + "Rule: for each provable error, every message its verification decodes (in the case of that error) is listed in the required messages of that error, and is decoded as the "
    "type the corresponding round puts into that part.",
    "C24": BASE + "Rule: for every field of a received message that is a map keyed by party, the condition for accepting the message implies that its key set equals the set of all parties of "
    "the session (recognised by provenance from the entry point), without the sender where a party makes no entry for itself.",
}
T_ = "gated-SSA value-flow analysis of MIR of the protocol rounds, message parts matched between senders, receivers and evidence checks"
TECH = {p: T_ for p in REGISTRY}
N_ = "The manul crate is not available offline: its API is a stub with the same signatures, and its session logic is assumed to behave as documented."
NOTES = {p: N_ for p in REGISTRY}
