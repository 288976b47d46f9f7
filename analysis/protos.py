"""The protocol rounds as the value-flow analysis sees them: events and result terms per round method, with the session
identifier, the local party and the sender recognised by provenance (not by field names)."""
import re
from .calls import all_sites, owner
from .roots import known_leaf, run_vf, self_type, Roots
from .terms import T, show, mk0
from .vf import Unsupported

MODULES = ("key_init", "aux_gen", "key_refresh", "interactive_signing", "key_resharing")
SIDS = ("entities::internal::Sid::new", "protocols::interactive_signing::Epid::new")
METHOD = re.compile(r"<protocols::(\w+)::(\w+)(?:<.*>)? as manul::protocol::(EntryPoint|Round|ProtocolError|Protocol)<.*>>::(\w+)$")


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
        elif isinstance(x, T):
            if id(x) in seen:
                continue
            seen.add(id(x))
            yield x
            st.extend(x.args)


def agg_fields(t):
    """name -> value of a struct aggregate"""
    return dict(zip(t.args[1], t.args[2:]))


class Proto:
    def __init__(self, F, leaf=known_leaf):
        self.F, self.leaf = F, leaf
        self._vf, self._ctx = {}, None
        self.methods = {}
        for p, fs in F.by_path.items():
            m = METHOD.match(p)
            if m and fs[0].get("body"):
                self.methods[(m.group(1), m.group(2), m.group(4))] = (p, m.group(3))
        self.err = {}

    def vf(self, path):
        if path not in self._vf:
            try:
                self._vf[path] = run_vf(self.F, self.F.by_path[path][0], self.leaf)
            except Unsupported as e:
                self._vf[path] = None
                self.err[path] = str(e)
        return self._vf[path]

    def result(self, path):
        r = self.vf(path).result
        return r.ret if hasattr(r, "ret") else r

    def role(self, path):
        m = METHOD.match(path)
        return (m.group(3), m.group(4)) if m else (None, None)

    # ---- the context every round carries: which fields are the session identifier and the local identity
    def contexts(self):
        """(ADT path, function that builds it, {field: value}) for every construction of a round context"""
        if self._ctx is None:
            self._ctx = []
            where = set()
            roots = Roots(self.F)
            for f in self.F.fns:
                if not f.get("body") or "protocols::" not in f["path"]:
                    continue
                for b in f["body"]["blocks"]:
                    for st in b[0]:
                        rv = st[1]
                        if rv["k"] == "agg" and rv.get("ak") == "adt" and re.match(r"protocols::\w+::Context$", rv["path"]):
                            where |= {(r, rv["path"]) for r in roots.roots(f["path"])}
            for p, adt in sorted(where):
                found = False
                if self.vf(p):
                    for t in subterms(self.result(p)):
                        if t.op == "agg" and t.args[0] == adt:
                            self._ctx.append((adt, p, agg_fields(t)))
                            found = True
                if not found:
                    self._ctx.append((adt, p, None))
        return self._ctx

    def session_fields(self):
        """module -> (fields of its context that always hold the session identifier, ... the local party's identity, problems)"""
        out = {}
        for adt, p, fs in self.contexts():
            m = adt.split("::")[1]
            sid, me = set(), set()
            role, _ = self.role(p)
            if fs and role == "EntryPoint":
                sid = {k for k, v in fs.items() if self.is_sid(v, "EntryPoint")}
                me = {k for k, v in fs.items() if v is mk0("in", "a3")}
            a = out.get(m)
            out[m] = (sid, me) if a is None else (a[0] & sid, a[1] & me)
        return out

    def is_sid(self, v, role):
        """Sid/Epid::new on the run's shared randomness and on data of this protocol instance"""
        if not (v.op == "call" and v.args[0] in SIDS):
            return False
        a = [x for x in v.args[2:] if isinstance(x, T)]
        rnd, own = ("a2", "a0") if role == "EntryPoint" else ("a3", "a4")
        return a[0] is mk0("in", rnd) and any(t.op == "in" and t.args[0] == own for t in subterms(a[1]))

    def tag(self, t, path, sess):
        """'SID', 'ME', 'PEER' or None for a term seen in a method"""
        role, meth = self.role(path)
        m = path.split("protocols::")[1].split("::")[0]
        sid, me = sess.get(m, (set(), set()))
        if role == "EntryPoint":
            return "SID" if self.is_sid(t, role) else "ME" if t is mk0("in", "a3") else None
        if role == "ProtocolError":
            return "SID" if self.is_sid(t, role) else "PEER" if t is mk0("in", "a2") else None
        if role == "Round":
            if meth == "receive_message" and t is mk0("in", "a2"):
                return "PEER"
            if t.op == "fld" and t.args[0].op == "fld" and t.args[0].args[0] is mk0("in", "a0"):
                return "SID" if t.args[1] in sid else "ME" if t.args[1] in me else None
        return None


# ---- message parts, rounds and errors
PART = "manul::protocol::ProtocolMessagePart::"
KINDS = {"EchoBroadcast": "echo_broadcast", "NormalBroadcast": "normal_broadcast", "DirectMessage": "direct_message"}
KINDT = {v: k for k, v in KINDS.items()}


def base(ty):
    """A type's path without its generic arguments."""
    return re.sub(r"<.*$", "", ty)


def part_call(t):
    """(operation, kind, message type or None) of a call on a message part"""
    if t.op == "call" and t.args[0].startswith(PART):
        ks = t.args[1].split(";")
        k = KINDS.get(ks[0].split("::")[-1])
        return t.args[0][len(PART):], k, base(ks[1]) if len(ks) > 1 else None
    return None


def unconv(t):
    while t.op == "call" and t.args[0].split("::")[-1] in ("into", "from") and len(t.args) == 3:
        t = t.args[2]
    return t


def round_number(t):
    t = unconv(t)
    return t.args[0] if t.op == "c" and isinstance(t.args[0], int) else None


def round_id(t):
    """identifier in a TransitionInfo term"""
    if t.op == "agg":
        return round_number(agg_fields(t).get("id"))
    if t.op == "call" and "TransitionInfo::" in t.args[0]:
        n = t.args[0].split("::")[-1]
        return round_number(t.args[2]) if n.startswith("new_linear") else round_id(t.args[2]) if n.startswith("with_") else None
    return None


class RoundInfo:
    def __init__(self, module, ty, rid):
        self.module, self.ty, self.id = module, ty, rid
        self.sent = {k: set() for k in KINDT}  # kind -> message types
        self.may_omit = {k: False for k in KINDT}
        self.path = {}
        self.errors = set()


def rounds(P):
    """every round type of every protocol: identifier, what it sends, which provable errors it reports"""
    out, bad = [], []
    for m, ty in sorted({(m, ty) for (m, ty, me), (p, role) in P.methods.items() if role == "Round"}):
        paths = {me: p for (m2, t2, me), (p, role) in P.methods.items() if (m2, t2) == (m, ty)}
        if any(P.vf(p) is None for p in paths.values()):
            bad.append((m, ty, "not analysed"))
            continue
        r = RoundInfo(m, ty, round_id(P.result(paths["transition_info"])) if "transition_info" in paths else None)
        r.path = paths
        if r.id is None:
            bad.append((m, ty, "round identifier not constant"))
        for kind in KINDT:
            p = paths.get("make_" + kind)
            if p is None:
                continue
            for t in subterms(P.result(p)):
                c = part_call(t)
                if c and c[0] == "new" and c[1] == kind:
                    r.sent[kind].add(c[2])
                elif c and c[0] == "none":
                    r.may_omit[kind] = True
        if "receive_message" in paths:
            for t in subterms(P.result(paths["receive_message"])):
                if t.op == "agg" and re.match(r"protocols::\w+::\w*Error::\w+$", str(t.args[0])):
                    r.errors.add(t.args[0])
        out.append(r)
    return out, bad
