"""Where the values of a protocol come from: a term of a round method or of an evidence check, rewritten into what was sent by
whom in which round, public auxiliary data, and session constants. The state of a round is replaced by what the previous
round's `finalize` put into it, payloads by what `receive_message` made of the messages, messages of the local party by what
it sent."""
import re
from . import terms as tm
from .terms import *
from .protos import *
from .roots import known_leaf

INLINE = re.compile(r"(<.* as )?(tools::protocol_shortcuts::MapValues|tools::protocol_shortcuts::verify_that|protocols::\w+::Context|entities::full::|tools::secret::Secret::<T>::(init_with|expose_secret)|<tools::secret::Secret<.*> as (core|curve)|protocols::\w+::[a-z_]+$)")
KEEP = re.compile(r"::(num_parties|hash|subset|new)$")


def leaf(info):
    p = info.rpath or info.path
    if INLINE.match(p) and not KEEP.search(p):
        return None
    return known_leaf(info)


ME, PEER, FOR, EACH, FMT, ALL = (mk0("in", x) for x in ("ME", "PEER", "FOR", "EACH", "FMT", "ALL"))
SID = mk0("in", "SID")
SYMS = {ME, PEER, FOR, EACH}
GETS = ("tools::protocol_shortcuts::SafeGet::safe_get", "tools::protocol_shortcuts::SafeGet::try_get")
DOWN = "tools::protocol_shortcuts::DowncastMap::downcast_all"
DESALL = "tools::protocol_shortcuts::DeserializeAll::deserialize_all"
GETROUND = "tools::protocol_shortcuts::GetRound::get_round"
WITHOUT = "tools::protocol_shortcuts::Without::without"
IDENT = ("into", "core::convert::Into::into", "core::convert::From::from", "manul::utils::SerializableMap::inner")
SUMREF = tuple("tools::protocol_shortcuts::sum_non_empty" + x for x in ("", "_ref"))
PAIRS = {  # decoder of encoder is the identity
    "paillier::encryption::CiphertextWire::<P>::to_precomputed": "paillier::encryption::Ciphertext::<P>::to_wire",
    "paillier::keys::PublicKeyPaillierWire::<P>::into_precomputed": "paillier::keys::PublicKeyPaillier::<P>::into_wire",
    "paillier::ring_pedersen::RPParamsWire::<P>::to_precomputed": "paillier::ring_pedersen::RPParams::<P>::to_wire",
}


def call(name, *args, ty=""):
    return mk0("call", name, ty, *args)


def msg(n, who):
    return call("MSG", const(n), who)


def body(n, kind, who):
    return call("BODY", const(n), const(kind), who)


class Prov:
    def __init__(self, F):
        self.F = F
        self.P = Proto(F, leaf)
        self.rs, self.bad = rounds(self.P)
        self.byty = {(r.module, r.ty): r for r in self.rs}
        self.byid = {(r.module, r.id): r for r in self.rs}
        self._n, self._state, self._pay = {}, {}, {}
        self.entry = {}
        for (m, ty, me), (p, role) in self.P.methods.items():
            if role == "EntryPoint" and me == "make_round":
                self.entry[m] = p
        self._find_states()
        self.notes = []

    # ---- globalisation: every method's inputs become session-wide symbols
    def glob(self, t, m, path, peer=None):
        role, me = self.P.role(path)
        r = re.match(r"<protocols::\w+::(\w+)", path).group(1)
        d = {}
        if role == "EntryPoint":
            d = {mk0("in", "a0"): mk0("in", f"E:{m}"), mk0("in", "a2"): mk0("in", "SHARED"), mk0("in", "a3"): ME}
        elif role == "Round":
            d = {mk0("in", "a0"): mk0("in", f"S:{m}:{r}")}
            if me == "receive_message":
                n = self.byty[(m, r)].id
                d.update({mk0("in", "a1"): FMT, mk0("in", "a2"): peer, mk0("in", "a3"): msg(n, peer)})
            elif me == "finalize":
                d.update({mk0("in", "a2"): mk0("in", f"PAY:{m}:{r}"), mk0("in", "a3"): mk0("in", f"ART:{m}:{r}")})
            elif me == "make_direct_message":
                d.update({mk0("in", "a2"): FMT, mk0("in", "a3"): FOR})
            else:
                d.update({mk0("in", "a2"): FMT})
        return subst(t, d)

    def _find_states(self):
        """round type -> the one aggregate that builds it, globalised"""
        self.builders = {}
        for (m, ty, me), (p, role) in sorted(self.P.methods.items()):
            if me in ("finalize", "make_round") and role in ("Round", "EntryPoint") and self.P.vf(p) is not None:
                for t in subterms(self.P.result(p)):
                    if t.op == "agg":
                        g = re.match(r"protocols::(\w+)::(\w+)$", str(t.args[0]))
                        if g and (g.group(1), g.group(2)) in self.byty:
                            self.builders.setdefault((g.group(1), g.group(2)), set()).add(self.glob(t, m, p))

    def state(self, m, ty, f):
        b = self.builders.get((m, ty), ())
        if len(b) != 1:
            return None
        return agg_fields(next(iter(b))).get(f)

    def payload(self, m, ty, who):
        k = (m, ty, who)
        if k not in self._pay:
            p = self.byty[(m, ty)].path.get("receive_message")
            got = {t.args[2] for t in subterms(self.P.result(p)) if t.op == "call" and t.args[0].endswith("Payload::new")}
            self._pay[k] = self.norm(self.glob(got.pop(), m, p, who)) if len(got) == 1 else None
        return self._pay[k]

    def sent(self, m, n, kind):
        """the message body the local party sends"""
        r = self.byid.get((m, n))
        p = r and r.path.get("make_" + kind)
        if not p:
            return None
        got = {t.args[3] for t in subterms(self.P.result(p)) if (c := part_call(t)) and c[0] == "new" and len(t.args) > 3}
        return self.glob(got.pop(), m, p) if len(got) == 1 else None

    # ---- normalisation
    def norm(self, t):
        r = self._n.get(t.id)
        if r is None:
            def s(x):
                return self.norm(x) if isinstance(x, T) else tuple(s(y) for y in x) if isinstance(x, tuple) else x
            new = tuple(s(x) for x in t.args)
            u = t if new == t.args else rebuild(t.op, new)
            v = self.root(u)
            r = v if v is u else self.norm(v)
            self._n[t.id] = r
            self._n[r.id] = r
        return r

    def root(self, t):
        op, a = t.op, t.args
        if op == "fld":
            x, f = a
            if x.op == "in" and x.args[0].startswith("S:"):
                _, m, ty = x.args[0].split(":")
                v = self.state(m, ty, f)
                return v if v is not None else t
            if x.op == "call" and f == "Ok.0":
                n = x.args[0]
                if n == "OKSUM":
                    return call("SUMOTHERS", x.args[2], x.args[3])
                if n in GETS:
                    return self.at(x.args[2], x.args[4])
                c = part_call(x)
                if c and c[0] == "deserialize":
                    y = x.args[2]
                    if y.op == "fld" and y.args[0].op == "call" and y.args[0].args[0] == "MSG" and y.args[1] == c[1]:
                        return body(y.args[0].args[2].args[0], c[1], y.args[0].args[3])
                    if y.op == "call" and y.args[0] == "AT" and y.args[2].op == "call" and y.args[2].args[0] == "ECHOS":
                        return body(y.args[2].args[2].args[0], "echo_broadcast", y.args[3])
                if n == DESALL and x.args[2].op == "call" and x.args[2].args[0] == "ECHOS":
                    return call("ECHOBODIES", x.args[2].args[2])
                if n == GETROUND and x.args[3].op == "c":
                    if x.args[2] is mk0("in", "PREVIOUS"):
                        return msg(x.args[3].args[0], PEER)
                    if x.args[2] is mk0("in", "ECHOS"):
                        return call("ECHOS", x.args[3])
                if n == DOWN:
                    return mk0("in", "MAP" + x.args[2].args[0]) if x.args[2].op == "in" else t
        if op == "call":
            if a[0] in IDENT and len(a) == 3:
                return a[2]
            if a[0] == "AT":
                return self.at(a[2], a[3])
            if a[0] in SIDS and self.is_session(a):
                return SID
            if a[0] in PAIRS and a[2].op == "call" and a[2].args[0] == PAIRS[a[0]]:
                return a[2].args[2]
            if a[0] == "paillier::keys::SecretKeyPaillier::<P>::public_key" and self.own_sk(a[2]):
                return self.own_pk(a[2])
            if a[0] in SUMREF:
                v = self.over_others(a[2])
                if v is not None:
                    return call("OKSUM", v[0], v[1])
        if op == "call" and a[0] == "core::ops::Add::add":
            for x, y in (a[2:], a[2:][::-1]):
                if x.op == "bigsum" and contains(x, lambda z: z.op == "call" and z.args[0] == "ECHOBODIES"):
                    v = self.over_all(mk0("cat", x.args[1], mk0("one", y)))
                    if v is not None:
                        return call("SUMALL", v)
        if op == "bigsum":
            v = self.over_all(a[1])
            if v is not None:
                return call("SUMALL", v)
        if op == "fold" and a[4].op == "call" and a[4].args[0] == "core::ops::BitXor::bitxor" and a[2] in a[4].args[2:]:
            x = [y for y in a[4].args[2:] if y is not a[2]]
            if len(x) == 1 and not contains(x[0], lambda y: y is a[2]):
                v = self.over_all(mk0("cat", mk0("seq", a[0], a[1], x[0]), mk0("one", a[3])))
                if v is not None:
                    return call("XORALL", v)
        if op == "ite" and a[0].op == "exists":
            r = self.for_all(a[0])
            return ite(atom(r), a[1], a[2]) if r is not a[0] else t
        if op == "first" and a[0].op == "len":
            S = a[0].args[0]
            it = self.at(S.args[0], FOR) if S.op == "values" else FOR if self.is_set(S) else tup(FOR, self.at(S, FOR))
            d = {x: it for x in subterms(a[3]) if x.op == "elem" and x.args[1] is a[1] and x.args[0] is S}
            if d:
                v = subst(a[3], d)
                if not contains(v, lambda y: y is a[1]):
                    return v
        if op == "mapval":
            return self.at(a[0], a[1])
        if op == "keys":
            if self.all_ids(a[0]):
                return ALL
        return t

    def over_all(self, c):
        """a list that has the value of every other party (generic form at EACH) and the local party's: the generic form"""
        if c.op != "cat" or len(c.args) != 2 or {p.op for p in c.args} != {"seq", "one"}:
            return None
        s, o = sorted(c.args, key=lambda p: p.op == "one")
        _, bv, b = s.args
        S = set()
        for x in subterms(b):
            if x.op == "elem" and x.args[1] is bv:
                S.add(x.args[0].args[0] if x.args[0].op == "values" else x.args[0])
        if len(S) != 1:
            return None
        S = S.pop()
        echos = S.op == "call" and S.args[0] == "ECHOBODIES"
        if not (echos or S.op == "in" and S.args[0].startswith("MAPPAY:")):
            return None
        v = self.bind(b, S, bv, EACH)
        if contains(v, lambda y: y is bv):
            return None
        if echos:  # the echoes of the judged party are of all parties but itself
            return v if self.norm(subst(v, {EACH: PEER})) is self.norm(o.args[0]) else None
        mine = self.norm(subst(v, {EACH: ME}))
        x, y = self.own(mine), self.own(self.norm(o.args[0]))
        return v if x is y else None

    def over_others(self, it):
        """a list with one value per party other than a given one: (that party, generic form)"""
        s = it.args[0] if it.op == "iter" and it.args[1] is const(0) else it
        if s.op != "seq":
            return None
        _, bv, b = s.args
        d, S = {}, set()
        for x in subterms(b):
            if x.op == "elem" and x.args[1] is bv:
                d[x] = EACH
                S.add(x.args[0])
        if len(S) != 1:
            return None
        S = S.pop()
        if not (S.op == "call" and S.args[0] == WITHOUT and S.args[2] is ALL):
            return None
        v = self.norm(fld(subst(b, d), "Ok.0"))
        return None if contains(v, lambda y: y is bv) else (S.args[3], v)

    def for_all(self, t):
        """exists i over a received map: the party FOR instead of the index"""
        dom, bv, b = t.args
        S = dom.args[0] if dom.op == "len" else None
        if S is None:
            return t
        it = self.at(S.args[0], FOR) if S.op == "values" else FOR if self.is_set(S) else tup(FOR, self.at(S, FOR))
        d = {x: it for x in subterms(b) if x.op == "elem" and x.args[1] is bv and x.args[0] is S}
        v = self.norm(subst(b, d))
        S = S.args[0] if S.op in ("keys", "values") else S
        return call("ANY", S, v) if not contains(v, lambda y: y is bv) else t

    def is_session(self, a):
        return any(x is mk0("in", "SHARED") for x in a[2:])

    def own_sk(self, x):
        return False

    def own_pk(self, x):
        return None

    def all_ids(self, m):
        """the key set of the public data of all parties"""
        return m.op == "fld" and m.args[1] == "0" and contains(m, lambda y: y.op == "in" and (y.args[0].startswith("E:") or y.args[0] == "AD"))

    # ---- maps
    def at(self, m, k):
        r = self._at(m, k) if self.symbolic(k) else None
        return r if r is not None else call("AT", m, k)

    def symbolic(self, k):
        return k in SYMS or k.op == "agg" and all(x in SYMS for x in k.args[2:])

    def who(self, t):
        """a party symbol for a key term"""
        return t

    def _match(self, have, want):
        """True, False or None (cannot tell)"""
        if have is want:
            return True
        if have.op == "agg" and want.op == "agg":
            rs = [self._match(x, y) for x, y in zip(have.args[2:], want.args[2:])]
            return False if False in rs else True if all(r is True for r in rs) else None
        known = {ME, PEER}
        if have in known and want in known:
            return False
        return None

    def _at(self, m, k):
        while m.op == "call" and m.args[0] in IDENT:
            m = m.args[2]
        if m.op == "in" and m.args[0].startswith("MAPPAY:"):
            _, mod, ty = m.args[0].split(":")
            return self.payload(mod, ty, k) if k is not ME else None
        if m.op == "call" and m.args[0] == "ECHOBODIES":
            return body(m.args[2].args[0], "echo_broadcast", k)
        if m.op == "ite":
            return lift(m, lambda y: self.at(y, k))
        if m.op == "cat":
            rest = None
            for p in m.args:
                if p.op == "one":
                    e = p.args[0]
                    r = self._match(fld(e, "0"), k)
                    v = self.norm(fld(e, "1"))
                    if r is True:
                        rest = v
                    elif r is None:
                        rest = self.join(rest, v, fld(e, "0"), k)
                else:
                    v = self._part(p, k) if p.op in ("seq", "flatseq") else self._at(p, k)
                    if isinstance(v, tuple):  # only for the local party's entries
                        rest = self.join(rest, v[0], v[1], k)
                    elif v is not None:
                        rest = v if rest is None else self.join2(rest, v, k)
            return rest
        if m.op in ("seq", "flatseq"):
            v = self._part(m, k)
            return v if not isinstance(v, tuple) else None
        return None

    pend = None

    def join(self, rest, v, key, k):
        """an entry of the local party (v at key) next to entries of the others (rest, for the generic party k)"""
        if rest is None:
            return call("ONLY", v, key, k)
        sub = self.me_of(k, key)
        if sub is None:
            return call("MIXED", rest, v)
        mine = self.norm(subst(rest, sub))
        a, b = self.own(mine), self.own(v)
        return rest if a is b else call("MIXED", rest, v)

    def join2(self, first, v, k):
        """first came from the local party's part"""
        if first.op == "call" and first.args[0] == "ONLY":
            return self.join(v, first.args[2], first.args[3], k)
        return v

    def me_of(self, k, key):
        """substitution that makes the generic key the local party's"""
        if k.op == "agg" and key.op == "agg":
            d = {}
            for x, y in zip(k.args[2:], key.args[2:]):
                if x is y:
                    continue
                if x.op == "in" and y is ME:
                    d[x] = ME
                else:
                    return None
            return d
        return {k: ME} if k.op == "in" and key is ME else None

    def _part(self, p, k):
        """the value at k in an iteration over another collection; (value, key) when it holds for the local party's key only"""
        if p.op == "seq":
            dom, bv, b = p.args
            ke, ve = fld(b, "0"), fld(b, "1")
            keys = list(zip(ke.args[2:], k.args[2:])) if ke.op == "agg" and k.op == "agg" else [(ke, k)]
            sub, only = None, False
            for x, y in keys:
                s = self.source(x, bv)
                if s is not None:
                    sub = (s, y)
                    continue
                r = self._match(self.norm(x), y)
                if r is False:
                    return None
                only |= r is None
            if sub is None:
                return None
            v = self.bind(ve, sub[0], bv, sub[1])
            if contains(v, lambda y: y is bv):
                return None
            if only:
                return v, tup(*[y if self.source(x, bv) is not None else self.norm(x) for x, y in keys])
            return v
        if p.op == "flatseq":
            dom, bv, b = p.args
            if b.op != "seq":
                return None
            ke = fld(b.args[2], "0")
            keys = list(zip(ke.args[2:], k.args[2:])) if ke.op == "agg" and k.op == "agg" else [(ke, k)]
            for x, y in keys:
                s = self.source(x, bv)
                if s is not None:
                    if y is ME and s.op == "in" and s.args[0].startswith("MAPPAY:"):
                        return None
                    v = self.norm(self.bind(b, s, bv, y))
                    r = self._part(v, k)
                    return r
        return None

    def source(self, x, bv):
        """the collection whose elements the key runs through"""
        if x.op == "elem" and x.args[1] is bv:
            return x.args[0]
        if x.op == "fld" and x.args[1] == "0" and x.args[0].op == "elem" and x.args[0].args[1] is bv:
            return x.args[0].args[0]
        return None

    def bind(self, t, S, bv, k):
        """t for the element of S that belongs to party k"""
        d = {}
        for x in subterms(t):
            if x.op == "elem" and x.args[1] is bv:
                c = x.args[0]
                if c is S:
                    d[x] = k if self.is_set(S) else tup(k, self.at(S, k))
                elif c.op == "values" and c.args[0] is S:
                    d[x] = self.at(S, k)
        t = subst(t, d)
        return self.norm(subst(t, {bv: call("IDX", S, k)}) if self.is_set(S) or S.op == "in" else t)

    def is_set(self, S):
        return S is ALL or S.op == "in" and S.args[0] in ("ALL",) or S.op in ("keys", "without") or S.op == "call" and S.args[0] == WITHOUT or \
            S.op == "fld" and S.args[1] in ("all_ids", "other_ids")

    # ---- the local party's own messages
    def own(self, t):
        for _ in range(8):
            d = {}
            for x in subterms(t):
                if x.op == "fld" and x.args[0].op == "call" and x.args[0].args[0] == "BODY" and x.args[0].args[4] is ME:
                    s = self.sent(self.mod, x.args[0].args[2].args[0], x.args[0].args[3].args[0])
                    if s is not None:
                        d[x] = self.norm(fld(s, x.args[1]))
            if not d:
                return t
            t = self.norm(subst(t, d))
        return t
