"""Canonical algebraic form of value terms.

Integers, scalars and residues become polynomials over atoms; points, ciphertexts and ring-Pedersen
commitments become formal sums of bases with polynomial exponents (the groups are abelian and written
additively).  Terms are hash-consed, so two expressions agree in the theory exactly when their forms
are the same object.
"""
import hashlib

from .terms import *
from . import terms as tm


# ------------------------------------------------------------------ polynomials
def pol(t):
    """dict monomial -> coefficient; monomial = sorted tuple of (atom, power)."""
    if t.op == "c" and isinstance(t.args[0], int) and not isinstance(t.args[0], bool):
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {((t, 1),): 1}


def mkpoly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return const(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda x: tuple((a.id, e) for a, e in x[0])))
    return mk0("poly", items)


def padd(a, b, s=1):
    if a.op == "ite" or b.op == "ite":
        at = top(a, b)
        return ite(node(at, TRUE, FALSE), padd(cof(a, at, True), cof(b, at, True), s), padd(cof(a, at, False), cof(b, at, False), s))
    d = pol(a)
    for m, c in pol(b).items():
        d[m] = d.get(m, 0) + s * c
    return mkpoly(d)


def mmul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def pmul(a, b):
    if a.op == "ite" or b.op == "ite":
        at = top(a, b)
        return ite(node(at, TRUE, FALSE), pmul(cof(a, at, True), cof(b, at, True)), pmul(cof(a, at, False), cof(b, at, False)))
    d = {}
    pb = pol(b)
    for m1, c1 in pol(a).items():
        for m2, c2 in pb.items():
            m = mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return mkpoly(d)


def pneg(a):
    return pmul(const(-1), a)


def psub(a, b):
    return padd(a, b, -1)


def phom(t, f):
    """Image of a polynomial under a ring homomorphism given on atoms."""
    if t.op == "ite":
        return lift(t, lambda x: phom(x, f))
    r = const(0)
    for m, c in pol(t).items():
        x = const(c)
        for a, e in m:
            fa = f(a)
            for _ in range(e):
                x = pmul(x, fa)
        r = padd(r, x)
    return r


# ------------------------------------------------------------------ group elements
def gparts(t):
    if t.op == "grp":
        return dict(t.args[0])
    return {t: const(1)}


def mkgrp(d):
    d = {b: k for b, k in d.items() if k is not const(0)}
    if len(d) == 1:
        (b, k), = d.items()
        if k is const(1):
            return b
    return mk0("grp", tuple(sorted(d.items(), key=lambda x: x[0].id)))


ZEROG = mk0("grp", ())


def gadd(a, b, s=1):
    if a.op == "ite" or b.op == "ite":
        at = top(a, b)
        return ite(node(at, TRUE, FALSE), gadd(cof(a, at, True), cof(b, at, True), s), gadd(cof(a, at, False), cof(b, at, False), s))
    d = gparts(a)
    for x, k in gparts(b).items():
        d[x] = padd(d.get(x, const(0)), pmul(const(s), k))
    return mkgrp(d)


def gsub(a, b):
    return gadd(a, b, -1)


def gmul(k, a):
    if a.op == "ite" or k.op == "ite":
        at = top(a, k)
        return ite(node(at, TRUE, FALSE), gmul(cof(k, at, True), cof(a, at, True)), gmul(cof(k, at, False), cof(a, at, False)))
    return mkgrp({b: pmul(k, c) for b, c in gparts(a).items()})


def ghom(t, f):
    """Image of a formal sum under a group homomorphism given on bases."""
    if t.op == "ite":
        return lift(t, lambda x: ghom(x, f))
    r = ZEROG
    for b, k in gparts(t).items():
        r = gadd(r, gmul(k, f(b)))
    return r


def _poly_r(items):
    r = const(0)
    for m, c in items:
        x = const(c)
        for a, e in m:
            for _ in range(e):
                x = pmul(x, a)
        r = padd(r, x)
    return r


def _grp_r(items):
    r = ZEROG
    for b, k in items:
        r = gadd(r, gmul(k, b))
    return r


def _zero_r(kind, d):
    return eq0(d, kind)


tm.REBUILD["poly"] = _poly_r
tm.REBUILD["grp"] = _grp_r
tm.REBUILD["zero"] = _zero_r


def negfirst(d, kind):
    """Whether the leading coefficient is negative."""
    if kind == "g":
        ps = gparts(d)
        b = min(ps, key=lambda x: x.id)
        p = ps[b]
    else:
        p = d
    q = pol(p)
    m = min(q, key=lambda m: tuple((a.id, e) for a, e in m))
    return q[m] < 0


def eq0(d, kind):
    """The proposition d = 0."""
    if d.op == "ite":
        return lift(d, lambda x: eq0(x, kind))
    if d is const(0) or d is ZEROG:
        return TRUE
    if d.op == "c":
        return const(d.args[0] == 0)
    if kind == "g" and any(k.op == "ite" for k in gparts(d).values()):
        return atom(mk0("zero", kind, d))
    if negfirst(d, kind):
        d = gmul(const(-1), d) if kind == "g" else pneg(d)
    return atom(mk0("zero", kind, d))


# ------------------------------------------------------------------ sums over an index
def bigsum(dom, iv, body, kind):
    """sum over iv in 0..dom of body, kind 'p' (ring) or 'g' (group); linear in body."""
    if body.op == "ite":
        pass
    elif kind == "g":
        r = ZEROG
        for b, k in gparts(body).items():
            r = gadd(r, gsum1(dom, iv, b, k))
        return r
    else:
        r = const(0)
        for m, c in pol(body).items():
            ins = tuple((a, e) for a, e in m if contains(a, lambda x: x is iv))
            out = tuple((a, e) for a, e in m if not contains(a, lambda x: x is iv))
            if not ins:
                s = dom
            else:
                bv, b = close(iv, mkpoly({ins: 1}))
                s = mk0("psum", dom, bv, b)
            r = padd(r, pmul(s, mkpoly({out: c})))
        return r
    bv, b = close(iv, body)
    return mk0("psum" if kind == "p" else "gsum", dom, bv, b)


def gsum1(dom, iv, b, k):
    if not contains(b, lambda x: x is iv):
        return gmul(bigsum(dom, iv, k, "p"), b)
    r = ZEROG
    for m, c in pol(k).items():
        ins = tuple((a, e) for a, e in m if contains(a, lambda x: x is iv))
        out = tuple((a, e) for a, e in m if not contains(a, lambda x: x is iv))
        bv, bb = close(iv, gmul(mkpoly({ins: 1}), b))
        r = gadd(r, gmul(mkpoly({out: c}), mk0("gsum", dom, bv, bb)))
    return r


# ------------------------------------------------------------------ type classes
def tclass(s):
    s = s or ""
    if s.startswith("curve::arithmetic::Scalar"):
        return "S"
    if s.startswith("curve::arithmetic::Point"):
        return "P"
    if s.startswith("paillier::encryption::Ciphertext<"):
        return "C"
    if s.startswith("paillier::ring_pedersen::RPCommitment<"):
        return "R"
    if s.startswith(("uint::secret_signed::", "uint::public_signed::", "uint::secret_unsigned::")):
        return "Z"
    if s.endswith("::Monty"):
        return "M"
    if s.endswith(("::Uint", "::HalfUint", "::WideUint", "::ExtraWideUint")) or s.startswith(("crypto_bigint::Uint<", "uint::public_uint::")):
        return "U"
    if s.startswith("<<P as params::traits::SchemeParams>::Curve as") and s.endswith("::Scalar"):
        return "S"
    return "?"


RING = "SZMU"
GROUP = "PCR"


def unpeel(iv, E, V):
    """until(i, E, V); a first trial made before the loop and repeated in it with fresh draws is one more trial of the loop."""
    at = pos(iv)
    if at.op == "ite" and contains(mk0("t", E, V), lambda x: x is at.args[0]):
        a = at.args[0]
        hi, lo = (lambda t: restrict(t, at)), (lambda t: restrict(t, b_not(at)))
        nxt = {iv: add(iv, const(1))}
        E1, V1 = subst(hi(E), nxt), subst(hi(V), nxt)
        E0, V0 = subst(lo(E), {iv: const(0)}), subst(lo(V), {iv: const(0)})
        first = [x for x in walk(mk0("t", E0, V0)) if x.op == "fresh"]
        rest = [x for x in walk(mk0("t", E1, V1)) if x.op == "fresh" and any(contains(y, lambda z: z is iv) for y in x.args[3] if isinstance(y, T))]
        if not contains(mk0("t", E1, V1), lambda x: x is a) and len(first) == len(rest) <= 4:
            from itertools import permutations

            for p in permutations(rest):
                if all(x.args[0] == y.args[0] and x.args[1] == y.args[1] for x, y in zip(first, p)):
                    m = dict(zip(first, p))
                    if subst(E0, m) is E1 and subst(V0, m) is V1:
                        E, V = E1, V1
                        break
    bv, e, b = close(iv, E, V)
    return mk0("until", bv, e, b)


class Canon:
    """Bottom-up canonicalisation; `defs` maps opaque atoms to their definitions (witness relations),
    applied to canonical atoms as they arise; `keyof` gives the key of atoms that are ciphertexts."""

    def __init__(self, defs=None, ops=None):
        self.memo = {}
        self.defs = defs or {}
        self.ops = dict(OPS)
        if ops:
            self.ops.update(ops)
        self.memo_at = {}

    def __call__(self, t):
        return self.canon(t)

    def canon(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.canon1(t)
            d = self.defs.get(r)
            if d is not None:
                r = d if self.memo.get(("d", d.id)) else self.canon(d)
            self.memo[t.id] = r
            self.memo[r.id] = r
        return r

    def canon1(self, t):
        op = t.op
        if op in ("c", "in", "const", "bv", "iv", "lv", "rng", "undef", "fndef", "acc"):
            return t
        c = self.canon
        if op == "ite":
            return ite(self.prop(t.args[0]), c(t.args[1]), c(t.args[2]))
        if op == "lin":
            r = const(t.args[0])
            for x, k in t.args[1]:
                r = padd(r, pmul(const(k), c(x)))
            return r
        if op == "imul":
            return pmul(c(t.args[0]), c(t.args[1]))
        if op == "poly":
            r = const(0)
            for m, k in t.args[0]:
                x = const(k)
                for a, e in m:
                    ca = c(a)
                    for _ in range(e):
                        x = pmul(x, ca)
                r = padd(r, x)
            return r
        if op == "grp":
            r = ZEROG
            for b, k in t.args[0]:
                r = gadd(r, gmul(c(k), c(b)))
            return r
        if op in ("gsum", "psum"):
            d, bv, b = t.args
            iv = fresh_iv()
            return bigsum(c(d), iv, c(subst(b, {bv: iv})), op[0])
        if op in ("bigsum", "bigproduct"):
            k = tclass(t.args[0])
            s = c(t.args[1])
            return self.bigop(op, k, s, t.args[0])
        if op == "fold":
            return self.fold(t)
        if op in ("call", "fresh"):
            f = self.ops.get(t.args[0])
            if op == "call":
                a = [c(x) for x in t.args[2:]]
                if f:
                    r = f(self, t.args[1], a)
                    if r is not None:
                        return r
                return mk0("call", t.args[0], t.args[1], *a)
            ivs = t.args[3]
            a = [c(x) for x in t.args[4:]]
            return mk0("fresh", t.args[0], t.args[1], t.args[2], ivs, *a)
        if op == "fld":
            return fld(c(t.args[0]), t.args[1])
        if op == "elem":
            return self.elem(c(t.args[0]), c(t.args[1]))
        if op == "seq":
            d, bv, b = t.args
            iv = fresh_iv()
            return seq(c(d), iv, c(subst(b, {bv: iv})))
        if op in ("fseq", "first"):
            d, bv, x, b = t.args
            iv = fresh_iv()
            x2, b2 = c(subst(x, {bv: iv})), c(subst(b, {bv: iv}))
            if op == "fseq":
                return fseq_(c(d), iv, x2, b2)
            return self.first(c(d), iv, x2, restrict(b2, x2) if x2.op == "ite" and b2.op == "ite" else b2)
        if op == "until":
            bv, e, b = t.args
            iv = fresh_iv()
            return unpeel(iv, self.boolc(subst(e, {bv: iv})), c(subst(b, {bv: iv})))
        if op == "exists":
            d, bv, b = t.args
            iv = fresh_iv()
            return exists(c(d), iv, self.boolc(subst(b, {bv: iv})))
        if op == "eq":
            return self.eqp(c(t.args[0]), c(t.args[1]))
        if op == "eqz":
            return self.eqp(c(t.args[0]), const(0))
        if op == "pos":
            return self.posp(c(t.args[0]))
        if op == "len":
            return self.length(c(t.args[0]))
        new = []
        for x in t.args:
            if isinstance(x, T):
                new.append(c(x))
            elif isinstance(x, tuple):
                new.append(tuple(c(y) if isinstance(y, T) else y for y in x))
            else:
                new.append(x)
        r = tm.rebuild(op, tuple(new)) if op not in ("is",) else tm.REBUILD["is"](*new)
        return r

    def boolc(self, t):
        return tobool(self.canon(t))

    def prop(self, a):
        return tobool(self.canon(a))

    def elem(self, s, i):
        return elem(s, i)

    def length(self, s):
        if s.op == "ite":
            return lift(s, self.length)
        if s.op == "call" and s.args[0] in LENGTHS:
            r = LENGTHS[s.args[0]](self, s.args[2:])
            if r is not None:
                return r
        r = length(s)
        return self.canon(r) if r.op != "len" else r

    def posp(self, p):
        if p.op == "ite":
            return lift(p, self.posp)
        if p.op == "c":
            return const(p.args[0] > 0)
        d = pol(p)
        key = sorted(((tuple((a.id, e) for a, e in m), c) for m, c in d.items() if m != ()))[0]
        if key[1] < 0:
            return b_not(atom(mk0("pos", psub(const(1), p))))
        return atom(mk0("pos", p))

    def eqp(self, a, b):
        """Equality in canonical form: the difference is zero."""
        if a is b:
            return TRUE
        if a.op == "ite" or b.op == "ite":
            at = top(a, b)
            return ite(node(at, TRUE, FALSE), self.eqp(cof(a, at, True), cof(b, at, True)), self.eqp(cof(a, at, False), cof(b, at, False)))
        if a.op == "grp" or b.op == "grp" or a.op == "gsum" or b.op == "gsum" or self.isgroup(a) or self.isgroup(b):
            d = gsub(a, b)
            return self.eq0(d, "g")
        if a.op in ("poly", "c", "psum") or b.op in ("poly", "c", "psum"):
            if (a.op == "c" and not isinstance(a.args[0], int)) or (b.op == "c" and not isinstance(b.args[0], int)):
                return tm.eq(a, b)
            if is_bool_leaf(a) or is_bool_leaf(b):
                return tm.eq(a, b)
            d = self.norm(psub(a, b))
            return self.eq0(d, "p")
        if a.op == "agg" or b.op == "agg":
            if a.op == b.op and a.args[0] == b.args[0]:
                return b_and(*[self.eqp(x, y) for x, y in zip(a.args[2:], b.args[2:])])
            if b.op == "agg":
                a, b = b, a
            if b.op != "agg" and a.args[0] in STRUCTS:
                return b_and(*[self.eqp(x, fld(b, n)) for n, x in zip(a.args[1], a.args[2:])])
            return tm.eq(a, b)
        return self.eq0(self.norm(psub(a, b)), "p") if self.isring(a) or self.isring(b) else tm.eq(a, b)

    def norm(self, d):
        f = self.ops.get("__poly__")
        return f(d) if f else d

    def isgroup(self, t):
        return t.op in ("grp", "gsum") or t.op == "call" and t.args[0] in GROUPCALLS

    def isring(self, t):
        return t.op in ("poly", "psum") or t.op == "call" and t.args[0] in RINGCALLS

    def eq0(self, d, kind):
        return eq0(d, kind)

    def first(self, d, iv, x, b):
        """The value of b in the first iteration in which x holds (there is one)."""
        if not contains(b, lambda y: y is iv):
            return b
        if b.op == "agg":
            return mk0("agg", b.args[0], b.args[1], *[self.first(d, iv, x, y) for y in b.args[2:]])
        if all(v is TRUE or v is FALSE for _, v in leaves(b)):
            y = b
            while y.op == "ite":
                y = y.args[2]
            bv2, x2, b2 = close(iv, x, b_not(b) if y is TRUE else b)
            r = atom(mk0("first", d, bv2, x2, b2))
            return b_not(r) if y is TRUE else r
        bv2, x2, b2 = close(iv, x, b)
        return mk0("first", d, bv2, x2, b2)

    # -------------------------------------------------------------- folds
    def bigop(self, op, k, s, ty):
        if op == "bigsum":
            iv = fresh_iv()
            if k in RING and k != "?":
                return self.sumseq(s, "p", ty)
            if k in GROUP:
                return self.sumseq(s, "g", ty)
        return mk0(op, ty, s)

    def sumseq(self, s, kind, ty):
        addf = gadd if kind == "g" else padd
        if s.op == "ite":
            return lift(s, lambda x: self.sumseq(x, kind, ty))
        if s.op == "cat":
            r = ZEROG if kind == "g" else const(0)
            for p in s.args:
                r = addf(r, p.args[0] if p.op == "one" else self.sumseq(p, kind, ty))
            return r
        if s.op == "agg" and s.args[0] == "array":
            r = ZEROG if kind == "g" else const(0)
            for p in s.args[2:]:
                r = addf(r, p)
            return r
        if s.op == "fseq":
            d, bv, cnd, b = s.args
            iv = fresh_iv()
            z = ZEROG if kind == "g" else const(0)
            return bigsum(d, iv, ite(subst(cnd, {bv: iv}), subst(b, {bv: iv}), z), kind)
        iv = fresh_iv()
        return bigsum(length(s), iv, elem(s, iv), kind)

    def fold(self, t):
        d, bv, acc, init, body = t.args
        c = self.canon
        d = c(d)
        if d.op == "c" and d.args[0] <= 8:
            a = c(init)
            for k in range(d.args[0]):
                a = c(subst(body, {bv: const(k), acc: a}))
            return a
        iv = fresh_iv()
        a = mk0("lv", iv, "acc")
        b = c(subst(body, {bv: iv, acc: a}))
        d, init = c(d), c(init)
        return self.fold_parts(d, iv, a, init, b)

    def fold_parts(self, d, iv, a, init, b):
        """Components of a tuple state are folded separately, mutually dependent ones jointly and in an order that
        does not depend on how the program numbers its variables."""
        if b.op != "agg" or len(b.args) < 3 or b.args[0] in ("array", "Some", "None", "Ok", "Err"):
            return self.fold_one(d, iv, a, init, b)
        n = len(b.args) - 2
        names = b.args[1] or tuple(str(k) for k in range(n))
        if any("." in x for x in names) or init.op == "agg" and (init.args[0] != b.args[0] or len(init.args) != len(b.args)) or init.op in ("undef", "ite"):
            return self.fold_one(d, iv, a, init, b)
        part = [fld(a, k) for k in names]
        cells = [mk0("lv", iv, f"part{k}") for k in range(n)]
        m = dict(zip(part, cells))
        bs = [subst(fld(b, k), m) for k in names]
        if any(contains(x, lambda y: y is a) for x in bs):
            return self.fold_one(d, iv, a, init, b)
        ins = [fld(init, k) for k in names]
        deps = {k: {i for i in range(n) if contains(bs[k], lambda y, i=i: y is cells[i])} for k in range(n)}
        reach = {k: set(deps[k]) for k in range(n)}
        for _ in range(n):
            for k in range(n):
                for x in list(reach[k]):
                    reach[k] |= reach[x]
        out = {}  # component -> function of the number of iterations
        while len(out) < n:
            k = min(k for k in range(n) if k not in out and all(x in out or k in reach[x] for x in reach[k]))
            scc = [k] + [x for x in range(n) if x != k and x in reach[k] and k in reach[x]]
            done = dict(out)
            if len(scc) == 1:

                def single(dom, k=k, done=done):
                    v = fresh_iv()
                    cell = mk0("lv", v, "part")
                    mm = {iv: v, **{cells[x]: f(v) for x, f in done.items()}}
                    mm[cells[k]] = cell
                    return self.fold_one(dom, v, cell, ins[k], self.canon(subst(bs[k], mm)))

                out[k] = single
                continue
            col = {x: show(ins[x], 60) for x in scc}
            for _ in range(3):
                cm = {iv: mk0("in", "index"), **{cells[x]: mk0("in", "cell " + col[x]) for x in scc}}
                col = {x: hashlib.sha1((col[x] + show(subst(bs[x], cm), 60)).encode()).hexdigest() for x in scc}
            scc.sort(key=lambda x: col[x])

            def joint(dom, scc=tuple(scc), done=done):
                v = fresh_iv()
                acc = mk0("lv", v, "acc")
                mm = {iv: v, **{cells[x]: f(v) for x, f in done.items()}}
                mm.update({cells[x]: fld(acc, str(q)) for q, x in enumerate(scc)})
                return tm.fold(dom, v, acc, tm.tup(*[ins[x] for x in scc]), tm.tup(*[self.canon(subst(bs[x], mm)) for x in scc]))

            for q, x in enumerate(scc):
                out[x] = lambda dom, joint=joint, q=q: fld(joint(dom), str(q))
        return mk0("agg", b.args[0], b.args[1], *[out[k](d) for k in range(n)])

    def fold_one(self, d, iv, a, init, b):
        from .vf import cat_join, flatseq, seq

        if b.op == "cat" and b.args[0] is a and not any(contains(x, lambda y: y is a) for x in b.args[1:]):
            parts = b.args[1:]
            if len(parts) == 1 and parts[0].op == "one":
                return self.canon(cat_join(init, seq(d, iv, parts[0].args[0])))
            return self.canon(cat_join(init, flatseq(d, iv, tm.mk0("cat", *parts) if len(parts) > 1 else parts[0])))
        if b is a:
            return init
        # sums: body = acc + f(i)
        for kind in ("p", "g"):
            if kind == "p" and b.op == "poly" or kind == "g" and b.op == "grp":
                rest = (psub if kind == "p" else gsub)(b, a)
                if not contains(rest, lambda x: x is a):
                    if self.canon(subst(rest, {iv: const(-1)})) is init:
                        return bigsum(padd(d, const(1)), iv, self.canon(subst(rest, {iv: psub(iv, const(1))})), kind)
                    s = bigsum(d, iv, rest, kind)
                    return (padd if kind == "p" else gadd)(init, s)
        if b.op == "ite":
            # conditional increments: acc + (if c then f else 0)
            ls = leaves(b)
            if not any(contains(cd, lambda x: x is a) for cd, _ in ls):
                for kind, sb, zero in (("p", psub, const(0)), ("g", gsub, ZEROG)):
                    ok = all((x is a) or x.op == ("poly" if kind == "p" else "grp") and not contains(sb(x, a), lambda y: y is a) for _, x in ls)
                    if ok:
                        rest = lift(b, lambda x: sb(x, a))
                        s = bigsum(d, iv, rest, kind)
                        return (padd if kind == "p" else gadd)(init, s)
        return tm.fold(d, iv, a, init, b)


def fseq_(d, iv, cnd, b):
    from .vf import fseq

    return fseq(d, iv, cnd, b)


# ------------------------------------------------------------------ operations
OPS = {}
LENGTHS = {}


def _bitslen(c, a):
    if a[0].op == "call" and a[0].args[0] == "tools::bitvec::BitVec::from_xof_reader":
        return a[0].args[3]


LENGTHS["tools::bitvec::BitVec::bits"] = _bitslen
STRUCTS = set()  # labels of plain structs (equality is componentwise)
GROUPCALLS = set()
RINGCALLS = set()


def opdef(*names):
    def d(f):
        for n in names:
            OPS[n] = f
        return f

    return d


@opdef("core::ops::Add::add")
def o_add(c, ty, a):
    k = tclass(ty)
    if k in RING:
        return padd(a[0], a[1])
    if k in GROUP:
        return gadd(a[0], a[1])


@opdef("core::ops::Sub::sub")
def o_sub(c, ty, a):
    k = tclass(ty)
    if k in RING:
        return psub(a[0], a[1])
    if k in GROUP:
        return gsub(a[0], a[1])


@opdef("core::ops::Mul::mul")
def o_mul(c, ty, a):
    k = tclass(ty)
    if k in RING:
        return pmul(a[0], a[1])
    if k in "PC":
        return gmul(a[1], a[0])
    if k == "R":
        return gadd(a[0], a[1])


@opdef("core::ops::Neg::neg")
def o_neg(c, ty, a):
    k = tclass(ty)
    if k in RING:
        return pneg(a[0])
    if k in GROUP:
        return gmul(const(-1), a[0])


@opdef("uint::secret_signed::SecretSigned::<T>::neg", "uint::public_signed::PublicSigned::<T>::neg")
def o_zneg(c, ty, a):
    return pneg(a[0])


@opdef("crypto_bigint::Square::square")
def o_square(c, ty, a):
    return pmul(a[0], a[0])


IDOPS = (
    "uint::secret_signed::SecretSigned::<T>::to_public",
    "uint::secret_signed::SecretSigned::<T>::to_wide",
    "uint::public_signed::PublicSigned::<T>::to_wide",
    "uint::secret_unsigned::SecretUnsigned::<T>::to_wide",
    "uint::secret_unsigned::SecretUnsigned::<T>::expose_secret",
    "<uint::public_uint::PublicUint<T> as core::ops::Deref>::deref",
    "<uint::public_uint::PublicUint<T> as core::convert::AsRef<T>>::as_ref",
    "core::convert::AsRef::as_ref",
    "core::ops::Deref::deref",
    "uint::public_uint::PublicUint::<T>::inner",
)


@opdef(*IDOPS)
def o_id(c, ty, a):
    return a[0]


@opdef("uint::public_signed::PublicSigned::<T>::one", "crypto_bigint::Integer::one")
def o_one(c, ty, a):
    return const(1)


@opdef("uint::public_signed::PublicSigned::<T>::zero", "uint::secret_signed::SecretSigned::<T>::zero")
def o_zero(c, ty, a):
    return const(0)


@opdef("uint::secret_signed::SecretSigned::<T>::mul_wide_public", "uint::traits::MulWide::mul_wide")
def o_mulwide(c, ty, a):
    return pmul(a[0], a[1])


# scalars and integers
def scal(c, z):
    def f(a):
        if a.op == "call" and a.args[0] == "zint":
            return a.args[2]
        return mk0("call", "scalar", "", a)

    return phom(z, f)


@opdef(
    "params::conversion::scalar_from_signed",
    "params::conversion::scalar_from_wide_signed",
    "params::conversion::secret_scalar_from_signed",
    "params::conversion::secret_scalar_from_wide_signed",
    "params::conversion::scalar_from_wide_uint",
    "params::conversion::secret_scalar_from_wide_uint",
)
def o_scalar(c, ty, a):
    return scal(c, a[0])


@opdef("params::conversion::public_signed_from_scalar", "params::conversion::secret_signed_from_scalar")
def o_zint(c, ty, a):
    return lift(a[0], lambda x: mk0("call", "zint", "", x))


G = mk0("const", "G")


@opdef("curve::arithmetic::Scalar::<P>::mul_by_generator", "tools::secret::Secret::<curve::arithmetic::Scalar<P>>::mul_by_generator")
def o_mulg(c, ty, a):
    return gmul(a[0], G)


@opdef("curve::arithmetic::Point::<P>::generator")
def o_gen(c, ty, a):
    return G


@opdef("curve::arithmetic::Point::<P>::identity")
def o_ident(c, ty, a):
    return ZEROG


# Paillier
def onepn(pk):
    return mk0("call", "1+N", "", pk)


def nu(pk, r):
    """r^N as an additive expression in the parts of the randomizer r."""
    return ghom(r, lambda x: mk0("call", "nthpow", "", pk, x))


def enc(pk, m, r):
    return gadd(gmul(m, onepn(pk)), nu(pk, r))


@opdef(
    "paillier::encryption::Ciphertext::<P>::new_with_randomizer",
    "paillier::encryption::Ciphertext::<P>::new_wide_with_randomizer",
    "paillier::encryption::Ciphertext::<P>::new_public_with_randomizer",
    "paillier::encryption::Ciphertext::<P>::new_public_wide_with_randomizer",
)
def o_enc(c, ty, a):
    return enc(a[0], a[1], a[2])


@opdef("paillier::encryption::Randomizer::<P>::to_masked")
def o_masked(c, ty, a):
    return gadd(a[1], gmul(a[2], a[0]))


def wire(x):
    return lift(x, lambda y: mk0("call", "wire", "", y))


@opdef(
    "paillier::encryption::Ciphertext::<P>::to_wire",
    "paillier::ring_pedersen::RPCommitment::<P>::to_wire",
    "paillier::ring_pedersen::RPParams::<P>::to_wire",
    "paillier::keys::PublicKeyPaillier::<P>::as_wire",
    "paillier::keys::PublicKeyPaillier::<P>::into_wire",
)
def o_wire(c, ty, a):
    return wire(a[0])


KEYOF = {}


def key_of(x):
    if x in KEYOF:
        return KEYOF[x]
    ks = set()
    for b in gparts(x):
        if b.op == "call" and b.args[0] in ("1+N", "nthpow", "rps", "rpt", "precomp"):
            ks.add(b.args[2] if b.args[0] != "precomp" else b.args[3])
        elif b in KEYOF:
            ks.add(KEYOF[b])
        elif b.op == "gsum":
            k = key_of(b.args[2])
            ks.add(k)
        else:
            ks.add(None)
    if len(ks) == 1:
        return ks.pop()
    return None


@opdef("paillier::encryption::CiphertextWire::<P>::to_precomputed", "paillier::ring_pedersen::RPCommitmentWire::<P>::to_precomputed")
def o_precomp(c, ty, a):
    def f(x):
        if x.op == "call" and x.args[0] == "wire" and key_of(x.args[2]) is a[1]:
            return x.args[2]
        return mk0("call", "precomp", "", x, a[1])

    return lift(a[0], f)


@opdef("paillier::encryption::Ciphertext::<P>::public_key")
def o_pk(c, ty, a):
    k = key_of(a[0])
    if k is not None:
        return k


# ring-Pedersen
def rps(s):
    return mk0("call", "rps", "", s)


def rpt(s):
    return mk0("call", "rpt", "", s)


@opdef("paillier::ring_pedersen::RPParams::<P>::commit")
def o_commit(c, ty, a):
    return gadd(gmul(a[1], rps(a[0])), gmul(a[2], rpt(a[0])))


@opdef("paillier::ring_pedersen::RPParams::<P>::commit_zero_value")
def o_commit0(c, ty, a):
    return gmul(a[1], rpt(a[0]))


@opdef("paillier::ring_pedersen::RPParams::<P>::commit_zero_randomizer")
def o_commit1(c, ty, a):
    return gmul(a[1], rps(a[0]))


@opdef("paillier::ring_pedersen::RPCommitment::<P>::pow")
def o_rpow(c, ty, a):
    return gmul(a[1], a[0])


GROUPCALLS |= {"precomp", "1+N", "nthpow", "rps", "rpt"}
RINGCALLS |= {"scalar", "zint"}
