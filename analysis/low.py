"""Canonical forms and contracts for the layers below the proof systems.

A contract states, independently of the code, what a function returns (per component), when it
returns nothing, and when it panics, as canonical terms over its arguments by position. The function
is analysed with everything local followed, both sides are brought to canonical form, and they must
agree on every path that is consistent with linear integer arithmetic and a few facts about bit lengths.
"""
import re
from fractions import Fraction
from .terms import *
from . import terms as tm
from .alg import Canon, padd, psub, pmul, pneg, gadd, gsub, gmul, pol, mkpoly, eq0, bigsum, ZEROG, G, STRUCTS
from .obligations import Ob
from .vf import VF, Unsupported

CB = "crypto_bigint::"
# calls that give something other than a number
BYTECALLS = {"be", "subslice", "limbs", "limbslo"}
LOPS = {}
# constants of the scalar type (their values are checked by the contracts of these items)
SCALARCONST = {"curve::arithmetic::Scalar::<P>::ZERO[P]": 0, "curve::arithmetic::Scalar::<P>::ONE[P]": 1}


def lop(*names):
    def d(f):
        for n in names:
            LOPS[n] = f
        return f

    return d


def call(name, ty, *a):
    return mk0("call", name, ty, *a)


def bits_of(ty):
    """Number of bits of an integer type, as a symbolic constant."""
    if ty.startswith("crypto_bigint::Uint<"):
        return mul(const(64), ws(ty[len("crypto_bigint::Uint<") : -1]))
    return mk0("const", f"<{ty} as crypto_bigint::Bounded>::BITS")


def bytes_of(ty):
    if ty.startswith("crypto_bigint::Uint<"):
        return mul(const(8), ws(ty[len("crypto_bigint::Uint<") : -1]))
    return mk0("const", f"<{ty} as crypto_bigint::Bounded>::BYTES")


def ws(s):
    return const(int(s)) if s.isdigit() else mk0("const", s)


def pow2(e):
    if e.op == "ite":
        return lift(e, pow2)
    if e.op == "c":
        return const(1 << e.args[0])
    return call("pow2", "", e)


def group_type(ty):
    return "Point" in ty or ty.endswith("::Ciphertext")


def strip_pow2(p):
    """A single monomial without its powers of two (zero exactly when the monomial is)."""
    d = pol(p)
    if len(d) != 1 or () in d:
        return p
    (m, k), = d.items()
    return mkpoly({tuple((a, 1) for a, e in m if not (a.op == "call" and a.args[0] == "pow2")): 1})


def unretrieve(p):
    """Two residues of one type are the same exactly when their representatives are."""
    d = pol(p)
    if len(d) == 2 and sorted(d.values()) == [-1, 1] and all(len(m) == 1 and m[0][1] == 1 and m[0][0].op == "call" and m[0][0].args[0].endswith("::Retrieve::retrieve") for m in d):
        (a, _), = [m for m, k in d.items() if k == 1][0]
        (b, _), = [m for m, k in d.items() if k == -1][0]
        if a.args[:2] == b.args[:2]:
            return psub(a.args[-1], b.args[-1])
    return p


class LowCanon(Canon):
    def __init__(self, defs=None, ops=None, base=None):
        super().__init__(defs, None)
        self.ops = dict(LOPS if base is None else base)
        if ops:
            self.ops.update(ops)
        self.fresh_no = {}

    def isring(self, t):
        return t.op in ("in", "fld", "poly", "psum", "pow", "pinv", "fresh", "call") and not (t.op == "call" and t.args[0] in BYTECALLS)

    # naturals: every compared machine integer is non-negative
    def posp(self, p):
        if p.op == "ite":
            return lift(p, self.posp)
        if p.op == "c":
            return const(p.args[0] > 0)
        d = pol(p)
        if all(c > 0 for m, c in d.items() if m != ()) and d.get((), 0) >= 1:
            return TRUE
        if all(c < 0 for m, c in d.items() if m != ()) and d.get((), 0) <= 0:
            return FALSE
        # two's complement: bits(x) >= BITS is the sign bit
        return super().posp(p)

    def canon1(self, t):
        if t.op == "const" and t.args[0] in SCALARCONST:
            return agg("curve::arithmetic::Scalar", ("0",), [const(SCALARCONST[t.args[0]])])
        if t.op == "const":
            return self.constant(t)
        if t.op == "call":
            a = [self.canon(x) for x in t.args[2:]]
            return self.lifted(t.args[0], t.args[1], a)
        if t.op == "fresh":
            a = tuple(self.canon(x) for x in t.args[4:])
            return mk0("fresh", t.args[0], t.args[1], t.args[2], t.args[3], *a)
        if t.op == "imin":
            xs = [self.canon(x) for x in t.args]
            r = xs[0]
            for x in xs[1:]:
                r = imin(r, x)
            return r
        if t.op == "less":
            return self.less(self.canon(t.args[0]), self.canon(t.args[1]))
        if t.op == "iszero":
            x = self.canon(t.args[0])
            return lift(x, self.iszero)
        if t.op == "bin":
            return self.bin(t.args[0], self.canon(t.args[1]), self.canon(t.args[2]))
        if t.op == "updrange":
            return updrange(self.canon(t.args[0]), self.canon(t.args[1]), self.canon(t.args[2]), self.length)
        if t.op == "overwrite":
            b, x = self.canon(t.args[0]), self.canon(t.args[1])
            return x if self.length(b) is self.length(x) else mk0("overwrite", b, x)
        if t.op == "updix":
            return updix(*[self.canon(x) for x in t.args])
        if t.op == "upd" and t.args[0].endswith("XofReader::read"):
            # the whole buffer is overwritten: only its length matters
            b = self.canon(t.args[3])
            while b.op == "upd" and b.args[0] == t.args[0] and b.args[1] == 1:
                b = b.args[3]
            return mk0("upd", t.args[0], t.args[1], self.canon(t.args[2]), b)
        if t.op in ("psum", "gsum", "seq") and self.canon(t.args[0]) is const(0):
            return {"psum": const(0), "gsum": ZEROG, "seq": cat([])}[t.op]
        if t.op == "cat":
            r = super().canon1(t)
            if r.op == "one":
                return agg("array", ("0",), [r.args[0]])
            if r.op == "cat" and r.args and all(p.op == "one" for p in r.args):
                return agg("array", tuple(str(i) for i in range(len(r.args))), [p.args[0] for p in r.args])
            return r
        if t.op == "with":
            x, v = self.canon(t.args[0]), self.canon(t.args[2])
            if v is self.canon(fld(x, t.args[1])):
                return x
        if t.op == "fld" and t.args[1] == "0":
            x = self.canon(t.args[0])
            if x.op == "agg" and x is not t.args[0] and fld(x, "0") is not t:
                return self.canon(fld(x, "0"))
            if x.op in ("psum", "gsum"):
                iv = fresh_iv()
                return bigsum(x.args[0], iv, self.canon(fld(subst(x.args[2], {x.args[1]: iv}), "0")), x.op[0])
        if t.op == "fold":
            r = self.chunks(t)
            if r is not None:
                return r
        return super().canon1(t)

    def chunks(self, t):
        """A loop that overwrites consecutive equal chunks of a buffer of exactly that length."""
        d, bv, a, init, body = t.args
        d = self.canon(d)
        iv = fresh_iv()
        body = self.canon(subst(body, {bv: iv}))
        init = self.canon(init)
        if body.op != "updrange" or body.args[0] is not a or body.args[1].op != "agg" or contains(body.args[2], lambda x: x is a):
            return None
        lo, hi, v = self.canon(body.args[1].args[2]), self.canon(body.args[1].args[3]), body.args[2]
        w = psub(hi, lo)
        n = self.length(init)
        if w.op != "c" or n is not pmul(w, d) or self.length(v) is not w:
            return None
        if lo is psub(n, pmul(w, padd(iv, const(1)))):  # from the end
            v = self.canon(subst(v, {iv: psub(psub(d, const(1)), iv)}))
        elif lo is not pmul(w, iv):
            return None
        if v.op == "call" and v.args[0] == "be" and v.args[3] is const(8):
            x = v.args[2]
            if x.op == "elem" and x.args[0].op == "call" and x.args[0].args[0] == "limbs" and x.args[1] is psub(psub(d, const(1)), iv) and self.length(x.args[0]) is d:
                return be(x.args[0].args[2], n)
        bv, v = close(iv, v)
        return mk0("catseq", d, bv, v)

    def iszero(self, x):
        if x.op == "c":
            return const(x.args[0] == 0)
        if x.op == "call" and x.args[0] == "mask_high":  # x & -(2^e)
            return self.posp(psub(padd(x.args[3], const(1)), bitlen(x.args[2])))
        return self.eq0(x, "p")

    def lifted(self, name, ty, a):
        for k, x in enumerate(a):
            if x.op == "ite" and name not in ("core::ops::Mul::mul",):
                return lift(x, lambda y: self.lifted(name, ty, a[:k] + [y] + a[k + 1 :]))
        f = self.ops.get(name)
        if f:
            r = f(self, ty, a)
            if r is not None:
                return r
        return mk0("call", name, ty, *a)

    def eq0(self, d, kind):
        if d.op == "ite":
            return lift(d, lambda x: self.eq0(x, kind))
        if kind == "p":
            d = unretrieve(strip_pow2(d))
        return eq0(d, kind)

    def less(self, a, b):
        # x < 2^k in terms of the number of bits of x
        if a.op == "ite":
            return lift(a, lambda x: self.less(x, b))
        if b.op == "ite":
            return lift(b, lambda x: self.less(a, x))
        p2 = lambda x: x.op == "call" and x.args[0] == "pow2"
        if p2(b) and not p2(a):
            return self.posp(padd(psub(b.args[2], bitlen(a)), const(1)))
        if p2(a) and not p2(b):
            return b_and(self.posp(psub(bitlen(b), a.args[2])), b_not(self.eq0(psub(b, a), "p")))
        return atom(mk0("less", a, b))

    def bin(self, op, a, b):
        if op == "Shl" and a is const(1):
            return pow2(b)
        if op == "Shr" and a.op == "c" and (a.args[0] + 1) & a.args[0] == 0:
            n = a.args[0].bit_length()
            return psub(pow2(psub(const(n), b)), const(1))
        if op == "BitAnd":
            for x, m in ((a, b), (b, a)):
                k = maskbits(m)
                if k is not None:
                    # a byte has 8 bits
                    return x if k is const(8) else lowbits(x, k)
        if op == "Div":
            from .models import ediv

            if a.op in ("poly", "lin", "c") or True:
                d = pol(a) if a.op != "ite" else None
                if d is not None and b.op == "c":
                    k = b.args[0]
                    if all(v % k == 0 for v in d.values()):
                        return mkpoly({m: v // k for m, v in d.items()})
        if a.op == "ite":
            return lift(a, lambda x: self.bin(op, x, b))
        if b.op == "ite":
            return lift(b, lambda x: self.bin(op, a, x))
        return mk0("bin", op, a, b)

    def constant(self, t):
        s = t.args[0]
        m = None
        if s.startswith("crypto_bigint::Uint::<LIMBS>::"):
            nm, _, w = s[len("crypto_bigint::Uint::<LIMBS>::") :].partition("[")
            w = ws(w.rstrip("]"))
            if nm == "BITS":
                return self.canon(mul(const(64), w))
            if nm == "BYTES":
                return self.canon(mul(const(8), w))
            if nm == "ZERO":
                return const(0)
            if nm == "ONE":
                return const(1)
            if nm == "LIMBS":
                return w
        if s in ("crypto_bigint::Limb::BYTES",):
            return const(8)
        if s in ("crypto_bigint::Limb::BITS",):
            return const(64)
        if s.startswith("<crypto_bigint::Uint<"):
            ty = s[1 : s.index(" as ")]
            if s.endswith("::BITS"):
                return self.canon(bits_of(ty))
            if s.endswith("::BYTES"):
                return self.canon(bytes_of(ty))
        if s.endswith((" as crypto_bigint::Constants>::ONE", " as elliptic_curve::Field>::ONE")):
            return const(1)
        if s.endswith((" as crypto_bigint::Constants>::ZERO", " as elliptic_curve::Field>::ZERO")):
            return const(0)
        return t

    def length(self, s):
        if s.op == "ite":
            return lift(s, self.length)
        if s.op == "upd" and s.args[0].endswith("XofReader::read") and s.args[1] == 1:
            return self.length(s.args[3])
        if s.op in ("updrange", "updix", "overwrite"):
            return self.length(s.args[0])
        if s.op in ("cat",):
            r = const(0)
            for p in s.args:
                r = padd(r, const(1) if p.op == "one" else self.length(p))
            return r
        if s.op == "call" and s.args[0] == "be":
            return self.canon(s.args[3])
        if s.op == "subslice_":
            return psub(s.args[2], s.args[1])
        r = length(s)
        if r.op == "len":
            x = r.args[0]
            if x.op == "call" and x.args[0] == "be":
                return x.args[3]
            return r
        return self.canon(r)


# ------------------------------------------------------------------ sequences of bytes
def updrange(b, r, v, length=length):
    """b with the range r overwritten by v (which has that length), as a concatenation."""
    if b.op == "ite":
        return lift(b, lambda x: updrange(x, r, v, length))
    if v.op == "ite":
        return lift(v, lambda x: updrange(b, r, x, length))
    if r.op == "agg" and b.op == "repeat":
        lo, hi = r.args[2], r.args[3]
        n = b.args[1]
        parts = []
        if lo is not const(0):
            parts.append(mk0("repeat", b.args[0], lo))
        parts.append(v)
        if hi is not n:
            parts.append(mk0("repeat", b.args[0], psub(n, hi)))
        return cat(parts) if len(parts) > 1 else v
    if r.op == "agg" and b.op == "cat":
        # replaces exactly a suffix made of whole parts
        lo, hi = r.args[2], r.args[3]
        at = const(0)
        for k, p in enumerate(b.args):
            if at is lo:
                end = at
                for j in range(k, len(b.args)):
                    q = b.args[j]
                    end = padd(end, const(1) if q.op == "one" else length(q))
                    if end is hi:
                        return cat(list(b.args[:k]) + [v] + list(b.args[j + 1 :]))
                break
            at = padd(at, const(1) if p.op == "one" else length(p))
    return mk0("updrange", b, r, v)


def updix(b, i, v):
    """b with element i replaced by v."""
    if b.op == "ite":
        return lift(b, lambda x: updix(x, i, v))
    if v.op == "ite":
        return lift(v, lambda x: updix(b, i, x))
    if v.op == "elem" and v.args[0] is b and v.args[1] is i:
        return b
    return mk0("updix", b, i, v)


def maskbits(m):
    """k when m = 2^k - 1."""
    if m.op == "c" and isinstance(m.args[0], int) and m.args[0] & (m.args[0] + 1) == 0:
        return const(m.args[0].bit_length())
    if m.op == "const" and m.args[0].endswith("<impl u8>::MAX"):
        return const(8)
    if m.op == "poly":
        p = padd(m, const(1))
        if p.op == "call" and p.args[0] == "pow2":
            return p.args[2]


def lowbits(x, k):
    if x.op == "ite":
        return lift(x, lambda y: lowbits(y, k))
    return call("lowbits", "", x, k)


def beint(x):
    """The integer with the given big-endian bytes."""
    if x.op == "ite":
        return lift(x, beint)
    if x.op == "cat" and x.args[0].op == "repeat" and x.args[0].args[0] is const(0) and len(x.args) >= 2:
        rest = x.args[1:]
        return beint(rest[0] if len(rest) == 1 else cat(list(rest)))
    if x.op == "repeat" and x.args[0] is const(0):
        return const(0)
    if x.op == "call" and x.args[0] == "be":
        return x.args[2]
    return call("beint", "", x)


def be(x, n):
    """The n big-endian bytes of x (< 256^n)."""
    if x.op == "ite":
        return lift(x, lambda y: be(y, n))
    if x is const(0):
        return mk0("repeat", const(0), n)
    return call("be", "", x, n)


def bitlen(x):
    if x.op == "ite":
        return lift(x, bitlen)
    if x.op == "c" and isinstance(x.args[0], int) and x.args[0] >= 0:
        return const(x.args[0].bit_length())
    if x.op == "call" and x.args[0] == "zext":
        return bitlen(x.args[2])
    return call("bits", "", x)


def negsign(ty, x):
    """The sign bit of a two's complement value."""
    if x.op == "ite":
        return lift(x, lambda y: negsign(ty, y))
    if x.op == "c":
        return const(x.args[0] < 0)
    return atom(mk0("neg", bits_of(ty), x))


def sabs(ty, x):
    return ite(negsign(ty, x), pneg(x), x)


@lop("subslice")
def l_subslice(c, ty, a):
    x, r = a
    if r.op != "agg":
        return None
    lo, hi = c.canon(r.args[2]), c.canon(r.args[3])
    n = c.length(x)
    if lo is const(0) and hi is n:
        return x
    if x.op == "repeat":
        return mk0("repeat", x.args[0], psub(hi, lo))
    if x.op == "cat":
        at, parts, on = const(0), [], False
        for p in x.args:
            if at is lo:
                on = True
            if at is hi and on:
                break
            if on:
                parts.append(p)
            at = padd(at, const(1) if p.op == "one" else c.length(p))
        if on and at is hi:
            return cat(parts) if parts else mk0("repeat", const(0), const(0))
    if x.op == "call" and x.args[0] == "limbs" and lo is const(0):
        return mk0("call", "limbslo", "", x.args[2], hi)
    if x.op == "call" and x.args[0] == "be" and hi is n:
        # the low bytes
        return call("below", "", x.args[2], psub(hi, lo))
    return call("subslice", "", x, tup(lo, hi))


@lop("unlimbs")
def l_unlimbs(c, ty, a):
    x = a[0]
    if x.op == "call" and x.args[0] == "limbs":
        return x.args[2]
    if x.op == "call" and x.args[0] == "limbslo":
        return call("low", "", x.args[2], mul(const(64), x.args[3]))
    if x.op == "cat":
        # little-endian pieces
        at = const(0)
        r = const(0)
        for p in x.args:
            if p.op == "repeat" and p.args[0] is const(0):
                pass
            elif p.op == "call" and p.args[0] == "limbs":
                r = padd(r, pmul(p.args[2], pow2(pmul(const(64), at))))
            else:
                return None
            at = padd(at, c.length(p))
        return r
    if x.op == "repeat" and x.args[0] is const(0):
        return const(0)


@lop(CB + "Uint::<LIMBS>::split_mul", CB + "uint::mul::<impl crypto_bigint::Uint<LIMBS>>::split_mul")
def l_splitmul(c, ty, a):
    # (lo, hi) with lo + hi*2^BITS(lo) = a*b
    return tup(call("mullo", "", a[0], a[1]), call("mulhi", "", a[0], a[1]))


# ring operations
@lop("core::ops::Add::add", CB + "WrappingAdd::wrapping_add", "curve::arithmetic::Scalar::<P>::add")
def l_add(c, ty, a):
    return gadd(a[0], a[1]) if group_type(ty) else padd(a[0], a[1])


@lop("core::ops::Sub::sub", CB + "WrappingSub::wrapping_sub")
def l_sub(c, ty, a):
    return gsub(a[0], a[1]) if group_type(ty) else psub(a[0], a[1])


@lop("core::ops::Mul::mul", CB + "WrappingMul::wrapping_mul")
def l_mul(c, ty, a):
    if group_type(ty):
        return gmul(a[1], a[0])
    return pmul(a[0], a[1])


@lop("core::ops::Neg::neg", CB + "WrappingNeg::wrapping_neg")
def l_neg(c, ty, a):
    return gmul(const(-1), a[0]) if group_type(ty) else pneg(a[0])


@lop(CB + "Square::square", "elliptic_curve::Field::square")
def l_sq(c, ty, a):
    return pmul(a[0], a[0])


@lop(CB + "Zero::zero", CB + "Zero::zero_like")
def l_zero(c, ty, a):
    return const(0)


@lop(CB + "Integer::one", CB + "Integer::one_like")
def l_one(c, ty, a):
    return const(1)


@lop("elliptic_curve::Group::identity")
def l_ident(c, ty, a):
    return ZEROG


@lop("elliptic_curve::Group::generator")
def l_gen(c, ty, a):
    return G


@lop(CB + "BitOps::bits", CB + "BitOps::bits_vartime", CB + "uint::bits::<impl crypto_bigint::Uint<LIMBS>>::bits_vartime", CB + "uint::bits::<impl crypto_bigint::Uint<LIMBS>>::bits")
def l_bits(c, ty, a):
    return bitlen(a[0])


@lop(CB + "BitOps::bit_vartime")
def l_bit(c, ty, a):
    if psub(c.canon(bits_of(ty)), a[1]) is const(1):
        return negsign_c(c, ty, a[0])
    return None


def negsign_c(c, ty, x):
    if x.op == "ite":
        return lift(x, lambda y: negsign_c(c, ty, y))
    if x.op == "c":
        return const(x.args[0] < 0)
    return atom(mk0("neg", c.canon(bits_of(ty)), x))


@lop(CB + "BitOps::bit")
def l_bitc(c, ty, a):
    return l_bit(c, ty, a)


@lop(CB + "WrappingShl::wrapping_shl", CB + "ShlVartime::wrapping_shl_vartime", "core::ops::Shl::shl")
def l_shl(c, ty, a):
    return pmul(a[0], pow2(a[1]))


@lop(CB + "ShlVartime::overflowing_shl_vartime")
def l_oshl(c, ty, a):
    return ite(c.posp(psub(c.canon(bits_of(ty)), a[1])), some(pmul(a[0], pow2(a[1]))), NONE)


@lop(CB + "ShrVartime::wrapping_shr_vartime", CB + "WrappingShr::wrapping_shr", "core::ops::Shr::shr")
def l_shr(c, ty, a):
    return call("shr", "", a[0], a[1])


@lop(CB + "CheckedSub::checked_sub")
def l_csub(c, ty, a):
    if a[1] is const(1):
        return ite(b_not(c.iszero(a[0])), some(psub(a[0], a[1])), NONE)
    return ite(b_not(c.less(a[0], a[1])), some(psub(a[0], a[1])), NONE)


@lop(CB + "CheckedAdd::checked_add")
def l_cadd(c, ty, a):
    x, y = sorted(a, key=lambda t: t.id)
    return ite(atom(mk0("nooverflow", x, y)), some(padd(a[0], a[1])), NONE)


@lop("core::ops::BitAnd::bitand")
def l_and(c, ty, a):
    # x & -(2^e)
    for x, m in ((a[0], a[1]), (a[1], a[0])):
        d = pol(m) if m.op == "poly" else None
        if d is not None and len(d) == 1:
            (mon, k), = d.items()
            if k == -1 and len(mon) == 1 and mon[0][1] == 1 and mon[0][0].op == "call" and mon[0][0].args[0] == "pow2":
                return call("mask_high", "", x, mon[0][0].args[2])
    x, y = sorted(a, key=lambda t: t.id)
    return call("and", "", x, y)


@lop("core::ops::Rem::rem")
def l_rem(c, ty, a):
    return call("mod", "", a[0], a[1])


@lop(CB + "Encoding::to_be_bytes", CB + "Limb::to_be_bytes", "elliptic_curve::crypto_bigint::Encoding::to_be_bytes")
def l_etobe(c, ty, a):
    if ty == "crypto_bigint::Limb":
        return be(a[0], const(8))
    if ty:
        return be(a[0], c.canon(bytes_of(ty)))


@lop(CB + "uint::encoding::<impl crypto_bigint::Uint<LIMBS>>::from_be_slice", CB + "Uint::<LIMBS>::from_be_slice")
def l_fromslice(c, ty, a):
    return beint(a[0])


@lop("uint::traits::BoxedEncoding::to_be_bytes")
def l_tobe(c, ty, a):
    return be(a[0], c.canon(bytes_of(ty)))


@lop("uint::traits::BoxedEncoding::try_from_be_bytes")
def l_frombe(c, ty, a):
    return ite(c.eqp(c.length(a[0]), c.canon(bytes_of(ty))), ok(beint(a[0])), err(mk0("c", "encoding")))


@lop("uint::traits::Extendable::to_wide")
def l_towide(c, ty, a):
    return call("zext", "", a[0]) if a[0].op != "c" else a[0]


@lop("uint::traits::MulWide::mul_wide")
def l_mulwide(c, ty, a):
    z = lambda x: x if x.op == "c" else call("zext", "", x)
    return pmul(z(a[0]), z(a[1]))


@lop("elliptic_curve::PrimeField::from_repr_vartime")
def l_fromrepr(c, ty, a):
    return call("elliptic_curve::PrimeField::from_repr", ty, *a)


@lop("into")
def l_into(c, ty, a):
    return a[0]


STRUCTS |= set()
# ------------------------------------------------------------------ theory
def linear(p):
    """(coefficients over monomials, constant) of a polynomial."""
    d = dict(pol(p))
    k = d.pop((), 0)
    return d, k


def feasible(ineqs):
    """Is the conjunction of  sum c_i x_i + k >= 0  (x_i >= 0) feasible over the rationals?"""
    sys_ = []
    vs = set()
    for d, k in ineqs:
        vs |= set(d)
        sys_.append((dict(d), Fraction(k)))
    for v in vs:
        sys_.append(({v: 1}, Fraction(0)))
    vs = sorted(vs, key=lambda m: tuple((a.id, e) for a, e in m))
    for v in vs:
        lo, hi, rest = [], [], []
        for d, k in sys_:
            c = d.get(v, 0)
            if c > 0:
                lo.append((d, k, c))
            elif c < 0:
                hi.append((d, k, -c))
            else:
                rest.append((d, k))
        if len(lo) * len(hi) > 4000:
            return True
        for d1, k1, c1 in lo:
            for d2, k2, c2 in hi:
                d = {}
                for x, c in d1.items():
                    if x is not v and x != v:
                        d[x] = d.get(x, 0) + Fraction(c) / c1
                for x, c in d2.items():
                    if x != v:
                        d[x] = d.get(x, 0) + Fraction(c) / c2
                d = {x: c for x, c in d.items() if c}
                k = Fraction(k1) / c1 + Fraction(k2) / c2
                if not d:
                    if k < 0:
                        return False
                else:
                    rest.append((d, k))
        # dedupe
        seen = {}
        for d, k in rest:
            key = tuple(sorted(((m, c) for m, c in d.items()), key=lambda x: tuple((a.id, e) for a, e in x[0])))
            key = tuple((tuple((a.id, e) for a, e in m), c) for m, c in key)
            if key not in seen or k < seen[key][1]:
                seen[key] = (d, k)
        sys_ = list(seen.values())
    return all(k >= 0 for d, k in sys_ if not d)


def consistent(lits, nat=lambda m: True):
    """Can these literals hold together? False only when provably not."""
    ineqs = []
    atoms = {}

    def note(p):
        for m, c in pol(p).items():
            for a, e in m:
                atoms[a] = 1

    eqs, neqs = [], []
    for a, v in lits:
        if a.op == "pos":
            d, k = linear(a.args[0])
            note(a.args[0])
            if v:
                ineqs.append((d, k - 1))
            else:
                ineqs.append(({m: -c for m, c in d.items()}, -k))
        elif a.op == "zero" and a.args[0] == "p":
            x = a.args[1]
            if machine(x):
                note(x)
                if v:
                    d, k = linear(x)
                    ineqs.append((d, k))
                    ineqs.append(({m: -c for m, c in d.items()}, -k))
                else:
                    neqs.append(linear(x))
            atoms[call("bits", "", x)] = atoms.get(call("bits", "", x), 0)
            if v:
                eqs.append((x, True))
            else:
                eqs.append((x, False))
        elif a.op == "neg":
            B, x = a.args
            b = bitlen(x)
            note(b)
            note(B)
            d, k = linear(psub(b, B))
            if v:  # sign bit set: all bits in use
                ineqs.append((d, k))
                ineqs.append(({m: -c for m, c in d.items()}, -k))
            else:
                ineqs.append(({m: -c for m, c in d.items()}, -k - 1))
    for x, z in eqs:
        b = call("bits", "", x)
        nb = call("bits", "", pneg(x))
        for y in (b, nb):
            if y in atoms:
                m = ((y, 1),)
                ineqs.append(({m: -1}, 0) if z else ({m: 1}, -1))
    for a, v in lits:
        # a negated number below the sign bit has the sign bit set unless it is zero
        if a.op == "neg" and not v:
            B, y = a.args
            x = pneg(y)
            bx = bitlen(x)
            d, k = linear(psub(bx, B))
            note(bx)
            note(B)
            for q in list(atoms):
                bitfacts(q, ineqs)
            if not feasible(ineqs + [(d, k)]):
                by = call("bits", "", y)
                ineqs.append(({((by, 1),): -1}, 0))
    for a in list(atoms):
        m = ((a, 1),)
        bitfacts(a, ineqs)
        if a.op == "bin" and a.args[0] in ("Div", "Rem") and a.args[2].op == "c":
            k = a.args[2].args[0]
            if a.args[0] == "Div":
                d, c0 = linear(a.args[1])
                ineqs.append(({**d, m: d.get(m, 0) - k}, c0))
                ineqs.append(({**{x: -c for x, c in d.items()}, m: k}, -c0 + k - 1))
            else:
                ineqs.append(({m: -1}, k - 1))
        if a.op == "call" and a.args[0] == "pow2":
            ineqs.append(({m: 1}, -1))
        if a.op == "imin":
            for x in a.args:
                d, c0 = linear(x)
                ineqs.append(({**d, m: d.get(m, 0) - 1}, c0))
        if a.op == "const" and a.args[0].endswith("::BITS"):
            ineqs.append(({m: 1}, -64))
    if not feasible(ineqs):
        return False
    for d, k in neqs:
        # x != 0 is contradictory when x = 0 is forced
        if not feasible(ineqs + [(d, k - 1)]) and not feasible(ineqs + [({m: -c for m, c in d.items()}, -k - 1)]):
            return False
    return True


def bitfacts(a, ineqs):
    """bits(x*y) <= bits(x) + bits(y)"""
    if a.op == "call" and a.args[0] == "bits":
        d = pol(a.args[2])
        if len(d) == 1 and () not in d:
            (mon, k), = d.items()
            if k == 1 and (len(mon) > 1 or mon[0][1] > 1):
                tot = const(0)
                for x, e in mon:
                    for _ in range(e):
                        tot = padd(tot, bitlen(x) if not (x.op == "call" and x.args[0] == "pow2") else x.args[2])
                dd, kk = linear(tot)
                m = ((a, 1),)
                ineqs.append(({**dd, m: dd.get(m, 0) - 1}, kk))


def machine(p):
    """Only machine-integer atoms (equalities are equalities of integers, not residues)."""
    for m in pol(p):
        for a, e in m:
            if not (a.op in ("const", "len", "imin", "bin") or a.op == "call" and a.args[0] in ("bits",) or a.op == "fld" and a.args[1] == "bound"
                    or a.op == "in" and a.args[0].startswith("n:")):
                return False
    return True


def disagreement(C, a, b, care=TRUE, lits=(), budget=None):
    """None when a and b agree on every consistent path of care, else a description of a path."""
    budget = budget if budget is not None else [20000]
    budget[0] -= 1
    if budget[0] < 0:
        return "too many paths to compare"
    if a is b or care is FALSE:
        return None
    tops = [t for t in (a, b, care) if t.op == "ite"]
    if tops:
        at = top(*tops)
        for v in (True, False):
            l2 = lits + ((at, v),)
            ca = cof(care, at, v)
            if ca is FALSE:
                continue
            xa, xb = cof(a, at, v), cof(b, at, v)
            if xa is xb:
                continue
            if not consistent(l2):
                continue
            xa, xb, ca = decide(C, xa, at, v), decide(C, xb, at, v), decide(C, ca, at, v)
            if xa is xb or ca is FALSE:
                continue
            r = disagreement(C, xa, xb, ca, l2, budget)
            if r is not None:
                return r
        return None
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        for n, x, y in zip(a.args[1] or [str(i) for i in range(len(a.args) - 2)], a.args[2:], b.args[2:]):
            r = disagreement(C, x, y, care, lits, budget)
            if r is not None:
                return f"{n}: {r}"
        return None
    if not (is_bool_leaf(a) or is_bool_leaf(b)):
        e = C.eqp(a, b)
        if e is TRUE:
            return None
        if e.op == "ite" and implied(e, lits):
            return None
    if not consistent(lits):
        return None
    at = undecided(a) or undecided(b)
    if at is not None:
        for v in (True, False):
            l2 = lits + ((at, v),)
            ca = cof_atom(care, at, v)
            if ca is FALSE or not consistent(l2):
                continue
            r = disagreement(C, decide(C, a, at, v), decide(C, b, at, v), decide(C, ca, at, v), l2, budget)
            if r is not None:
                return r
        return None
    where = "; ".join(("" if v else "not ") + show(x, 6) for x, v in lits[-6:])
    return f"found {show(a, 10)}, prescribed {show(b, 10)}" + (f" when {where}" if where else "")


def decide(C, t, at, v):
    """t where the proposition `at` is known, also inside of arguments; an empty sum is zero."""
    m = {}
    if contains(t, lambda x: x is at):
        m[at] = TRUE if v else FALSE
    if v and at.op == "zero" and at.args[0] == "p":
        d = pol(at.args[1])
        ms = [k for k in d if k]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1 and abs(d[ms[0]]) == 1:
            x = ms[0][0][0]
            if (x.op == "in" and x.args[0].startswith("n:") or x.op == "len") and contains(t, lambda y: y is x):
                m[x] = const(-d.get((), 0) * d[ms[0]])
    if at.op == "pos" and not v:
        for x in walk(t):
            if x.op in ("psum", "gsum") and atom_of_pos(x.args[0]) is at:
                m[x] = const(0) if x.op == "psum" else ZEROG
    return C(subst(t, m)) if m else t


def atom_of_pos(d):
    p = pos(d)
    return p.args[0] if p.op == "ite" and p.args[1] is TRUE else None


def undecided(t):
    """A condition inside of an argument of an operation."""
    for x in walk(t):
        if x.op == "ite" and not contains(x.args[0], lambda y: y.op in ("bv", "acc", "iv")):
            return x.args[0]
    return None


def implied(e, lits):
    """Does the conjunction of literals imply the proposition?"""
    ls = lits
    f = e
    for at, v in lits:
        f = cof_atom(f, at, v)
    if f is TRUE:
        return True
    return False


def cof_atom(f, at, v):
    return restrict(f, node(at, TRUE, FALSE) if v else node(at, FALSE, TRUE)) if f.op == "ite" else f


# ------------------------------------------------------------------ contracts
class Contract:
    """`leaf`: functions (regular expressions on their path) that are taken as given in this contract."""

    def __init__(self, props, path, spec, optional=False, leaf=()):
        self.props = (props,) if isinstance(props, str) else tuple(props)
        self.path, self.spec, self.optional, self.leaf = path, spec, optional, tuple(leaf)


def leaves_of(pats):
    pats = [re.compile(p) for p in pats]

    def leaf(info):
        for p in pats:
            if p.fullmatch(info.rpath or info.path) or p.fullmatch(info.path):
                return info.path
        return None

    return leaf


class Book(list):
    """Contracts of one layer, written as decorated functions."""

    def __call__(self, props, path, optional=False, leaf=()):
        def d(f):
            for p in [path] if isinstance(path, str) else path:
                self.append(Contract(props, p, f, optional, leaf))
            return f

        return d

    def props(self):
        return sorted({p for k in self for p in k.props})

    def run(self, F, prop, **kw):
        R = Runner(F, **kw)
        for k in self:
            if prop in k.props:
                R.check(k, prop)
        return R.obs, R.funcs

    def main(self, **kw):
        import sys
        from .facts import Facts

        F = Facts("/tmp/facts.json")
        pat = sys.argv[2] if len(sys.argv) > 2 else ""
        for p in self.props() if sys.argv[1:2] in ([], ["all"]) else sys.argv[1].split(","):
            sel = Book(k for k in self if pat in k.path)
            obs, _ = sel.run(F, p, **kw)
            for o in obs:
                if not o.ok:
                    print("FAIL", o.key, o.detail[:1800])
            print(p, len(obs), sum(o.ok for o in obs))


def rec(label, **fields):
    """A struct value (compared field by field)."""
    return ("rec", label, fields)


def normfresh(t, names):
    """Give the random draws of a term names by order of appearance."""

    def go(x, memo):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == "fresh":
            k = names.setdefault(x.args[2], f"draw{len(names)}")
            r = mk0("fresh", x.args[0], x.args[1], k, x.args[3], *[go(y, memo) for y in x.args[4:]])
        else:
            new = []
            for y in x.args:
                if isinstance(y, T):
                    new.append(go(y, memo))
                elif isinstance(y, tuple):
                    new.append(gt(y, memo))
                else:
                    new.append(y)
            r = tm.rebuild(x.op, tuple(new)) if tuple(new) != x.args else x
        memo[x.id] = r
        return r

    def gt(y, memo):
        return tuple(go(z, memo) if isinstance(z, T) else gt(z, memo) if isinstance(z, tuple) else z for z in y)

    return go(t, {})


def draws_of(t, out):
    """The random draws of a term, in order of appearance: label -> function."""
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
            return
        if not isinstance(x, T) or x.id in seen:
            return
        seen.add(x.id)
        if x.op == "fresh":
            out.setdefault(x.args[2], (x.args[0], x.args[1]))
        for y in x.args:
            go(y)

    go(t)


def draws_of_spec(C, v, out):
    if isinstance(v, T):
        draws_of(C(v), out)
    elif isinstance(v, dict):
        for x in v.values():
            draws_of_spec(C, x, out)
    elif isinstance(v, (tuple, list)):
        for x in v:
            draws_of_spec(C, x, out)


def assignments(got, want, limit=200):
    """Ways to identify the draws found with the draws prescribed (same function, each at most once)."""
    from itertools import permutations, product, islice

    kinds = {}
    for lab, k in want.items():
        kinds.setdefault(k, ([], []))[1].append(lab)
    for lab, k in got.items():
        kinds.setdefault(k, ([], []))[0].append(lab)
    ways = []
    for g, w in kinds.values():
        w = sorted(w, key=lambda l: (len(l), l))
        w += [f"other{l}" for l in g][: max(0, len(g) - len(w))]
        ways.append([dict(zip(g, p)) for p in islice(permutations(w, len(g)), 720)])
    for combo in islice(product(*ways), limit):
        d = {}
        for c in combo:
            d.update(c)
        yield d


def draw(k, name, ty, *args, ivs=()):
    """The k-th random draw."""
    return mk0("fresh", name, ty, f"draw{k}", ivs, *args)


# functions that state a documented precondition with debug_assert!, so a build with debug assertions panics in more cases
DEBUG_ASSERTS = {"curve::arithmetic::Scalar::<P>::from_xof_reader", "paillier::rsa::SecretPrimesWire::<P>::new"}


class Runner:
    """Checks contracts of one layer."""

    def __init__(self, F, leaf=None, ops=None, base=None, canon=LowCanon):
        self.F, self.leaf = F, leaf or (lambda info: None)
        self.debug = getattr(F, "debug", False)
        self.C = canon(None, ops, base)
        self.obs = []
        self.funcs = set()

    def find(self, path):
        fs = self.F.by_path.get(path)
        if fs:
            return fs[0]
        return None

    def analyse(self, f, leaf=()):
        vf = VF(self.F, leaves_of(leaf) if leaf else self.leaf)
        body = f["body"]
        args = []
        ins = []
        for i in range(1, body["argc"] + 1):
            ty = self.F.ty(body["locals"][i][0])
            nm = f"a{i-1}"
            if ty.s in ("u32", "usize", "u64", "u8", "u16"):
                nm = "n:" + nm
            args.append(vf.symbolic(nm, ty))
            ins.append(mk0("in", nm))
        r = vf.run(f, args)
        self.funcs |= vf.analysed
        return vf, r, ins

    def check(self, con, prop):
        key0 = con.path
        f = self.find(con.path)
        if f is None or not f.get("body"):
            if not con.optional:
                self.obs.append(Ob(prop, f"{key0}:anchor", False, con.path, "the function the property is about no longer exists"))
            return
        where = f"{f.get('file', '')} {con.path}"
        try:
            vf, r, ins = self.analyse(f, con.leaf)
        except (Unsupported, RecursionError, KeyError) as e:
            self.obs.append(Ob(prop, f"{key0}:analysis", False, where, f"cannot be analysed: {e}"))
            return
        spec = con.spec(self.C, *ins)
        C = self.C
        care = C.boolc(spec.get("assume", TRUE))
        stat = C.boolc(getattr(vf, "static", TRUE))
        care = b_and(care, stat)
        pc = C.boolc(r.pc)
        mems = {i: r.mem.get(("arg", ins[i].args[0])) for i in spec.get("mem", {})}
        got_draws, want_draws = {}, {}
        for t in (pc, r.ret, *[m for m in mems.values() if m is not None]):
            draws_of(C(t) if t is not pc else t, got_draws)
        for v in spec.values():
            draws_of_spec(C, v, want_draws)
        best = None
        for names in assignments(got_draws, want_draws):
            obs = self.compare(key0, prop, where, spec, vf, r, pc, care, mems, names)
            bad = sum(not o.ok for o in obs)
            if best is None or bad < best[0]:
                best = (bad, obs)
            if not bad:
                break
        self.obs += best[1]
        return vf, r

    def compare(self, key0, prop, where, spec, vf, r, pc, care, mems, names):
        C = self.C
        obs = []
        add_ = lambda k, d, det: obs.append(Ob(prop, f"{key0}:{k}", d is None, where, d or det))
        if vf.lost and not spec.get("lost"):
            add_("writes", f"writes through the reference returned by {vf.lost[0][0]} are not visible to the analysis", "")
        ab = spec.get("aborts", FALSE)
        if self.debug and key0 in DEBUG_ASSERTS:
            ab = None
        if ab is not None:
            d = disagreement(C, normfresh(b_not(pc), names), C.boolc(ab), care)
            add_("panics", d, "panics exactly when prescribed: " + show(C.boolc(ab), 8))
        ma = spec.get("must_abort")
        if ma is not None:
            d = disagreement(C, b_and(normfresh(pc, names), C.boolc(ma)), FALSE, care)
            add_("guard", d, "fails loudly when " + show(C.boolc(ma), 8))
        ok_care = b_and(care, normfresh(pc, names)) if pc is not TRUE else care
        if "ret" in spec:
            self.comp(add_, "result", normfresh(C(r.ret), names), spec["ret"], ok_care)
        for k, cond in spec["needs"](normfresh(C(r.ret), names)) if "needs" in spec else ():
            acc = b_and(ok_care, C.boolc(is_ok(normfresh(C(r.ret), names))))
            add_(k, disagreement(C, b_and(acc, b_not(C.boolc(cond))), FALSE, TRUE), "accepted only if " + show(C.boolc(cond), 8))
        for i, v in spec.get("mem", {}).items():
            m = mems[i]
            self.comp(add_, f"arg{i}", normfresh(C(m), names) if m is not None else UNDEF, v, ok_care)
        return obs

    def comp(self, add_, k, got, want, care):
        C = self.C
        if isinstance(want, tuple) and want and want[0] == "rec":
            for n, v in want[2].items():
                self.comp(add_, f"{k}.{n}", C(fld(got, n)), v, care)
            return
        if isinstance(want, tuple) and want and want[0] == "arg":
            hit = got.op == "call" and got.args[0] == want[1]
            if not hit:
                add_(k, f"is not a call of {want[1]}", "")
                return
            return self.comp(add_, k, got.args[2 + want[2]], want[3], care)
        if isinstance(want, tuple) and want and want[0] == "fld":
            return self.comp(add_, k, C(fld(got, want[1])), want[2], care)
        if isinstance(want, tuple) and want and want[0] in ("opt", "res"):
            test = is_some if want[0] == "opt" else is_ok
            g = C.boolc(test(got))
            w = C.boolc(want[1])
            d = disagreement(C, g, w, care)
            add_(k + ".some" if want[0] == "opt" else k + ".ok", d, "present exactly when prescribed: " + show(w, 8))
            if len(want) > 2 and want[2] is not None:
                p = "Some.0" if want[0] == "opt" else "Ok.0"
                self.comp(add_, k + ".value", C(fld(restrict(got, g) if got.op == "ite" else got, p)), want[2], b_and(care, g, w))
            return
        w = C.canon(want)
        d = disagreement(C, got, w, care)
        add_(k, d, "equals " + show(w, 8)[:300])
