"""The packed encoding of bit vectors (C18): the value flow of the functions that pack and unpack bits, with the lengths fixed
and the bits left symbolic, in boolean normal form."""
from ..obligations import Ob
from ..roots import run_vf
from ..terms import T, mk0, const, TRUE, FALSE, ite, show
from ..vf import Unsupported

BV = "tools::bitvec::BitVec"
LENGTHS = (*range(18), 31, 32, 33, 63, 64, 65, 80, 112, 127, 128, 129, 136, 255, 256, 257, 264, 512, 520)


class Unknown(Exception):
    pass


class Abort(Exception):
    pass


class Bits(list):
    """An unsigned integer given by its bits, least significant first"""


def bnot(a):
    return ite(a, FALSE, TRUE)


def bor(a, b):
    return ite(a, TRUE, b)


def band(a, b):
    return ite(a, b, FALSE)


def bxor(a, b):
    return ite(a, bnot(b), b)


def bits(v, n=8):
    if isinstance(v, Bits):
        return Bits(list(v) + [FALSE] * (n - len(v)))
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int) and v >= 0:
        return Bits([const(bool(v >> i & 1)) for i in range(max(n, v.bit_length()))])
    if isinstance(v, T):
        return Bits([v] + [FALSE] * (n - 1))
    raise Unknown(f"not a number: {v!r}")


def num(v):
    """A number, when its bits are known"""
    if isinstance(v, Bits) and all(b in (TRUE, FALSE) for b in v):
        return sum(1 << i for i, b in enumerate(v) if b is TRUE)
    return v


def unpack(n, bs):
    return [bs[i // 8][7 - i % 8] for i in range(n)]


class Eval:
    def __init__(self, F, env, reader=None):
        self.F, self.env, self.loc, self.reader = F, env, {}, reader

    def int(self, t):
        v = num(self.ev(t))
        if not isinstance(v, int):
            raise Unknown(f"a number that depends on the bits: {show(t)[:200]}")
        return v

    def alternatives(self, t):
        """[(condition, value)] of a number that may depend on the bits"""
        if t.op == "lin":
            out = [(TRUE, t.args[0])]
            for x, k in t.args[1]:
                out = [(band(c, d), v + k * w) for c, v in out for d, w in self.alternatives(x)]
            return [x for x in out if x[0] is not FALSE]
        v = num(self.ev(t))
        if isinstance(v, int):
            return [(TRUE, v)]
        out = [(TRUE, 0)]
        for i, b in enumerate(bits(v)):
            out = [y for c, w in out for y in ((band(c, b), w + (1 << i)), (band(c, bnot(b)), w)) if y[0] is not FALSE]
        return out

    def bool(self, t):
        v = num(self.ev(t))
        if isinstance(v, (bool, int)):
            v = const(bool(v))
        if isinstance(v, Bits):
            raise Unknown(show(t)[:200])
        return v

    def choose(self, c, a, b):
        if c is TRUE:
            return self.ev(a)
        if c is FALSE:
            return self.ev(b)
        return self.merge(c, self.ev(a), self.ev(b))

    def merge(self, c, x, y):
        if isinstance(x, list) and not isinstance(x, Bits) and isinstance(y, list) and len(x) == len(y):
            return [self.merge(c, p, q) for p, q in zip(x, y)]
        if isinstance(x, T) and isinstance(y, T):
            return ite(c, x, y)
        x, y = bits(x), bits(y)
        n = max(len(x), len(y))
        return Bits([ite(c, p, q) for p, q in zip(bits(x, n), bits(y, n))])

    def ev(self, t):
        op, a = t.op, t.args
        if op == "c":
            return a[0] if not isinstance(a[0], bool) else t
        if t in self.loc:
            return self.loc[t]
        if op == "in":
            if a[0] in self.env:
                return self.env[a[0]]
            raise Unknown(show(t))
        if op == "fld":
            v = self.ev(a[0])
            if isinstance(v, dict) and a[1] in v:
                return v[a[1]]
            raise Unknown(show(t)[:200])
        if op == "len":
            return len(self.ev(a[0]))
        if op == "elem":
            xs, i = self.ev(a[0]), self.int(a[1])
            if not 0 <= i < len(xs):
                raise Abort(f"index {i} out of range")
            return xs[i]
        if op == "lin":
            s = a[0]
            for x, k in a[1]:
                s += self.int(x) * k
            return s
        if op == "mul" and len(a) == 2:
            return self.int(a[0]) * self.int(a[1])
        if op == "bin":
            return self.bin(a[0], a[1], a[2])
        if op == "ite":
            return self.choose(self.bool(a[0]), a[1], a[2])
        if op == "pos" or op == "eqz" and a[0].op == "lin":
            test = (lambda v: v > 0) if op == "pos" else (lambda v: v == 0)
            vals = self.alternatives(a[0])
            r = FALSE
            for c, v in vals:
                if test(v):
                    r = bor(r, c)
            return r
        if op == "eqz":
            v = self.ev(a[0])
            if isinstance(v, int):
                return const(v == 0)
            r = FALSE
            for b in bits(v):
                r = bor(r, b)
            return bnot(r)
        if op == "eq":
            x, y = bits(self.ev(a[0])), bits(self.ev(a[1]))
            n = max(len(x), len(y))
            r = TRUE
            for p, q in zip(bits(x, n), bits(y, n)):
                r = band(r, bnot(bxor(p, q)))
            return r
        if op in ("trunc", "zext", "cast"):
            return self.ev(a[-1])
        if op == "b2i":
            return bits(self.ev(a[0]))
        if op == "repeat":
            return [self.ev(a[0])] * self.int(a[1])
        if op == "list" or op == "agg" and a[0] in ("array", "[]"):
            return [self.ev(x) for x in (a if op == "list" else a[2:])]
        if op == "seq":
            out = []
            for i in range(self.int(a[0])):
                self.loc[a[1]] = i
                out.append(self.ev(a[2]))
            self.loc.pop(a[1], None)
            return out
        if op == "flatseq":
            out = []
            for i in range(self.int(a[0])):
                self.loc[a[1]] = i
                out += self.ev(a[2])
            self.loc.pop(a[1], None)
            return out
        if op == "cat":
            return [x for y in a for x in self.ev(y)]
        if op == "overwrite":
            xs, ys = self.ev(a[0]), self.ev(a[1])
            return list(ys) + list(xs[len(ys):])
        if op == "with":
            return {**self.ev(a[0]), a[1]: self.ev(a[2])}
        if op == "one":
            return [self.ev(a[0])]
        if op == "exists":
            r = FALSE
            for i in range(self.int(a[0])):
                self.loc[a[1]] = i
                r = bor(r, self.bool(a[2]))
            self.loc.pop(a[1], None)
            return r
        if op == "fold":
            dom, bv, acc, init, body = a
            s = self.ev(init)
            for i in range(self.int(dom)):
                self.loc[bv] = i
                self.loc[acc] = s
                s = self.ev(body)
            self.loc.pop(bv, None)
            self.loc.pop(acc, None)
            return s
        if op == "updix":
            xs, i = list(self.ev(a[0])), self.int(a[1])
            if not 0 <= i < len(xs):
                raise Abort(f"index {i} out of range")
            xs[i] = self.ev(a[2])
            return xs
        if op == "push":
            return self.ev(a[0]) + [self.ev(a[1])]
        if op == "agg":
            return dict(zip(a[1], [self.ev(x) for x in a[2:]]), **{"": a[0]})
        if op == "call" and a[0] == BV + "::from_bytes_unchecked" and a[0] in self.F.by_path:
            return Eval(self.F, {"a0": self.ev(a[2]), "a1": self.ev(a[3])}).result(run_vf(self.F, self.F.by_path[a[0]][0]).result)
        if op == "call" and a[0].endswith("::chunks"):
            xs, k = self.ev(a[2]), self.int(a[3])
            return [xs[i : i + k] for i in range(0, len(xs), k)]
        if op == "imin":
            return min(self.int(x) for x in a)
        if op == "upd" and a[0] == "digest::XofReader::read" and self.reader:
            return self.reader(len(self.ev(a[3])))
        if op == "fresh" and self.reader:
            for x in a[4:]:
                v = self.ev(x)
                if isinstance(v, list):
                    return self.reader(len(v))
        if op == "upd" and a[0].endswith("RngCore::fill_bytes") and self.reader:
            return self.ev(a[-1])
        raise Unknown(f"{op} {show(t)[:200]}")

    def bin(self, op, l, r):
        x, y = num(self.ev(l)), num(self.ev(r))
        if isinstance(x, int) and isinstance(y, int):
            return {"Div": lambda: x // y, "Rem": lambda: x % y, "Shl": lambda: x << y, "Shr": lambda: x >> y, "BitAnd": lambda: x & y,
                    "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}[op]()
        if op in ("Shl", "Shr") and isinstance(y, int):
            b = bits(x)
            return Bits(([FALSE] * y + b)[:8]) if op == "Shl" else Bits(b[y:] + [FALSE] * y)
        if op in ("Div", "Rem") and isinstance(x, Bits) and isinstance(y, int) and y and y & (y - 1) == 0:
            k = y.bit_length() - 1
            return Bits(x[k:] + [FALSE] * k) if op == "Div" else Bits(x[:k] + [FALSE] * (len(x) - k))
        if op in ("BitAnd", "BitOr", "BitXor"):
            f = {"BitAnd": band, "BitOr": bor, "BitXor": bxor}[op]
            p, q = bits(x), bits(y)
            n = max(len(p), len(q))
            return Bits([f(u, v) for u, v in zip(bits(p, n), bits(q, n))])
        raise Unknown(op)

    def result(self, r):
        pc = self.bool(r.pc)
        if pc is not TRUE:
            raise Abort("it panics")
        return self.ev(r.ret)


def sym(name, n):
    return [Bits([ite(mk0("bit", name, k, j), TRUE, FALSE) for j in range(8)]) for k in range(n)]


def same(x, y):
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    if isinstance(x, (int, Bits)) and isinstance(y, (int, Bits)):
        n = 64
        return bits(x, n) == bits(y, n)
    return x is y


def cases(F, path):
    """(what, environment, reader, expected) for the lengths explored; expected None: an error is returned"""
    u8 = lambda n: (n + 7) // 8
    if "TryFrom" in path:
        for n in LENGTHS:
            for m in sorted({0, max(0, u8(n) - 1), u8(n), u8(n) + 1}):
                bs = sym("b", m)
                yield f"{n} bits in {m} bytes", {"a0": {"bits": n, "byte_vec": bs}}, None, unpack(n, bs) if m >= u8(n) else None
    elif "From<" in path:
        for n in LENGTHS:
            vs = [ite(mk0("bit", "v", i, 0), TRUE, FALSE) for i in range(n)]
            pk = [Bits([vs[8 * k + 7 - j] if 8 * k + 7 - j < n else FALSE for j in range(8)]) for k in range(u8(n))]
            yield f"{n} bits", {"a0": {"0": vs}}, None, {"bits": n, "byte_vec": pk}
    else:
        for n in LENGTHS:
            got = []

            def reader(k, got=got):
                got.append(k)
                return sym("r", k)

            yield f"{n} bits", {"a1": n, "a0": {}}, reader, unpack(n, sym("r", u8(n)))


PATHS = (f"<{BV} as core::convert::TryFrom<tools::bitvec::PackedBitVec>>::try_from", f"<tools::bitvec::PackedBitVec as core::convert::From<{BV}>>::from",
         f"{BV}::from_xof_reader", f"{BV}::random")


def run(F, prop):
    obs = []
    for p in PATHS:
        fs = F.by_path.get(p)
        if not fs:
            obs.append(Ob(prop, f"{p}:missing", False, "", "the function does not exist"))
            continue
        bad = None
        try:
            r = run_vf(F, fs[0]).result
            n = 0
            for what, env, reader, want in cases(F, p):
                n += 1
                try:
                    got = Eval(F, env, reader).result(r)
                    if "TryFrom" in p:
                        got = got.get("Ok.0", {}).get("0") if got[""].endswith("Ok") else None
                    elif isinstance(want, list):
                        got = got.get("0")
                    ok = (got is None) == (want is None) and (want is None or all(same(got[k], v) for k, v in want.items()) if isinstance(want, dict) else want is None or same(got, want))
                except Abort as e:
                    ok, got = False, f"panic: {e}"
                if not ok:
                    bad = f"for {what}: {got}, expected {want}"
                    break
        except (Unknown, Unsupported) as e:
            bad = f"the value it computes is not recognised: {e}"
        obs.append(Ob(prop, p, bad is None, fs[0].get("sp", ""), f"agrees with the most-significant-bit-first packing for all {n} lengths explored, whatever the bits" if not bad else bad[:1500]))
    return obs, list(PATHS)


XOR = f"<{BV} as core::ops::BitXorAssign<&{BV}>>::bitxor_assign"


def run_xor(F, prop):
    """Combining contributions: bit by bit, of equally long vectors only."""
    fs = [f for f in F.by_path.get(XOR, ())]
    if not fs:
        return [Ob(prop, f"{XOR}:anchor", False, XOR, "the function the property is about no longer exists")], []
    bad, cnt = None, 0
    vec = lambda nm, n: [ite(mk0("bit", nm, i, 0), TRUE, FALSE) for i in range(n)]
    try:
        r = run_vf(F, fs[0], lambda i: None).result
        for n in LENGTHS[:22]:
            for m in sorted({max(0, n - 1), n, n + 1}):
                cnt += 1
                x, y = vec("x", n), vec("y", m)
                try:
                    e = Eval(F, {"a0": {"0": x}, "a1": {"0": y}})
                    if e.bool(r.pc) is not TRUE:
                        raise Abort("")
                    got = e.ev(r.mem[("arg", "a0")])["0"]
                except Abort:
                    got = None
                want = [bxor(p, q) for p, q in zip(x, y)] if n == m else None
                if (got is None) != (want is None) or want is not None and not same(got, want):
                    bad = f"for {n} and {m} bits it gives {got if got is None else [show(b, 4) for b in got]}"
                    break
            if bad:
                break
    except (Unknown, Unsupported, KeyError) as e:
        bad = f"the value it computes is not recognised: {e}"
    return [Ob(prop, XOR, bad is None, fs[0].get("sp", ""), f"the exclusive or of the bits, and only of vectors of the same length ({cnt} pairs of lengths)" if not bad else bad[:1500])], [XOR]


REGISTRY = {"C18": [run], "C20": [run_xor]}
RULES = {"C20": "Contributions to shared randomness are combined by the exclusive or of all of their bits; vectors of different lengths are refused.", "C18": f"The packed encoding of bit vectors: the value flow of the functions that pack, unpack and draw bit vectors, normalised with the bits symbolic for the lengths {LENGTHS} (and byte strings one too short, exact and one too long), is the most-significant-bit-first packing; short strings are refused."}
