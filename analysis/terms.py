"""Hash-consed terms with MTBDD-style conditionals (canonical for booleans over atoms)."""
import sys
sys.setrecursionlimit(100000)


class T:
    __slots__ = ("op", "args", "id", "_h")

    def __repr__(self):
        return show(self)


_tab = {}
_count = [0]


def mk0(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _count[0] += 1
        t.id = _count[0]
        t._h = None
        _tab[k] = t
    return t


def reset():
    """Forget everything (between independent analyses)."""
    pass


TRUE = mk0("c", True, "bool")
FALSE = mk0("c", False, "bool")
UNIT = mk0("agg", "tuple", ())
UNDEF = mk0("undef")


def const(v):
    if v is True:
        return TRUE
    if v is False:
        return FALSE
    if isinstance(v, int):
        return mk0("c", v, "int")
    return mk0("c", v, "bytes")


def is_const(t):
    return t.op == "c"


def is_bool_leaf(t):
    return t is TRUE or t is FALSE


# ---------------------------------------------------------------- ite / MTBDD
# node: ite(atom, hi, lo); atoms ordered by id
_ite_memo = {}
_apply_memo = {}


def node(atom, hi, lo):
    if hi is lo or lo is UNDEF:
        return hi
    if hi is UNDEF:
        return lo
    return mk0("ite", atom, hi, lo)


def top(*ts):
    best = None
    for t in ts:
        if t.op == "ite":
            a = t.args[0]
            if best is None or a.id < best.id:
                best = a
    return best


def cof(t, atom, val):
    if t.op == "ite" and t.args[0] is atom:
        return t.args[1] if val else t.args[2]
    return t


def ite(c, a, b):
    """c boolean term; a, b any terms."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    k = (c.id, a.id, b.id)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    if c.op != "ite":
        c = node(c, TRUE, FALSE)
    at = top(c, a, b)
    r = node(
        at,
        ite(cof(c, at, True), cof(a, at, True), cof(b, at, True)),
        ite(cof(c, at, False), cof(a, at, False), cof(b, at, False)),
    )
    _ite_memo[k] = r
    return r


def atom(t):
    """A non-boolean-constant term used as a proposition."""
    if t is TRUE or t is FALSE or t.op == "ite":
        return t
    return node(t, TRUE, FALSE)


def tobool(t):
    """Make a boolean MTBDD from a boolean-valued term (leaves may be opaque atoms)."""
    if t is TRUE or t is FALSE:
        return t
    if t.op == "ite":
        k = ("tb", t.id)
        r = _apply_memo.get(k)
        if r is None:
            r = ite(node(t.args[0], TRUE, FALSE), tobool(t.args[1]), tobool(t.args[2]))
            _apply_memo[k] = r
        return r
    return node(t, TRUE, FALSE)


def b_not(a):
    return ite(tobool(a), FALSE, TRUE)


def b_and(*ts):
    r = TRUE
    for t in ts:
        r = ite(tobool(r), tobool(t), FALSE)
    return r


def b_or(*ts):
    r = FALSE
    for t in ts:
        r = ite(tobool(r), TRUE, tobool(t))
    return r


def b_xor(a, b):
    a, b = tobool(a), tobool(b)
    return ite(a, b_not(b), b)


def implies(a, b):
    return b_and(a, b_not(b)) is FALSE


def restrict(f, care):
    """Coudert-Madre restrict of the MTBDD f to the care set."""
    if care is TRUE or f.op != "ite" or care is FALSE:
        return f
    k = ("r", f.id, care.id)
    r = _apply_memo.get(k)
    if r is not None:
        return r
    at = top(f, care)
    c1, c0 = cof(care, at, True), cof(care, at, False)
    if f.args[0] is not at:
        r = restrict(f, b_or(c1, c0))
    elif c1 is FALSE:
        r = restrict(f.args[2], c0)
    elif c0 is FALSE:
        r = restrict(f.args[1], c1)
    else:
        r = node(at, restrict(f.args[1], c1), restrict(f.args[2], c0))
    _apply_memo[k] = r
    return r


def lift(t, f, _memo=None):
    """Apply f to the leaves of an ite-tree."""
    if t.op != "ite":
        return f(t)
    if _memo is None:
        _memo = {}
    r = _memo.get(t.id)
    if r is None:
        r = ite(node(t.args[0], TRUE, FALSE), lift(t.args[1], f, _memo), lift(t.args[2], f, _memo))
        _memo[t.id] = r
    return r


def leaves(t, pc=TRUE):
    """[(condition, leaf)] of an ite-tree."""
    out = {}

    def go(x, c):
        if c is FALSE:
            return
        if x.op == "ite":
            a = node(x.args[0], TRUE, FALSE)
            go(x.args[1], b_and(c, a))
            go(x.args[2], b_and(c, b_not(a)))
        else:
            out[x] = b_or(out.get(x, FALSE), c)

    go(t, pc)
    return [(c, x) for x, c in out.items()]


def conjuncts(f):
    """Literals (atom, polarity) implied by the boolean f."""
    f = tobool(f)
    out = []
    memo = {}

    def ats(x, s):
        if x.op == "ite" and x.id not in memo:
            memo[x.id] = 1
            s.add(x.args[0])
            ats(x.args[1], s)
            ats(x.args[2], s)

    s = set()
    ats(f, s)
    for a in sorted(s, key=lambda x: x.id):
        an = node(a, TRUE, FALSE)
        if b_and(f, b_not(an)) is FALSE:
            out.append((a, True))
        elif b_and(f, an) is FALSE:
            out.append((a, False))
    return out


def atoms_of(f):
    s = set()
    seen = set()

    def go(x):
        if x.op == "ite" and x.id not in seen:
            seen.add(x.id)
            s.add(x.args[0])
            go(x.args[1])
            go(x.args[2])

    go(f)
    return s


# ---------------------------------------------------------------- integers (linear)
def lin_parts(t):
    if t.op == "c" and isinstance(t.args[0], int) and not isinstance(t.args[0], bool):
        return {}, t.args[0]
    if t.op == "lin":
        return dict(t.args[1]), t.args[0]
    return {t: 1}, 0


def mk_lin(d, k):
    items = tuple(sorted(((t, c) for t, c in d.items() if c != 0), key=lambda x: x[0].id))
    if not items:
        return const(k)
    if k == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk0("lin", k, items)


def add(a, b, s=1):
    if a.op == "ite" or b.op == "ite":
        at = top(a, b)
        return ite(node(at, TRUE, FALSE), add(cof(a, at, True), cof(b, at, True), s), add(cof(a, at, False), cof(b, at, False), s))
    da, ka = lin_parts(a)
    db, kb = lin_parts(b)
    for t, c in db.items():
        da[t] = da.get(t, 0) + s * c
    return mk_lin(da, ka + s * kb)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if a.op == "ite" or b.op == "ite":
        at = top(a, b)
        return ite(node(at, TRUE, FALSE), mul(cof(a, at, True), cof(b, at, True)), mul(cof(a, at, False), cof(b, at, False)))
    da, ka = lin_parts(a)
    db, kb = lin_parts(b)
    if not da:
        return mk_lin({t: c * ka for t, c in db.items()}, kb * ka)
    if not db:
        return mk_lin({t: c * kb for t, c in da.items()}, ka * kb)
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk0("imul", x, y)


def pos(l):
    """The proposition l > 0 over machine integers (overflow ignored)."""
    if l.op == "ite":
        return lift(l, pos)
    d, k = lin_parts(l)
    if not d:
        return const(k > 0)
    items = sorted(d.items(), key=lambda x: x[0].id)
    if items[0][1] < 0:  # l > 0  <=>  not (1 - l > 0)
        return b_not(atom(mk0("pos", mk_lin({t: -c for t, c in d.items()}, 1 - k))))
    return atom(mk0("pos", l))


def lt(a, b):
    return pos(sub(b, a))


def le(a, b):
    return b_not(pos(sub(a, b)))


# ---------------------------------------------------------------- structure
def agg(label, names, vals):
    return mk0("agg", label, tuple(names), *vals)


def tup(*vals):
    return agg("tuple", [str(i) for i in range(len(vals))], vals)


def some(x):
    return agg("core::option::Option::Some", ["Some.0"], [x])


NONE = agg("core::option::Option::None", [], [])


def ok(x):
    return agg("core::result::Result::Ok", ["Ok.0"], [x])


def err(x):
    return agg("core::result::Result::Err", ["Err.0"], [x])


VARIDX = {
    "core::option::Option::None": 0,
    "core::option::Option::Some": 1,
    "core::result::Result::Ok": 0,
    "core::result::Result::Err": 1,
    "core::ops::ControlFlow::Continue": 0,
    "core::ops::ControlFlow::Break": 1,
    "core::cmp::Ordering::Less": -1,
    "core::cmp::Ordering::Equal": 0,
    "core::cmp::Ordering::Greater": 1,
}
TWO = ("core::option::Option", "core::result::Result", "core::ops::ControlFlow")


def fld(t, name):
    if t.op == "ite":
        return lift(t, lambda x: fld(x, name))
    if t.op == "agg":
        names = t.args[1]
        if name in names:
            return t.args[2 + names.index(name)]
        return UNDEF
    if t.op == "with":
        if t.args[1] == name:
            return t.args[2]
        return fld(t.args[0], name)
    if t is UNDEF:
        return UNDEF
    return mk0("fld", t, name)


def with_fld(t, name, v):
    if t.op == "agg" and name in t.args[1]:
        i = t.args[1].index(name)
        vals = list(t.args[2:])
        vals[i] = v
        return mk0("agg", t.args[0], t.args[1], *vals)
    if t.op == "with" and t.args[1] == name:
        return with_fld(t.args[0], name, v)
    if t.op == "ite":
        return lift(t, lambda x: with_fld(x, name, v))
    if fld(t, name) is v:
        return t
    return mk0("with", t, name, v)


def isvar(t, adt, idx, nvar):
    """Proposition: the enum value t has variant idx (of nvar)."""
    if t.op == "ite":
        return lift(t, lambda x: isvar(x, adt, idx, nvar))
    if t.op == "agg":
        vi = VARIDX.get(t.args[0])
        if vi is None:
            return atom(mk0("is", t, adt, idx))
        return const(vi == idx)
    if t is UNDEF:
        return FALSE
    if nvar == 2:
        a = atom(mk0("is", t, adt, 1))
        return a if idx == 1 else b_not(a)
    return atom(mk0("is", t, adt, idx))


def is_some(t):
    return isvar(t, "core::option::Option", 1, 2)


def is_ok(t):
    return isvar(t, "core::result::Result", 0, 2)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "ite" or b.op == "ite":
        at = top(a, b)
        return ite(node(at, TRUE, FALSE), eq(cof(a, at, True), cof(b, at, True)), eq(cof(a, at, False), cof(b, at, False)))
    if a.op == "c" and b.op == "c":
        return const(a.args[0] == b.args[0])
    if a.op == "agg" and b.op == "agg":
        if a.args[0] == b.args[0]:
            return b_and(*[eq(x, y) for x, y in zip(a.args[2:], b.args[2:])])
        if a.args[0] in VARIDX and b.args[0] in VARIDX:
            return FALSE
    for x, y in ((a, b), (b, a)):
        if x is TRUE:
            return tobool(y)
        if x is FALSE:
            return b_not(y)
    la, lb = lin_parts(a), lin_parts(b)
    if (a.op in ("lin", "c") or b.op in ("lin", "c")) and not any(
        isinstance(z.args[0], (str, bool)) for z in (a, b) if z.op == "c"
    ):
        d = sub(a, b)
        dd, k = lin_parts(d)
        if not dd:
            return const(k == 0)
        first = sorted(dd.items(), key=lambda x: x[0].id)[0]
        if first[1] < 0:
            d = mk_lin({t: -c for t, c in dd.items()}, -k)
        return atom(mk0("eqz", d))
    x, y = sorted((a, b), key=lambda t: t.id)
    return atom(mk0("eq", x, y))


# ---------------------------------------------------------------- binders
# bound variables: bv(h); open loop indices: iv(uid)
_hb = {}


def maxbv(t):
    r = _hb.get(t.id)
    if r is None:
        r = t.args[0] if t.op == "bv" else 0
        for x in subterms(t):
            r = max(r, maxbv(x))
        _hb[t.id] = r
    return r


def _sub_tuple(x):
    for y in x:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            yield from _sub_tuple(y)


def subterms(t):
    for x in t.args:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _sub_tuple(x)


REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    if f:
        return f(*args)
    return mk0(op, *args)


def subst(t, m, memo=None):
    """m: dict term -> term."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t.id)
    if r is not None:
        return r

    def s(x):
        if isinstance(x, T):
            return subst(x, m, memo)
        if isinstance(x, tuple):
            return tuple(s(y) for y in x)
        return x

    new = tuple(s(x) for x in t.args)
    if new == t.args:
        r = t
    else:
        r = rebuild(t.op, new)
    memo[t.id] = r
    return r


def contains(t, pred, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is None:
        r = pred(t)
        if not r:
            for x in subterms(t):
                if contains(x, pred, memo):
                    r = True
                    break
        memo[t.id] = r
    return r


def walk(t, seen=None):
    if seen is None:
        seen = set()
    if t.id in seen:
        return
    seen.add(t.id)
    yield t
    for x in subterms(t):
        yield from walk(x, seen)


def _ite_r(a, h, l):
    return ite(tobool(a), h, l)


def _lin_r(k, items):
    r = const(k)
    for t, c in items:
        r = add(r, mul(const(c), t))
    return r


def _is_r(t, adt, idx):
    if adt in TWO:
        return isvar(t, adt, idx, 2)
    return isvar(t, adt, idx, 3)


def _agg_r(label, names, *v):
    return mk0("agg", label, names, *v)


REBUILD.update(
    {
        "ite": _ite_r,
        "lin": _lin_r,
        "imul": mul,
        "pos": pos,
        "eqz": lambda d: eq(d, const(0)),
        "eq": eq,
        "fld": fld,
        "with": with_fld,
        "is": _is_r,
    }
)


def close(iv, *bodies):
    """Replace the open index iv by a canonical bound variable; returns (bv, bodies...)."""
    h = 1 + max([maxbv(b) for b in bodies] + [0])
    bv = mk0("bv", h)
    return (bv,) + tuple(subst(b, {iv: bv}) for b in bodies)


_ivn = [0]


def fresh_iv():
    _ivn[0] += 1
    return mk0("iv", _ivn[0])


def _parts(t):
    if t.op == "poly":
        return dict(t.args[0])
    d, k = lin_parts(t)
    r = {((x, 1),): c for x, c in d.items() if c}
    if k:
        r[()] = k
    return r


def within(cond, dom, iv):
    """cond simplified by 0 <= iv < dom."""
    cond = tobool(cond)
    for a in atoms_of(cond):
        if a.op != "pos" or not contains(a, lambda x: x is iv):
            continue
        p = _parts(a.args[0])
        if p.get(((iv, 1),), 0) not in (1, -1):
            continue
        for sign in (1, -1):
            # a: p > 0;  not a: 1 - p > 0
            q = dict(p) if sign == 1 else {m: -c for m, c in p.items()}
            if sign == -1:
                q[()] = q.get((), 0) + 1
            r = None
            if q.get(((iv, 1),)) == 1:  # iv + c > 0 with c > 0
                q.pop(((iv, 1),))
                r = q
                need = 1
            else:  # q - (dom - iv) = c >= 0
                q.pop(((iv, 1),))
                for m, c in _parts(dom).items():
                    q[m] = q.get(m, 0) - c
                r = q
                need = 0
            r = {m: c for m, c in r.items() if c}
            if all(m == () for m in r) and r.get((), 0) >= need:
                an = node(a, TRUE, FALSE)
                cond = restrict(cond, an if sign == 1 else b_not(an))
                break
    return cond


def exists(dom, iv, cond):
    """exists iv in 0..dom: cond"""
    cond = within(cond, dom, iv)
    if cond is FALSE:
        return FALSE
    if dom is const(0):
        return FALSE
    if not contains(cond, lambda x: x is iv):
        return b_and(pos(dom), cond)
    if is_const(dom) and isinstance(dom.args[0], int) and dom.args[0] <= 8:
        return b_or(*[tobool(subst(cond, {iv: const(k)})) for k in range(dom.args[0])])
    # split disjunctions: exists(a or b) = exists a or exists b, when cond = not(conj of literals)
    neg = b_not(cond)
    lits = conjuncts(neg)
    if lits:
        rest = neg
        r = FALSE
        for a, p in lits:
            an = node(a, TRUE, FALSE)
            rest = restrict(rest, an if p else b_not(an))
            x = b_not(an) if p else an
            r = b_or(r, _ex1(dom, iv, x))
        if rest is not TRUE:
            r = b_or(r, _ex1(dom, iv, b_not(rest)))
        return r
    return _ex1(dom, iv, cond)


def _ex1(dom, iv, cond):
    if not contains(cond, lambda x: x is iv):
        return b_and(pos(dom), cond)
    bv, body = close(iv, cond)
    return atom(mk0("exists", dom, bv, body))


def _exists_r(dom, bv, body):
    iv = fresh_iv()
    return exists(dom, iv, subst(body, {bv: iv}))


REBUILD["exists"] = _exists_r


def seq(dom, iv, body):
    """The sequence body[iv] for iv in 0..dom."""
    # eta: seq(len(x), i, elem(x, i)) == x
    if body.op == "elem" and body.args[1] is iv and length(body.args[0]) is dom and not contains(body.args[0], lambda x: x is iv):
        return body.args[0]
    bv, b = close(iv, body)
    return mk0("seq", dom, bv, b)


def _seq_r(dom, bv, body):
    iv = fresh_iv()
    return seq(dom, iv, subst(body, {bv: iv}))


REBUILD["seq"] = _seq_r


def cat(parts):
    """A collection built from parts: one(e) or seq terms."""
    flat = []
    for p in parts:
        if p.op == "cat":
            flat.extend(p.args)
        else:
            flat.append(p)
    if len(flat) == 1 and flat[0].op != "one":
        return flat[0]
    return mk0("cat", *flat)


REBUILD["cat"] = lambda *p: cat(p)


def length(t):
    if t.op == "ite":
        return lift(t, length)
    if t.op == "seq":
        return t.args[0]
    if t.op == "cat":
        r = const(0)
        for p in t.args:
            r = add(r, const(1) if p.op == "one" else length(p))
        return r
    if t.op == "agg" and t.args[0] == "array":
        return const(len(t.args[2:]))
    if t.op == "c" and isinstance(t.args[0], str):
        s = t.args[0]
        return const((len(s) - 2) // 2 if s.startswith("0x") else len(s.encode()))
    if t.op == "repeat":
        return t.args[1]
    if t.op in ("updrange", "updix", "overwrite"):
        return length(t.args[0])
    if t.op == "call" and t.args[0] == "subslice" and t.args[3].op == "agg":
        # a slice exists only within bounds
        return sub(t.args[3].args[3], t.args[3].args[2])
    if t.op == "call" and t.args[0] == "limbs":
        return const(int(t.args[1])) if t.args[1].isdigit() else mk0("const", t.args[1])
    return mk0("len", t)


REBUILD["len"] = length


def elem(t, i):
    if t.op == "ite":
        return lift(t, lambda x: elem(x, i))
    if t.op == "seq":
        return subst(t.args[2], {t.args[1]: i})
    if t.op == "agg" and t.args[0] == "array" and i.op == "c":
        vals = t.args[2:]
        if i.args[0] < len(vals):
            return vals[i.args[0]]
    if t.op == "repeat":
        return t.args[0]
    if t.op == "cat" and i.op == "c":
        k = i.args[0]
        for p in t.args:
            if p.op == "one":
                if k == 0:
                    return p.args[0]
                k -= 1
            else:
                break
    return mk0("elem", t, i)


REBUILD["elem"] = elem


def imin(a, b):
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return a if a.args[0] <= b.args[0] else b
    xs = []
    for t in (a, b):
        xs.extend(t.args if t.op == "imin" else [t])
    # (an endless iterator has 2^80 elements)
    fin = [t for t in xs if not (t.op == "c" and type(t.args[0]) is int and t.args[0] >= 1 << 80)]
    xs = sorted(set(fin or xs[:1]), key=lambda t: t.id)
    if len(xs) == 1:
        return xs[0]
    return mk0("imin", *xs)


def _imin_r(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = imin(r, x)
    return r


REBUILD["imin"] = _imin_r


def fold(dom, iv, lv, init, body):
    """state := init; for iv in 0..dom: state := body[lv := state]"""
    if body is lv:
        return init
    if dom is const(0):
        return init
    if not contains(body, lambda x: x is lv):
        # the last iteration decides
        return ite(pos(dom), subst(body, {iv: sub(dom, const(1))}), init)
    if body.op == "ite":
        r = _boolfold(dom, iv, lv, init, body)
        if r is not None:
            return r
    # canonical accumulator symbol
    a0 = mk0("accsym", fresh_iv())
    bv, b = close(iv, subst(body, {lv: a0}))
    a = mk0("acc", bv.args[0])
    b = subst(b, {a0: a})
    return mk0("fold", dom, bv, a, init, b)


def _boolfold(dom, iv, lv, init, body):
    """state &= g[iv] and state |= g[iv] are quantifiers."""
    if any(not is_bool_leaf(v) for _, v in leaves(body)) or (init.op == "ite" and any(not is_bool_leaf(v) for _, v in leaves(init))):
        return None
    if lv not in atoms_of(body):
        return None
    hi, lo = subst(body, {lv: TRUE}), subst(body, {lv: FALSE})
    if any(contains(x, lambda y: y is lv) for x in (hi, lo)):
        return None
    if lo is FALSE:
        return b_and(tobool(init), b_not(exists(dom, iv, b_not(hi))))
    if hi is TRUE:
        return b_or(tobool(init), exists(dom, iv, lo))
    return None


def _fold_r(dom, bv, acc, init, body):
    iv = fresh_iv()
    a0 = mk0("accsym", iv)
    return fold(dom, iv, a0, init, subst(body, {bv: iv, acc: a0}))


REBUILD["fold"] = _fold_r


# ---------------------------------------------------------------- printing
NAMES = {}


def show(t, depth=12):
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return "…"
    op, a = t.op, t.args
    if t in NAMES:
        return NAMES[t]
    s = lambda x: show(x, depth - 1)
    if op == "poly":
        ms = []
        for m, c in a[0]:
            fs = [s(x) + (f"^{e}" if e != 1 else "") for x, e in m]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            ms.append("*".join(fs))
        return "(" + " + ".join(ms) + ")"
    if op == "grp":
        return "{" + " + ".join((f"{s(k)}·" if k is not const(1) else "") + s(b) for b, k in a[0]) + "}"
    if op in ("psum", "gsum"):
        return f"SUM({s(a[1])}<{s(a[0])}: {s(a[2])})"
    if op == "zero":
        return f"{s(a[1])} == 0"
    if op == "fresh":
        import hashlib

        return f"fresh#{hashlib.md5(a[2].encode()).hexdigest()[:4]}:{a[0].split('::')[-1]}(" + ", ".join(s(x) for x in a[4:]) + ")" + ("@" + ",".join(s(x) for x in a[3]) if a[3] else "")
    if op == "fseq":
        return f"[{s(a[3])} | {s(a[1])}<{s(a[0])} if {s(a[2])}]"
    if op == "first":
        return f"FIRST({s(a[1])}<{s(a[0])} if {s(a[2])}: {s(a[3])})"
    if op == "fold":
        return f"FOLD({s(a[1])}<{s(a[0])}; {s(a[2])} := {s(a[3])}; {s(a[4])})"
    if op == "c":
        return repr(a[0]) if len(a) > 1 and a[1] == "bytes" else str(a[0])
    if op == "in":
        return a[0]
    if op == "fld":
        return f"{s(a[0])}.{a[1]}"
    if op == "const":
        return a[0]
    if op == "agg":
        if a[0] == "tuple":
            return "(" + ", ".join(s(x) for x in a[2:]) + ")"
        return a[0].split("::")[-1] + "{" + ", ".join(f"{n}: {s(v)}" for n, v in zip(a[1], a[2:])) + "}"
    if op == "call":
        nm = a[0]
        return f"{nm}(" + ", ".join(s(x) for x in a[2:]) + ")"
    if op == "ite":
        if is_bool_leaf(a[1]) and is_bool_leaf(a[2]):
            return s(a[0]) if a[1] is TRUE else "!" + s(a[0])
        return f"if {s(a[0])} {{{s(a[1])}}} else {{{s(a[2])}}}"
    if op == "lin":
        return "(" + " + ".join([(f"{c}*" if c != 1 else "") + s(x) for x, c in a[1]] + ([str(a[0])] if a[0] else [])) + ")"
    if op == "bv":
        return f"i{a[0]}"
    if op == "iv":
        return f"?i{a[0]}"
    if op == "pos":
        return s(a[0]) + ">0"
    if op == "eqz":
        return s(a[0]) + "==0"
    if op == "eq":
        return f"({s(a[0])} == {s(a[1])})"
    if op == "exists":
        return f"exists {s(a[1])}<{s(a[0])}: {s(a[2])}"
    if op == "seq":
        return f"[{s(a[2])} | {s(a[1])}<{s(a[0])}]"
    if op == "elem":
        return f"{s(a[0])}[{s(a[1])}]"
    return f"{op}(" + ", ".join(s(x) if isinstance(x, T) else str(x) for x in a) + ")"
