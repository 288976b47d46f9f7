"""Models of the standard-library and external functions whose meaning the value flow interprets."""
from .terms import *
from .vf import *
from . import vf as _vf
import re

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f

    return d


def find(info):
    if info.trait:
        f = M.get((info.trait, info.name, info.self_head()))
        if f:
            return f
        f = M.get(info.trait + "::" + info.name)
        if f:
            return f
        return None
    p = info.rpath or info.path
    f = M.get(p)
    if f:
        return f
    return None


ident = lambda vf, c, i, a: a[0]


# ------------------------------------------------------------------ identities
@model(
    "core::clone::Clone::clone",
    "core::borrow::Borrow::borrow",
    "alloc::borrow::ToOwned::to_owned",
    "core::iter::Iterator::by_ref",
    "core::option::Option::<T>::as_ref",
    "core::option::Option::<T>::as_deref",
    "core::option::Option::<&T>::cloned",
    "core::option::Option::<&T>::copied",
    "core::result::Result::<&T, E>::cloned",
    "core::result::Result::<&T, E>::copied",
    "core::option::Option::<T>::take_identity",
    "core::result::Result::<T, E>::as_ref",
    "core::hint::must_use",
    "secrecy::ExposeSecret::expose_secret",
    "crypto_bigint::NonZero::<T>::as_ref",
    "crypto_bigint::NonZero::<T>::get",
    "alloc::boxed::Box::<T>::new",
    "alloc::vec::Vec::<T, A>::into_boxed_slice",
    "alloc::vec::Vec::<T, A>::as_slice",
    "core::slice::<impl [T]>::to_vec",
    "alloc::slice::<impl [T]>::to_vec",
    "alloc::slice::<impl [T]>::into_vec",
    "core::ops::DerefMut::deref_mut",
    "core::convert::identity",
    "elliptic_curve::subtle::CtOption::<T>::into_option",
    "secrecy::ExposeSecretMut::expose_secret_mut",
    "core::convert::AsMut::as_mut",
    "core::array::<impl [T; N]>::as_slice",
    "core::array::<impl [T; N]>::as_ref",
)
def m_id(vf, c, i, a):
    return a[0]


def idread(vf, c, i, a):
    if i.key is not None and i.fnrec is not None and i.name in ("deref", "as_ref", "clone", "borrow") and not i.fnrec.get("derived_fn"):
        hd = i.self_head()
        # (hand-written clone() is proved to give a copy by props/wrapc.py)
        if hd not in _vf.TRANSPARENT and i.name != "clone":
            return NotImplemented
    return c.read(a[0])


for n in (
    "core::clone::Clone::clone",
    "core::ops::Deref::deref",
    "core::convert::AsRef::as_ref",
    "core::borrow::Borrow::borrow",
    "alloc::borrow::ToOwned::to_owned",
    "secrecy::ExposeSecret::expose_secret",
):
    M[n] = idread


@model("core::convert::AsMut::as_mut", "core::ops::DerefMut::deref_mut")
def m_idmut(vf, c, i, a):
    if i.key is not None and i.self_head() not in _vf.TRANSPARENT:
        return NotImplemented
    return a[0]


@model("core::convert::Into::into", "core::convert::From::from")
def m_into(vf, c, i, a):
    x = c.read(a[0])
    if i.name == "into":
        src, dst = i.targs[0], i.targs[1]
    else:
        dst, src = i.targs[0], i.targs[1]
    return conv(vf, c, src, dst, x)


IDCONV = {
    ("elliptic_curve::subtle::CtOption", "core::option::Option"),
}


def peel(t):
    t = head(t)
    while t.k == "adt" and t.path in _vf.TRANSPARENT and t.args:
        t = head(t.args[0])
    return t


def conv(vf, c, src, dst, x):
    s, d = peel(src), peel(dst)
    if s.s == d.s:
        return x
    if (s.path, d.path) in IDCONV:
        return x
    if {s.s, d.s} <= {"bool", "elliptic_curve::subtle::Choice", "u8"} or s.path == "elliptic_curve::subtle::Choice" and d.s == "bool":
        if s.s == "u8":

            def f(y):
                if y.op == "c" and isinstance(y.args[0], int):
                    return const(bool(y.args[0]))
                return atom(eq(y, const(1)))

            return lift(x, f)
        return tobool(x)
    if d.path == "core::option::Option" and d.args and head(d.args[0]).s == s.s:
        return some(x)
    seqk = ("slice", "array")
    if s.k in seqk or s.path in ("alloc::vec::Vec",):
        if d.k in seqk or d.path in ("alloc::vec::Vec",):
            return x
    ints = vf.INTW
    if s.s in ints and d.s in ints:
        return x
    if s.s == "str" or s.path == "alloc::string::String":
        if d.s == "str" or d.path == "alloc::string::String":
            return x
    # local impl of From
    r = vf.F.find_impl("core::convert::From", [dst, src])
    if r is not None:
        im, m = r
        for nm, k, _ in im["items"]:
            if nm == "from" and k in vf.F.by_key and vf.F.by_key[k].get("body"):
                f2 = vf.F.by_key[k]
                info = Info("core::convert::From::from", "core::convert::From", [dst, src], k, f2["path"], {}, vf.F)
                lf = vf.leaf(info)
                if lf is None and not any(s_[0] == f2["path"] for s_ in c.fr.stack[-6:]):
                    return vf.inline(c, f2, m, [x])
    r = vf.F.find_impl("core::convert::Into", [src, dst])
    return vf.opaque(c, "into", None, [x], extra=d.s)


@model("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def m_tryinto(vf, c, i, a):
    x = c.read(a[0])
    if i.name == "try_into":
        src, dst = i.targs[0], i.targs[1]
    else:
        dst, src = i.targs[0], i.targs[1]
    s, d = peel(src), peel(dst)
    if s.s in vf.INTW and d.s in vf.INTW:
        if vf.INTW[d.s] >= vf.INTW[s.s]:
            return ok(x)
        return vf.opaque(c, "try_into", None, [x], extra=d.s)
    r = vf.F.find_impl("core::convert::TryFrom", [dst, src])
    if r is not None:
        im, m = r
        for nm, k, _ in im["items"]:
            if nm == "try_from" and k in vf.F.by_key and vf.F.by_key[k].get("body"):
                f2 = vf.F.by_key[k]
                info = Info("core::convert::TryFrom::try_from", "core::convert::TryFrom", [dst, src], k, f2["path"], {}, vf.F)
                if vf.leaf(info) is None:
                    return vf.inline(c, f2, m, [x])
    return vf.opaque(c, "try_into", None, [x], extra=d.s)


@model("secrecy::SecretBox::<S>::init_with", "secrecy::SecretBox::<S>::init_with_mut")
def m_initwith(vf, c, i, a):
    return vf.call_value(c, a[0], [])


@model("secrecy::SecretBox::<S>::try_init_with")
def m_tryinit(vf, c, i, a):
    return vf.call_value(c, a[0], [])


@model("secrecy::SecretBox::<S>::new")
def m_sbnew(vf, c, i, a):
    return a[0]


@model("core::mem::drop", "core::ops::Drop::drop", "zeroize::Zeroize::zeroize")
def m_unit(vf, c, i, a):
    return UNIT


@model("core::mem::take")
def m_take(vf, c, i, a):
    v = c.read(a[0])
    c.write(a[0], mk0("call", "default", i.targs[0].s))
    return v


@model("core::mem::replace")
def m_replace(vf, c, i, a):
    v = c.read(a[0])
    c.write(a[0], a[1])
    return v


@model("core::mem::swap")
def m_swap(vf, c, i, a):
    x, y = c.read(a[0]), c.read(a[1])
    c.write(a[0], y)
    c.write(a[1], x)
    return UNIT


# ------------------------------------------------------------------ panics
@model(
    "core::panicking::panic",
    "core::panicking::panic_fmt",
    "core::panicking::assert_failed",
    "core::panicking::unimplemented_default_msg",
    "core::panicking::panic_display",
    "core::panicking::panic_explicit",
    "core::panicking::panic_bounds_check",
    "core::panicking::panic_str_2015",
    "core::panicking::unreachable_display",
    "core::panicking::panic_nounwind",
    "core::option::expect_failed",
    "core::option::unwrap_failed",
    "core::result::unwrap_failed",
)
def m_panic(vf, c, i, a):
    c.abort(TRUE, i.name, c.t.get("mac") or "")
    return None


# ------------------------------------------------------------------ Option / Result
def case2(vf, c, x, f_yes, f_no, test, payload):
    """Evaluate closures on the two variants with separate states, then merge."""
    yes = test(x)
    outs = []
    for cond, fn in ((yes, f_yes), (b_not(yes), f_no)):
        pc = b_and(c.st.pc, cond)
        if pc is FALSE:
            continue
        s2 = St(pc, dict(c.st.mem))
        c2 = Ctx(vf, c.fr, c.b, s2, c.sp, c.dt, c.t)
        v = fn(c2, restrict(x, cond))
        if v is None:
            continue
        s2.mem[("tmp", 0)] = v
        outs.append(s2)
    m = vf.merge(outs)
    if m is None:
        c.st.pc = FALSE
        return None
    v = m.mem.pop(("tmp", 0))
    c.st.pc, c.st.mem = m.pc, m.mem
    return v


def pay(x, n):
    return fld(x, n)


@model("core::option::Option::<T>::is_some", "elliptic_curve::subtle::CtOption::<T>::is_some")
def m_issome(vf, c, i, a):
    return is_some(c.read(a[0]))


@model("core::option::Option::<T>::is_none", "elliptic_curve::subtle::CtOption::<T>::is_none")
def m_isnone(vf, c, i, a):
    return b_not(is_some(c.read(a[0])))


@model("core::result::Result::<T, E>::is_ok")
def m_isok(vf, c, i, a):
    return is_ok(c.read(a[0]))


@model("core::result::Result::<T, E>::is_err")
def m_iserr(vf, c, i, a):
    return b_not(is_ok(c.read(a[0])))


@model(
    "core::option::Option::<T>::expect",
    "core::option::Option::<T>::unwrap",
    "elliptic_curve::subtle::CtOption::<T>::expect",
    "elliptic_curve::subtle::CtOption::<T>::unwrap",
)
def m_expect(vf, c, i, a):
    x = c.read(a[0])
    s = is_some(x)
    if not c.abort(b_not(s), i.name, show(x, 3)):
        return None
    return fld(restrict(x, s), "Some.0")


@model("core::result::Result::<T, E>::expect", "core::result::Result::<T, E>::unwrap")
def m_rexpect(vf, c, i, a):
    x = c.read(a[0])
    s = is_ok(x)
    if not c.abort(b_not(s), i.name, show(x, 3)):
        return None
    return fld(restrict(x, s), "Ok.0")


@model("core::option::Option::<T>::ok_or")
def m_okor(vf, c, i, a):
    x = c.read(a[0])
    return ite(is_some(x), ok(fld(restrict(x, is_some(x)), "Some.0")), err(a[1]))


@model("core::option::Option::<T>::ok_or_else")
def m_okorelse(vf, c, i, a):
    x = c.read(a[0])

    def no(c2, y):
        v = vf.call_value(c2, a[1], [])
        return None if v is None else err(v)

    return case2(vf, c, x, lambda c2, y: ok(fld(y, "Some.0")), no, is_some, None)


@model("core::option::Option::<T>::map", "elliptic_curve::subtle::CtOption::<T>::map")
def m_omap(vf, c, i, a):
    x = c.read(a[0])

    def yes(c2, y):
        v = vf.call_value(c2, a[1], [fld(y, "Some.0")])
        return None if v is None else some(v)

    return case2(vf, c, x, yes, lambda c2, y: NONE, is_some, None)


@model("core::option::Option::<T>::and_then", "elliptic_curve::subtle::CtOption::<T>::and_then")
def m_oandthen(vf, c, i, a):
    x = c.read(a[0])
    return case2(vf, c, x, lambda c2, y: vf.call_value(c2, a[1], [fld(y, "Some.0")]), lambda c2, y: NONE, is_some, None)


@model("core::option::Option::<T>::filter")
def m_ofilter(vf, c, i, a):
    x = c.read(a[0])

    def yes(c2, y):
        v = vf.call_value(c2, a[1], [fld(y, "Some.0")])
        return None if v is None else ite(tobool(v), y, NONE)

    return case2(vf, c, x, yes, lambda c2, y: NONE, is_some, None)


@model("core::option::Option::<T>::is_some_and")
def m_issomeand(vf, c, i, a):
    x = c.read(a[0])
    return case2(vf, c, x, lambda c2, y: vf.call_value(c2, a[1], [fld(y, "Some.0")]), lambda c2, y: FALSE, is_some, None)


@model("core::option::Option::<T>::is_none_or")
def m_isnoneor(vf, c, i, a):
    x = c.read(a[0])
    return case2(vf, c, x, lambda c2, y: vf.call_value(c2, a[1], [fld(y, "Some.0")]), lambda c2, y: TRUE, is_some, None)


@model("core::result::Result::<T, E>::is_ok_and")
def m_isokand(vf, c, i, a):
    x = c.read(a[0])
    return case2(vf, c, x, lambda c2, y: vf.call_value(c2, a[1], [fld(y, "Ok.0")]), lambda c2, y: FALSE, is_ok, None)


@model("core::option::Option::<T>::map_or")
def m_omapor(vf, c, i, a):
    x = c.read(a[0])
    return case2(vf, c, x, lambda c2, y: vf.call_value(c2, a[2], [fld(y, "Some.0")]), lambda c2, y: a[1], is_some, None)


@model("core::option::Option::<T>::map_or_else")
def m_omaporelse(vf, c, i, a):
    x = c.read(a[0])
    return case2(
        vf, c, x, lambda c2, y: vf.call_value(c2, a[2], [fld(y, "Some.0")]), lambda c2, y: vf.call_value(c2, a[1], []), is_some, None
    )


@model("core::option::Option::<T>::unwrap_or", "elliptic_curve::subtle::CtOption::<T>::unwrap_or")
def m_ounwrapor(vf, c, i, a):
    x = c.read(a[0])
    s = is_some(x)
    return ite(s, fld(restrict(x, s), "Some.0"), a[1])


@model("core::result::Result::<T, E>::unwrap_or")
def m_runwrapor(vf, c, i, a):
    x = c.read(a[0])
    s = is_ok(x)
    return ite(s, fld(restrict(x, s), "Ok.0"), a[1])


@model("core::option::Option::<T>::unwrap_or_else")
def m_ounwraporelse(vf, c, i, a):
    x = c.read(a[0])
    return case2(vf, c, x, lambda c2, y: fld(y, "Some.0"), lambda c2, y: vf.call_value(c2, a[1], []), is_some, None)


@model("core::option::Option::<T>::or", "core::option::Option::<T>::or_else")
def m_oor(vf, c, i, a):
    x = c.read(a[0])
    if i.name == "or":
        return ite(is_some(x), x, a[1])
    return case2(vf, c, x, lambda c2, y: y, lambda c2, y: vf.call_value(c2, a[1], []), is_some, None)


@model("core::option::Option::<T>::take")
def m_otake(vf, c, i, a):
    x = c.read(a[0])
    c.write(a[0], NONE)
    return x


@model("core::option::Option::<core::result::Result<T, E>>::transpose")
def m_transpose(vf, c, i, a):
    x = c.read(a[0])
    s = is_some(x)
    r = fld(restrict(x, s), "Some.0")
    o = is_ok(r)
    return ite(s, ite(o, ok(some(fld(restrict(r, o), "Ok.0"))), err(fld(restrict(r, b_not(o)), "Err.0"))), ok(NONE))


@model("core::result::Result::<core::option::Option<T>, E>::transpose")
def m_rtranspose(vf, c, i, a):
    x = c.read(a[0])
    o = is_ok(x)
    y = fld(restrict(x, o), "Ok.0")
    s = is_some(y)
    return ite(o, ite(s, some(ok(fld(restrict(y, s), "Some.0"))), NONE), some(err(fld(restrict(x, b_not(o)), "Err.0"))))


@model("core::result::Result::<T, E>::ok")
def m_rok(vf, c, i, a):
    x = c.read(a[0])
    return ite(is_ok(x), some(fld(restrict(x, is_ok(x)), "Ok.0")), NONE)


@model("core::result::Result::<T, E>::err")
def m_rerr(vf, c, i, a):
    x = c.read(a[0])
    return ite(is_ok(x), NONE, some(fld(restrict(x, b_not(is_ok(x))), "Err.0")))


@model("core::result::Result::<T, E>::map")
def m_rmap(vf, c, i, a):
    x = c.read(a[0])

    def yes(c2, y):
        v = vf.call_value(c2, a[1], [fld(y, "Ok.0")])
        return None if v is None else ok(v)

    return case2(vf, c, x, yes, lambda c2, y: err(fld(y, "Err.0")), is_ok, None)


@model("core::result::Result::<T, E>::map_err")
def m_rmaperr(vf, c, i, a):
    x = c.read(a[0])

    def no(c2, y):
        v = vf.call_value(c2, a[1], [fld(y, "Err.0")])
        return None if v is None else err(v)

    return case2(vf, c, x, lambda c2, y: ok(fld(y, "Ok.0")), no, is_ok, None)


@model("core::result::Result::<T, E>::and_then")
def m_randthen(vf, c, i, a):
    x = c.read(a[0])
    return case2(vf, c, x, lambda c2, y: vf.call_value(c2, a[1], [fld(y, "Ok.0")]), lambda c2, y: err(fld(y, "Err.0")), is_ok, None)


@model("core::result::Result::<T, E>::or_else")
def m_rorelse(vf, c, i, a):
    x = c.read(a[0])
    return case2(vf, c, x, lambda c2, y: ok(fld(y, "Ok.0")), lambda c2, y: vf.call_value(c2, a[1], [fld(y, "Err.0")]), is_ok, None)


@model("core::result::Result::<T, E>::unwrap_or_else")
def m_runwraporelse(vf, c, i, a):
    x = c.read(a[0])
    return case2(vf, c, x, lambda c2, y: fld(y, "Ok.0"), lambda c2, y: vf.call_value(c2, a[1], [fld(y, "Err.0")]), is_ok, None)


CONT = "core::ops::ControlFlow::Continue"
BRK = "core::ops::ControlFlow::Break"


@model("core::ops::Try::branch")
def m_branch(vf, c, i, a):
    x = c.read(a[0])
    sh = i.self_head()
    if sh == _vf.OPT:
        s = is_some(x)
        return ite(s, agg(CONT, ["Continue.0"], [fld(restrict(x, s), "Some.0")]), agg(BRK, ["Break.0"], [NONE]))
    if sh == _vf.RES:
        s = is_ok(x)
        return ite(
            s,
            agg(CONT, ["Continue.0"], [fld(restrict(x, s), "Ok.0")]),
            agg(BRK, ["Break.0"], [err(fld(restrict(x, b_not(s)), "Err.0"))]),
        )
    return NotImplemented


@model("core::ops::FromResidual::from_residual")
def m_residual(vf, c, i, a):
    x = a[0]
    sh = i.self_head()
    if sh == _vf.OPT:
        return NONE
    if sh == _vf.RES:
        dst = head(i.targs[0]).args[1]
        src = head(i.targs[1])
        e = fld(x, "Err.0")
        if src.k == "adt" and len(src.args) == 2:
            v = conv(vf, c, src.args[1], dst, e)
            if v is None:
                return None
            return err(v)
        return err(e)
    return NotImplemented


# ------------------------------------------------------------------ subtle
@model("elliptic_curve::subtle::CtOption::<T>::new")
def m_ctnew(vf, c, i, a):
    return ite(tobool(a[1]), some(a[0]), NONE)


@model("elliptic_curve::subtle::ConditionallySelectable::conditional_select")
def m_condsel(vf, c, i, a):
    if i.key is not None and i.fnrec is not None:
        # structural: selecting the parts is selecting the whole; the local impl is analysed on its own
        pass
    return ite(tobool(a[2]), c.read(a[1]), c.read(a[0]))


@model("elliptic_curve::subtle::ConditionallySelectable::conditional_assign")
def m_condassign(vf, c, i, a):
    old = c.read(a[0])
    c.write(a[0], ite(tobool(a[2]), c.read(a[1]), old))
    return UNIT


@model("elliptic_curve::subtle::ConditionallyNegatable::conditional_negate")
def m_condneg(vf, c, i, a):
    old = c.read(a[0])
    n = mk0("call", "core::ops::Neg::neg", peel(i.targs[0]).s, old)
    c.write(a[0], ite(tobool(a[1]), n, old))
    return UNIT


@model("elliptic_curve::subtle::ConstantTimeEq::ct_eq")
def m_cteq(vf, c, i, a):
    return eq(c.read(a[0]), c.read(a[1]))


@model("elliptic_curve::subtle::ConstantTimeEq::ct_ne")
def m_ctne(vf, c, i, a):
    return b_not(eq(c.read(a[0]), c.read(a[1])))


def order(vf, c, i, a, kind):
    x, y = c.read(a[0]), c.read(a[1])
    t = peel(i.targs[0])
    if t.s in vf.INTW:
        return {"lt": lt(x, y), "gt": lt(y, x), "le": le(x, y), "ge": le(y, x)}[kind]
    less = lambda p, q: atom(mk0("less", p, q))
    return {"lt": less(x, y), "gt": less(y, x), "le": b_not(less(y, x)), "ge": b_not(less(x, y))}[kind]


M["elliptic_curve::subtle::ConstantTimeLess::ct_lt"] = lambda vf, c, i, a: order(vf, c, i, a, "lt")
M["elliptic_curve::subtle::ConstantTimeGreater::ct_gt"] = lambda vf, c, i, a: order(vf, c, i, a, "gt")
for k in ("lt", "gt", "le", "ge"):
    M["core::cmp::PartialOrd::" + k] = (lambda k: lambda vf, c, i, a: order(vf, c, i, a, k))(k)


@model("elliptic_curve::subtle::Choice::unwrap_u8")
def m_unwrapu8(vf, c, i, a):
    return lift(tobool(c.read(a[0])), lambda x: const(1) if x is TRUE else const(0))


def is_choice(i):
    t = peel(i.targs[0])
    return t.s == "bool" or t.path == "elliptic_curve::subtle::Choice"


BOOLOPS = {"bitand": b_and, "bitor": b_or, "bitxor": b_xor}
ARITH = {"add": add, "sub": sub, "mul": mul}
OPTRAIT = {
    "core::ops::BitAnd": "bitand",
    "core::ops::BitOr": "bitor",
    "core::ops::BitXor": "bitxor",
    "core::ops::Add": "add",
    "core::ops::Sub": "sub",
    "core::ops::Mul": "mul",
    "core::ops::Div": "div",
    "core::ops::Rem": "rem",
    "core::ops::Shl": "shl",
    "core::ops::Shr": "shr",
}


ASSIGN = {tr + "Assign": (tr, nm) for tr, nm in OPTRAIT.items()}


def binmodel(tr, nm):
    def f(vf, c, i, a):
        x, y = c.read(a[0]), c.read(a[1])
        if is_choice(i) and nm in BOOLOPS:
            return BOOLOPS[nm](x, y)
        if peel(i.targs[0]).s in vf.INTW:
            if nm in ARITH:
                return ARITH[nm](x, y)
            return vf.binop({"div": "Div", "rem": "Rem", "shl": "Shl", "shr": "Shr", "bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor"}[nm], x, y, "u32")
        if i.key is not None:
            return NotImplemented
        return mk0("call", tr + "::" + nm, peel(i.targs[0]).s, x, y)

    return f


def assignmodel(tr, nm):
    def f(vf, c, i, a):
        x, y = c.read(a[0]), c.read(a[1])
        if is_choice(i) and nm in BOOLOPS:
            c.write(a[0], BOOLOPS[nm](x, y))
            return UNIT
        if peel(i.targs[0]).s in vf.INTW and nm in ARITH:
            c.write(a[0], ARITH[nm](x, y))
            return UNIT
        if i.key is not None:
            return NotImplemented
        c.write(a[0], mk0("call", tr + "::" + nm, peel(i.targs[0]).s, x, y))
        return UNIT

    return f


for tr, nm in OPTRAIT.items():
    M[tr + "::" + nm] = binmodel(tr, nm)
    M[tr + "Assign::" + nm + "_assign"] = assignmodel(tr, nm)


@model("core::ops::Neg::neg")
def m_neg(vf, c, i, a):
    if i.key is not None:
        return NotImplemented
    return mk0("call", "core::ops::Neg::neg", peel(i.targs[0]).s, c.read(a[0]))


@model("core::ops::Not::not")
def m_not(vf, c, i, a):
    if is_choice(i):
        return b_not(c.read(a[0]))
    return NotImplemented


# ------------------------------------------------------------------ comparison
@model("core::cmp::PartialEq::eq")
def m_eq(vf, c, i, a):
    return vf_eq(vf, c, i, c.read(a[0]), c.read(a[1]))


@model("core::cmp::PartialEq::ne")
def m_ne(vf, c, i, a):
    return b_not(vf_eq(vf, c, i, c.read(a[0]), c.read(a[1])))


def vf_eq(vf, c, i, x, y):
    """Derived equality is structural; a hand-written one is analysed (unless declared structural)."""
    t = peel(i.targs[0])
    if t.k == "adt":
        r = vf.F.find_impl("core::cmp::PartialEq", [t, t])
        if r is not None and not r[0]["derived"]:
            for nm, k, _ in r[0]["items"]:
                if nm == "eq" and k in vf.F.by_key and vf.F.by_key[k].get("body"):
                    f2 = vf.F.by_key[k]
                    info = Info("core::cmp::PartialEq::eq", "core::cmp::PartialEq", [t, t], k, f2["path"], {}, vf.F)
                    if vf.leaf(info) is None:
                        return tobool(vf.inline(c, f2, r[1], [x, y]))
    return eq(x, y)


@model("core::cmp::max", "core::cmp::Ord::max", "core::cmp::min", "core::cmp::Ord::min")
def m_minmax(vf, c, i, a):
    x, y = a
    if i.name == "max":
        return ite(pos(sub(y, x)), y, x)
    return imin(x, y)


@model("core::num::<impl u32>::div_ceil", "core::num::<impl usize>::div_ceil", "core::num::<impl u64>::div_ceil")
def m_divceil(vf, c, i, a):
    x, y = a
    if x.op == "c" and y.op == "c" and y.args[0]:
        return const(-(-x.args[0] // y.args[0]))
    return mk0("bin", "Div", add(x, sub(y, const(1))), y)


# ------------------------------------------------------------------ function values
@model("core::ops::Fn::call", "core::ops::FnMut::call_mut", "core::ops::FnOnce::call_once")
def m_fncall(vf, c, i, a):
    args = a[1]
    vals = list(args.args[2:]) if args.op == "agg" else [args]
    return vf.call_value(c, a[0], vals)


# ------------------------------------------------------------------ iterators
def it(seqt, p=None):
    return mk0("iter", seqt, p if p is not None else const(0))


def as_seq(x):
    """Remaining items of an iterator value as a sequence term."""
    if x.op == "ite":
        return lift(x, as_seq)
    if x.op == "iter":
        s, p = x.args
        if p is const(0):
            return s
        iv = fresh_iv()
        return seq(sub(length(s), p), iv, elem(s, add(p, iv)))
    return x


def range_seq(lo, hi):
    iv = fresh_iv()
    d = sub(hi, lo)
    return seq(d, iv, add(lo, iv))


def to_iter(vf, c, ty, v):
    if v.op == "iter":
        return v
    if v.op == "agg" and v.args[0] in ("core::ops::Range",):
        return it(range_seq(fld(v, "start"), fld(v, "end")))
    if v.op == "agg" and v.args[0] == "core::ops::RangeInclusive":
        return it(range_seq(fld(v, "start"), add(fld(v, "end"), const(1))))
    if v.op == "agg" and v.args[0] == "core::ops::RangeFrom":
        return it(range_seq(fld(v, "start"), add(fld(v, "start"), ENDLESS)))
    if v.op == "agg" and v.args[0] in ("core::option::Option::Some",):
        return it(agg("array", ["0"], [v.args[2]]))
    return it(v)


@model("core::ops::RangeInclusive::<Idx>::new")
def m_rangeincl(vf, c, i, a):
    return agg("core::ops::RangeInclusive", ["start", "end"], a)


@model("core::ops::RangeInclusive::<Idx>::contains", "core::ops::Range::<Idx>::contains")
def m_rcontains(vf, c, i, a):
    r, x = c.read(a[0]), c.read(a[1])
    lo, hi = fld(r, "start"), fld(r, "end")
    if "Inclusive" in i.path:
        return b_and(le(lo, x), le(x, hi))
    return b_and(le(lo, x), lt(x, hi))


def known_iterable(vf, t):
    t0 = t
    t = peel(t)
    return True


@model("core::iter::IntoIterator::into_iter")
def m_intoiter(vf, c, i, a):
    v = a[0]
    if v.op == "mref":
        # `for x in &mut collection` (or of an iterator borrowed mutably)
        cur = c.read(v)
        if cur.op == "iter":
            return v
        return it(mk0("mutseq", v, length(cur)))
    if i.key is not None:
        return NotImplemented
    return to_iter(vf, c, i.targs[0], v)


@model(
    "core::slice::<impl [T]>::iter",
    "alloc::collections::BTreeSet::<T, A>::iter",
    "alloc::collections::BTreeMap::<K, V, A>::iter",
    "bip32::DerivationPath::iter",
    "core::option::Option::<T>::iter",
)
def m_iter(vf, c, i, a):
    return to_iter(vf, c, None, c.read(a[0]))


@model("core::slice::<impl [T]>::iter_mut", "alloc::collections::BTreeMap::<K, V, A>::values_mut", "alloc::collections::BTreeMap::<K, V, A>::iter_mut")
def m_itermut(vf, c, i, a):
    return it(mk0("mutseq", a[0], length(c.read(a[0]))))


@model("alloc::collections::BTreeMap::<K, V, A>::keys", "alloc::collections::BTreeMap::<K, V, A>::into_keys")
def m_keys(vf, c, i, a):
    return it(keys_of(c.read(a[0])))


@model("alloc::collections::BTreeMap::<K, V, A>::values", "alloc::collections::BTreeMap::<K, V, A>::into_values")
def m_values(vf, c, i, a):
    return it(values_of(c.read(a[0])))


def keys_of(m):
    if m.op == "ite":
        return lift(m, keys_of)
    if m.op == "cat":
        return cat([mk0("one", fld(p.args[0], "0")) if p.op == "one" else keys_of(p) for p in m.args])
    if m.op in ("seq", "fseq"):
        return map_seq(m, lambda e: fld(e, "0"))
    if m.op == "mapset":
        return keys_of(m.args[0])
    return mk0("keys", m)


def values_of(m):
    if m.op == "ite":
        return lift(m, values_of)
    if m.op == "cat":
        return cat([mk0("one", fld(p.args[0], "1")) if p.op == "one" else values_of(p) for p in m.args])
    if m.op in ("seq", "fseq"):
        return map_seq(m, lambda e: fld(e, "1"))
    return mk0("values", m)


def map_seq(s, f):
    """Element-wise image under a pure term function."""
    if s.op == "ite":
        return lift(s, lambda x: map_seq(x, f))
    if s.op == "fseq":
        d, bv, cnd, b = s.args
        iv = fresh_iv()
        return fseq(d, iv, subst(cnd, {bv: iv}), f(subst(b, {bv: iv})))
    if s.op == "cat":
        return cat([mk0("one", f(p.args[0])) if p.op == "one" else map_seq(p, f) for p in s.args])
    iv = fresh_iv()
    return seq(length(s), iv, f(elem(s, iv)))


def _keys_r(m):
    return keys_of(m)


REBUILD["keys"] = keys_of
REBUILD["values"] = values_of


def item_of(vf, c, s, idx):
    """Element idx of a sequence being iterated, as seen by the consumer."""
    if s.op == "mutseq":
        r = s.args[0]
        if r.op == "mref":
            return mk0("mref", r.args[0], r.args[1] + (("i", idx),))
        return elem(c.read(r), idx)
    return elem(s, idx)


@model("core::iter::Iterator::next", "core::iter::DoubleEndedIterator::next")
def m_next(vf, c, i, a):
    r = a[0]
    v = c.read(r)
    if v.op == "agg" and v.args[0] in ("core::ops::Range", "core::ops::RangeInclusive"):
        v = to_iter(vf, c, None, v)
    if v.op != "iter":
        if i.key is not None:
            return NotImplemented
        return NotImplemented
    s, p = v.args
    more = pos(sub(length(s), p))
    x = item_of(vf, c, s, p)
    # the position advances only while there are items; a finished iterator is never read again
    c.write(r, mk0("iter", s, add(p, const(1))))
    return ite(more, some(x), NONE)


def elementwise(vf, c, s, f, kind):
    """Apply the function value f to every element under an index; returns (iv, D, result, extra)."""


def run_indexed(vf, c, D, body, when=None):
    """Evaluate body(ctx2, iv) for a generic index iv in 0..D (of those for which `when` holds) in a loop context.
    State changes made by the body are summarised like those of a loop."""
    iv = fresh_iv()
    base = St(c.st.pc, dict(c.st.mem))
    saved_aborts = vf.aborts
    saved_fresh = dict(vf.fresh_n)
    ev0 = len(vf.events)
    hyp = set()
    for attempt in range(6):
        vf.aborts = []
        vf.fresh_n = dict(saved_fresh)
        del vf.events[ev0:]
        mem = dict(base.mem)
        lvs = {}
        for cell in hyp:
            lv = mk0("lv", iv, repr(cell))
            mem[cell] = lv
            lvs[cell] = lv
        w = when(iv) if when else TRUE
        s2 = St(w, mem)
        c2 = Ctx(vf, c.fr, c.b, s2, c.sp, c.dt, c.t)
        vf.ivstack.append(iv)
        v = body(c2, iv)
        vf.ivstack.pop()
        s2 = c2.st
        if w is not TRUE:
            s2 = vf.merge([s2, St(b_not(w), dict(mem))]) or s2
        ch = False
        for cell, x in s2.mem.items():
            if cell in base.mem and cell not in hyp and x is not base.mem[cell]:
                hyp.add(cell)
                ch = True
        if not ch:
            break
    mine = vf.aborts
    vf.aborts = saved_aborts
    inD = pos(sub(D, iv))
    at = {}
    if lvs:
        back = St(TRUE, s2.mem)
        at = vf.summaries(c.fr, base, {k: ("lv", None) for k in hyp}, lvs, back, iv, D)
    sat = {lvs[k]: x for k, x in at.items()}

    def fin(t):
        if t is None:
            return None
        for _ in range(len(sat) + 1):
            n = subst(t, sat) if sat else t
            if n is t:
                break
            t = n
        return t

    bad = FALSE
    for ab in mine:
        cnd = fin(restrict(tobool(ab.cond), inD))
        bad = b_or(bad, cnd)
        vf.aborts.append(Abort(b_and(c.st.pc, exists(D, iv, cnd)), ab.kind, ab.fn, ab.sp, ab.what, ab.stack))
    for k in range(ev0, len(vf.events)):
        pcx, nm, ar, site = vf.events[k]
        vf.events[k] = (b_and(c.st.pc, fin(pcx)), nm, tuple(fin(x) for x in ar), site)
    c.st.pc = b_and(c.st.pc, b_not(exists(D, iv, bad)))
    for cell, x in at.items():
        c.st.mem[cell] = subst(x, {iv: D})
    return iv, fin(v)


def seq_items(vf, c, s, idx):
    return item_of(vf, c, s, idx)


def fseq_parts(s):
    """(D, cond(i), item(i)) view of a sequence."""
    if s.op == "fseq":
        d, bv, cnd, b = s.args
        return d, (lambda k: subst(cnd, {bv: k})), (lambda k: subst(b, {bv: k}))
    return None


@model("core::iter::Iterator::map")
def m_map(vf, c, i, a):
    return lift_iter(vf, c, a[0], lambda s: map_iter(vf, c, s, a[1]))


def lift_iter(vf, c, v, f):
    v = c.read(v)
    if v.op == "agg":
        v = to_iter(vf, c, None, v)
    s = as_seq(v)
    if s.op == "ite":
        # evaluate in each branch
        outs = []
        for cond, x in leaves(s):
            pc = b_and(c.st.pc, cond)
            if pc is FALSE:
                continue
            st0 = c.st
            s2 = St(pc, dict(c.st.mem))
            c.st = s2
            r = f(x)
            c.st = st0
            if r is None:
                continue
            s2.mem[("tmp", 1)] = r
            outs.append(s2)
        m = vf.merge(outs)
        if m is None:
            c.st.pc = FALSE
            return None
        r = m.mem.pop(("tmp", 1))
        c.st.pc, c.st.mem = m.pc, m.mem
        return r
    return f(s)


def map_iter(vf, c, s, fv):
    fp = fseq_parts(s)
    if fp:
        D, cnd, item = fp
        iv, v = run_indexed(vf, c, D, lambda c2, k: vf.call_value(c2, fv, [item(k)]), cnd)
        return it(fseq(D, iv, cnd(iv), v if v is not None else UNDEF))
    if s.op == "cat":
        parts = []
        for p in s.args:
            if p.op == "one":
                v = vf.call_value(c, fv, [p.args[0]])
                if v is None:
                    return None
                parts.append(mk0("one", v))
            else:
                r = map_iter(vf, c, p, fv)
                parts.append(r.args[0])
        return it(cat(parts))
    if s.op == "agg" and s.args[0] == "array" and len(s.args) - 2 <= 8:
        vs = []
        for x in s.args[2:]:
            v = vf.call_value(c, fv, [x])
            if v is None:
                return None
            vs.append(v)
        return it(agg("array", s.args[1], vs))
    D = length(s)
    iv, v = run_indexed(vf, c, D, lambda c2, k: vf.call_value(c2, fv, [item_of(vf, c2, s, k)]))
    if v is None:
        v = UNDEF
    return it(seq(D, iv, v))


@model("core::iter::Iterator::filter")
def m_filter(vf, c, i, a):
    def f(s):
        fp = fseq_parts(s)
        if fp:
            D, cnd, item = fp
        else:
            D, cnd, item = length(s), (lambda k: TRUE), (lambda k: item_of(vf, c, s, k))
        iv, v = run_indexed(vf, c, D, lambda c2, k: vf.call_value(c2, a[1], [item(k)]), cnd)
        return it(fseq(D, iv, b_and(cnd(iv), tobool(v)), item(iv)))

    return lift_iter(vf, c, a[0], f)


@model("core::iter::Iterator::filter_map")
def m_filtermap(vf, c, i, a):
    def f(s):
        fp = fseq_parts(s)
        if fp:
            D, cnd, item = fp
        else:
            D, cnd, item = length(s), (lambda k: TRUE), (lambda k: item_of(vf, c, s, k))
        iv, v = run_indexed(vf, c, D, lambda c2, k: vf.call_value(c2, a[1], [item(k)]), cnd)
        sm = is_some(v)
        return it(fseq(D, iv, b_and(cnd(iv), sm), fld(restrict(v, sm), "Some.0")))

    return lift_iter(vf, c, a[0], f)


@model("core::iter::Iterator::cloned", "core::iter::Iterator::copied", "core::iter::Iterator::fuse", "core::iter::Iterator::peekable")
def m_cloned(vf, c, i, a):
    return c.read(a[0])


@model("core::iter::Iterator::enumerate")
def m_enum(vf, c, i, a):
    def f(s):
        if s.op == "mutseq":
            r = s.args[0]
            iv = fresh_iv()
            return it(seq(s.args[1], iv, tup(iv, mk0("mref", r.args[0], r.args[1] + (("i", iv),)))))
        iv = fresh_iv()
        return it(seq(length(s), iv, tup(iv, elem(s, iv))))

    return lift_iter(vf, c, a[0], f)


def length2(s):
    return s.args[1] if s.op == "mutseq" else length(s)


@model("core::iter::Iterator::zip", "core::iter::zip")
def m_zip(vf, c, i, a):
    b = to_iter(vf, c, None, c.read(a[1]) if not (a[1].op == "mref") else a[1])
    if a[1].op == "mref":
        cur = c.read(a[1])
        b = cur if cur.op == "iter" else it(mk0("mutseq", a[1], length(cur)))

    def f(s):
        t = as_seq(b)
        iv = fresh_iv()
        D = imin(length2(s), length2(t))
        return it(seq(D, iv, tup(item_of(vf, c, s, iv), item_of(vf, c, t, iv))))

    return lift_iter(vf, c, to_iter(vf, c, None, c.read(a[0])) if a[0].op != "mref" else a[0], f)


@model("core::iter::Iterator::rev")
def m_rev(vf, c, i, a):
    def f(s):
        iv = fresh_iv()
        D = length2(s)
        return it(seq(D, iv, item_of(vf, c, s, sub(sub(D, const(1)), iv))))

    return lift_iter(vf, c, a[0], f)


@model("core::iter::Iterator::skip")
def m_skip(vf, c, i, a):
    return lift_iter(vf, c, a[0], lambda s: it(s, a[1]))


@model("core::iter::Iterator::take")
def m_itake(vf, c, i, a):
    def f(s):
        iv = fresh_iv()
        return it(seq(imin(length2(s), a[1]), iv, item_of(vf, c, s, iv)))

    return lift_iter(vf, c, a[0], f)


@model("core::iter::Iterator::chain")
def m_chain(vf, c, i, a):
    b = as_seq(to_iter(vf, c, None, c.read(a[1])))
    return lift_iter(vf, c, a[0], lambda s: it(cat([wrapcat(s), wrapcat(b)])))


def wrapcat(s):
    if s.op == "agg" and s.args[0] == "array":
        return cat([mk0("one", x) for x in s.args[2:]])
    return s


@model("core::iter::once")
def m_once(vf, c, i, a):
    return it(agg("array", ["0"], [a[0]]))


@model("core::iter::repeat")
def m_repeat(vf, c, i, a):
    return it(mk0("repeat", a[0], mk0("const", "infinity")))


@model("core::iter::repeat_with")
def m_repeatwith(vf, c, i, a):
    return it(mk0("repwith", a[0]))


@model("core::iter::Iterator::count", "core::iter::ExactSizeIterator::len")
def m_count(vf, c, i, a):
    return lift_iter(vf, c, a[0], lambda s: length2(s))


@model("core::iter::Iterator::any")
def m_any(vf, c, i, a):
    def f(s):
        fp = fseq_parts(s)
        D = fp[0] if fp else length2(s)
        item = fp[2] if fp else (lambda k: None)
        iv, v = run_indexed(vf, c, D, lambda c2, k: vf.call_value(c2, a[1], [item(k) if fp else item_of(vf, c2, s, k)]), fp[1] if fp else None)
        if v is None:
            return FALSE
        cnd = tobool(v)
        if fp:
            cnd = b_and(fp[1](iv), cnd)
        return exists(D, iv, cnd)

    return lift_iter(vf, c, a[0], f)


@model("core::iter::Iterator::all")
def m_all(vf, c, i, a):
    def f(s):
        fp = fseq_parts(s)
        D = fp[0] if fp else length2(s)
        item = fp[2] if fp else None
        iv, v = run_indexed(vf, c, D, lambda c2, k: vf.call_value(c2, a[1], [item(k) if fp else item_of(vf, c2, s, k)]), fp[1] if fp else None)
        if v is None:
            return TRUE
        cnd = b_not(tobool(v))
        if fp:
            cnd = b_and(fp[1](iv), cnd)
        return b_not(exists(D, iv, cnd))

    return lift_iter(vf, c, a[0], f)


@model("core::iter::Iterator::find", "core::iter::Iterator::position")
def m_find(vf, c, i, a):
    def f(s):
        D = length2(s)
        iv, v = run_indexed(vf, c, D, lambda c2, k: vf.call_value(c2, a[1], [item_of(vf, c2, s, k)]))
        cnd = tobool(v)
        ex = exists(D, iv, cnd)
        r = vf.first(D, iv, cnd, item_of(vf, c, s, iv) if i.name == "find" else iv)
        return ite(ex, some(r), NONE)

    return lift_iter(vf, c, a[0], f)


@model("core::iter::Iterator::fold")
def m_fold(vf, c, i, a):
    def f(s):
        return do_fold(vf, c, s, a[1], a[2])

    return lift_iter(vf, c, a[0], f)


@model("core::iter::Iterator::for_each")
def m_foreach(vf, c, i, a):
    def f(s):
        D = length2(s)
        run_indexed(vf, c, D, lambda c2, k: vf.call_value(c2, a[1], [item_of(vf, c2, s, k)]))
        return UNIT

    return lift_iter(vf, c, a[0], f)


@model("core::iter::Iterator::try_for_each")
def m_tryforeach(vf, c, i, a):
    def f(s):
        D = length2(s)
        iv, v = run_indexed(vf, c, D, lambda c2, k: vf.call_value(c2, a[1], [item_of(vf, c2, s, k)]))
        bad = b_not(is_ok(v))
        return ite(exists(D, iv, bad), err(vf.first(D, iv, bad, fld(restrict(v, bad), "Err.0"))), ok(UNIT))

    return lift_iter(vf, c, a[0], f)


def do_fold(vf, c, s, init, fv):
    if s.op == "agg" and s.args[0] == "array":
        acc = init
        for x in s.args[2:]:
            acc = vf.call_value(c, fv, [acc, x])
            if acc is None:
                return None
        return acc
    if s.op == "cat":
        acc = init
        for p in s.args:
            acc = vf.call_value(c, fv, [acc, p.args[0]]) if p.op == "one" else do_fold(vf, c, p, acc, fv)
            if acc is None:
                return None
        return acc
    D = length2(s)
    cell = ("fold", vf.nframe * 1000 + len(vf.events))
    c.st.mem[cell] = init

    def body(c2, k):
        v = vf.call_value(c2, fv, [c2.st.mem[cell], item_of(vf, c2, s, k)])
        if v is None:
            return UNDEF
        c2.st.mem[cell] = v
        return UNIT

    run_indexed(vf, c, D, body)
    return c.st.mem.pop(cell)


@model("core::iter::Iterator::reduce")
def m_reduce(vf, c, i, a):
    def f(s):
        if s.op in ("agg", "cat") and s.op == "agg":
            xs = list(s.args[2:])
            if not xs:
                return NONE
            acc = xs[0]
            for x in xs[1:]:
                acc = vf.call_value(c, a[1], [acc, x])
            return some(acc)
        D = length2(s)
        rest = it(s, const(1))
        v = do_fold(vf, c, as_seq(rest), elem(s, const(0)), a[1])
        if v is None:
            return None
        return ite(pos(D), some(v), NONE)

    return lift_iter(vf, c, a[0], f)


@model("core::iter::Iterator::sum", "core::iter::Iterator::product")
def m_sum(vf, c, i, a):
    dst = i.targs[1] if len(i.targs) > 1 else i.targs[0]

    def f(s):
        # the local impl of Sum is analysed on its own; here the value is the sum
        return mk0("big" + i.name, peel(dst).s, canon_seq(s))

    return lift_iter(vf, c, a[0], f)


def canon_seq(s):
    return s


@model("core::iter::Iterator::collect", "core::iter::FromIterator::from_iter")
def m_collect(vf, c, i, a):
    dst = head(c.dt)
    if i.name == "from_iter":
        dst = head(i.targs[0])

    def f(s):
        return collect_to(vf, c, dst, s)

    v = a[0]
    if i.name == "from_iter":
        v = to_iter(vf, c, None, c.read(v))
    return lift_iter(vf, c, v, f)


def unfailed(x, iv, good):
    """The item `x` at position `iv` of a sequence that is left at its first failing item: the state that a
    closure has carried along is the one after steps that have all succeeded."""
    folds = []

    def found(t):
        if t.op == "fold" and t.args[0] is iv and t not in folds:
            folds.append(t)
        return False

    contains(x, found)
    for f in folds:
        d, bv, acc, init, body = f.args
        step = subst(good(x), {f: acc, iv: bv})
        if contains(step, lambda t: t is iv):
            continue
        x = subst(x, {f: mk0("fold", d, bv, acc, init, restrict_in(body, step))})
    return x


def restrict_in(t, care):
    if t.op == "agg":
        return agg(t.args[0], t.args[1], [restrict_in(x, care) for x in t.args[2:]])
    return restrict(t, care)


def collect_to(vf, c, dst, s):
    if s.op == "mutseq":
        s = c.read(s.args[0])
    if dst.path == _vf.RES:
        if s.op == "agg" and s.args[0] == "array":
            allok = b_and(*[is_ok(x) for x in s.args[2:]])
            vals = [fld(restrict(x, is_ok(x)), "Ok.0") for x in s.args[2:]]
            e = UNDEF
            for x in reversed(s.args[2:]):
                e = ite(is_ok(x), e, fld(restrict(x, b_not(is_ok(x))), "Err.0"))
            return ite(allok, ok(collect_to(vf, c, head(dst.args[0]), agg("array", s.args[1], vals))), err(e))
        D = length(s)
        iv = fresh_iv()
        if s.op == "fseq":
            d, bv, cnd, b = s.args
            x = subst(b, {bv: iv})
            cn = subst(cnd, {bv: iv})
            bad = b_and(cn, b_not(is_ok(x)))
            inner = fseq(d, iv, cn, fld(restrict(x, is_ok(x)), "Ok.0"))
            D = d
        else:
            x = unfailed(elem(s, iv), iv, is_ok)
            bad = b_not(is_ok(x))
            inner = seq(D, iv, fld(restrict(x, is_ok(x)), "Ok.0"))
        good = ok(collect_to(vf, c, head(dst.args[0]), inner))
        ex = exists(D, iv, bad)
        return ite(ex, err(vf.first(D, iv, bad, fld(restrict(x, bad), "Err.0"))), good)
    if dst.path == _vf.OPT:
        D = length(s)
        iv = fresh_iv()
        x = unfailed(elem(s, iv), iv, is_some)
        bad = b_not(is_some(x))
        inner = seq(D, iv, fld(restrict(x, is_some(x)), "Some.0"))
        return ite(exists(D, iv, bad), NONE, some(collect_to(vf, c, head(dst.args[0]), inner)))
    if dst.path == "alloc::collections::BTreeSet":
        return mk_set(s)
    if dst.path == "alloc::collections::BTreeMap":
        return s
    return s


def mk_set(s):
    """A set given by the sequence of its elements."""
    return s


@model("core::iter::Iterator::unzip")
def m_unzip(vf, c, i, a):
    return lift_iter(vf, c, a[0], lambda s: tup(map_seq(s, lambda e: fld(e, "0")), map_seq(s, lambda e: fld(e, "1"))))


# ------------------------------------------------------------------ collections
@model(
    "alloc::vec::Vec::<T>::new",
    "alloc::vec::Vec::<T>::with_capacity",
    "alloc::collections::BTreeMap::<K, V>::new",
    "alloc::collections::BTreeSet::<T>::new",
)
def m_newcoll(vf, c, i, a):
    return EMPTY


@model("core::default::Default::default")
def m_default(vf, c, i, a):
    t = head(c.dt)
    if t.path in ("alloc::vec::Vec", "alloc::collections::BTreeMap", "alloc::collections::BTreeSet"):
        return EMPTY
    if t.s in vf.INTW:
        return const(0)
    if t.path == _vf.OPT:
        return NONE
    if i.key is not None:
        return NotImplemented
    return mk0("call", "default", t.s)


@model("digest::XofReader::read_boxed")
def m_read_boxed(vf, c, i, a):
    r, buf = c.read(a[0]), mk0("repeat", const(0), a[1])
    c.write(a[0], mk0("upd", "digest::XofReader::read", 0, r, buf))
    return mk0("upd", "digest::XofReader::read", 1, r, buf)


@model("alloc::vec::Vec::<T, A>::push")
def m_push(vf, c, i, a):
    v = c.read(a[0])
    c.write(a[0], lift_push(v, a[1]))
    return UNIT


def lift_push(v, x):
    if v.op == "agg" and v.args[0] == "array":
        return cat([mk0("one", y) for y in v.args[2:]] + [mk0("one", x)])
    return cat([v, mk0("one", x)])


@model("alloc::vec::Vec::<T, A>::extend_from_slice", "core::iter::Extend::extend")
def m_extend(vf, c, i, a):
    v = c.read(a[0])
    s = as_seq(to_iter(vf, c, None, c.read(a[1])))
    c.write(a[0], cat([v, wrapcat(s)]))
    return UNIT


@model("alloc::collections::BTreeMap::<K, V, A>::insert")
def m_minsert(vf, c, i, a):
    v = c.read(a[0])
    c.write(a[0], cat([v, mk0("one", tup(a[1], a[2]))]))
    return mk0("call", "map_previous", "", v, a[1])


@model("alloc::collections::BTreeSet::<T, A>::insert")
def m_sinsert(vf, c, i, a):
    v = c.read(a[0])
    c.write(a[0], cat([v, mk0("one", a[1])]))
    return b_not(member(a[1], v))


@model("alloc::collections::BTreeSet::<T, A>::remove")
def m_sremove(vf, c, i, a):
    v = c.read(a[0])
    x = c.read(a[1])
    c.write(a[0], mk0("without", v, x))
    return member(x, v)


@model("alloc::collections::BTreeMap::<K, V, A>::remove")
def m_mremove(vf, c, i, a):
    v = c.read(a[0])
    x = c.read(a[1])
    c.write(a[0], mk0("mapwithout", v, x))
    return mapget(v, x)


@model(
    "core::slice::<impl [T]>::len",
    "alloc::vec::Vec::<T, A>::len",
    "alloc::collections::BTreeSet::<T, A>::len",
    "alloc::collections::BTreeMap::<K, V, A>::len",
    "core::str::<impl str>::len",
    "alloc::string::String::len",
)
def m_len(vf, c, i, a):
    return length(c.read(a[0]))


@model(
    "core::slice::<impl [T]>::is_empty",
    "alloc::vec::Vec::<T, A>::is_empty",
    "alloc::collections::BTreeSet::<T, A>::is_empty",
    "alloc::collections::BTreeMap::<K, V, A>::is_empty",
)
def m_isempty(vf, c, i, a):
    return eq(length(c.read(a[0])), const(0))


def member(x, s):
    if s.op == "ite":
        return lift(s, lambda y: member(x, y))
    if s.op == "cat":
        return b_or(*[eq(x, p.args[0]) if p.op == "one" else member(x, p) for p in s.args])
    if s.op == "without":
        return b_and(b_not(eq(x, s.args[1])), member(x, s.args[0]))
    if s.op in ("seq", "fseq"):
        iv = fresh_iv()
        if s.op == "seq":
            return exists(s.args[0], iv, eq(x, subst(s.args[2], {s.args[1]: iv})))
        return exists(s.args[0], iv, b_and(subst(s.args[2], {s.args[1]: iv}), eq(x, subst(s.args[3], {s.args[1]: iv}))))
    if x.op == "elem" and x.args[0] is s:
        return TRUE
    if s.op == "agg" and s.args[0] == "array":
        return b_or(*[eq(x, y) for y in s.args[2:]])
    return atom(mk0("member", x, s))


REBUILD["member"] = member


@model(
    "alloc::collections::BTreeSet::<T, A>::contains",
    "core::slice::<impl [T]>::contains",
)
def m_contains(vf, c, i, a):
    return member(c.read(a[1]), c.read(a[0]))


@model("alloc::collections::BTreeMap::<K, V, A>::contains_key")
def m_containskey(vf, c, i, a):
    return member(c.read(a[1]), keys_of(c.read(a[0])))


def mapget(m, k):
    """Option of the value at key k."""
    if m.op == "ite":
        return lift(m, lambda x: mapget(x, k))
    if m.op == "cat":
        r = NONE
        for p in m.args:
            if p.op == "one":
                r = ite(eq(k, fld(p.args[0], "0")), some(fld(p.args[0], "1")), r)
            else:
                g = mapget(p, k)
                r = ite(is_some(g), g, r)
        return r
    if m.op == "mapset":
        g = mapget(m.args[0], k)
        return ite(eq(k, m.args[1]), some(m.args[2]), g)
    if m.op in ("seq", "fseq"):
        d, bv = m.args[0], m.args[1]
        b = m.args[-1]
        cnd = m.args[2] if m.op == "fseq" else TRUE
        ke, ve = fld(b, "0"), fld(b, "1")
        # keys run through a set S: value at k is the body with elem(S,i) := k
        if ke.op == "elem" and ke.args[1] is bv and length(ke.args[0]) is d:
            S = ke.args[0]
            v2 = subst(ve, {ke: k})
            c2 = subst(cnd, {ke: k})
            if not contains(v2, lambda x: x is bv) and not contains(c2, lambda x: x is bv):
                return ite(b_and(member(k, S), tobool(c2)), some(v2), NONE)
            # or the key is itself an element of S
            if k.op == "elem" and k.args[0] is S:
                c3 = tobool(subst(cnd, {bv: k.args[1]}))
                return ite(c3, some(subst(ve, {bv: k.args[1]})), NONE)
            # positional access by the rank of the key
            rank = mk0("rank", k, S)
            c3 = tobool(subst(cnd, {bv: rank, ke: k}))
            return ite(b_and(member(k, S), c3), some(subst(subst(ve, {ke: k}), {bv: rank})), NONE)
    # value paired with its own key
    if k.op == "elem" and k.args[0].op == "keys" and k.args[0].args[0] is m:
        return some(mk0("mapval", m, k))
    g = mk0("get", m, k)
    return ite(member(k, keys_of(m)), some(mk0("mapval", m, k)), NONE)


REBUILD["get"] = mapget


@model("alloc::collections::BTreeMap::<K, V, A>::get")
def m_mget(vf, c, i, a):
    return mapget(c.read(a[0]), c.read(a[1]))


@model("alloc::collections::BTreeMap::<K, V, A>::get_mut")
def m_mgetmut(vf, c, i, a):
    m, k = c.read(a[0]), c.read(a[1])
    if a[0].op == "mref":
        return ite(is_some(mapget(m, k)), some(mk0("mref", a[0].args[0], a[0].args[1] + (("m", k),))), NONE)
    return NotImplemented


@model("core::ops::Index::index")
def m_index(vf, c, i, a):
    if i.key is not None:
        return NotImplemented
    x, k = c.read(a[0]), c.read(a[1])
    t = peel(i.targs[0])
    if t.path == "alloc::collections::BTreeMap":
        g = mapget(x, k)
        if not c.abort(b_not(is_some(g)), "index", "map key"):
            return None
        return fld(restrict(g, is_some(g)), "Some.0")
    if k.op == "agg" and k.args[0].startswith("core::ops::Range"):
        ok_, v = subslice(x, k)
        if not c.abort(b_not(ok_), "index", "range"):
            return None
        return v
    if i.targs[1].s == "usize":
        if not c.abort(le(length(x), k), "index", "slice index"):
            return None
        return elem(x, k)
    return NotImplemented


@model("core::ops::IndexMut::index_mut")
def m_indexmut(vf, c, i, a):
    if i.key is not None:
        return NotImplemented
    x, k = c.read(a[0]), c.read(a[1])
    if a[0].op != "mref":
        return NotImplemented
    t = peel(i.targs[0])
    if k.op == "agg" and k.args[0].startswith("core::ops::Range"):
        ok_, v = subslice(x, k)
        if not c.abort(b_not(ok_), "index", "range"):
            return None
        return mk0("mref", a[0].args[0], a[0].args[1] + (("g", range_canon(x, k)),))
    if i.targs[1].s == "usize":
        if not c.abort(le(length(x), k), "index", "slice index"):
            return None
        return mk0("mref", a[0].args[0], a[0].args[1] + (("i", k),))
    return NotImplemented


def range_canon(x, r):
    nm = r.args[0].split("::")[-1]
    lo = fld(r, "start") if nm in ("Range", "RangeFrom", "RangeInclusive") else const(0)
    if nm in ("Range", "RangeTo"):
        hi = fld(r, "end")
    elif nm in ("RangeInclusive", "RangeToInclusive"):
        hi = add(fld(r, "end"), const(1))
    else:
        hi = length(x)
    return tup(lo, hi)


def subslice(x, r):
    """(in bounds, value) of x[r]."""
    rc = range_canon(x, r)
    lo, hi = rc.args[2], rc.args[3]
    n = length(x)
    inb = b_and(le(lo, hi), le(hi, n))
    if lo is const(0) and hi is n:
        return inb, x
    return inb, mk0("call", "subslice", "", x, rc)


def sublen(x):
    return None


_old_length = length


@model("core::slice::<impl [T]>::get", "core::slice::<impl [T]>::get_mut")
def m_sget(vf, c, i, a):
    x, k = c.read(a[0]), c.read(a[1])
    mut = i.name == "get_mut"
    if k.op == "agg" and str(k.args[0]).startswith("core::ops::Range"):
        ok_, v = subslice(x, k)
        if mut:
            if a[0].op != "mref":
                return NotImplemented
            v = mk0("mref", a[0].args[0], a[0].args[1] + (("g", range_canon(x, k)),))
        return ite(ok_, some(v), NONE)
    inb = pos(sub(length(x), k))
    if mut:
        if a[0].op != "mref":
            return NotImplemented
        return ite(inb, some(mk0("mref", a[0].args[0], a[0].args[1] + (("i", k),))), NONE)
    return ite(inb, some(elem(x, k)), NONE)


@model("core::slice::<impl [T]>::first")
def m_first(vf, c, i, a):
    x = c.read(a[0])
    return ite(pos(length(x)), some(elem(x, const(0))), NONE)


@model("core::slice::<impl [T]>::first_mut")
def m_firstmut(vf, c, i, a):
    x = c.read(a[0])
    if a[0].op != "mref":
        return NotImplemented
    return ite(pos(length(x)), some(mk0("mref", a[0].args[0], a[0].args[1] + (("i", const(0)),))), NONE)


@model("core::slice::<impl [T]>::last")
def m_last(vf, c, i, a):
    x = c.read(a[0])
    return ite(pos(length(x)), some(elem(x, sub(length(x), const(1)))), NONE)


@model("core::slice::<impl [T]>::split_last")
def m_splitlast(vf, c, i, a):
    x = c.read(a[0])
    n = length(x)
    iv = fresh_iv()
    init = seq(sub(n, const(1)), iv, elem(x, iv))
    return ite(pos(n), some(tup(elem(x, sub(n, const(1))), init)), NONE)


@model("core::slice::<impl [T]>::split_first")
def m_splitfirst(vf, c, i, a):
    x = c.read(a[0])
    n = length(x)
    iv = fresh_iv()
    rest = seq(sub(n, const(1)), iv, elem(x, add(iv, const(1))))
    return ite(pos(n), some(tup(elem(x, const(0)), rest)), NONE)


@model("core::slice::<impl [T]>::copy_from_slice", "core::slice::<impl [T]>::clone_from_slice")
def m_copyfrom(vf, c, i, a):
    dst, src = c.read(a[0]), c.read(a[1])
    if not c.abort(b_not(eq(length(dst), length(src))), "copy_from_slice", "lengths differ"):
        return None
    c.write(a[0], src)
    return UNIT


@model("alloc::vec::from_elem")
def m_fromelem(vf, c, i, a):
    return mk0("repeat", a[0], a[1])


@model("alloc::vec::Vec::<T, A>::pop")
def m_pop(vf, c, i, a):
    v = c.read(a[0])
    n = length(v)
    iv = fresh_iv()
    c.write(a[0], ite(pos(n), seq(sub(n, const(1)), iv, elem(v, iv)), v))
    return ite(pos(n), some(elem(v, sub(n, const(1)))), NONE)


@model("alloc::collections::BTreeSet::<T, A>::is_subset")
def m_issubset(vf, c, i, a):
    x, y = c.read(a[0]), c.read(a[1])
    iv = fresh_iv()
    return b_not(exists(length(x), iv, b_not(member(elem(x, iv), y))))


# ------------------------------------------------------------------ formatting: no value flows back
for n in (
    "core::fmt::rt::Argument::<'_>::new_display",
    "core::fmt::rt::Argument::<'_>::new_debug",
    "core::fmt::Arguments::<'a>::new",
    "core::fmt::Arguments::<'a>::from_str",
    "core::fmt::rt::Argument::<'_>::new_lower_hex",
    "alloc::fmt::format",
    "core::fmt::Arguments::<'a>::new_const",
    "core::fmt::Arguments::<'a>::new_v1",
):
    M[n] = lambda vf, c, i, a: mk0("c", "fmt", "bytes")


# ------------------------------------------------------------------ crypto-bigint wrappers
@model("crypto_bigint::NonZero::<T>::new", "elliptic_curve::crypto_bigint::NonZero::<T>::new")
def m_nznew(vf, c, i, a):
    return ite(b_not(atom(mk0("iszero", a[0]))), some(a[0]), NONE)


@model("crypto_bigint::Odd::<T>::new")
def m_oddnew(vf, c, i, a):
    return ite(atom(mk0("isodd", a[0])), some(a[0]), NONE)


@model("crypto_bigint::Zero::is_zero")
def m_iszero(vf, c, i, a):
    if i.key is not None:
        return NotImplemented
    return atom(mk0("iszero", c.read(a[0])))


# ------------------------------------------------------------------ vec![..]
@model("alloc::boxed::Box::<T>::new_uninit")
def m_newuninit(vf, c, i, a):
    vf.nframe += 1
    cell = ("heap", vf.nframe)
    c.st.mem[cell] = UNDEF
    return mk0("mref", cell, ())


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def m_assumeinit(vf, c, i, a):
    return c.read(a[0])


# ------------------------------------------------------------------ limbs of crypto_bigint::Uint
def view(nm, x):
    if x.op == "ite":
        return lift(x, lambda y: view(nm, y))
    if x.op == "call" and x.args[0] == "un" + "limbs" and x.args[1] == nm:
        return x.args[2]
    if x.op == "const" and x.args[0] == f"crypto_bigint::Uint::<LIMBS>::ZERO[{nm}]":
        return mk0("repeat", const(0), const(int(nm)) if nm.isdigit() else mk0("const", nm))
    return mk0("call", "limbs", nm, x)


def unview(nm, x):
    if x.op == "ite":
        return lift(x, lambda y: unview(nm, y))
    if x.op == "call" and x.args[0] == "limbs" and x.args[1] == nm:
        return x.args[2]
    return mk0("call", "unlimbs", nm, x)


@model("crypto_bigint::Uint::<LIMBS>::as_limbs", "crypto_bigint::Uint::<LIMBS>::to_limbs")
def m_aslimbs(vf, c, i, a):
    return view(i.targs[0].s, c.read(a[0]))


@model("crypto_bigint::Uint::<LIMBS>::as_limbs_mut")
def m_aslimbsmut(vf, c, i, a):
    if a[0].op != "mref":
        return NotImplemented
    return mk0("mref", a[0].args[0], a[0].args[1] + (("v", i.targs[0].s),))


@model("crypto_bigint::Uint::<LIMBS>::new")
def m_uintnew(vf, c, i, a):
    return unview(i.targs[0].s, a[0])


def ediv(a, b):
    """Exact quotient when b divides every coefficient, otherwise symbolic floor division."""
    if b.op == "c" and isinstance(b.args[0], int) and b.args[0] > 0:
        k = b.args[0]
        d, c0 = lin_parts(a)
        if all(v % k == 0 for v in d.values()) and c0 % k == 0:
            r = const(c0 // k)
            for t, v in d.items():
                r = add(r, mul(const(v // k), t))
            return r
    return mk0("bin", "Div", a, b)


def chunks(vf, c, i, a):
    """[r]chunks_exact[_mut]: the pieces as slices (or references to slices) of the receiver."""
    n = c.read(a[1])
    x = c.read(a[0])
    L = length(x)
    D = ediv(L, n)
    iv = fresh_iv()
    back = i.name.startswith("rchunks")
    mut = i.name.endswith("_mut")
    lo = sub(L, mul(add(iv, const(1)), n)) if back else mul(iv, n)
    hi = sub(L, mul(iv, n)) if back else mul(add(iv, const(1)), n)
    if not c.abort(eq(n, const(0)), "chunk size 0"):
        return None
    rng_ = tup(lo, hi)
    if mut:
        if a[0].op != "mref":
            return NotImplemented
        return it(seq(D, iv, mk0("mref", a[0].args[0], a[0].args[1] + (("g", rng_),))))
    return it(seq(D, iv, mk0("call", "subslice", "", x, rng_)))


model(*["core::slice::<impl [T]>::" + n for n in ("chunks_exact", "rchunks_exact", "chunks_exact_mut", "rchunks_exact_mut")])(chunks)


# ------------------------------------------------------------------ more of the standard library
@model("core::bool::<impl bool>::then")
def m_bthen(vf, c, i, a):
    x = tobool(c.read(a[0]))

    def yes(c2, y):
        v = vf.call_value(c2, a[1], [])
        return None if v is None else some(v)

    return case2(vf, c, x, yes, lambda c2, y: NONE, lambda y: x, None)


@model("core::bool::<impl bool>::then_some")
def m_bthensome(vf, c, i, a):
    return ite(tobool(c.read(a[0])), some(a[1]), NONE)


def default_of(vf, c, t):
    t = head(t)
    if t.path in ("alloc::vec::Vec", "alloc::collections::BTreeMap", "alloc::collections::BTreeSet"):
        return EMPTY
    if t.s in vf.INTW:
        return const(0)
    if t.s == "bool":
        return FALSE
    if t.path == _vf.OPT:
        return NONE
    return None


@model("core::option::Option::<T>::unwrap_or_default", "core::result::Result::<T, E>::unwrap_or_default")
def m_unwrapordefault(vf, c, i, a):
    d = default_of(vf, c, c.dt)
    if d is None:
        return NotImplemented
    x = c.read(a[0])
    if "option" in (i.rpath or i.path):
        s = is_some(x)
        return ite(s, fld(restrict(x, s), "Some.0"), d)
    s = is_ok(x)
    return ite(s, fld(restrict(x, s), "Ok.0"), d)


@model("core::option::Option::<T>::zip")
def m_ozip(vf, c, i, a):
    x, y = c.read(a[0]), c.read(a[1])
    s = b_and(is_some(x), is_some(y))
    return ite(s, some(tup(fld(restrict(x, s), "Some.0"), fld(restrict(y, s), "Some.0"))), NONE)


@model("core::option::Option::<T>::and")
def m_oand(vf, c, i, a):
    return ite(is_some(c.read(a[0])), c.read(a[1]), NONE)


@model("core::option::Option::<core::option::Option<T>>::flatten")
def m_oflatten(vf, c, i, a):
    x = c.read(a[0])
    s = is_some(x)
    return ite(s, fld(restrict(x, s), "Some.0"), NONE)


@model("core::result::Result::<T, E>::map_or")
def m_rmapor(vf, c, i, a):
    x = c.read(a[0])
    return case2(vf, c, x, lambda c2, y: vf.call_value(c2, a[2], [fld(y, "Ok.0")]), lambda c2, y: a[1], is_ok, None)


@model("core::result::Result::<T, E>::map_or_else")
def m_rmaporelse(vf, c, i, a):
    x = c.read(a[0])
    return case2(vf, c, x, lambda c2, y: vf.call_value(c2, a[2], [fld(y, "Ok.0")]), lambda c2, y: vf.call_value(c2, a[1], [fld(y, "Err.0")]), is_ok, None)


@model("core::result::Result::<T, E>::is_err_and")
def m_iserrand(vf, c, i, a):
    x = c.read(a[0])
    return case2(vf, c, x, lambda c2, y: FALSE, lambda c2, y: vf.call_value(c2, a[1], [fld(y, "Err.0")]), is_ok, None)


@model("core::result::Result::<T, E>::and")
def m_rand(vf, c, i, a):
    x = c.read(a[0])
    s = is_ok(x)
    return ite(s, c.read(a[1]), err(fld(restrict(x, b_not(s)), "Err.0")))


MINTS = ("usize", "u8", "u16", "u32", "u64", "u128", "i32", "i64", "isize")


def on_ints(name):
    def d(f):
        for t in MINTS:
            M[f"core::num::<impl {t}>::{name}"] = f
        return f

    return d


# machine integers are unbounded here, as for the plain operators
@on_ints("checked_add")
def m_chkadd(vf, c, i, a):
    return some(add(a[0], a[1]))


@on_ints("checked_mul")
def m_chkmul(vf, c, i, a):
    return some(mul(a[0], a[1]))


@on_ints("checked_sub")
def m_chksub(vf, c, i, a):
    if "impl i" in (i.rpath or i.path):
        return some(sub(a[0], a[1]))
    return ite(le(a[1], a[0]), some(sub(a[0], a[1])), NONE)


@on_ints("checked_div")
def m_chkdiv(vf, c, i, a):
    return ite(eq(a[1], const(0)), NONE, some(vf.binop("Div", a[0], a[1], "u32")))


@on_ints("saturating_sub")
def m_satsub(vf, c, i, a):
    if "impl i" in (i.rpath or i.path):
        return sub(a[0], a[1])
    return ite(pos(sub(a[0], a[1])), sub(a[0], a[1]), const(0))


@on_ints("abs_diff")
def m_absdiff(vf, c, i, a):
    return ite(le(a[1], a[0]), sub(a[0], a[1]), sub(a[1], a[0]))


for _n, _f in (("saturating_add", add), ("wrapping_add", add), ("wrapping_mul", mul), ("saturating_mul", mul)):
    on_ints(_n)((lambda g: lambda vf, c, i, a: g(a[0], a[1]))(_f))


@on_ints("is_multiple_of")
def m_ismult(vf, c, i, a):
    return eq(vf.binop("Rem", a[0], a[1], "u32"), const(0))


for t_ in MINTS:
    M[f"core::num::<impl {t_}>::div_ceil"] = m_divceil


@model("core::cmp::Ord::clamp")
def m_clamp(vf, c, i, a):
    x, lo, hi = a
    return ite(pos(sub(lo, x)), lo, ite(pos(sub(x, hi)), hi, x))


ORD = "core::cmp::Ordering::"


@model("core::cmp::Ord::cmp")
def m_cmp(vf, c, i, a):
    if peel(i.targs[0]).s not in vf.INTW:
        return NotImplemented
    x, y = c.read(a[0]), c.read(a[1])
    o = lambda n: agg(ORD + n, (), [])
    return ite(lt(x, y), o("Less"), ite(eq(x, y), o("Equal"), o("Greater")))


@model("core::iter::Iterator::last")
def m_itlast(vf, c, i, a):
    def f(s):
        fp = fseq_parts(s)
        if fp and fp[0].op == "c" and fp[0].args[0] <= 8:
            r = NONE
            for k in range(fp[0].args[0]):
                r = ite(fp[1](const(k)), some(restrict(fp[2](const(k)), fp[1](const(k)))), r)
            return r
        n = length2(s)
        return ite(pos(n), some(item_of(vf, c, s, sub(n, const(1)))), NONE)

    return lift_iter(vf, c, a[0], f)


@model("core::iter::Iterator::find_map")
def m_findmap(vf, c, i, a):
    def f(s):
        D = length2(s)
        iv, v = run_indexed(vf, c, D, lambda c2, k: vf.call_value(c2, a[1], [item_of(vf, c2, s, k)]))
        cnd = is_some(v)
        return ite(exists(D, iv, cnd), some(vf.first(D, iv, cnd, fld(restrict(v, cnd), "Some.0"))), NONE)

    return lift_iter(vf, c, a[0], f)


@model("core::iter::Iterator::eq")
def m_iteq(vf, c, i, a):
    b = as_seq(to_iter(vf, c, None, c.read(a[1])))
    return lift_iter(vf, c, a[0], lambda s: eq(s, b))


@model("core::iter::Iterator::ne")
def m_itne(vf, c, i, a):
    b = as_seq(to_iter(vf, c, None, c.read(a[1])))
    return lift_iter(vf, c, a[0], lambda s: b_not(eq(s, b)))


@model("core::iter::Iterator::inspect")
def m_inspect(vf, c, i, a):
    return c.read(a[0])


@model("core::array::from_fn")
def m_arrfromfn(vf, c, i, a):
    n = i.targs[1].s if len(i.targs) > 1 else "N"
    D = const(int(n)) if n.isdigit() else mk0("const", n)
    iv, v = run_indexed(vf, c, D, lambda c2, k: vf.call_value(c2, a[0], [k]))
    return seq(D, iv, v if v is not None else UNDEF)


@model("core::array::<impl [T; N]>::map")
def m_arrmap(vf, c, i, a):
    r = map_iter(vf, c, c.read(a[0]), a[1])
    return None if r is None else r.args[0]


@model("core::slice::<impl [T]>::contains")
def m_slcontains(vf, c, i, a):
    return member(c.read(a[1]), c.read(a[0]))


@model("core::slice::<impl [T]>::split_at")
def m_splitat(vf, c, i, a):
    x, k = c.read(a[0]), a[1]
    n = length(x)
    if not c.abort(b_not(le(k, n)), "split_at", "out of range"):
        return None
    lo = subslice(x, agg("core::ops::Range", ("start", "end"), [const(0), k]))[1]
    hi = subslice(x, agg("core::ops::Range", ("start", "end"), [k, n]))[1]
    return tup(lo, hi)


@model("alloc::vec::Vec::<T, A>::truncate")
def m_truncate(vf, c, i, a):
    v = c.read(a[0])
    iv = fresh_iv()
    c.write(a[0], seq(imin(length(v), a[1]), iv, elem(v, iv)))
    return UNIT


@model("alloc::vec::Vec::<T, A>::clear")
def m_clear(vf, c, i, a):
    c.write(a[0], EMPTY)
    return UNIT


@model("alloc::vec::Vec::<T, A>::append")
def m_append(vf, c, i, a):
    v, w = c.read(a[0]), c.read(a[1])
    c.write(a[0], cat([v, wrapcat(w)]))
    c.write(a[1], EMPTY)
    return UNIT


@model("core::slice::from_ref", "core::array::from_ref")
def m_fromref(vf, c, i, a):
    return agg("array", ["0"], [c.read(a[0])])


@model("core::slice::<impl [T]>::split_at_mut")
def m_splitatmut(vf, c, i, a):
    if a[0].op != "mref":
        return NotImplemented
    x, k = c.read(a[0]), a[1]
    n = length(x)
    if not c.abort(b_not(le(k, n)), "split_at_mut", "out of range"):
        return None
    part = lambda lo, hi: mk0("mref", a[0].args[0], a[0].args[1] + (("g", tup(lo, hi)),))
    return tup(part(const(0), k), part(k, n))


@model("core::iter::Iterator::try_fold")
def m_tryfold(vf, c, i, a):
    def f(s):
        D = length2(s)
        cell = ("tfold", vf.nframe * 1000 + len(vf.events))
        c.st.mem[cell] = a[1]
        opt = head(c.dt).path == "core::option::Option"
        good, key = (is_some, "Some.0") if opt else (is_ok, "Ok.0")

        def body(c2, k):
            v = vf.call_value(c2, a[2], [c2.st.mem[cell], item_of(vf, c2, s, k)])
            if v is None:
                return UNDEF
            g = good(v)
            if g is not FALSE:
                c2.st.mem[cell] = fld(restrict(v, g), key)
            return v

        iv, v = run_indexed(vf, c, D, body)
        acc = c.st.mem.pop(cell)
        if v is None or v is UNDEF:
            return None
        bad = b_not(good(v))
        if opt:
            return ite(exists(D, iv, bad), NONE, some(acc))
        return ite(exists(D, iv, bad), err(vf.first(D, iv, bad, fld(restrict(v, bad), "Err.0"))), ok(acc))

    if a[0].op == "mref" and c.read(a[0]).op != "iter":
        return NotImplemented
    return lift_iter(vf, c, a[0], f)


@model("digest::Digest::update")
def m_dupdate(vf, c, i, a):
    """`update` is the by-reference form of `chain_update`."""
    if a[0].op != "mref":
        return NotImplemented
    c.write(a[0], mk0("call", "digest::Digest::chain_update", i.targs[0].s, c.read(a[0]), c.read(a[1])))
    return UNIT


@model("digest::Digest::new_with_prefix")
def m_dprefix(vf, c, i, a):
    t = i.targs[0].s
    return mk0("call", "digest::Digest::chain_update", t, mk0("call", "digest::Digest::new", t), c.read(a[0]))


@model("core::iter::Iterator::nth")
def m_nth(vf, c, i, a):
    def f(s):
        n = length2(s)
        return ite(pos(sub(n, a[1])), some(item_of(vf, c, s, a[1])), NONE)

    if a[0].op == "mref":
        return NotImplemented
    return lift_iter(vf, c, a[0], f)


@model("core::iter::Iterator::step_by")
def m_stepby(vf, c, i, a):
    def f(s):
        k, n = a[1], length2(s)
        if k.op != "c" or n.op != "c" or k.args[0] < 1:
            return NotImplemented
        iv = fresh_iv()
        return it(seq(const(-(-n.args[0] // k.args[0])), iv, item_of(vf, c, s, mul(k, iv))))

    return lift_iter(vf, c, a[0], f)


ENDLESS = const(1 << 80)


@model("core::iter::repeat")
def m_repeat(vf, c, i, a):
    return it(seq(ENDLESS, fresh_iv(), a[0]))


@model("core::iter::repeat_n")
def m_repeatn(vf, c, i, a):
    return it(seq(a[1], fresh_iv(), a[0]))


@model("core::iter::repeat_with")
def m_repeatwith(vf, c, i, a):
    iv, v = run_indexed(vf, c, ENDLESS, lambda c2, k: vf.call_value(c2, a[0], []))
    return it(seq(ENDLESS, iv, v)) if v is not None else None


OPTS = ("core::option::Option::Some", "core::option::Option::None")


def flattened(vf, c, s):
    """The items of the items: of optional values, or of sequences."""
    fp = fseq_parts(s)
    if fp:
        D, cnd, item = fp
    elif s.op == "cat":
        r = [flattened(vf, c, agg("array", ["0"], [p.args[0]]) if p.op == "one" else p) for p in s.args]
        return None if None in r else cat([wrapcat(x) for x in r])
    else:
        D, cnd, item = length(s), (lambda k: TRUE), (lambda k: item_of(vf, c, s, k))
    iv = fresh_iv()
    x = item(iv)
    kinds = [l for _, l in leaves(elem(s, const(0)) if s.op == "agg" else x)]
    if s.op == "agg" and s.args[0] == "array" and len(s.args) > 2:
        kinds = [l for y in s.args[2:] for _, l in leaves(y)]
    if kinds and all(l.op == "agg" and l.args[0] in OPTS for l in kinds):
        g = is_some(x)
        return fseq(D, iv, b_and(cnd(iv), g), fld(restrict(x, g), "Some.0"))
    if fp is None and kinds and all(l.op in ("iter", "seq", "repeat") or l.op == "agg" and l.args[0] == "array" for l in kinds):
        if s.op == "agg" and len(s.args) - 2 <= 8:
            return cat([wrapcat(as_seq(y)) for y in s.args[2:]])
        return mk0("flatseq", D, *close(iv, wrapcat(as_seq(x))))
    return None


@model("core::iter::Iterator::flatten")
def m_flatten(vf, c, i, a):
    def f(s):
        r = flattened(vf, c, s)
        return vf.opaque(c, i.cname(), i, a) if r is None else it(r)

    return lift_iter(vf, c, a[0], f)


@model("core::iter::Iterator::flat_map")
def m_flatmap(vf, c, i, a):
    def f(s):
        m = map_iter(vf, c, s, a[1])
        if m is None:
            return None
        r = flattened(vf, c, as_seq(m))
        return vf.opaque(c, i.cname(), i, a) if r is None else it(r)

    return lift_iter(vf, c, a[0], f)
