"""Resolved call sites and function references of every body (closures and constants included)."""


class Site:
    __slots__ = ("fn", "callee", "targs", "argtys", "dst", "sp", "args", "how", "bb")

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)


def _fnrefs(x):
    """fn items mentioned anywhere in a statement/operand."""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if "fn" in y and isinstance(y["fn"], dict) and "path" in y["fn"]:
                yield y["fn"]
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def sites(F, f):
    b = f.get("body")
    if not b:
        return
    for n, (stmts, t) in enumerate((bl[0], bl[1]) for bl in b["blocks"]):
        for s in stmts:
            for r in _fnrefs(s):
                yield Site(fn=f, callee=r["path"], targs=[F.ty(a) for a in r.get("args", [])], argtys=None, dst=None, sp=str(s[-1]), args=None, how="ref", bb=n)
        if t.get("k") == "call":
            c = (t["f"].get("k") or {}).get("fn") if isinstance(t["f"].get("k"), dict) else None
            if c:
                yield Site(fn=f, callee=c["path"], targs=[F.ty(a) for a in c.get("args", [])], argtys=[F.ty(a) for a in t.get("at", [])],
                           dst=F.ty(t["dt"]) if "dt" in t else None, sp=t.get("sp", ""), args=t["args"], how="call", bb=n)
            for a in t["args"]:
                for r in _fnrefs(a):
                    yield Site(fn=f, callee=r["path"], targs=[F.ty(x) for x in r.get("args", [])], argtys=None, dst=None, sp=t.get("sp", ""), args=None, how="ref", bb=n)


def all_sites(F):
    if not hasattr(F, "_sites"):
        F._sites = [s for f in F.fns for s in sites(F, f)]
    return F._sites


def owner(path):
    """The enclosing named function of a closure."""
    return path.split("::{closure")[0]
