"""Attribution of code to the functions of the original tree, and running the value-flow analysis from them."""
import re
from .calls import all_sites, owner
from .api import KNOWN
from .vf import VF, Unsupported


def self_type(path):
    """A name for the type (or module) a function belongs to."""
    p = owner(path)
    m = re.match(r"<(.+?) as .*>::\w+$", p)
    if m:
        p = m.group(1)
    else:
        m = re.match(r"(.*)::<impl (.*?) for (.*)>::\w+$", p)
        p = m.group(3) if m else p.rsplit("::", 1)[0]
    p = re.sub(r"^&('\w+ )?(mut )?", "", p)
    return re.sub(r"::<.*$|<.*$", "", p)


def known_leaf(info):
    p = info.rpath or info.path
    return info.cname() if p in KNOWN else None


def run_vf(F, f, leaf=known_leaf):
    vf = VF(F, leaf)
    b = f["body"]
    args = [vf.symbolic(f"a{i-1}", F.ty(b["locals"][i][0])) for i in range(1, b["argc"] + 1)]
    r = vf.run(f, args)
    vf.result = r
    return vf


class Roots:
    """A helper that is not in the original tree belongs to the functions that call it."""

    def __init__(self, F):
        self.F = F
        self.callers = {}
        for s in all_sites(F):
            self.callers.setdefault(s.callee, []).append(s)
        self._r = {}
        self._vf = {}

    def callers_of(self, path):
        """Call sites of a function, also through the trait it implements."""
        return self.callers.get(path, [])

    def roots(self, path, seen=()):
        path = owner(path)
        if path in KNOWN or path in seen:
            return {path} if path in KNOWN else set()
        if path in self._r:
            return self._r[path]
        out = set()
        cs = self.callers_of(path)
        for c in cs:
            out |= self.roots(c.fn["path"], (*seen, path))
        if not out:
            out = {path}
        if not seen:
            self._r[path] = out
        return out

    def vf(self, path):
        if path not in self._vf:
            fs = self.F.by_path.get(path)
            try:
                self._vf[path] = run_vf(self.F, fs[0]) if fs and fs[0].get("body") else None
            except (Unsupported, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError) as e:
                self._vf[path] = None
        return self._vf[path]

    def call_args(self, s, callee):
        """(root, path condition, argument terms) of one call site, seen from every function it belongs to."""
        out = []
        for r in sorted(self.roots(s.fn["path"])):
            vf = self.vf(r)
            if vf:
                out += [(r, pc, a) for pc, n, a, site in vf.events if n == callee and site[0] == s.fn["path"] and site[1] == s.bb]
        if not out:
            vf = self.vf(s.fn["path"])
            if vf:
                out += [(owner(s.fn["path"]), pc, a) for pc, n, a, site in vf.events if n == callee and site[0] == s.fn["path"] and site[1] == s.bb]
        return out
