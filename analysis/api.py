"""Which local functions the analysis of a layer takes as given (they have their own checks)."""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))
KNOWN = set(open(os.path.join(HERE, "..", "spec", "known_fns.txt")).read().split("\n"))


def module_of(path):
    p = path
    m = re.match(r"^<&?(?:'\w+ )?(?:mut )?(.*)$", p)
    if p.startswith("<"):
        p = m.group(1)
        if re.match(r"^[A-Z] as ", p):  # blanket implementation
            p = p[5:]
    return p


def leafset(prefixes, inline=(), extra=()):
    """Functions of the original tree whose module starts with one of the prefixes are leaves, except
    those in `inline`. Anything new (a helper someone extracted) is analysed in place."""
    prefixes = tuple(prefixes)
    inline = tuple(inline)

    def leaf(info):
        p = info.rpath or info.path
        if p in extra:
            return info.cname()
        if p not in KNOWN:
            return None
        m = module_of(p)
        if m.startswith(prefixes) and not any(re.fullmatch(x, p) for x in inline):
            return info.cname()
        return None

    return leaf


ZK_LEAVES = leafset(
    ("uint::", "curve::", "params::", "paillier::", "tools::hashing::", "tools::bitvec::"),
)
