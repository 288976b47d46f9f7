"""Interprocedural value-flow analysis: a gated-SSA value numbering of MIR.

No path is enumerated and no solver is asked: every block of a body is visited once, in topological
order of the acyclic part of its control-flow graph; values are merged at joins by gated conditionals
in a canonical form, loops are summarised as a whole by the way each loop-carried variable evolves.
"""
from .terms import *
from . import terms as tm
from .facts import Facts, Ty, head

OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::ControlFlow"
TRANSPARENT = {
    "tools::secret::Secret",
    "secrecy::SecretBox",
    "uint::public_uint::PublicUint",
    "alloc::boxed::Box",
    "crypto_bigint::NonZero",
    "crypto_bigint::Odd",
    "elliptic_curve::crypto_bigint::NonZero",
    "core::mem::ManuallyDrop",
    "core::mem::MaybeUninit",
    "core::mem::MaybeDangling",
    "core::ptr::Unique",
    "core::ptr::NonNull",
}
RNG_TRAITS = ("CryptoRngCore", "RngCore", "CryptoRng")

VARIDX = tm.VARIDX


class Unsupported(Exception):
    pass


class St:
    __slots__ = ("pc", "mem")

    def __init__(self, pc, mem):
        self.pc, self.mem = pc, mem

    def copy(self):
        return St(self.pc, dict(self.mem))


class Abort:
    __slots__ = ("cond", "kind", "fn", "sp", "what", "stack")

    def __init__(self, cond, kind, fn, sp, what, stack):
        self.cond, self.kind, self.fn, self.sp, self.what, self.stack = cond, kind, fn, sp, what, stack

    def __repr__(self):
        return f"{self.kind} in {self.fn} at {self.sp}: {self.what} when {self.cond}"


class Frame:
    def __init__(self, fid, fn, body, tsub, stack):
        self.fid, self.fn, self.body, self.tsub, self.stack = fid, fn, body, tsub, stack


class Result:
    def __init__(self, ret, pc, mem, aborts):
        self.ret, self.pc, self.mem, self.aborts = ret, pc, mem, aborts


def succs(t):
    k = t["k"]
    if k == "goto":
        return [t["t"]]
    if k == "switch":
        return [b for _, b in t["ts"]] + ([t["else"]] if t.get("else") is not None else [])
    if k in ("call", "drop", "assert"):
        return [t["t"]] if t.get("t") is not None else []
    return []


class VF:
    underflow = False  # report the overflow checks of subtractions (they exist in builds with overflow checks only)

    def __init__(self, facts, leaf=None, max_depth=40, consts=True):
        self.F = facts
        self.leaf = leaf or (lambda info: None)
        self.max_depth = max_depth
        self.nframe = 0
        self.fresh_n = {}
        self.aborts = []
        self.ivstack = []
        self.closures = {}
        self.fndefs = {}
        self.trace = {}  # opaque callee name -> count
        self.events = []  # (pc, name, args, site)
        self.const_memo = {}
        self.cfg_memo = {}
        self.pcstack = []
        self.analysed = set()
        self.ncalls = 0
        self.static = TRUE  # what inline const assertions guarantee
        self.lost = []  # opaque calls that hand out a mutable reference: later writes are not seen
        self.inlined_sites = 0
        from . import models

        self.models = models

    # ------------------------------------------------------------ entry
    def run(self, fn, args=None, tsub=None):
        """Analyse fn from symbolic inputs (or the given terms)."""
        body = fn["body"]
        if args is None:
            args = []
            for i in range(1, body["argc"] + 1):
                ty = self.F.ty(body["locals"][i][0])
                nm = body["locals"][i][1] or f"arg{i}"
                args.append(self.symbolic(nm, ty))
        mem = {}
        res = self.call_body(fn, body, args, tsub or {}, mem, ())
        return res

    def symbolic(self, nm, ty):
        if self.is_rng(ty):
            return mk0("rng")
        if ty.k == "ref" and ty.extra:
            cell = ("arg", nm)
            self.argmem = getattr(self, "argmem", {})
            self.argmem[cell] = self.symbolic(nm, ty.args[0])
            return mk0("mref", cell, ())
        if ty.k == "tuple" and ty.args:
            return tup(*[mk0("fld", mk0("in", nm), str(i)) for i in range(len(ty.args))])
        return mk0("in", nm)

    def is_rng(self, ty):
        t = head(ty)
        if t.k == "dyn":
            return any(x in t.s for x in RNG_TRAITS)
        if t.k == "adt" and t.path == "tools::boxed_rng::BoxedRng":
            return True
        if t.k == "param":
            return t.s.startswith("impl ") and any(x in t.s for x in RNG_TRAITS) or t.s in getattr(self, "rng_params", ())
        return False

    def is_xof(self, ty):
        return "XofReader" in ty.s

    # ------------------------------------------------------------ bodies
    def call_body(self, fn, body, args, tsub, mem, stack):
        """Returns Result relative to pc TRUE; mem is updated in place."""
        self.nframe += 1
        fid = self.nframe
        fr = Frame(fid, fn, body, tsub, stack)
        self.analysed.add(fn["path"])
        if getattr(self, "argmem", None):
            for c, v in self.argmem.items():
                mem.setdefault(c, v)
            self.argmem = {}
        for i, a in enumerate(args):
            mem[(fid, i + 1)] = a
        blocks, entry = self.cfg(fn, body)
        st = St(TRUE, mem)
        outs = {}
        self.region(fr, set(blocks), entry, st, outs)
        rets = outs.get("ret", [])
        m = self.merge(rets)
        if m is None:
            return Result(UNDEF, FALSE, mem, None)
        ret = m.mem.get((fid, 0), UNIT)
        newmem = {c: v for c, v in m.mem.items() if c[0] != fid}
        mem.clear()
        mem.update(newmem)
        return Result(ret, m.pc, mem, None)

    def cfg(self, fn, body):
        k = id(body)
        r = self.cfg_memo.get(k)
        if r is None:
            seen = []
            stack = [0]
            s = set()
            while stack:
                b = stack.pop()
                if b in s:
                    continue
                s.add(b)
                seen.append(b)
                t = body["blocks"][b][1]
                for x in succs(t):
                    stack.append(x)
            r = (frozenset(s), 0)
            self.cfg_memo[k] = r
        return r

    def sccs(self, body, blocks, entry):
        """Topologically ordered SCCs of the subgraph (edges into entry dropped)."""
        key = (id(body), frozenset(blocks), entry)
        r = self.cfg_memo.get(key)
        if r is not None:
            return r
        index = {}
        low = {}
        onst = set()
        st = []
        out = []
        n = [0]

        def sc(v):
            work = [(v, iter([x for x in succs(body["blocks"][v][1]) if x in blocks and x != entry]))]
            index[v] = low[v] = n[0]
            n[0] += 1
            st.append(v)
            onst.add(v)
            while work:
                u, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = n[0]
                        n[0] += 1
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter([x for x in succs(body["blocks"][w][1]) if x in blocks and x != entry])))
                        adv = True
                        break
                    elif w in onst:
                        low[u] = min(low[u], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == index[u]:
                    comp = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == u:
                            break
                    out.append(comp)

        sc(entry)
        out.reverse()
        self.cfg_memo[key] = out
        return out

    # ------------------------------------------------------------ states
    def merge(self, states):
        states = [s for s in states if s.pc is not FALSE]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        pc = b_or(*[s.pc for s in states])
        cells = set()
        for s in states:
            cells.update(s.mem)
        mem = {}
        first = states[0].mem
        for c in cells:
            vals = [s.mem.get(c, UNDEF) for s in states]
            v0 = vals[0]
            if all(v is v0 for v in vals):
                mem[c] = v0
                continue
            acc = None
            for s, v in zip(states, vals):
                if v is UNDEF:
                    continue
                if acc is None:
                    acc = v
                else:
                    acc = self.mergeval(s.pc, v, acc)
            if acc is None:
                acc = UNDEF
            mem[c] = restrict(acc, pc) if acc.op == "ite" else acc
        return St(pc, mem)

    def mergeval(self, pc, a, b):
        if a is b:
            return a
        if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and a.args[1] == b.args[1] and a.args[1]:
            return mk0("agg", a.args[0], a.args[1], *[self.mergeval(pc, x, y) for x, y in zip(a.args[2:], b.args[2:])])
        return ite(pc, a, b)

    def abort(self, fr, cond, kind, sp, what):
        if cond is FALSE:
            return
        c = cond
        self.aborts.append(Abort(c, kind, fr.fn["path"], sp, what, fr.stack))

    # ------------------------------------------------------------ regions
    def region(self, fr, blocks, entry, st, outs, is_loop=False):
        """Execute the region from entry; states leaving it go to outs[target]."""
        inc = {entry: [st]}
        for comp in self.sccs(fr.body, blocks, entry):
            t = fr.body["blocks"][comp[0]][1]
            if len(comp) == 1 and (comp[0] not in succs(t) or comp[0] == entry):
                b = comp[0]
                s = self.merge(inc.pop(b, []))
                if s is None or s.pc is FALSE:
                    continue
                for dst, ns in self.block(fr, b, s.copy()):
                    if dst in blocks and dst != entry:
                        inc.setdefault(dst, []).append(ns)
                    else:
                        outs.setdefault(dst, []).append(ns)
            else:
                cs = set(comp)
                heads = [b for b in comp if b in inc]
                if not heads:
                    continue
                if len(heads) != 1:
                    raise Unsupported(f"irreducible loop in {fr.fn['path']}")
                h = heads[0]
                s = self.merge(inc.pop(h))
                if s is None or s.pc is FALSE:
                    continue
                lo = {}
                self.loop(fr, cs, h, s, lo)
                for dst, lst in lo.items():
                    for ns in lst:
                        if dst in blocks and dst != entry:
                            inc.setdefault(dst, []).append(ns)
                        else:
                            outs.setdefault(dst, []).append(ns)

    def loop(self, fr, blocks, h, st, outs):
        iv = fresh_iv()
        hyp = {}  # cell -> (kind, data)
        saved_aborts = self.aborts
        saved_fresh = dict(self.fresh_n)
        saved_events = len(self.events)
        for attempt in range(12):
            self.aborts = []
            self.fresh_n = dict(saved_fresh)
            del self.events[saved_events:]
            mem = dict(st.mem)
            lvs = {}
            for c, (kind, data) in hyp.items():
                v0 = st.mem.get(c, UNDEF)
                if kind == "iter":
                    mem[c] = mk0("iter", v0.args[0], add(v0.args[1], iv))
                elif kind == "lin":
                    mem[c] = add(v0, mul(iv, const(data)))
                else:
                    lv = mk0("lv", iv, repr(c) if not isinstance(c, str) else c)
                    mem[c] = lv
                    lvs[c] = lv
            body_outs = {}
            self.ivstack.append(iv)
            self.pcstack.append(st.pc)
            self.region(fr, blocks, h, St(TRUE, mem), body_outs, True)
            self.pcstack.pop()
            self.ivstack.pop()
            back = self.merge(body_outs.get(h, []))
            changed = False
            if back is not None:
                for c, v in list(back.mem.items()):
                    if c not in st.mem:
                        continue
                    hv = mem.get(c)
                    if c in hyp:
                        kind, data = hyp[c]
                        if kind == "iter":
                            ok = v is mk0("iter", st.mem[c].args[0], add(st.mem[c].args[1], add(iv, const(1))))
                            # under an exit condition the value may be gated
                            if not ok and v.op == "iter" and v.args[0] is st.mem[c].args[0]:
                                ok = v.args[1] is add(st.mem[c].args[1], add(iv, const(1)))
                            if not ok:
                                hyp[c] = ("lv", None)
                                changed = True
                        elif kind == "lin":
                            if v is not add(hv, const(data)):
                                hyp[c] = ("lv", None)
                                changed = True
                        continue
                    if v is not hv:
                        v0 = st.mem[c]
                        if v0.op == "iter" and v.op == "iter" and v.args[0] is v0.args[0]:
                            hyp[c] = ("iter", None)
                        else:
                            d = None
                            if self.intlike(v0) and self.intlike(v):
                                dd = sub(v, hv)
                                if dd.op == "c" and isinstance(dd.args[0], int):
                                    d = dd.args[0]
                            if d is not None:
                                hyp[c] = ("lin", d)
                            else:
                                hyp[c] = ("lv", None)
                        changed = True
            if not changed:
                break
        else:
            raise Unsupported("loop does not stabilise in " + fr.fn["path"])
        # a vector that grows by the same number of elements in every step has a known length in each
        grown = {}
        if back is not None:
            for c, lv in lvs.items():
                parts = self.cat_delta(restrict(back.mem.get(c, UNDEF), back.pc), lv)
                if parts and all(x.op == "one" for x in parts):
                    grown[length(lv)] = add(length(st.mem[c]), mul(iv, const(len(parts))))
        if grown:
            back = self.sub_state(back, grown)
            body_outs = {d: [self.sub_state(x, grown) for x in l] for d, l in body_outs.items()}
            for a in self.aborts:
                a.cond = subst(a.cond, grown)
        my_aborts = self.aborts
        self.aborts = saved_aborts
        # exits
        exits = []
        D = None
        for dst, lst in body_outs.items():
            if dst == h:
                continue
            m = self.merge(lst)
            if m is not None:
                exits.append([dst, m])
        normal = None
        for e in exits:
            d = self.domain_of(e[1].pc, iv)
            if d is not None:
                D = d
                normal = e
                break
        # an exit whose condition covers the normal one plus early breaks to the same block
        if normal is None:
            for e in exits:
                for a in sorted(atoms_of(e[1].pc), key=lambda x: x.id):
                    d = self.domain_atom(a, iv)
                    if d is None:
                        continue
                    an = node(a, TRUE, FALSE)
                    if implies(b_not(an), e[1].pc):
                        D = d
                        s1 = St(b_not(an), {c: restrict(v, b_not(an)) for c, v in e[1].mem.items()})
                        early_pc = b_and(e[1].pc, an)
                        if early_pc is not FALSE:
                            s2 = St(early_pc, {c: restrict(v, early_pc) for c, v in e[1].mem.items()})
                            exits.append([e[0], s2])
                        e[1] = s1
                        normal = e
                        break
                if normal:
                    break
        # value of the loop-carried variables at iteration `iv`
        at = self.summaries(fr, st, hyp, lvs, back, iv, D)
        sat = {lvs[c]: v for c, v in at.items()}
        for c, lv in lvs.items():
            # element-wise updates preserve the length
            v = back.mem.get(c, UNDEF) if back is not None else lv
            if v is not lv and length(v) is length(lv):
                sat[length(lv)] = length(st.mem[c])

        def finish(t):
            if not sat:
                return t
            # summaries may mention each other
            for _ in range(len(sat) + 1):
                n = subst(t, sat)
                if n is t:
                    break
                t = n
            return t

        early = [e for e in exits if e is not normal]
        inD = pos(sub(D, iv)) if D is not None else TRUE
        any_early = FALSE
        conds = []
        for e in early:
            c = finish(restrict(e[1].pc, inD))
            conds.append(c)
            any_early = b_or(any_early, c)
        for a in my_aborts:
            c = finish(restrict(tobool(a.cond), inD))
            if D is not None:
                c = exists(D, iv, c)
            else:
                c = self.any_iter(iv, c)
            saved_aborts.append(Abort(b_and(st.pc, c), a.kind, a.fn, a.sp, a.what, a.stack))
        abort_any = FALSE
        for a in my_aborts:
            abort_any = b_or(abort_any, finish(restrict(tobool(a.cond), inD)))
        # events recorded inside the loop: close over the index
        for i in range(saved_events, len(self.events)):
            pcx, name, args, site = self.events[i]
            pcx = finish(pcx)
            self.events[i] = (pcx, name, tuple(finish(x) for x in args), site)
        if D is not None:
            no_abort = b_not(exists(D, iv, abort_any))
            ex = exists(D, iv, any_early)
            # normal exit
            if normal is not None:
                m = {}
                last = {iv: D}
                for c, v in normal[1].mem.items():
                    if c[0] == fr.fid and c not in st.mem:
                        continue
                    m[c] = subst(finish(v), last)
                outs.setdefault(normal[0], []).append(St(b_and(st.pc, b_not(ex), no_abort), self.rmem(m, st.pc)))
            for e, c in zip(early, conds):
                if c is FALSE:
                    continue
                if len(early) == 1 or any_early is c:
                    cnd = ex
                else:
                    cnd = b_and(ex, self.first(D, iv, any_early, c))
                m = {}
                for cell, v in e[1].mem.items():
                    v = finish(restrict(v, b_and(inD, e[1].pc)))
                    m[cell] = self.first(D, iv, any_early, v)
                outs.setdefault(e[0], []).append(St(b_and(st.pc, cnd, no_abort), m))
        else:
            # an iteration that aborts does not produce a value
            live = b_not(abort_any)
            any_early = restrict(any_early, live)
            conds = [restrict(c, live) for c in conds]
            for e, c in zip(early, conds):
                m = {}
                for cell, v in e[1].mem.items():
                    v = restrict(finish(restrict(v, e[1].pc)), live)
                    m[cell] = self.until(iv, any_early, v)
                cnd = TRUE if len(early) == 1 else self.until(iv, any_early, c)
                outs.setdefault(e[0], []).append(St(b_and(st.pc, tobool(cnd)), m))

    def sub_state(self, s, d):
        return St(tobool(subst(s.pc, d)), {c: subst(v, d) for c, v in s.mem.items()})

    def rmem(self, m, pc):
        return m

    def intlike(self, t):
        return t.op in ("c", "lin", "imul", "len", "imin", "const", "fld", "in", "iv", "lv") and not (
            t.op == "c" and not isinstance(t.args[0], int)
        ) and not is_bool_leaf(t)

    def domain_atom(self, a, iv):
        """D when the atom is D - iv > 0."""
        if a.op != "pos":
            return None
        d, k = lin_parts(a.args[0])
        if d.get(iv) != -1:
            return None
        D = add(a.args[0], iv)
        if contains(D, lambda x: x is iv or x.op == "lv" and x.args[0] is iv):
            return None
        return D

    def domain_of(self, pc, iv):
        if pc.op != "ite":
            return None
        if pc.args[1] is FALSE and pc.args[2] is TRUE:
            return self.domain_atom(pc.args[0], iv)
        # canonical negative form: pos(iv - D + 1)
        if pc.args[1] is TRUE and pc.args[2] is FALSE and pc.args[0].op == "pos":
            l = pc.args[0].args[0]
            d, k = lin_parts(l)
            if d.get(iv) == 1:
                D = sub(add(iv, const(1)), l)
                if not contains(D, lambda x: x is iv or x.op == "lv" and x.args[0] is iv):
                    return D
        return None

    def any_iter(self, iv, c):
        if not contains(c, lambda x: x is iv):
            return c
        bv, b = close(iv, c)
        return atom(mk0("anyiter", bv, b))

    def first(self, D, iv, E, v):
        if v is UNDEF or not contains(v, lambda x: x is iv):
            return v
        if D.op == "c" and isinstance(D.args[0], int) and 0 < D.args[0] <= 8:
            # few iterations: one case each
            r = subst(v, {iv: const(D.args[0] - 1)})
            for k in reversed(range(D.args[0] - 1)):
                r = ite(tobool(subst(E, {iv: const(k)})), subst(v, {iv: const(k)}), r)
            return r
        bv, e, b = close(iv, E, v)
        return mk0("first", D, bv, e, b)

    def until(self, iv, E, v):
        if v is UNDEF or not contains(v, lambda x: x is iv):
            return v
        if v.op == "agg" and len(v.args) > 2:
            return mk0("agg", v.args[0], v.args[1], *[self.until(iv, E, x) for x in v.args[2:]])
        bv, e, b = close(iv, E, v)
        return mk0("until", bv, e, b)

    def summaries(self, fr, st, hyp, lvs, back, iv, D):
        out = {}
        if not lvs:
            return out
        inv = {v: c for c, v in lvs.items()}
        inD = pos(sub(D, iv)) if D is not None else TRUE
        j = fresh_iv()

        def deps(t):
            r = set()
            for x in walk(t):
                if x in inv:
                    r.add(inv[x])
            return r

        body = {}
        for c in lvs:
            v = back.mem.get(c, UNDEF) if back is not None else lvs[c]
            body[c] = restrict(v, b_and(inD, back.pc)) if back is not None else v
        todo = set(lvs)
        while todo:
            progress = False
            for c in sorted(todo, key=lambda x: repr(x)):
                ds = deps(body[c]) & todo
                if ds - {c}:
                    continue
                v = body[c]
                res = {lvs[k]: o for k, o in out.items()}
                v = subst(v, res)
                out[c] = self.accumulate(st.mem.get(c, UNDEF), lvs[c], v, iv, j)
                todo.discard(c)
                progress = True
            if not progress:
                # mutually dependent: one joint fold over a tuple
                reach = {c: deps(body[c]) & todo for c in todo}
                for _ in todo:
                    for c in todo:
                        for x in list(reach[c]):
                            reach[c] |= reach[x]
                first = min((c for c in todo if all(c in reach[x] for x in reach[c])), key=repr)
                cs = sorted({first} | reach[first], key=repr)
                res = {lvs[k]: o for k, o in out.items()}
                joint = mk0("lv", iv, "joint")
                m = {lvs[c]: mk0("fld", joint, str(n)) for n, c in enumerate(cs)}
                b = tup(*[subst(subst(body[c], res), m) for c in cs])
                init = tup(*[st.mem.get(c, UNDEF) for c in cs])
                f = fold_(iv, iv, j, joint, init, b)
                for n, c in enumerate(cs):
                    out[c] = fld(f, str(n))
                todo -= set(cs)
        return out

    def accumulate(self, init, lv, v, iv, j):
        """Value after `iv` iterations of lv := v(iv, lv)."""
        if v is lv:
            return init
        vj = subst(v, {iv: j})
        lvj = subst(lv, {iv: j})
        if not contains(v, lambda x: x is lv):
            # last write wins: value of the previous iteration, or the initial one
            prev = subst(v, {iv: sub(iv, const(1))})
            return ite(pos(iv), prev, init) if prev is not init else init
        if v.op == "cat" and v.args[0].op == "one" and False:
            pass
        parts = self.cat_delta(vj, lvj)
        if parts is not None:
            if len(parts) == 1 and parts[0].op == "one":
                s = seq(iv, j, parts[0].args[0])
            else:
                s = flatseq(iv, j, cat(parts))
            return cat_join(init, s)
        if v.op == "ite":
            # conditional push
            ps = []
            for c, leaf in leaves(vj):
                if leaf is lvj:
                    continue
                d = self.cat_delta(leaf, lvj)
                if d is None or len(d) != 1 or d[0].op != "one" or contains(c, lambda x: x is lvj):
                    ps = None
                    break
                ps.append((c, d[0].args[0]))
            if ps is not None and len(ps) == 1:
                return cat_join(init, fseq(iv, j, ps[0][0], ps[0][1]))
        if v.op == "with" or v.op == "agg":
            # record with some loop-carried fields: accumulate field-wise
            names = []
            x = vj
            ups = {}
            while x.op == "with":
                ups.setdefault(x.args[1], x.args[2])
                x = x.args[0]
            if x is lvj:
                ok = all(
                    not contains(subst(e, {fld(lvj, n): mk0("lv", j, "fld")}), lambda y: y is lvj) for n, e in ups.items()
                )
                if ok:
                    r = init
                    for n, e in ups.items():
                        fl = mk0("lv", iv, "fld" + n)
                        e2 = subst(subst(e, {j: iv}), {fld(lv, n): fl})
                        r = with_fld(r, n, self.accumulate(fld(init, n), fl, e2, iv, fresh_iv()))
                    return r
        if vj.op == "updrange" and vj.args[0] is lvj and not contains(vj.args[1], lambda x: x is lvj):
            # element-wise overwrite of a part
            part = mk0("call", "subslice", "", lvj, vj.args[1])
            if vj.args[2].op == "updix" and vj.args[2].args[0] is part and vj.args[2].args[1] is j:
                first = mk0("call", "subslice", "", init, vj.args[1])
                e = subst(vj.args[2].args[2], {elem(part, j): elem(first, j)})
                if not contains(e, lambda x: x is lvj):
                    return mk0("updrange", init, vj.args[1], seq(iv, j, e) if self.covers(iv, vj.args[1]) else mk0("overwrite", first, seq(iv, j, e)))
        if vj.op == "updix" and vj.args[0] is lvj and vj.args[1] is j:
            # element-wise overwrite
            e = subst(vj.args[2], {elem(lvj, j): elem(init, j)})
            if not contains(e, lambda x: x is lvj):
                return mk0("overwrite", init, seq(iv, j, e)) if iv is not length(init) else seq(iv, j, e)
        return fold_(iv, iv, j, lv, init, v)

    @staticmethod
    def covers(n, rng):
        """A range of n elements"""
        if rng.op == "agg" and len(rng.args) == 4:
            return sub(rng.args[3], rng.args[2]) is n
        return False

    def cat_delta(self, v, lv):
        if v.op == "cat" and v.args[0] is lv:
            rest = list(v.args[1:])
            if all(not contains(p, lambda x: x is lv) for p in rest):
                return rest
        return None

    # ------------------------------------------------------------ blocks
    def block(self, fr, b, st):
        stmts, t = fr.body["blocks"][b]
        for place, rv, sp in stmts:
            v = self.rvalue(fr, st, rv, place, sp)
            if v is not None:
                self.write(fr, st, place, v)
        k = t["k"]
        if k == "goto":
            return [(t["t"], st)]
        if k == "return":
            return [("ret", st)]
        if k == "drop":
            return [(t["t"], st)]
        if k == "switch":
            d = self.operand(fr, st, t["d"])
            out = []
            rest = TRUE
            dt = self.F.ty(t["dt"])
            tgt = {}
            for val, bb in t["ts"]:
                c = self.swcond(d, val, dt)
                c1 = b_and(rest, c)
                rest = b_and(rest, b_not(c))
                tgt[bb] = b_or(tgt.get(bb, FALSE), c1)
            if t.get("else") is not None:
                tgt[t["else"]] = b_or(tgt.get(t["else"], FALSE), rest)
            for bb, c in tgt.items():
                if fr.body["blocks"][bb][1]["k"] == "unreachable" and not fr.body["blocks"][bb][0]:
                    continue
                pc = b_and(st.pc, c)
                if pc is FALSE:
                    continue
                out.append((bb, St(pc, dict(st.mem))))
            return out
        if k == "assert":
            c = tobool(self.operand(fr, st, t["c"]))
            if not t["e"]:
                c = b_not(c)
            bad = b_and(st.pc, b_not(c))
            if t.get("msg", "").startswith(("MisalignedPointer", "NullPointer")):
                return [(t["t"], st)]  # a check the debug build adds to every raw pointer access
            self.abort(fr, bad, "assert", t.get("sp"), t.get("msg"))
            st.pc = b_and(st.pc, c)
            return [(t["t"], st)] if st.pc is not FALSE else []
        if k == "call":
            return self.call(fr, b, t, st)
        return []

    def swcond(self, d, val, dt):
        v = int(val)

        def leafc(x):
            if x.op == "discr":
                return isvar(x.args[0], x.args[1], v if v < 2**31 else v - 2 ** (32 if v < 2**32 else 64), x.args[2])
            if is_bool_leaf(x):
                return const(x.args[0] == bool(v))
            if x.op == "c":
                return const(x.args[0] == v)
            if dt.s == "bool":
                return atom(x) if v else b_not(atom(x))
            return eq(x, const(v))

        if dt.s == "bool":
            bb = tobool(d)
            return bb if v else b_not(bb)
        return lift(d, leafc)

    # ------------------------------------------------------------ places
    def proj_name(self, ty, dcn, p):
        return (dcn + "." if dcn else "") + str(p["f"])

    def resolve(self, fr, st, place):
        """Normalise a place to (cell, path) following references; returns (cell, path, value)."""
        local, projs = place
        cell = (fr.fid, local)
        path = ()
        val = st.mem.get(cell, UNDEF)
        dcn = None
        ty = self.F.sub(self.F.ty(fr.body["locals"][local][0]), fr.tsub)
        for p in projs:
            if p == "*":
                if val.op == "mref":
                    cell, path = val.args
                    val = self.readcell(st, cell, path)
                elif val.op == "ite" and any(x.op == "mref" for _, x in leaves(val)):
                    ms = leaves(val)
                    if all(x.op in ("mref", "undef") for _, x in ms):
                        cell, path = val, ("ITE",)
                        val = lift(val, lambda x: self.readcell(st, *x.args) if x.op == "mref" else UNDEF)
                ty = ty.args[0] if ty is not None and ty.k in ("ref", "ptr") and ty.args else self.unbox(ty)
                continue
            if "dc" in p:
                dcn = p.get("n")
                continue
            if "f" in p:
                tr, nty = self.field_ty(ty, dcn, p)
                if tr:
                    ty = nty
                    dcn = None
                    continue
                if ty is not None and ty.k == "closure" or val.op == "agg" and str(val.args[0]).startswith("closure"):
                    nm = str(p["i"])
                else:
                    nm = self.proj_name(ty, dcn, p)
                val = fld(val, nm)
                path = path + (("f", nm),)
                ty = nty
                dcn = None
                continue
            if "ix" in p:
                i = st.mem.get((fr.fid, p["ix"]), UNDEF)
                val = self.index(val, i)
                path = path + (("i", i),)
                ty = ty.args[0] if ty is not None and ty.args else None
                continue
            if "cix" in p:
                i = const(p["cix"])
                if p.get("end"):
                    i = sub(length(val), i)
                val = self.index(val, i)
                path = path + (("i", i),)
                ty = ty.args[0] if ty is not None and ty.args else None
                continue
            if "sub" in p:
                val = mk0("call", "subslice", "", val, const(repr(p["sub"])))
                path = path + (("s", repr(p["sub"])),)
                continue
            raise Unsupported("projection " + repr(p))
        return cell, path, val

    def unbox(self, ty):
        if ty is not None and ty.k == "adt" and ty.path == "alloc::boxed::Box" and ty.args:
            return ty.args[0]
        return ty

    def field_ty(self, ty, dcn, p):
        """(is transparent, type of the field)"""
        if ty is None:
            return False, None
        if ty.k == "adt":
            if ty.path in TRANSPARENT:
                return True, (ty.args[0] if ty.args else None)
            a = self.F.adts.get(ty.path)
            if a is not None:
                for v in a["variants"]:
                    if dcn is None or v["name"] == dcn:
                        fs = v["fields"]
                        if p["i"] < len(fs):
                            m = {}
                            gt = self.F.ty(a["ty"])
                            for g, x in zip(gt.args, ty.args):
                                if g.k == "param":
                                    m[g.path] = x
                            return False, self.F.sub(self.F.ty(fs[p["i"]][1]), m)
                        break
            if ty.path == OPT and ty.args:
                return False, ty.args[0]
            if ty.path == RES and len(ty.args) == 2:
                return False, ty.args[0 if dcn == "Ok" else 1]
            if ty.path == CF and len(ty.args) == 2:
                return False, ty.args[1 if dcn == "Continue" else 0]
            return False, None
        if ty.k == "tuple" and p["i"] < len(ty.args):
            return False, ty.args[p["i"]]
        if ty.k in ("array", "slice", "prim", "param"):
            # inner layers of a transparent wrapper (MaybeUninit, ManuallyDrop, ...)
            return True, ty
        return False, None

    def index(self, v, i):
        return elem(v, i)

    def readcell(self, st, cell, path):
        if path == ("ITE",):
            return lift(cell, lambda x: self.readcell(st, *x.args) if x.op == "mref" else UNDEF)
        v = st.mem.get(cell, UNDEF)
        return self.readpath(st, v, path)

    def readpath(self, st, v, path):
        for kind, a in path:
            if kind == "f":
                v = fld(v, a)
            elif kind == "i":
                v = self.index(v, a)
            elif kind == "g":
                v = mk0("call", "subslice", "", v, a)
            elif kind == "v":
                v = self.models.view(a, v)
            elif kind == "m":  # value of a map entry
                v = fld(mk0("get", v, a), "Some.0")
            else:
                v = mk0("call", "subslice", "", v, const(a))
        return v

    def write(self, fr, st, place, v):
        local, projs = place
        if not projs:
            st.mem[(fr.fid, local)] = v
            return
        cell, path, _ = self.resolve(fr, st, place)
        self.writecell(st, cell, path, v)

    def writecell(self, st, cell, path, v):
        if path and path[0] == "ITE":
            for c, x in leaves(cell):
                if x.op != "mref":
                    continue
                old = self.readcell(st, x.args[0], x.args[1] + path[1:])
                self.writecell(st, x.args[0], x.args[1] + path[1:], ite(c, v, old))
            return
        st.mem[cell] = self.upd(st.mem.get(cell, UNDEF), path, v)

    def upd(self, base, path, v):
        if not path:
            return v
        kind, a = path[0]
        if kind == "f":
            if base is UNDEF:
                return mk0("with", UNDEF, a, self.upd(UNDEF, path[1:], v))
            return with_fld(base, a, self.upd(fld(base, a), path[1:], v))
        if kind == "i":
            nv = self.upd(self.index(base, a), path[1:], v)
            if base.op == "agg" and base.args[0] == "array" and a.op == "c":
                vals = list(base.args[2:])
                vals[a.args[0]] = nv
                return mk0("agg", "array", base.args[1], *vals)
            return mk0("updix", base, a, nv)
        if kind == "v":
            return self.models.unview(a, self.upd(self.models.view(a, base), path[1:], v))
        if kind == "m":
            nv = self.upd(fld(mk0("get", base, a), "Some.0"), path[1:], v)
            return mk0("mapset", base, a, nv)
        if kind == "g":
            return mk0("updrange", base, a, self.upd(mk0("call", "subslice", "", base, a), path[1:], v))
        return mk0("updrange", base, const(a), self.upd(mk0("call", "subslice", "", base, const(a)), path[1:], v))

    # ------------------------------------------------------------ operands
    def operand(self, fr, st, o):
        if "c" in o or "m" in o:
            p = o.get("c") or o.get("m")
            if not p[1]:
                return st.mem.get((fr.fid, p[0]), UNDEF)
            return self.resolve(fr, st, p)[2]
        return self.constant(fr, st, o["k"])

    def constant(self, fr, st, c):
        if "fn" in c:
            return self.fnval(fr, c)
        if "promoted" in c:
            owner = self.F.by_key.get(c.get("of"), fr.fn) if c.get("of") else fr.fn
            return self.const_body(owner, owner["promoted"][c["promoted"]], fr.tsub, ("p", owner["key"], c["promoted"]))
        if "const" in c:
            return self.named_const(fr, c)
        if "v" in c and c["v"] is not None:
            return const(c["v"])
        if "bytes" in c:
            return mk0("c", c["bytes"], "bytes")
        if "tyconst" in c:
            m = fr.tsub.get(c["tyconst"])
            s = m.s if m is not None else c["tyconst"]
            if s.isdigit():
                return const(int(s))
            return mk0("const", s)
        if c.get("zst"):
            t = self.F.ty(c["t"])
            if t.k == "adt":
                return mk0("agg", t.path, ())
            if t.k == "fndef":
                return self.fnval(fr, c)
            return UNIT
        return mk0("const", c.get("s", "?"))

    def named_const(self, fr, c):
        d = c["const"]
        if "full" not in d and "{constant#" in d["path"]:
            # an inline `const {}` block: evaluated by the compiler, so its assertions hold at run time
            for f in self.F.by_path.get(d["path"], ()):
                n = len(self.aborts)
                res = self.call_body(f, f["body"], [], fr.tsub, {}, ())
                del self.aborts[n:]
                self.static = b_and(self.static, res.pc)
            return UNIT
        args = [self.F.sub(self.F.ty(a), fr.tsub) for a in d.get("args", [])]
        key = d.get("rkey") or d.get("key")
        if d.get("trait"):
            t = args[0] if args else None
            nm = f"<{t.s} as {d['trait']}>::{d['path'].split('::')[-1]}"
            if "rkey" in d and d["rkey"] in self.F.by_key:
                f = self.F.by_key[d["rkey"]]
                if f.get("body"):
                    return self.const_body(f, f["body"], {}, ("k", d["rkey"]))
            return mk0("const", nm)
        f = self.F.by_key.get(key)
        if f is not None and f.get("body") and self.inline_const(f):
            m = self.bind_generics(f, args)
            return self.const_body(f, f["body"], m, ("k", key, tuple(sorted((k, v.s) for k, v in m.items()))))
        nm = d["path"]
        if args:
            nm += "[" + ",".join(a.s for a in args) + "]"
        return mk0("const", nm)

    def inline_const(self, f):
        return not f["path"].endswith(("::ZERO", "::ONE"))

    def const_body(self, fn, body, tsub, key):
        k = (key, tuple(sorted((a, b.s) for a, b in tsub.items())))
        r = self.const_memo.get(k)
        if r is None:
            n = len(self.aborts)
            res = self.call_body(fn, body, [], tsub, {}, ())
            del self.aborts[n:]
            r = res.ret
            self.const_memo[k] = r
        return r

    def fnval(self, fr, c):
        fn = c["fn"]
        args = tuple(self.F.sub(self.F.ty(a), fr.tsub) for a in fn.get("args", []))
        nm = fn.get("full") or fn["path"]
        if args:
            nm = fn["path"] + "[" + ",".join(a.s for a in args) + "]"
        self.fndefs[nm] = (fn, dict(fr.tsub))
        return mk0("fndef", nm)

    def bind_generics(self, f, args):
        m = {}
        gs = f.get("generics") or []
        for g, a in zip(gs, args):
            m[g] = a
        return m

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, rv, place, sp):
        k = rv["k"]
        if k == "use":
            o = rv["a"]
            if "c" in o and o["c"][1] and place and not place[1] and head(self.F.ty(fr.body["locals"][place[0]][0])).path == "alloc::boxed::Box":
                # a Box is not Copy: this is the compiler's way of dereferencing one in place
                cell, path, val = self.resolve(fr, st, o["c"])
                if val.op not in ("mref", "rng", "undef") and path != ("ITE",):
                    return mk0("mref", cell, path)
                return val
            return self.operand(fr, st, o)
        if k == "ref" or k == "rawptr":
            cell, path, val = self.resolve(fr, st, rv["p"])
            if not rv.get("mut"):
                return val
            # a mutable borrow of a shared-reference-like value (Box contents) stays in its cell
            if val.op == "rng":
                return val
            return mk0("mref", cell, path)
        if k == "cast":
            if rv.get("ck") == "BoxDerefTransmute" and ("c" in rv["a"] or "m" in rv["a"]):
                cell, path, val = self.resolve(fr, st, rv["a"].get("c") or rv["a"].get("m"))
                if val.op not in ("mref", "rng", "undef") and path[:1] != ("ITE",):
                    return mk0("mref", cell, path)
            v = self.operand(fr, st, rv["a"])
            t = self.F.sub(self.F.ty(rv["t"]), fr.tsub)
            return self.cast(v, t, rv.get("ck"), fr, rv["a"])
        if k == "bin":
            a, b = self.operand(fr, st, rv["a"]), self.operand(fr, st, rv["b"])
            ty = self.F.ty(fr.body["locals"][place[0]][0]) if not place[1] else None
            isb = self.optype(fr, rv["a"])
            return self.binop(rv["op"], a, b, isb)
        if k == "un":
            a = self.operand(fr, st, rv["a"])
            if rv["op"] == "Not" and self.optype(fr, rv["a"]) == "bool":
                return b_not(a)
            if rv["op"] == "PtrMetadata":
                return length(a)
            if rv["op"] == "Neg":
                return sub(const(0), a)
            return mk0("un", rv["op"], a)
        if k == "discr":
            cell, path, v = self.resolve(fr, st, rv["p"])
            t = self.F.sub(self.F.ty(rv["t"]), fr.tsub)
            t = head(t)
            n = 2
            a = self.F.adts.get(t.path) if t.k == "adt" else None
            if a:
                n = len(a["variants"])
            elif t.path == "core::cmp::Ordering":
                n = 3

            def d(x):
                if x.op == "agg" and x.args[0] in VARIDX:
                    return const(VARIDX[x.args[0]])
                if n == 1:
                    return const(0)
                return mk0("discr", x, t.path or t.s, n)

            return lift(v, d)
        if k == "agg":
            ops = [self.operand(fr, st, o) for o in rv["ops"]]
            ak = rv["ak"]
            if ak == "tuple":
                return tup(*ops)
            if ak == "array":
                return agg("array", [str(i) for i in range(len(ops))], ops)
            if ak == "closure":
                lbl = "closure:" + rv["key"] + ":" + self.tskey(fr.tsub)
                self.closures[lbl] = (rv["key"], dict(fr.tsub))
                return agg(lbl, [str(i) for i in range(len(ops))], ops)
            if ak == "adt":
                if rv["path"] in TRANSPARENT:
                    return ops[0]
                if rv.get("enum"):
                    lbl = rv["path"] + "::" + rv["var"]
                    VARIDX.setdefault(lbl, rv["vi"])
                    return agg(lbl, [rv["var"] + "." + f for f in rv["fields"]], ops)
                return agg(rv["path"], rv["fields"], ops)
            return mk0("call", "agg:" + ak, "", *ops)
        if k == "repeat":
            return mk0("repeat", self.operand(fr, st, rv["a"]), self.repeat_len(fr, rv))
        if k == "setdiscr":
            return None
        return mk0("const", "rvalue:" + str(rv.get("s", k)))

    def repeat_len(self, fr, rv):
        n = rv.get("n")
        if isinstance(n, int):
            return const(n)
        s = str(n)
        if s in fr.tsub:
            s = fr.tsub[s].s
        s = s.split("_")[0] if s[:1].isdigit() else s
        return const(int(s)) if s.isdigit() else mk0("const", s)

    def tskey(self, m):
        return ";".join(f"{k}={v.s}" for k, v in sorted(m.items()))

    def optype(self, fr, o):
        p = o.get("c") or o.get("m")
        if p is not None:
            if not p[1]:
                return self.F.ty(fr.body["locals"][p[0]][0]).s
            t = self.F.ty(fr.body["locals"][p[0]][0])
            for x in p[1]:
                if x == "*" and t is not None:
                    t = t.args[0] if t.args else None
                elif isinstance(x, dict) and "f" in x and t is not None:
                    t = self.field_ty(t, None, x)[1]
                elif t is not None and isinstance(x, dict) and ("ix" in x or "cix" in x):
                    t = t.args[0] if t.args else None
            return t.s if t is not None else "?"
        return self.F.ty(o["k"]["t"]).s

    INTW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 7, "i16": 15, "i32": 31, "i64": 63, "isize": 63}

    def cast(self, v, t, ck, fr, o):
        if t.s in self.INTW:
            src = self.optype(fr, o)
            if src == "bool":
                return lift(tobool(v), lambda x: const(1) if x is TRUE else const(0))
            if src in self.INTW and self.INTW[src] > self.INTW[t.s]:
                if v.op == "c" and isinstance(v.args[0], int) and 0 <= v.args[0] < 2 ** self.INTW[t.s]:
                    return v
                if v.op == "bin" and v.args[0] == "Rem" and src[0] == "u" and v.args[2].op == "c" and 0 < v.args[2].args[0] <= 2 ** self.INTW[t.s]:
                    return v
                return mk0("trunc", t.s, v)
            if ck and "Discr" in str(ck):
                return v
            return v
        return v

    def binop(self, op, a, b, ty):
        if op.endswith("WithOverflow"):
            v = self.binop(op[:-12], a, b, ty)
            return tup(v, lt(a, b) if VF.underflow and op.startswith("Sub") and ty in ("usize", "u8", "u16", "u32", "u64", "u128") else FALSE)
        op = op.replace("Unchecked", "")
        if ty == "bool":
            if op == "BitAnd":
                return b_and(a, b)
            if op == "BitOr":
                return b_or(a, b)
            if op in ("BitXor", "Ne"):
                return b_xor(a, b)
            if op == "Eq":
                return b_not(b_xor(a, b))
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mul":
            return mul(a, b)
        if op == "Eq":
            return eq(a, b)
        if op == "Ne":
            return b_not(eq(a, b))
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if a.op == "c" and b.op == "c" and isinstance(a.args[0], int) and isinstance(b.args[0], int):
            x, y = a.args[0], b.args[0]
            if op == "Div" and y:
                return const(x // y)
            if op == "Rem" and y:
                return const(x % y)
            if op == "Shl":
                return const(x << y)
            if op == "Shr":
                return const(x >> y)
            if op == "BitAnd":
                return const(x & y)
            if op == "BitOr":
                return const(x | y)
            if op == "BitXor":
                return const(x ^ y)
        # canonical powers of two
        if op == "BitAnd" and a.op == "c":
            a, b = b, a
        if b.op == "c" and isinstance(b.args[0], int) and b.args[0] >= 0:
            y = b.args[0]
            if op == "Shr":
                return mk0("bin", "Div", a, const(1 << y))
            if op == "Shl":
                return mul(a, const(1 << y))
            if op == "BitAnd" and y and (y & (y + 1)) == 0:
                op, y, b = "Rem", y + 1, const(y + 1)
            if op == "Rem" and a.op == "trunc" and a.args[0] in self.INTW and ty[0] == "u" and y and (y & (y - 1)) == 0 and y <= 2 ** self.INTW[a.args[0]]:
                a = a.args[1]
            if op == "Rem":
                return mk0("bin", "Rem", a, b)
        if op in ("BitAnd", "BitOr", "BitXor") and a.id > b.id:
            a, b = b, a
        return mk0("bin", op, a, b)

    # ------------------------------------------------------------ calls
    def site(self, fr, b):
        return fr.stack + ((fr.fn["path"], b),)

    def call(self, fr, b, t, st):
        self.ncalls += 1
        f = t["f"]
        args = [self.operand(fr, st, a) for a in t["args"]]
        sp = t.get("sp")
        dt = self.F.sub(self.F.ty(t["dt"]), fr.tsub)
        ctx = Ctx(self, fr, b, st, sp, dt, t)
        if "k" in f and "fn" in f["k"]:
            fn = f["k"]["fn"]
            v = self.invoke(ctx, fn, fr.tsub, args)
        else:
            fv = self.operand(fr, st, f)
            v = self.call_value(ctx, fv, args)
        if v is None or st.pc is FALSE or t.get("t") is None:
            return []
        self.write(fr, st, t["d"], v)
        return [(t["t"], st)]

    def invoke(self, ctx, fn, tsub, args):
        """Call of the function named by the callee record `fn` under tsub."""
        F = self.F
        targs = [F.sub(F.ty(a), tsub) for a in fn.get("args", [])]
        path = fn["path"]
        trait = fn.get("trait")
        key, rargs = None, None
        rpath = None
        if fn.get("rkey"):
            key = fn["rkey"] if fn.get("rlocal") else None
            rargs = [F.sub(F.ty(a), tsub) for a in fn.get("rargs", [])]
            rpath = fn.get("rpath")
        elif trait is None:
            key = fn["key"] if fn.get("local") else None
            rargs = targs
            rpath = path
        if trait is not None and key is None and targs:
            # resolve under the current substitution
            r = F.find_impl(trait, self.trait_args(trait, targs))
            mname = path.split("::")[-1]
            if r is not None:
                im, m = r
                for nm, k, _ in im["items"]:
                    if nm == mname and k in F.by_key and F.by_key[k].get("body"):
                        key = k
                        f2 = F.by_key[k]
                        own = [g for g in (f2.get("generics") or []) if g not in m]
                        extra = targs[len(self.trait_args(trait, targs)) :]
                        mm = dict(m)
                        for g, a in zip(own, extra):
                            mm[g] = a
                        rargs = mm
                        rpath = f2["path"]
                        break
                else:
                    # default method of a local trait
                    if fn["key"] in F.by_key and F.by_key[fn["key"]].get("body"):
                        key = fn["key"]
                        rargs = targs
                        rpath = path
            elif fn.get("local") and fn["key"] in F.by_key and F.by_key[fn["key"]].get("body") and trait in F.traits:
                # provided method
                key = fn["key"]
                rargs = targs
        info = Info(path, trait, targs, key, rpath, fn, F)
        # conversions are one and the same, however they are called
        lf = None if path in ("core::convert::From::from", "core::convert::TryFrom::try_from") else self.leaf(info)
        if lf is not None:
            if callable(lf):
                r = lf(self, ctx, info, args)
                if r is not NotImplemented:
                    return r
            else:
                return self.opaque(ctx, lf if isinstance(lf, str) else info.cname(), info, args)
        mdl = self.models.find(info)
        if mdl is not None:
            r = mdl(self, ctx, info, args)
            if r is not NotImplemented:
                return r
        if key is not None:
            f2 = F.by_key.get(key)
            if f2 is not None and f2.get("body"):
                if len(ctx.fr.stack) < self.max_depth and sum(s[0] == f2["path"] for s in ctx.fr.stack) < 4 and f2["path"] != ctx.fr.fn["path"]:
                    m = rargs if isinstance(rargs, dict) else self.bind_generics(f2, rargs or [])
                    return self.inline(ctx, f2, m, args)
        return self.opaque(ctx, info.cname(), info, args)

    def trait_args(self, trait, targs):
        n = 1
        ims = self.F.impl_by_trait.get(trait)
        if ims:
            n = len(ims[0]["targs"])
        return targs[:n]

    def inline(self, ctx, f2, m, args):
        self.inlined_sites += 1
        st = ctx.st
        n0 = len(self.aborts)
        e0 = len(self.events)
        # RNG/XOF state parameters stay symbolic
        pc0 = st.pc
        self.pcstack.append(pc0)
        res = self.call_body(f2, f2["body"], args, m, st.mem, self.site(ctx.fr, ctx.b))
        self.pcstack.pop()
        for a in self.aborts[n0:]:
            a.cond = b_and(pc0, a.cond)
        for i in range(e0, len(self.events)):
            p, nm, ar, s = self.events[i]
            self.events[i] = (b_and(pc0, p), nm, ar, s)
        st.pc = b_and(pc0, res.pc)
        if st.pc is FALSE:
            return None
        return res.ret

    def call_value(self, ctx, fv, args):
        """Call of a function value (closure or function item) with unpacked arguments."""
        if fv.op == "mref":
            fv2 = self.readcell(ctx.st, *fv.args)
        else:
            fv2 = fv
        if fv2.op == "agg" and str(fv2.args[0]).startswith("closure:"):
            key, tsub = self.closures[fv2.args[0]]
            f2 = self.F.by_key.get(key)
            if f2 is None or not f2.get("body"):
                return self.opaque(ctx, "closure", None, args)
            a0 = fv if fv.op == "mref" else fv2
            return self.inline(ctx, f2, tsub, [a0] + list(args))
        if fv2.op == "fndef":
            fn, tsub = self.fndefs[fv2.args[0]]
            # constructor functions
            t = fn["path"]
            c = self.ctor(fn, args, tsub)
            if c is not None:
                return c
            return self.invoke(ctx, fn, tsub, args)
        if fv2.op == "ite":
            r = None
            sts = []
            for c, leaf in leaves(fv2):
                s2 = St(b_and(ctx.st.pc, c), dict(ctx.st.mem))
                c2 = Ctx(self, ctx.fr, ctx.b, s2, ctx.sp, ctx.dt, ctx.t)
                v = self.call_value(c2, leaf, args)
                if v is not None:
                    s2.mem[("tmp", 0)] = v
                    sts.append(s2)
            m = self.merge(sts)
            if m is None:
                return None
            v = m.mem.pop(("tmp", 0))
            ctx.st.pc, ctx.st.mem = m.pc, m.mem
            return v
        return self.opaque(ctx, "callvalue", None, [fv2] + list(args))

    def ctor(self, fn, args, tsub):
        """Tuple struct / variant constructors used as functions."""
        p = fn["path"]
        std = {
            "core::option::Option::Some": some,
            "core::result::Result::Ok": ok,
            "core::result::Result::Err": err,
        }
        import re

        q = re.sub(r"::<[^>]*(<[^<>]*>)?[^<>]*>", "", p)
        for k, f in std.items():
            if q == k:
                return f(*args)
        a = self.F.adts.get(q)
        if a is not None and a["kind"].lower() == "struct":
            if q in TRANSPARENT:
                return args[0]
            return agg(q, [str(i) for i in range(len(args))], args)
        if "::" in q:
            en, var = q.rsplit("::", 1)
            a = self.F.adts.get(en)
            if a is not None and a["kind"].lower() == "enum":
                for i, v in enumerate(a["variants"]):
                    if v["name"] == var:
                        VARIDX.setdefault(q, i)
                        return agg(q, [var + "." + f[0] for f in v["fields"]], args)
            if q in TRANSPARENT:
                return args[0]
        return None

    def opaque(self, ctx, name, info, args, extra=""):
        self.trace[name] = self.trace.get(name, 0) + 1
        st = ctx.st
        if contains_mutref(ctx.dt):
            self.lost.append((name, ctx.fr.fn["path"], ctx.sp))
        vals = []
        muts = []
        rng = False
        for i, a in enumerate(args):
            if a.op == "rng":
                rng = True
                continue
            if a.op == "mref":
                v = self.readcell(st, *a.args)
                if v.op == "rng" or v.op == "agg" and contains(v, lambda x: x.op == "rng"):
                    rng = True
                    continue
                muts.append((i, a))
                vals.append(v)
            elif a.op == "ite" and any(x.op == "mref" for _, x in leaves(a)):
                vals.append(lift(a, lambda x: self.readcell(st, *x.args) if x.op == "mref" else x))
                muts.append((i, a))
            elif a.op == "agg" and contains(a, lambda x: x.op == "rng") and all(x.op == "rng" for x in _parts(a)):
                rng = True
            elif a.op == "agg" and contains(a, lambda x: x.op in ("mref", "rng")):
                def rep(x):
                    if x.op == "mref":
                        return self.readcell(st, *x.args)
                    if x.op == "agg":
                        return mk0("agg", x.args[0], x.args[1], *[rep(y) for y in x.args[2:]])
                    return x
                if contains(a, lambda x: x.op == "rng"):
                    rng = True
                vals.append(rep(a))
            else:
                vals.append(a)
        targs = extra or (info.tname(vals) if info is not None else "")
        if info is not None and info.trait in self.models.ASSIGN and len(vals) == 2 and muts and muts[0][0] == 0:
            # `a op= b` is `a = a op b`
            tr, nm = self.models.ASSIGN[info.trait]
            self.writecell(st, muts[0][1].args[0], muts[0][1].args[1], mk0("call", tr + "::" + nm, targs, *vals)) if muts[0][1].op == "mref" else self.writecell(st, muts[0][1], ("ITE",), mk0("call", tr + "::" + nm, targs, *vals))
            return UNIT
        if rng:
            r = self.fresh(ctx, name, targs, vals)
        else:
            r = mk0("call", name, targs, *vals)
        self.events.append((st.pc, name, tuple(vals), (ctx.fr.fn["path"], ctx.b, ctx.sp, ctx.fr.stack)))
        for i, a in muts:
            nv = mk0("upd", name, i, *([r] if rng else vals))
            if a.op == "mref":
                self.writecell(st, a.args[0], a.args[1], nv)
            else:
                self.writecell(st, a, ("ITE",), nv)
        return r

    def fresh(self, ctx, name, targs, vals):
        if name.startswith("rand_core::RngCore::"):
            targs = ""
        site = self.site(ctx.fr, ctx.b)
        n = self.fresh_n.get(site, 0)
        self.fresh_n[site] = n + 1
        lbl = f"{name}@{ctx.sp}#{n}|" + "/".join(f"{s[0]}:{s[1]}" for s in site)
        return mk0("fresh", name, targs, lbl, tuple(self.ivstack), *vals)


def _parts(a):
    """Leaves of nested aggregates."""
    for x in a.args[2:]:
        if x.op == "agg" and x.args[1]:
            yield from _parts(x)
        else:
            yield x


def contains_mutref(t):
    if t is None:
        return False
    return t.k == "ref" and bool(t.extra) or t.k in ("ref", "adt", "tuple") and any(isinstance(x, Ty) and contains_mutref(x) for x in t.args)


class Ctx:
    __slots__ = ("vf", "fr", "b", "st", "sp", "dt", "t")

    def __init__(self, vf, fr, b, st, sp, dt, t):
        self.vf, self.fr, self.b, self.st, self.sp, self.dt, self.t = vf, fr, b, st, sp, dt, t

    def abort(self, cond, kind, what=""):
        """Abort when cond; continue with its negation."""
        cond = tobool(cond)
        self.vf.abort(self.fr, b_and(self.st.pc, cond), kind, self.sp, what)
        self.st.pc = b_and(self.st.pc, b_not(cond))
        return self.st.pc is not FALSE

    def read(self, a):
        if a.op == "mref":
            return self.vf.readcell(self.st, *a.args)
        if a.op == "ite":
            return lift(a, lambda x: self.vf.readcell(self.st, *x.args) if x.op == "mref" else x)
        return a

    def write(self, a, v):
        if a.op == "mref":
            self.vf.writecell(self.st, a.args[0], a.args[1], v)
        elif a.op == "ite":
            self.vf.writecell(self.st, a, ("ITE",), v)


class Info:
    def __init__(self, path, trait, targs, key, rpath, fn, F):
        self.path, self.trait, self.targs, self.key, self.rpath, self.fn = path, trait, targs, key, rpath, fn
        self.name = path.split("::")[-1]
        self.F = F
        self.selfty = head(targs[0]) if trait and targs else None
        self.fnrec = F.by_key.get(key) if key else None

    def self_head(self):
        """ADT path of the receiver type (trait methods) or of the inherent impl."""
        if self.selfty is not None:
            return self.selfty.path if self.selfty.k in ("adt", "param") else self.selfty.s
        f = self.fnrec
        if f is not None and f.get("self") is not None:
            return head(self.F.ty(f["self"])).path
        return None

    def cname(self):
        if self.trait:
            return self.path
        return self.rpath or self.path

    def tname(self, vals):
        if self.trait and self.targs:
            if self.trait.startswith(("manul::", "tools::protocol_shortcuts::")):
                return ";".join(head(t).s for t in self.targs)
            return head(self.targs[0]).s
        if not vals:
            return ",".join(t.s for t in self.targs)
        return ""


def fold_(dom, iv, j, lv, init, v):
    """fold over j in 0..dom of lv := v (v given at index iv)."""
    vj = subst(v, {iv: j})
    lvj = subst(lv, {iv: j})
    return fold(dom, j, lvj, init, vj)


def flatseq(dom, iv, body):
    bv, b = close(iv, body)
    return mk0("flatseq", dom, bv, b)


def fseq(dom, iv, cond, body):
    if cond is TRUE:
        return seq(dom, iv, body)
    bv, c, b = close(iv, tobool(cond), body)
    return mk0("fseq", dom, bv, c, b)


def _fseq_r(dom, bv, c, b):
    iv = fresh_iv()
    return fseq(dom, iv, subst(c, {bv: iv}), subst(b, {bv: iv}))


REBUILD["fseq"] = _fseq_r
EMPTY = mk0("cat")


def cat_join(a, b):
    if a is EMPTY:
        return b
    return cat([a, b])
