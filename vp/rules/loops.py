"""Counted loops: the values loop variables take in iteration k, and how often the body runs."""
from .. import terms as tm
from ..terms import T, const


def div_exact(t, d):
    """t / d for a constant or an atom (times a constant) d that divides every monomial; else None"""
    if d.is_const:
        if d.const and all(c % d.const == 0 for c in t.m.values()):
            return tm.mk({m: c // d.const for m, c in t.m.items()})
        return None
    if len(d.m) != 1:
        return None
    (mono, f), = d.m.items()
    out = {}
    for m, c in t.m.items():
        l = list(m)
        for a in mono:
            if a not in l:
                return None
            l.remove(a)
        if c % f:
            return None
        out[tuple(l)] = c // f
    return tm.mk(out)


def leaves(fn, vn, t, header=None, seen=None):
    """the terms a value may be, looking through merges that are not loop headers"""
    seen = set() if seen is None else seen
    a = t.atom()
    if a is not None and a.k == "sel" and len(a.p) == 3:
        return leaves(fn, vn, a.p[1], header, seen) + leaves(fn, vn, a.p[2], header, seen)
    x = fn.ins.get(a.p[-1]) if a is not None and a.k == "phi" and isinstance(a.p[-1], int) else None
    if x is None or x.bb in fn.loops or x.id in seen:
        return [] if x is not None and x.id in seen else [t]
    seen.add(x.id)
    out = []
    for p, v in x.j["in"]:
        if p not in fn.rpon or p in fn.dead or v["k"] == "undef":
            continue
        out += leaves(fn, vn, vn.op(v), header, seen)
    return out


def consecutive(X, Y, B, w):
    """w follows the section [X, Y) of [0, B), where Y may have been cut off at B"""
    if w is Y or w is X:
        return True
    y = Y.atom()
    if y is not None and y.k == "sel" and len(y.p) == 3 and {y.p[1].id, y.p[2].id} == {w.id, B.id}:
        # the smaller of the two, in whatever form they are compared
        l = tm.term_lit(y.p[0])
        a = l[0].atom() if isinstance(l[0], T) else None
        if a is not None and a.k == "ult":
            p, q = (y.p[1], y.p[2]) if l[1] else (y.p[2], y.p[1])
            if tm.sub(a.p[1], a.p[0]) is tm.sub(q, p):
                return True
    for y, u in ((Y.atom(), (w, B)), (tm.sub(Y, X).atom(), (tm.sub(w, X), tm.sub(B, X)))):
        if y is not None and y.k == "min" and {q.id for q in y.p if isinstance(q, T)} == {z.id for z in u}:
            return True
    return False


class Loop:
    def __init__(self, root, header, can=lambda t: t):
        self.fn, self.vn, self.header = root.fn, root.vn, header
        self.body = self.fn.loops[header]
        self.memo = {}
        self.aff = {}                 # phi atom -> (initial value, step)
        for x in self.fn.blocks[header]:
            if x.op != "phi" or x.id not in self.vn.t:
                continue
            a = self.vn.t[x.id].atom()
            if a is None or a.k != "phi" or a.p[-1] != x.id:
                continue
            me = self.vn.t[x.id]
            init, step, bad = None, None, False
            for p, v in x.j["in"]:
                if p not in self.fn.rpon or p in self.fn.dead:
                    continue
                t = self.vn.op(v)
                if p in self.body:
                    for w in leaves(self.fn, self.vn, t):
                        d = can(tm.sub(w, me))
                        if not d.m and w is me:
                            continue          # value kept on a path that leaves anyway
                        if not self.invariant(d) or step not in (None, d):
                            bad = True
                        step = d
                else:
                    t = can(t)
                    if init not in (None, t):
                        bad = True
                    init = t
            if not bad and init is not None and step is not None:
                self.aff[a] = (init, step)

    def invariant(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = True
            for a in tm.walk(t, set()):
                if a.k in ("phi", "call", "ld", "ev", "mem") and isinstance(a.p[-1], int):
                    x = self.fn.ins.get(a.p[-1])
                    if x is not None and x.bb in self.body:
                        r = False
                        break
            self.memo[t.id] = r
        return r

    def at(self, t):
        """(value in iteration 0, increment per iteration) or None"""
        v0, d = tm.ZERO, tm.ZERO
        for m, c in t.m.items():
            fs = [a for a in m if a in self.aff]
            rest = tm.mk({tuple(a for a in m if a not in self.aff): c})
            if len(fs) > 1 or not self.invariant(rest):
                return None
            if fs:
                i, s = self.aff[fs[0]]
                v0 = tm.add(v0, tm.mul(i, rest))
                d = tm.add(d, tm.mul(s, rest))
            else:
                v0 = tm.add(v0, rest)
        return v0, d

    def count(self, a):
        """for a condition atom of this loop: (number of iterations for which the loop goes on, value meaning so)"""
        if a.k == "eq":
            r = self.at(a.p[0])
            if r is None or not r[1].m:
                return None
            n = div_exact(tm.scale(r[0], -1), r[1])
            return (n, False) if n is not None else None
        if a.k == "ult":
            x, y = self.at(a.p[0]), self.at(a.p[1])
            if x is None or y is None:
                return None
            d = tm.sub(x[1], y[1])
            if not d.m:
                return None
            if d is tm.scale(const(1), -1):
                # not x < y, where y goes up to x
                return (tm.add(tm.sub(x[0], y[0]), const(1)), False)
            n = div_exact(tm.sub(y[0], x[0]), d)
            return (n, True) if n is not None else None
        return None

    def tests(self):
        """condition atom id -> (count, continue value, block) of the branches that leave the loop by count"""
        out = {}
        for b in self.body:
            t = self.fn.blocks[b][-1]
            if t.op != "br" or "cond" not in t.j or all(s in self.body for s in t.j["succ"]):
                continue
            l = self.vn.lit(t.j["cond"])
            if l in (True, False):
                continue
            a = l[0].atom()
            c = self.count(a) if a is not None else None
            if c is not None:
                stay = (t.j["succ"][0] in self.body) == l[1]
                if stay == c[1]:
                    out[a.id] = (c[0], c[1], b)
        return out


def innermost(fn, block):
    hs = [h for h, body in fn.loops.items() if block in body]
    return min(hs, key=lambda h: len(fn.loops[h])) if hs else None
