"""Small methods of the components: what memory holds along each path, in terms of what it held at entry.

Cells is a path-sensitive constant/copy propagation over terms: a state keeps, for each memory cell touched so far, its value as
a normal form over entry values, and the branch conditions taken, in the same terms.  Linear relations between them are decided by
adding up the conditions (each step cancels a term that counts against the claim; no solver)."""
import math
from .. import terms as tm
from ..terms import T, atom, const, ZERO
from ..ir import split_ptr, AnchorError
from ..lib import Root
from .common import *
from .posix import Posix

DEPTH, WORK = 6, 2000


class Cells(Posix):
    given = ()          # what the callers of a method guarantee: terms that are >= 0

    def start(self):
        return frozenset(("ge", t) for t in self.given)

    def setup(self):
        self.initial = {}

    # -- cells
    def sizeof(self, ins):
        t = ins.ty if ins.op == "load" else self.otype(ins.j["a"][0])
        if t[:1] == "i" and t[1:].isdigit():
            return max(int(t[1:]), 8) // 8
        return 8

    def otype(self, o):
        if o["k"] == "v":
            x = self.fn.ins.get(o["v"])
            return x.ty if x is not None else next((a["ty"] for a in self.fn.args if a["id"] == o["v"]), "i64")
        return f"i{o['w']}" if "w" in o else "i64"

    def split(self, p):
        c = [m[0] for m, k in p.m.items() if len(m) == 1 and k == 1 and m[0].k in ("init", "loop") and m[0].p[-1] == 8]
        if c and not any(m[0].k in ("alloca", "arg", "g", "call") and self.pointer(m[0]) for m in p.m if len(m) == 1):
            for a in c:
                if not any(b is not a and tm.contains(tm.mk({(a,): 1}), lambda z: z is b) for b in c):
                    return a, tm.sub(p, tm.mk({(a,): 1}))
        b, o = split_ptr(p)
        if b is None:
            return p.id, ZERO
        return b, o

    def pointer(self, a):
        """an argument or result that is a pointer"""
        if a.k == "arg":
            return self.fn.args[a.p[0]]["ty"] == "ptr"
        if a.k == "call":
            x = self.fn.ins.get(a.p[-1])
            return x is None or x.ty == "ptr"
        return True

    def drop(self, st, b, o, n):
        """forget the cells of b that [o, o+n) may overlap"""
        out = set()
        for f in st:
            if f[0] == "c" and f[1] == b:
                d = tm.sub(f[2], o)
                if n is None or not self.apart(d, n, f[3], st):
                    continue
            out.add(f)
        return frozenset(out)

    def apart(self, d, n, w, st):
        """w bytes at distance d from something n bytes long do not overlap it"""
        for g in (tm.sub(d, n), tm.sub(tm.scale(d, -1), const(w))):
            if pos(g) or not g.is_const and self.given and self.nonneg(g, st):
                return True
        return False

    def put(self, st, p, n, v):
        b, o = self.split(p)
        return self.drop(st, b, o, const(n)) | {("c", b, o, n, v)}

    def cur(self, st, p, n=8):
        """what the cell at p holds now"""
        b, o = self.split(p)
        for f in st:
            if f[0] == "c" and f[1] == b and f[2] is o and f[3] == n:
                return f[4]
        if ("gone", b) in st:
            return None
        return atom("init", p, n)

    def on_store(self, ev, st):
        p, v = (self.pathval(t, st) for t in ev.args)
        return self.stored(ev, self.put(st, p, self.sizeof(ev.ins), v), p, v)

    def stored(self, ev, st, p, v):
        return st

    def on_load(self, ev, st):
        p = self.pathval(ev.args[0], st)
        t = self.vn.t.get(ev.ins.id)
        if t is None or t.atom() is None:
            return None
        a = t.atom()
        if a.k not in ("ld", "phi", "ev", "v"):
            return None
        v = self.cur(st, p, self.sizeof(ev.ins))
        if v is None:
            v = t
        elif ev.ins.ty == "i1" or a.w and a.w < 8:
            return None
        return frozenset(f for f in st if f[:2] != ("v", a)) | {("v", a, v)}

    def pathval(self, t, st, depth=8):
        if not depth:
            return t
        out = ZERO
        for m, c in t.m.items():
            p = const(c)
            for a in m:
                p = tm.mul(p, self.aval(a, st, depth))
            out = tm.add(out, p)
        return out

    def aval(self, a, st, depth):
        for f in st:
            if f[0] == "v" and f[1] is a:
                return f[2]
        if a.k == "phi" and isinstance(a.p[-1], int):
            x = self.fn.ins.get(a.p[-1])
            if x is not None and x.op == "phi" and x.bb not in self.fn.loops:
                pr = self.get(st, "in", x.bb)
                if pr is not None:
                    r = self.incoming(x, pr[2], st, depth - 1)
                    if r is not None:
                        return r
            return tm.mk({(a,): 1})
        if a.k == "sel" and not a.p[0].is_const:
            l = tm.term_lit(a.p[0])
            f = self.get(st, "cond", l[0].atom())
            if f is not None:
                return self.pathval(a.p[1] if f[2] == l[1] else a.p[2], st, depth - 1)
        if a.k in ("init", "call", "arg", "alloca", "g"):
            return tm.mk({(a,): 1})
        ps = [self.pathval(p, st, depth - 1) if isinstance(p, T) else p for p in a.p]
        if all(x is y for x, y in zip(ps, a.p)):
            return tm.mk({(a,): 1})
        return rebuild(a, ps)

    def cond(self, a, val, st):
        if a.k not in ("eq", "ult", "slt"):
            return a, val
        ps = [self.pathval(p, st) for p in a.p if isinstance(p, T)]
        if a.k == "eq":
            l = tm.eq(ps[0], ZERO)
        else:
            l = tm.ult(ps[0], ps[1]) if a.k == "ult" else tm.slt(ps[0], ps[1])
        if l in (True, False):
            return l, val
        return (l[0].atom() if isinstance(l[0], T) else l[0]), val == l[1]

    def on_assume(self, ev, st):
        a, val = ev.args
        if not isinstance(a, tm.Atom):
            return None
        if a.k == "sel":
            return None
        b, v = self.cond(a, val, st)
        if b in (True, False):
            return None if b == v else []
        if ("p", b, not v) in st:
            return []
        return st | {("p", b, v)}

    def on_edge(self, ev, st):
        b, d = ev.args
        if d not in self.fn.loops:
            return self.enter(b, d, st)
        return self.head(b, d, st)

    def head(self, b, d, st):
        """arrival at a loop's head: what changed since the last arrival becomes unknown"""
        body = self.fn.loops[d]
        cells = frozenset(f for f in st if f[0] == "c")
        old = self.get(st, "h", d) if b in body else None
        own = {x.id for y in body for x in self.fn.blocks[y]}

        def inner(t):
            return isinstance(t, T) and tm.contains(t, lambda z: z.k == "loop" and z.p[0] == d or isinstance(z.p[-1], int) and
                                                    z.k in ("call", "ld", "phi", "ev", "v") and z.p[-1] in own)
        if old is not None:
            new = set()
            for f in cells:
                new.add(f if f in old[2] else ("c", f[1], f[2], f[3], atom("loop", d, str(f[1:4]))))
            for f in old[2]:
                # forgotten in the loop
                if not any(g[1:4] == f[1:4] for g in new):
                    new.add(("c", f[1], f[2], f[3], atom("loop", d, str(f[1:4]))))
            cells = frozenset(new)
        rest = set()
        for f in st:
            if f[0] in ("c",) or f[:2] == ("h", d):
                continue
            if f[0] == "v" and b in body and isinstance(f[1].p[-1], int) and f[1].p[-1] in own:
                continue
            if f[0] == "p" and b in body and inner(tm.mk({(f[1],): 1})):
                continue
            rest.add(f)
        return frozenset(rest) | cells | {("h", d, cells)}

    def on_copy(self, ev, st):
        a = [self.pathval(t, st) for t in ev.args]
        if ev.qn.startswith("llvm.memset"):
            b, o = self.split(a[0])
            return self.filled(ev, self.drop(st, b, o, a[2]), a[0], a[2], a[1])
        return self.copied(ev, st, a[0], a[1], a[2])

    def on_call(self, ev, st):
        q = ev.qn
        a = [self.pathval(t, st) for t in ev.args]
        if q in ("memcpy", "memmove"):
            return self.copied(ev, st, a[0], a[1], a[2])
        return self.opaque(ev, st, q, a)

    def copied(self, ev, st, dst, src, n):
        b, o = self.split(dst)
        sb, so = self.split(src)
        new = set()
        if n.is_const:
            for f in st:
                if f[0] == "c" and f[1] == sb:
                    d = tm.sub(f[2], so)
                    if d.is_const and 0 <= sgn(d.const) and sgn(d.const) + f[3] <= n.const:
                        new.add(("c", b, tm.add(o, d), f[3], f[4]))
        return self.drop(st, b, o, n) | new

    def filled(self, ev, st, dst, n, v):
        return st

    def opaque(self, ev, st, q, a):
        return None

    # -- relations
    def facts(self, st):
        """linear forms known to be >= 0"""
        out = []
        for f in st:
            if f[0] == "p":
                out += lin(f[1], f[2])
            elif f[0] == "ge":
                out.append(f[1])
        for f in st:
            if f[0] == "p" and f[1].k == "eq" and not f[2]:
                out += [tm.sub(d, const(1)) for d in (f[1].p[0], tm.scale(f[1].p[0], -1)) if d in out]
        return out

    def cases(self, ts, st):
        """expand minima, maxima and selections in the terms: yields (terms, extra facts)"""
        for t in ts:
            a = next((z for z in atoms(t) if z.k in ("min", "max", "sel")), None)
            if a is not None:
                break
        else:
            yield ts, []
            return
        if a.k == "sel":
            l = tm.term_lit(a.p[0])
            c, pos = self.cond(l[0].atom(), l[1], st) if isinstance(l[0], T) else self.cond(l[0], l[1], st)
            alts = [(a.p[1], lin(c, pos) if c not in (True, False) else []),
                    (a.p[2], lin(c, not pos) if c not in (True, False) else [])]
        else:
            x, y = a.p[:2]
            g = tm.sub(y, x)
            alts = [(x, [g]), (y, [tm.scale(g, -1)])] if a.k == "min" else [(y, [g]), (x, [tm.scale(g, -1)])]
        for v, ex in alts:
            yield from self.cases([replace(t, a, v) for t in ts + ex], st)

    def nonneg(self, g, st, extra=()):
        """g >= 0 follows from the conditions of the path"""
        fs = self.facts(st) + list(extra)
        k = math.gcd(*(abs(sgn(c)) for c in g.m.values())) if g.m else 1
        if k > 1:
            g = T_of({m: sgn(c) // k for m, c in g.m.items()})
        for ts, ex in self.cases([g] + fs, st):
            h, known = ts[0], ts[1:] + ex
            more = [z for t in [h] + known for z in shifts(t)]
            # integers: 2g >= -1 is enough
            if not entails(h, known + more) and not (more and entails(tm.add(tm.scale(h, 2), const(1)), known + more)):
                return False
        return True

    def le(self, a, b, st):
        return a is not None and b is not None and self.nonneg(tm.sub(b, a), st)

    def same(self, a, b, st):
        if a is None or b is None:
            return False
        return a is b or self.le(a, b, st) and self.le(b, a, st)


def sgn(c):
    return c - (1 << 64) if c >= 1 << 63 else c


def T_of(d):
    out = ZERO
    for m, c in d.items():
        p = const(c)
        for a in m:
            p = tm.mul(p, tm.mk({(a,): 1}))
        out = tm.add(out, p)
    return out


def atoms(t):
    for m in t.m:
        for a in m:
            yield a


def replace(t, a, v):
    if not any(a in m for m in t.m):
        return t
    out = ZERO
    for m, c in t.m.items():
        p = const(c)
        for z in m:
            p = tm.mul(p, v if z is a else tm.mk({(z,): 1}))
        out = tm.add(out, p)
    return out


def rebuild(a, ps):
    k = a.k
    T_ = [p for p in ps if isinstance(p, T)]
    if k == "eq":
        return tm.lit_term(tm.eq(T_[0], ZERO))
    if k == "ult":
        return tm.lit_term(tm.ult(T_[0], T_[1]))
    if k == "slt":
        return tm.lit_term(tm.slt(T_[0], T_[1]))
    return atom(k, *ps, w=a.w)


def lin(a, val):
    """the linear forms that are >= 0 when the condition has this value"""
    if a.k == "eq":
        d = a.p[0]
        if val:
            return [d, tm.scale(d, -1)]
        if all(sgn(c) >= 0 for c in d.m.values()):
            return [tm.sub(d, const(1))]        # a sum of unsigned values that is not zero
        return []
    if a.k in ("ult", "slt"):
        d = tm.sub(a.p[1], a.p[0])
        return [tm.sub(d, const(1))] if val else [tm.scale(d, -1)]
    return []


def entails(g, fs):
    """g >= 0 follows from fs >= 0 and all atoms >= 0: some combination of them adds up to it.  Each step removes a term that counts
    against g with a fact that bounds it; at most DEPTH steps."""
    fs = [{m: sgn(c) for m, c in f.m.items()} for f in dict.fromkeys(fs)]
    fs = sorted((f for f in fs if any(c < 0 for c in f.values())), key=lambda f: (len(f), sorted((repr(m), c) for m, c in f.items())))
    # first for g itself, then for a contradiction of the facts (the case cannot happen): -1 >= 0
    return derive({m: sgn(c) for m, c in g.m.items()}, fs, DEPTH, [WORK]) or derive({(): -1}, fs, DEPTH, [WORK])


def derive(g, fs, depth, work):
    neg = sorted(((m, c) for m, c in g.items() if c < 0), key=lambda x: (x[0] == (), repr(x[0])))
    if not neg:
        return True
    work[0] -= 1
    if not depth or work[0] < 0:
        return False
    m, c = neg[0]
    for f in fs:
        k = f.get(m, 0)
        if k < 0:
            q = math.gcd(c, k)
            for x, y in dict.fromkeys([(-k // q, -c // q), (1, -(c // -k))]):       # exactly, or at least
                d = {n: v * x for n, v in g.items()}
                for n, v in f.items():
                    d[n] = d.get(n, 0) - v * y
                if derive({n: v for n, v in d.items() if v}, fs, depth - 1, work):
                    return True
    return False


def shifts(t):
    """what rounding down leaves: x - 2^k < 2^k * (x >> k) <= x"""
    out = []
    for a in tm.walk(t, set()):
        if a.k == "lshr" and isinstance(a.p[1], int):
            d = tm.sub(a.p[0], tm.scale(tm.mk({(a,): 1}), 1 << a.p[1]))
            out += [d, tm.sub(const((1 << a.p[1]) - 1), d)]
        elif a.k == "op" and a.p[0] == "udiv" and a.p[2].is_const and a.p[2].const:
            # q = x / c: c*q <= x <= c*q + c-1
            c = a.p[2].const
            d = tm.sub(a.p[1], tm.scale(tm.mk({(a,): 1}), c))
            out += [d, tm.sub(const(c - 1), d)]
        elif a.k == "and" and isinstance(a.p[0], T):
            for x, y in ((a.p[0], a.p[1]), (a.p[1], a.p[0])):
                if isinstance(y, T) and y.is_const:
                    low = ~y.const & ((1 << 64) - 1)
                    if low & (low + 1) == 0:
                        d = tm.sub(x, tm.mk({(a,): 1}))
                        out += [d, tm.sub(const(low), d)]
    return out


def pos(t):
    return all(sgn(c) >= 0 for c in t.m.values())


def component(L, name, driver="comp"):
    """the root of a driver function vp::m_<name>"""
    lib = L[driver]
    k = ("component", name)
    if k not in lib.cache:
        lib.cache[k] = Root(lib, "m_" + name, lib.fn(r"(^|[ *&])vp::m_" + name + r"\("))
    return lib.cache[k]
