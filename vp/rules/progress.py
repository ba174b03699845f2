"""C44: what the long operations report as progress.  The last amount reported is bounded from above by terms over the present
values of the variables; a report is accepted if one of those bounds is not above the new amount."""
from itertools import combinations
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import split_ptr
from .common import *
from .commit import need

TERMS = {}


def keep(t):
    TERMS[t.id] = t
    return t.id


def deep(t, seen=None):
    """ids of all atoms in a term"""
    seen = set() if seen is None else seen
    for mono in t.m:
        for a in mono:
            if a.id not in seen:
                seen.add(a.id)
                for p in a.p:
                    if isinstance(p, T):
                        deep(p, seen)
    return seen


class Progress(MidAut):
    wants_edges = True

    def setup(self):
        fn, vn = self.fn, self.vn
        self.memo = {}
        looped = set().union(*fn.loops.values()) if fn.loops else set()
        self.single, self.moving = {}, set()
        n = {}
        for b in fn.rpo:
            if b in fn.dead:
                continue
            for x in fn.blocks[b]:
                if x.op == "store" and vn.memat.get(x.id) is not None:
                    p = vn.memat[x.id]
                    n.setdefault(p.id, []).append(x)
                    if b in looped:
                        self.moving.add(p.id)
        for p, s in n.items():
            if len(s) == 1 and p not in self.moving:
                self.single[p] = vn.op(s[0].j["a"][0])
        self.off = {}               # call atom of a reader's offset() -> reader
        for i, o in self.ops.items():
            if o.k == "roffset" and vn.t.get(i) is not None:
                self.off[vn.t[i].atom().id] = o.a[0]
        self.amounts = []
        for x, q, a in self.root.calls():
            if q == "vp::progress::operator()":
                self.amounts.append(self.split(self.canon(a[1]), self.canon(a[2]))[0])
        self.inamount = set().union(*(deep(t) for t in self.amounts)) if self.amounts else set()
        # the phis amounts are made of, by way of other phis as well
        ph = {vn.t[x.id].atom().id: x for b in fn.rpo for x in fn.blocks[b]
              if x.op == "phi" and vn.t.get(x.id) is not None and vn.t[x.id].atom() is not None and vn.t[x.id].atom().p[-1] == x.id}
        todo, self.feeding = list(self.inamount), set()
        while todo:
            i = todo.pop()
            if i in ph and i not in self.feeding:
                self.feeding.add(i)
                for p, v in ph[i].j["in"]:
                    y = vn.op(v)
                    if y is not None:
                        todo += deep(self.canon(y))
        self.done = {}

    # --- terms
    def canon(self, t):
        """with members that do not change during the operation read as one value"""
        return self.rebuild(t, self.leaf, self.memo)

    def leaf(self, a):
        if a.k == "ld" and isinstance(a.p[0], T):
            b, o = split_ptr(a.p[0])
            if b is not None and b.k in ("alloca", "arg") and o.is_const and a.p[0].id not in self.moving:
                s = self.single.get(a.p[0].id)
                if s is not None and s.atom() is not None and s.atom().k == "call":
                    return s
                return atom("member", a.p[0])
        return None

    def rebuild(self, t, f, memo):
        if t.id in memo:
            return memo[t.id]
        memo[t.id] = t
        out = const(0)
        for mono, c in t.m.items():
            m = const(c)
            for a in mono:
                m = tm.mul(m, self.atomof(a, f, memo))
            out = tm.add(out, m)
        memo[t.id] = out
        return out

    def atomof(self, a, f, memo):
        r = f(a)
        if r is not None:
            return r
        p = tuple(self.rebuild(q, f, memo) if isinstance(q, T) else q for q in a.p)
        if a.k in ("min", "max"):
            p = tuple(sorted(p, key=lambda q: q.id if isinstance(q, T) else -1))
        if p == a.p:
            return tm.mk({(a,): 1})
        r = atom(a.k, *p, w=a.w)
        return self.udiv(r, p) if a.k == "op" and p[0] == "udiv" else r

    def udiv(self, r, p):
        """(x + c) / c = x / c + 1"""
        x, c = p[1], p[2]
        if all(x.m.get(m, 0) >= k for m, k in c.m.items()) and c.m:
            return tm.add(self.udiv(atom("op", "udiv", tm.sub(x, c), c), ("udiv", tm.sub(x, c), c)), const(1))
        return r

    def subst(self, t, d):
        return self.rebuild(t, lambda a: d.get(a.id), {})

    def split(self, x, q):
        """(amount, whether it is limited to the total)"""
        a = x.atom()
        if a is not None and a.k == "min" and len(a.p) == 2 and q in a.p:
            return (a.p[0] if a.p[1] is q else a.p[1]), True
        return x, False

    def estimate(self, q):
        """the total went through floating point numbers"""
        for mono in q.m:
            for a in mono:
                if a.k == "op" and a.p[0] in ("fptoui", "fptosi"):
                    return True
                if a.k in ("min", "max") and any(self.estimate(p) for p in a.p if isinstance(p, T)):
                    return True
        return False

    # --- order
    def nonneg(self, d, st):
        neg = [(m, c) for m, c in d.m.items() if c < 0]
        if not neg:
            return True
        pos = {m: c for m, c in d.m.items() if c > 0}
        for m, c in neg:
            if not self.pay(m, -c, pos, st):
                return False
        return True

    def pay(self, m, c, pos, st):
        """a monomial with a greater value is there as often"""
        for n, k in list(pos.items()):
            if k < c or len(n) != len(m):
                continue
            l, r = list(m), list(n)
            for a in list(l):
                if a in r:
                    l.remove(a)
                    r.remove(a)
            if len(l) == 1 and len(r) == 1 and self.ge(tm.mk({(r[0],): 1}), l[0], st):
                pos[n] = k - c
                return True
        return False

    def ge(self, y, a, st):
        if ("lt", a.id, y.id) in st:
            return True
        z = y.atom()
        if z is not None and z.k == "min":
            return all(self.ge(p, a, st) for p in z.p)
        if z is not None and z.k == "max":
            return any(self.ge(p, a, st) for p in z.p)
        if z is not None and z.k == "sel":
            return all(self.ge(p, a, st) for p in z.p[1:] if isinstance(p, T))
        if z is not None and z.k == "phi":
            x = self.fn.ins.get(z.p[-1])
            if x is not None and x.op == "phi" and x.bb not in self.fn.loops:
                return all(self.ge(self.canon(self.vn.op(v)), a, st) for p, v in x.j["in"])
        d = tm.sub(y, tm.mk({(a,): 1}))
        return all(c >= 0 for c in d.m.values())

    def certs(self, st):
        return [TERMS[f[1]] for f in st if isinstance(f, tuple) and f[0] == "le"]

    def readers(self, st):
        return {f[1]: f[2] for f in st if isinstance(f, tuple) and f[0] == "rd"}

    def widen(self, ts, st):
        """bounds that follow: what was read from a reader is not past its present position, nor that past its end"""
        rd = self.readers(st)
        out = set(ts)
        for t in ts:
            d = {}
            for i in deep(t):
                if i in self.off and self.off[i].id in rd:
                    d[i] = atom("off", self.off[i])
            u = self.subst(t, d) if d else t
            out.add(u)
            e = {}
            for r, last in rd.items():
                o = atom("off", TERMS[r]).atom()
                if o.id in deep(u):
                    e[o.id] = TERMS[last]
            if e:
                out.add(self.subst(u, e))
        return frozenset(("le", keep(t)) for t in out)

    def drop(self, st, ids):
        return frozenset(f for f in st if not (isinstance(f, tuple) and (f[0] == "le" and deep(TERMS[f[1]]) & ids or
                                                                        f[0] == "cle" and (f[1] in ids or deep(TERMS[f[3]]) & ids) or
                                                                        f[0] == "lt" and (f[1] in ids or deep(TERMS[f[2]]) & ids))))

    # --- events
    def on_call(self, ev, op, st):
        if ev.qn == "vp::progress::operator()":
            return self.report_(ev, st)
        if op is None:
            return None
        if op.k == "rctor":
            o = atom("off", op.a[0]).atom()
            st = self.drop(st, {o.id})
            st = frozenset(f for f in st if not (isinstance(f, tuple) and f[0] == "rd" and f[1] == op.a[0].id))
            return st | {("rd", keep(op.a[0]), keep(self.canon(op.a[3])))}
        if op.k == "roffset":
            v = self.vn.t[ev.ins.id].atom()
            o = atom("off", op.a[0]).atom()
            st = self.drop(st, {v.id})
            new = {self.subst(t, {o.id: tm.mk({(v,): 1})}) for t in self.certs(st) if o.id in deep(t)}
            return st | frozenset(("le", keep(t)) for t in new)
        return None

    def report_(self, ev, st):
        q = self.canon(ev.args[2])
        x, limited = self.split(self.canon(ev.args[1]), q)
        tot = [f for f in st if isinstance(f, tuple) and f[0] == "total"]
        self.oblige("reports refer to one total", ev)
        if tot and tot[0][1] != q.id:
            self.report(ev, "the total differs from the one reported before")
        le = self.certs(st)
        if not tot:
            self.oblige("progress starts at zero", ev)
            if not (x.is_const and x.const == 0):
                self.report(ev, "the first report is not that nothing was done yet")
        else:
            self.oblige("progress does not go back", ev)
            ok = any(self.nonneg(tm.sub(x, t), st) for t in le)
            if limited and "loose" in st:
                ok = False
            if not ok:
                self.report(ev, "the amount of work reported may be less than reported before")
        if self.estimate(q):
            self.oblige("amount limited to an estimated total", ev)
            if not limited and not (x.is_const and x.const == 0):
                self.report(ev, "the amount of work reported may exceed the total, which is an estimate")
        st = frozenset(f for f in st if f != "loose" and not (isinstance(f, tuple) and f[0] in ("le", "cle", "total")))
        if not limited and not (x.is_const and x.const == 0):
            st = st | {"loose"}
        return st | {("total", keep(q))} | self.widen({x}, st)

    def on_assume(self, ev, st):
        a, val = ev.args
        if isinstance(a, tm.Atom) and a.k == "ult":
            x, y = (a.p[0], a.p[1]) if val else (a.p[1], a.p[0])
            z = x.atom()
            if z is not None and z.k == "phi" and z.id in self.inamount:
                y = self.canon(y)
                met = frozenset(("le", f[3]) for f in st if isinstance(f, tuple) and f[0] == "cle" and f[1] == z.id and f[2] == y.id)
                return frozenset(f for f in st if not (isinstance(f, tuple) and f[0] == "cle" and f[1] == z.id)) | met | {("lt", z.id, keep(y))}
        return None

    def on_edge(self, ev, st):
        b, d = ev.args
        vn = self.vn
        new = {}
        for x in self.fn.blocks[d]:
            if x.op != "phi":
                break
            t = vn.t.get(x.id)
            if t is None or t.atom() is None or t.atom().k != "phi" or t.atom().p[-1] != x.id:
                continue
            for p, v in x.j["in"]:
                if p == b:
                    y = vn.op(v)
                    if y is not None:
                        new[t.atom().id] = self.settled(self.canon(y), t)
        if not new:
            return None
        le = self.certs(st)
        if not le:
            return self.drop(st, set(new))
        key = (b, d, st)
        if key in self.done:
            return self.done[key]
        r = self.done[key] = self.passed(new, le, st)
        return r

    def settled(self, y, t):
        """without the case that the operation failed and nothing more is done: the variable was left as it is"""
        a = y.atom()
        if a is not None and a.k == "sel":
            alt = [p for p in a.p if isinstance(p, T)]
            c = alt[0].atom() if len(alt) == 3 else None
            x = self.fn.ins.get(c.p[-1]) if c is not None and c.k == "call" else None
            old = [p for p in alt[1:] if p.atom() is not None and p.atom().k == "phi"]
            if len(alt) == 3 and len(old) == 1 and x is not None and "error_code" in (x.j.get("qn") or ""):
                return alt[2] if alt[1] is old[0] else alt[1]
        return y

    def passed(self, new, le, st):
        one = {i: tm.mk({(a,): 1}) for i in new if i in self.feeding for a in self.byid(i)}
        cand = set(one.values())
        for i, y in new.items():
            a = y.atom()
            for z in (y,) + (a.p if a is not None and a.k == "min" else ()):
                for m, c in z.m.items():
                    if i in one and len(m) == 1 and c >= 1:
                        cand |= {self.subst(t, {m[0].id: one[i]}) for t in le if m[0].id in deep(t)}
        for t in self.amounts:
            ms = list(t.m.items())
            for n in range(1, min(len(ms), 4) + 1):
                for c in combinations(ms, n):
                    s = tm.mk(dict(c))
                    if deep(s) & set(new):
                        cand.add(s)
                    for i in one:
                        cand |= {self.subst(s, {a: one[i]}) for a in deep(s) & self.feeding if a != i and a in deep(new[i])}
        add = {k for k in cand if any(self.nonneg(tm.sub(self.subst(k, new), t), st) for t in le)}
        out = self.drop(st, set(new)) | frozenset(("le", keep(t)) for t in add)
        # a variable limited to some value: the limit was not reached if it is found to be less later
        for i, y in new.items():
            a = y.atom()
            if a is not None and a.k == "phi":
                out |= frozenset(("cle", i, f[2], keep(self.subst(TERMS[f[3]], {a.id: one[i]}))) for f in st
                                 if isinstance(f, tuple) and f[0] == "cle" and f[1] == a.id and i in one)
            if i in one and a is not None and a.k == "min" and len(a.p) == 2:
                for w, lim in (a.p, a.p[::-1]):
                    d = {**new, i: w}
                    out |= frozenset(("cle", i, keep(lim), keep(k)) for k in cand - add
                                     if any(self.nonneg(tm.sub(self.subst(k, d), t), st) for t in le))
        return out

    def byid(self, i):
        if not hasattr(self, "_ph"):
            self._ph = {}
            for b in self.fn.rpo:
                for x in self.fn.blocks[b]:
                    t = self.vn.t.get(x.id) if x.op == "phi" else None
                    if t is not None and t.atom() is not None:
                        self._ph[t.atom().id] = t.atom()
        return [self._ph[i]] if i in self._ph else []


@rule("C44")
def progress_reports(res, L):
    for r in ("visit", "verify", "rekey"):
        root = L["mid"].root(r)
        aut = Progress()
        aut.prop = "C44"
        run(res, "progress_reports", root, aut)
        for ob in ("progress starts at zero", "progress does not go back", "reports refer to one total"):
            need(res, "progress_reports", root, aut, ob, f"not found in {r}: {ob}")
