"""C45: the table grows with its load, one bucket at a time"""
from .common import *
from .records import Records, ROOTS
from .opening import Installed, Names, Geometry
from ..ir import split_ptr, AnchorError
from .. import terms as tm
from .commit import need, Caches, pmap_off

UNIT = 65536      # one element, in the fixed point of the load factor
MANY = 4


def facts(st, k):
    return [f for f in st if isinstance(f, tuple) and f[0] == k]


class Growth(MidAut):
    """the load is tracked as (elements added, thresholds taken away) since the last element was dealt with: in the
    store's own field, in what was read of it, and in any local copy of it"""
    wants_loads = True
    wants_edges = True
    it = Records.it

    def setup(self):
        L = self.L
        self.fe = Foreach(self.root)
        self.map0 = tm.add(L.this("p0"), const(pmap_off(L)))
        self.pool = {i: v for i, v in self.fe.loops.items() if v[0] is self.map0}
        self.heads = {v[2] for v in self.pool.values()}
        self.ca = Caches(self.root)
        self.F, self.T = L.this("frac_"), L.this("thresh_")
        self.locals()

    def locals(self):
        """local copies of the load: values merged from what was read of it"""
        fn, vn = self.fn, self.vn
        self.web = {}
        phis = {}
        for b in fn.rpo:
            for x in fn.blocks[b]:
                if x.op == "phi":
                    t = vn.t.get(x.id)
                    a = t.atom() if t is not None else None
                    if a is not None and a.k == "phi":
                        phis[a.id] = (x, [(p, vn.op(v)) for p, v in x.j["in"] if p not in fn.dead and p in fn.rpon])
        ch = True
        while ch:
            ch = False
            for i, (x, ins) in phis.items():
                if i not in self.web and any(self.rooted(v) for p, v in ins):
                    self.web[i] = (x, ins)
                    ch = True
        self.phiblock = {}
        for i, (x, ins) in self.web.items():
            self.phiblock.setdefault(self.blockof(x), []).append((i, ins))

    def blockof(self, x):
        for b in self.fn.rpo:
            if x in self.fn.blocks[b]:
                return b

    def rooted(self, v):
        for mono, c in v.m.items():
            if len(mono) != 1:
                continue
            a = mono[0]
            if a.k == "ld" and a.p[0] is self.F or a.id in self.web:
                return True
            if a.k == "sel" and any(isinstance(p, T) and self.rooted(p) for p in a.p[1:]):
                return True
        return False

    # ---- values
    def base(self, a, st):
        """(added, taken) a read or local copy of the load stands for"""
        if a.k == "ld" and a.p[0] is self.F:
            r = [f[2:] for f in facts(st, "ld") if f[1] == a.p[1]]
        elif a.id in self.web:
            r = [f[2:] for f in facts(st, "ph") if f[1] == a.id]
        else:
            return None
        return r[0] if len(r) == 1 else None

    def count(self, v, st):
        n = d = 0
        got = None
        for mono, c in v.m.items():
            if not mono:
                c = c - (1 << 64) if c >= 1 << 63 else c
                if c % UNIT:
                    return None
                n += c // UNIT
                continue
            if len(mono) != 1:
                return None
            a = mono[0]
            if a.k == "ld" and a.p[0] is self.T:
                c = c - (1 << 64) if c >= 1 << 63 else c
                d -= c
                continue
            if c != 1 or got is not None:
                return None
            got = self.base(a, st)
            if got is None:
                return None
        if got is None:
            return None
        r = (got[0] + n, got[1] + d)
        return r if max(abs(z) for z in r) <= MANY else None

    def cases(self, v, st):
        """[(value without choices, state)]"""
        for mono, c in v.m.items():
            if len(mono) == 1 and mono[0].k == "sel" and c == 1:
                a = mono[0]
                if not (isinstance(a.p[1], T) and isinstance(a.p[2], T)):
                    return [(v, st)]
                c, pos = a.p[0], True
                if isinstance(c, T):
                    l = tm.term_lit(c)
                    if l is True or l is False:
                        return [(v, st)]
                    c, pos = (l[0].atom() if isinstance(l[0], T) else l[0]), l[1]
                if c is None:
                    return [(v, st)]
                rest = tm.sub(v, tm.mk({mono: 1}))
                out = []
                for val in (True, False):
                    s = self.compared(c, val == pos, st)
                    if s is not None:
                        out += self.cases(tm.add(rest, a.p[1] if val else a.p[2]), s)
                return out
        return [(v, st)]

    def compared(self, a, val, st):
        """state in which the comparison came out as val; None if it came out the other way"""
        if a.k not in ("ult", "ule", "slt", "sle") or len(a.p) < 2 or not isinstance(a.p[0], T) or not isinstance(a.p[1], T):
            return st
        l, r = a.p[0], a.p[1]
        if is_ld(r, self.T):
            n, big = self.count(l, st), not val
        elif is_ld(l, self.T):
            n, big = self.count(r, st), val
        else:
            return st
        if n is None:
            return st
        if ("cmp",) + n + (not big,) in st:
            return None
        return st | {("cmp",) + n + (big,)}

    # ---- events
    def on_load(self, ev, st):
        if ev.args[0] is not self.F:
            return None
        cur = facts(st, "cur")
        st = frozenset(f for f in st if not (isinstance(f, tuple) and f[0] == "ld" and f[1] == ev.ins.id))
        c = cur[0][1:] if cur else (0, 0)
        return st | {("ld", ev.ins.id) + c}

    def on_store(self, ev, st):
        ptr, val = ev.args
        if ptr is self.T and "taken" in st:
            self.report(ev, "the split threshold changes during a commit")
            return None
        if ptr is not self.F or "taken" not in st:
            return None
        out = []
        for v, s in self.cases(val, st):
            n = self.count(v, s)
            self.oblige("load changed by whole elements and thresholds only", ev)
            if n is None:
                self.report(ev, "the load is set to something other than its last value and the elements added since")
                n = (0, 0)
            out.append(frozenset(f for f in s if not (isinstance(f, tuple) and f[0] == "cur")) | {("cur",) + n})
        return out

    def on_edge(self, ev, st):
        b, d = ev.args
        ps = self.phiblock.get(d)
        if not ps:
            return None
        outs = [(st, {})]
        for i, ins in ps:
            v = next((v for p, v in ins if p == b), None)
            if v is None:
                continue
            nxt = []
            for s, up in outs:
                for w, s2 in self.cases(v, s):
                    u = dict(up)
                    u[i] = self.count(w, s2)
                    nxt.append((s2, u))
            outs = nxt
        res = []
        for s, up in outs:
            s = frozenset(f for f in s if not (isinstance(f, tuple) and f[0] == "ph" and f[1] in up))
            s |= {("ph", i) + n for i, n in up.items() if n is not None}
            if d in self.heads and b not in self.fn.loops[d]:
                s |= {("lv", d) + tuple(sorted(i for i in up))}
            res.append(s)
        return res

    def on_call(self, ev, op, st):
        if op is None:
            return None
        k = op.k
        if k == "swap" and len(op.a) == 2 and {op.a[0].id, op.a[1].id} == {self.L.this("p0").id, self.L.this("p1").id}:
            return frozenset({"taken", ("cur", 0, 0)})
        if op.mutates == "kf" and "taken" in st:
            self.oblige("load kept for the next commit", ev)
            if ("cur", 0, 0) not in st:
                self.report(ev, "the load of the elements entered is not kept for the next commit")
            return st - {"taken"}
        if k == "ccreate" and "elem" in st:
            which = op.a[1]
            if which is self.ca.pub:
                self.oblige("bucket added when the load reached the threshold", ev)
                if "split" in st:
                    self.report(ev, "more than one bucket is added for one element")
                if ("cmp", 1, 0, True) not in st:
                    self.report(ev, "a bucket is added although the load, with the element that is entered, was not found to reach the "
                                "threshold")
                return st | {"split"}
        if k == "binsert" and "elem" in st and all(z is not None for z in
                                                   (self.it(op.a[1], 64), self.it(op.a[2], 40), self.it(op.a[3], 32))):
            return st | {"idx"}
        return None

    def on_assume(self, ev, st):
        a, val = ev.args
        if isinstance(a, tm.Atom):
            s = self.compared(a, val, st)
            if s is None:
                return []
            if s is not st:
                return s
        r = self.fe.test(a, val)
        if r is None or r[0] is not self.map0:
            return None
        h = self.fe.loops[r[1].atom().id][2]
        if "idx" in st:
            self.element(ev, st, h)
        # what comes next starts from here
        st2 = frozenset(f for f in st if f not in ("elem", "idx", "split") and not (isinstance(f, tuple) and f[0] == "cmp"))
        if "idx" in st or "split" in st:
            n = self.now(st, h)
            if n is not None:
                st2 = frozenset((f[:-2] + (f[-2] - n[0], f[-1] - n[1])) if isinstance(f, tuple) and f[0] in ("cur", "ld", "ph") else f
                                for f in st2)
                st2 = frozenset(f for f in st2 if not (isinstance(f, tuple) and f[0] in ("ld", "ph", "cur") and
                                                       max(abs(f[-1]), abs(f[-2])) > MANY))
        return st2 if r[2] else st2 | {"elem"}

    def now(self, st, h):
        """the load as the next element finds it: the local copy carried around the loop, or the store's field"""
        for i, ins in self.phiblock.get(h, ()):
            r = [f[2:] for f in facts(st, "ph") if f[1] == i]
            return r[0] if r else None
        r = facts(st, "cur")
        return r[0][1:] if r else None

    def element(self, ev, st, h):
        n = self.now(st, h)
        self.oblige("every element entered counts once towards the load", ev)
        if n is None:
            self.report(ev, "the load is not known after an element is entered: it is not its last value and the elements added since")
            return
        if n[0] != 1:
            self.report(ev, "an element entered in a bucket does not count once towards the load")
        self.oblige("one threshold taken away per bucket added", ev)
        if "split" in st and n[1] != 1:
            self.report(ev, "the threshold is not taken away once from the load when a bucket is added")
        if "split" not in st and n[1] != 0:
            self.report(ev, "the threshold is taken away from the load although no bucket is added")
        if "split" not in st and ("cmp", 1, 0, False) not in st:
            self.report(ev, "no bucket is added although the load was not found below the threshold")


@rule("C45")
def growth(res, L):
    for r in ROOTS:
        root = L["mid"].root(r)
        aut = Growth()
        run(res, "growth", root, aut)
        for ob in ("every element entered counts once towards the load", "one threshold taken away per bucket added",
                   "bucket added when the load reached the threshold"):
            need(res, "growth", root, aut, ob, f"not found in the commit: {ob}")


# ------------------------------------------------------------------------------- what the load is measured against
CONV = ("fpext", "fptrunc", "uitofp", "sitofp")
ROUND = ("ceil", "floor", "round", "rint", "nearbyint", "trunc", "roundeven", "lround", "lrint")


class Floats:
    """products and quotients of floating point values, as a coefficient and powers of what is not one"""

    def __init__(self, vn):
        self.vn = vn
        self.phi = {}
        for b in vn.fn.rpo:
            for x in vn.fn.blocks[b]:
                if x.op == "phi":
                    t = vn.t.get(x.id)
                    a = t.atom() if t is not None else None
                    if a is not None:
                        self.phi[a.id] = x

    def inputs(self, a):
        x = self.phi.get(a.id)
        fn = self.vn.fn
        return None if x is None else [self.vn.op(v) for p, v in x.j["in"] if p not in fn.dead and p in fn.rpon]

    def mono(self, t):
        a = t.atom() if isinstance(t, T) else None
        if isinstance(t, T) and t.is_const:
            return float(t.const), {}
        if a is None:
            return 1.0, {t.id: 1}
        if a.k == "fp":
            try:
                return float(a.p[0]), {}
            except (TypeError, ValueError):
                return None
        if a.k == "op" and a.p[0] in CONV:
            return self.mono(a.p[1])
        if a.k == "op" and a.p[0] in ("fmul", "fdiv"):
            x, y = self.mono(a.p[1]), self.mono(a.p[2])
            if x is None or y is None:
                return None
            s = 1 if a.p[0] == "fmul" else -1
            if s < 0 and y[0] == 0:
                return None
            m = dict(x[1])
            for k, p in y[1].items():
                m[k] = m.get(k, 0) + s * p
                if not m[k]:
                    del m[k]
            return (x[0] * y[0] if s > 0 else x[0] / y[0]), m
        return 1.0, {t.id: 1}

    def unround(self, t):
        """(what is rounded, by what)"""
        by = set()
        while isinstance(t, T):
            a = t.atom()
            if a is not None and a.k == "intr" and any(r in str(a.p[0]) for r in ROUND) and isinstance(a.p[1], T):
                by.add(next(r for r in ROUND if r in str(a.p[0])))
                t = a.p[1]
            elif a is not None and a.k == "op" and a.p[0] in ("fpext", "fptrunc", "fptoui", "fptosi"):
                t = a.p[1]
            else:
                return t, by
        return t, by

    def leaves(self, t, depth=8):
        """(values an integer may take, constants it is limited to): through minima, maxima, choices and merges"""
        a = t.atom()
        if t.is_const:
            return [], [t.const]
        if a is None or not depth:
            return [t], []
        parts = None
        if a.k in ("max", "min"):
            parts = [p for p in a.p if isinstance(p, T)]
        elif a.k == "sel":
            parts = [p for p in a.p[1:] if isinstance(p, T)]
        elif a.k == "phi":
            parts = self.inputs(a)
        elif a.k == "op" and a.p[0] in ("zext", "trunc", "and") and isinstance(a.p[1], T):
            parts = [a.p[1]]
        if not parts:
            return [t], []
        v, c = [], []
        for p in parts:
            x, y = self.leaves(p, depth - 1)
            v += x
            c += y
        return v, c

    def mentions(self, t, u):
        return u.atom() in set(tm.walk(t)) if isinstance(t, T) else False


def same(m, coef, powers):
    return m is not None and abs(m[0] - coef) <= 1e-6 * abs(coef) and m[1] == powers


def factor_recorded(res, root, lf):
    """the load factor in the key file header is the one asked for, in 1/65536"""
    vn = root.vn
    fl = Floats(vn)
    found = 0
    for b in root.fn.rpo:
        for x in root.fn.blocks[b]:
            if x.op != "store":
                continue
            v = vn.op(x.j["a"][0])
            a = v.atom() if v is not None else None
            if a is None or a.k != "byte" or not isinstance(a.p[0], T) or not fl.mentions(a.p[0], lf):
                continue
            val, con = fl.leaves(a.p[0])
            found += 1
            res.oblige("load factor recorded as asked for", root.fn.where(x))
            ok = bool(val) and all(1 <= c <= 65535 for c in con)
            for z in val:
                y, by = fl.unround(z)
                if not same(fl.mono(y), 65536.0, {lf.id: 1}):
                    ok = False
            if not ok:
                res.at("growth_parameters", root.fn, x, "the load factor recorded is not the one asked for, in units of 1/65536")
    if not found:
        res.fail("growth_parameters", root.fn.dem.split("(")[0], root.name, f"{root.name} records no load factor that depends on the one "
                 "asked for")


def buckets_needed(res, root, lf, items, bs):
    """the number of buckets of a new key file: the items over load factor times capacity, rounded up, at least one"""
    vn = root.vn
    fl = Floats(vn)

    def cap(t):
        a = t.atom()
        if a is None:
            return False
        if a.k == "phi":
            return all((z.is_const and z.const == 0) or cap(z) for z in fl.inputs(a) or [a])
        if a.k == "sel":
            return all((z.is_const and z.const == 0) or cap(z) for z in a.p[1:])
        return a.k == "op" and a.p[0] == "udiv" and a.p[1] is tm.sub(bs, const(8)) and a.p[2] is const(18)

    found = 0
    for x, q, a in root.calls():
        if short(q) != "ceil_pow2":
            continue
        found += 1
        res.oblige("buckets for the items at the load asked for", root.fn.where(x))
        val, con = fl.leaves(a[0])
        ok = bool(val) and con == [1] * len(con) and len(con) >= 1
        for z in val:
            y, by = fl.unround(z)
            m = fl.mono(y)
            if m is None or by != {"ceil"}:
                ok = False
                continue
            rest = {k: p for k, p in m[1].items() if k not in (items.id, lf.id)}
            good = abs(m[0] - 1.0) < 1e-9 and m[1].get(items.id) == 1 and m[1].get(lf.id) == -1 and list(rest.values()) == [-1]
            if not good or not cap(TERMOF(vn, next(iter(rest)))):
                ok = False
        if not ok:
            res.at("growth_parameters", root.fn, x, "a new key file does not have the number of buckets that holds the items at the "
                        "load factor asked for")
    if not found:
        res.fail("growth_parameters", root.fn.dem.split("(")[0], root.name, "the number of buckets of the new key file is not determined")


def TERMOF(vn, i):
    for t in vn.t.values():
        if t is not None and t is not True and t is not False and t.id == i:
            return t
    return const(0)


@rule("C45")
def growth_parameters(res, L):
    root = L["mid"].root("create")
    root2 = L["mid"].root("rekey")
    factor_recorded(res, root, atom("arg", 8))
    factor_recorded(res, root2, atom("arg", 4))
    buckets_needed(res, root2, atom("arg", 4), atom("arg", 5), atom("arg", 3))


class Measured(Installed):
    """what the load is compared with, and where it starts, in a store that was opened"""

    def check(self, x):
        L = self.L
        self.res.oblige("threshold of an open store", self.fn.where(x))

        def bad(m):
            self.res.at("growth_threshold", self.fn, x, m, key=m)

        t = self.at(x, L.o("thresh_"), 8)
        if t is None or not self.split(t):
            bad("the split threshold of an open store is not the recorded load factor times the capacity of a bucket")
            return
        a = t.atom()
        if a is None or a.k != "max" or not any(p.is_const and p.const >= UNIT for p in a.p if isinstance(p, T)):
            bad("the split threshold of an open store may be less than one element")
        f = self.at(x, L.o("frac_"), 8)
        if f is None:
            bad("the load of an open store is not set")
        elif f.is_const and f.const >= UNIT or t.atom() is not None and any(t.atom() in m and len(m) == 1 and 1 <= c < 1 << 63
                                                                             for m, c in f.m.items()):
            bad("the load of a store that was just opened is not below the threshold")


@rule("C45")
def growth_threshold(res, L):
    root = L["mid"].root("open")
    names = Names(root)
    own = Result()
    g = Geometry(own, root, names, "geometry")
    if not g.check():
        raise AnchorError("open does not read a key file header")
    i = Measured(res, root, names, g, "growth_threshold")
    n = 0
    for x, q, a in root.calls(lambda q: q == "nudb::context::insert"):
        i.check(x)
        n += 1
    if not n:
        raise AnchorError("open does not register the store")
