"""What open requires of the three files, and the geometry taken from the headers (mid-level module): C18."""
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import AnchorError, split_ptr
from ..flow import ec_params
from .common import *
from .commit import need
from .creation import edge_facts
from .headers import Names, Known
from .loops import div_exact

HEADER = 104            # bytes of the key file header, part of the documented format
BUCKET = 8              # bytes of a bucket's own header: count and spill
ENTRY = 18              # bytes of a bucket entry: offset, size, hash


def flat(facts):
    """[(atom, value)] with negations and conjunctions resolved"""
    out, todo = [], list(facts)
    while todo:
        a, v = todo.pop()
        if a.k == "not":
            b = a.p[0].atom()
            if b is not None:
                todo.append((b, not v))
        elif a.k == "band" and v:
            for t in a.p:
                l = tm.term_lit(t)
                if l not in (True, False) and l[0].atom() is not None:
                    todo.append((l[0].atom(), l[1]))
        else:
            out.append((a, v))
    return out


def cases(fn, vn, t, facts=(), seen=()):
    """[(term, facts)]: the values a term takes, each with conditions it is taken under"""
    a = t.atom()
    if a is not None and a.k == "sel":
        c = tm.term_lit(a.p[0])
        ca = c[0].atom() if c not in (True, False) else None
        out = []
        for p, pos in ((a.p[1], True), (a.p[2], False)):
            out += cases(fn, vn, p, tuple(facts) + (((ca, pos == c[1]),) if ca is not None else ()), seen)
        return out
    x = fn.ins.get(a.p[-1]) if a is not None and a.k == "phi" and isinstance(a.p[-1], int) else None
    if x is None or x.bb in fn.loops or x.id in seen:
        return [(t, facts)]
    out = []
    for p, v in x.j["in"]:
        if p in fn.rpon and p not in fn.dead and v["k"] != "undef":
            out += cases(fn, vn, vn.op(v), tuple(facts) + tuple(edge_facts(fn, vn, p, x.bb)), seen + (x.id,))
    return out


def block_facts(fn, vn, b):
    """conditions that hold in block b"""
    ps = set(fn.pred[b])
    return tuple(edge_facts(fn, vn, next(iter(ps)), b)) if len(ps) == 1 else ()


FULL = ((0, 1 << 64),)


def meet(x, y):
    return tuple((max(a, c), min(b, d)) for a, b in x for c, d in y if max(a, c) < min(b, d))


def minus(x):
    out, p = [], 0
    for a, b in sorted(x):
        if a > p:
            out.append((p, a))
        p = max(p, b)
    if p < 1 << 64:
        out.append((p, 1 << 64))
    return tuple(out)


def where(a, val, v, outer=True):
    """the values of v (half-open intervals) for which condition a has the truth value val; unknown conditions give all (outer) or none"""
    unk = FULL if outer else ()
    if a.k == "not":
        b = a.p[0].atom()
        return where(b, not val, v, outer) if b is not None else unk
    if a.k == "band":
        ls = [tm.term_lit(t) for t in a.p]
        if any(l in (True, False) or l[0].atom() is None for l in ls):
            return unk
        if val:
            return meet(*[where(l[0].atom(), l[1], v, outer) for l in ls])
        return minus(meet(*[where(l[0].atom(), l[1], v, not outer) for l in ls]))
    if a.k == "ult":
        x, y = a.p
        if x is v and y.is_const:
            s = ((0, y.const),) if y.const else ()
            return s if val else minus(s)
        if y is v and x.is_const:
            s = ((x.const + 1, 1 << 64),)
            return s if val else minus(s)
        return unk
    if a.k == "eq":
        d = a.p[0]
        for sg in (1, -1):
            r = tm.sub(d, v) if sg == 1 else tm.add(d, v)
            if r.is_const:
                c = (-r.const if sg == 1 else r.const) % (1 << 64)
                s = ((c, c + 1),)
                return s if val else minus(s)
        return unk
    return unk


def region(facts, v):
    r = FULL
    for a, val in facts:
        r = meet(r, where(a, val, v))
    return r


def inside(r, lo, hi):
    return all(lo <= a and b <= hi for a, b in r)


class Geometry:
    """the computed members of every key file header object that is read from a file"""

    def __init__(self, res, root, names, rule):
        self.res, self.root, self.n, self.rule = res, root, names, rule
        self.fn, self.vn = root.fn, root.vn
        self.off = names.off["kh"]

    def bad(self, x, msg):
        self.res.at(self.rule, self.fn, x, msg, key=msg)

    def check(self):
        nobj = 0
        for (bs, k), h in self.n.objs.items():
            if h != "kh" or any(self.n.place(bs, k + self.off[f][0], self.off[f][1]) != ("kh", f) for f in ("salt", "block_size", "key_size")):
                continue        # not a whole header
            nobj += 1
            for f in ("capacity", "buckets", "modulus"):
                o, s = self.off[f]
                seen = 0
                for oo, ss, x, v in self.n.st.get(bs, ()):
                    if oo + ss <= k + o or k + o + s <= oo:
                        continue
                    if isinstance(v, tuple):
                        sb, so = split_ptr(v[0])
                        if sb is not None and so.is_const and (sb, k + so.const - oo) in self.n.objs and oo <= k + o and k + o + s <= oo + ss:
                            seen += 1
                            continue        # copied with the rest of the header
                        self.bad(x, f"the {f} of a key file header comes from elsewhere")
                        continue
                    if oo != k + o:
                        self.bad(x, f"the {f} of a key file header is written in part")
                        continue
                    seen += 1
                    self.res.oblige("key file geometry derived from the header", self.fn.where(x))
                    for l, facts in cases(self.fn, self.vn, v, block_facts(self.fn, self.vn, x.bb)):
                        getattr(self, f)(x, l, facts)
                if not seen:
                    ins = next((x for oo, ss, x, v in self.n.st.get(bs, ())), None)
                    if ins is not None:
                        self.bad(ins, f"the {f} of a key file header is never computed")
        return nobj

    def is_(self, t, f):
        return self.n.name(t) == ("kh", f)

    def bsterm(self, t):
        """the block size in t = (block size - 8) / 18"""
        a = t.atom()
        if a is not None and a.k == "min" and any(p.is_const and p.const == 65535 for p in a.p):
            t = next(p for p in a.p if not (p.is_const and p.const == 65535))
            a = t.atom()
        if a is not None and a.k == "trunc":
            t = a.p[0]
            a = t.atom()
        if a is None or a.k != "op" or a.p[0] != "udiv" or not (a.p[2].is_const and a.p[2].const == ENTRY):
            return None
        b = tm.add(a.p[1], const(BUCKET))
        return b if self.is_(b, "block_size") else None

    def blocksize(self):
        """every term that stands for the block size"""
        if not hasattr(self, "_bs"):
            self._bs = {}
            for t in self.vn.t.values():
                if isinstance(t, T) and self.is_(t, "block_size"):
                    self._bs[t.id] = t
        return self._bs.values()

    def capacity(self, x, t, facts):
        if t.is_const and t.const == 0:
            if not any(inside(region(facts, b), 0, HEADER) for b in self.blocksize()):
                self.bad(x, "the bucket capacity is zero for a block size that can hold entries")
            return
        b = self.bsterm(t)
        if b is None:
            self.bad(x, "the bucket capacity is not the number of entries that fit a block")
        elif not inside(region(facts, b), HEADER, 1 << 64):
            self.bad(x, "a bucket capacity is computed for a block too small for the key file header")

    def buckets(self, x, t, facts):
        fl = flat(facts)

        def holds(c):
            """truth of a condition when the block size is not zero and the key file is larger than a block; None if unknown"""
            if c.k == "not":
                b = c.p[0].atom()
                r = holds(b) if b is not None else None
                return None if r is None else not r
            if c.k == "band":
                rs = []
                for p in c.p:
                    l = tm.term_lit(p)
                    r = l if l in (True, False) else holds(l[0].atom()) if l[0].atom() is not None else None
                    rs.append(r if r is None or l in (True, False) else r == l[1])
                return False if False in rs else None if None in rs else True
            if c.k == "ult":
                if self.is_(c.p[0], "block_size") and isize(c.p[1]):
                    return True
                if isize(c.p[0]) and self.is_(c.p[1], "block_size"):
                    return False
            for b in self.blocksize():
                r = where(c, True, b)
                if not meet(r, ((1, 1 << 64),)):
                    return False
                r = where(c, False, b)
                if not meet(r, ((1, 1 << 64),)):
                    return True
            return None

        def fact(pred):
            return any(pred(a, v) for a, v in fl)

        def isize(z):
            return self.n.name(z) == ("size", "kf")

        fits = fact(lambda a, v: a.k == "ult" and v and self.is_(a.p[0], "block_size") and isize(a.p[1]))
        small = fact(lambda a, v: a.k == "ult" and not v and self.is_(a.p[0], "block_size") and isize(a.p[1]))
        zero = any(inside(region(fl, b), 0, 1) for b in self.blocksize())
        if t.is_const and t.const == 0:
            if not small and not zero and not fact(lambda a, v: holds(a) is (not v)):
                self.bad(x, "the key file is taken to have no buckets although it is larger than its header block")
            return
        a = t.atom()
        if a is not None and a.k == "op" and a.p[0] == "udiv" and self.is_(a.p[2], "block_size"):
            n = a.p[1]
            whole = tm.add(n, a.p[2])
            if isize(whole):
                if not fits:
                    self.bad(x, "the number of buckets wraps around when the key file is no larger than its header block")
                if not inside(region(fl, a.p[2]), 1, 1 << 64):
                    self.bad(x, "division by a zero block size read from the file")
                return
        m = tm.add(t, const(1)).atom()          # size / block size - 1
        if m is not None and m.k == "op" and m.p[0] == "udiv" and self.is_(m.p[2], "block_size") and isize(m.p[1]):
            if not fits or not inside(region(fl, m.p[2]), 1, 1 << 64):
                self.bad(x, "the number of buckets is computed for a file without buckets")
            return
        self.bad(x, "the number of buckets is not the number of blocks behind the key file header")

    def modulus(self, x, t, facts):
        if not self.is_modulus(t):
            self.bad(x, "the modulus is not the power of two for the number of buckets")

    def is_modulus(self, t):
        if self.is_(t, "modulus"):
            return True
        a = t.atom()
        y = self.fn.ins.get(a.p[-1]) if a is not None and a.k == "call" else None
        if y is None or short(y.j.get("qn") or "") != "ceil_pow2":
            return False
        b = self.vn.callargs[y.id][0]
        return all(self.bucketcount(l, f) for l, f in cases(self.fn, self.vn, b))

    def bucketcount(self, t, facts):
        if self.is_(t, "buckets") or t.is_const and t.const == 0:
            return True
        # one of the values stored to the member
        for (bs, k), h in self.n.objs.items():
            if h == "kh":
                for oo, ss, x, v in self.n.st.get(bs, ()):
                    if oo == k + self.off["buckets"][0] and not isinstance(v, tuple) and any(l is t for l, f in cases(self.fn, self.vn, v)):
                        return True
        return False


class Open(MidAut):
    def setup(self):
        self.out = atom("arg", ec_params(self.fn)[0])
        self.n = Names(self.root)

    def on_assume(self, ev, st):
        fs = self.n.facts(*ev.args)
        return st | set(fs) if fs and not st >= set(fs) else None

    def on_call(self, ev, op, st):
        q = ev.qn
        if q == "nudb::recover" or q.startswith("nudb::recover<"):
            self.oblige("recovery before the files are opened", ev)
            want = [atom("arg", 1), atom("arg", 2), atom("arg", 3)]
            if list(ev.args[:3]) != want:
                self.report(ev, "recovery is not run on the files that are opened")
            return st - {"recovered"}
        if q == "nudb::context::insert":
            self.registered(ev, st)
            return None
        if op is None:
            return None
        if op.k in ("open", "create"):
            self.oblige("recovery before the files are opened", ev)
            if "recovered" not in st:
                self.report(ev, f"the {op.role} is opened before the database has been recovered")
            if op.role == "lf" and op.k != "create":
                self.report(ev, "a log file that is already there is reused")
            if op.role in ("df", "kf") and op.k != "open":
                self.report(ev, f"the {op.role} is created instead of opened")
            return None
        if op.mutates is not None:
            self.report(ev, f"open changes the {op.role} ({op.k})")
        return None

    def on_ok(self, ev, op, st):
        q = ev.qn
        if q == "nudb::recover" or q.startswith("nudb::recover<"):
            return st | {"recovered"}
        if op is None:
            return None
        if op.k in ("open", "create"):
            return st | {("file", op.role)}
        if op.k == "read" and ev.ins.id in self.n.reads:
            return st | {("read", self.n.reads[ev.ins.id])}
        return None

    def registered(self, ev, st):
        self.oblige("consistent files on success", ev)
        k = Known(st)
        bad = [f"the {r} was opened" for r in ("df", "kf", "lf") if ("file", r) not in st]
        bad += [f"the {h} was read" for h in ("dh", "kh") if ("read", h) not in st]
        bad += [f"data file header: {x}" for x in k.valid("dh")]
        bad += [f"key file header: {x}" for x in k.valid("kh")]
        bad += [f"key and data file agree: {x}" for x in k.match("kh", "dh", ("uid", "appnum", "key_size"))]
        for b in bad:
            self.report(ev, f"open succeeds without this evidence: {b}")


class Installed:
    """the members of the store once it is registered"""

    def __init__(self, res, root, names, geo, rule):
        self.res, self.root, self.n, self.g, self.rule = res, root, names, geo, rule
        self.L, self.fn, self.vn = root.lib, root.fn, root.vn

    def at(self, x, o, n):
        return self.vn.load_at(x, tm.add(atom("arg", 0), const(o)), n)

    def check(self, x):
        L, n = self.L, self.n
        this = atom("arg", 0).atom()
        self.res.oblige("geometry installed from the key file header", self.fn.where(x))

        def bad(m):
            self.res.at(self.rule, self.fn, x, m, key=m)

        for f in ("df", "kf", "lf"):
            if self.root.file_role(L.this(f)) != f:
                bad(f"the store's {f} is not the file that was opened as {f}")
        kh = L.o("kh")
        if n.objs.get((this, kh)) != "kh":
            bad("the store's key file header is not the one read from the key file")
        for f, (o, s) in n.off["kh"].items():
            if f in ("key_size", "salt", "block_size", "capacity", "buckets", "modulus", "appnum") and n.place(this, kh + o, s) != ("kh", f):
                bad(f"the store's {f} is not the key file header's")
        t = self.at(x, L.o("buckets_"), 8)
        if t is None or not self.g.is_(t, "buckets"):
            bad("the number of buckets in use is not the key file's")
        t = self.at(x, L.o("modulus_"), 8)
        if t is None or not self.g.is_modulus(t):
            bad("the modulus in use is not the power of two for the number of buckets")
        t = self.at(x, L.o("thresh_"), 8)
        if t is None or not self.split(t):
            bad("the split threshold is not load factor times capacity")
        self.ctors(bad)

    def split(self, t):
        a = t.atom()
        if a is not None and a.k == "max":
            return any(self.split(p) for p in a.p if isinstance(p, T) and not p.is_const)
        if len(t.m) != 1:
            return False
        (mono, c), = t.m.items()
        return c == 1 and sorted(str(self.n.name(tm.mk({(m,): 1}))) for m in mono) == sorted([str(("kh", "load_factor")), str(("kh", "capacity"))])

    def ctors(self, bad):
        """the hasher, pools and cache that end up in the store"""
        L, n = self.L, self.n
        this = atom("arg", 0).atom()
        src = {}
        for y, q, a in self.root.calls():
            m = short(q)
            if m in ("hasher", "cache_t") and a:
                src.setdefault(a[0].id, []).append((y, q, a))

        def origin(t, depth=6):
            """constructor call (not a copy or move) an object comes from"""
            for y, q, a in src.get(t.id, ()):
                if len(a) == 2 and a[1].id in src and depth:
                    return origin(a[1], depth - 1)
                return a
            # plain copies
            bs, o = split_ptr(t)
            for oo, ss, x, v in n.st.get(bs, ()) if bs is not None and o.is_const else ():
                if isinstance(v, tuple) and oo <= o.const < oo + ss and depth:
                    r = origin(tm.add(v[0], const(o.const - oo)), depth - 1)
                    if r is not None:
                        return r
            return None

        a = origin(L.this("hasher"))
        if a is None or len(a) < 2 or n.name(a[1]) != ("kh", "salt"):
            bad("the store's hash function is not seeded with the key file's salt")
        a = origin(L.this("c1"))
        if a is None or len(a) < 3 or n.name(a[1]) != ("kh", "key_size") or n.name(a[2]) != ("kh", "block_size"):
            bad("the bucket cache does not have the key file's block size")
        t = L.mod.type("pool_t<void>", "nudb::detail")
        ks = next((o, s) for o, s, p, ty in L.mod.fields(t) if p == "key_size_")
        for p in ("p0", "p1"):
            if n.place(this, L.o(p) + ks[0], ks[1]) != ("kh", "key_size"):
                bad(f"the key size of {p} is not the key file's")


@rule("C18")
def open_consistent(res, L):
    lib = L["mid"]
    root = lib.root("open")
    aut = Open()
    run(res, "open_consistent", root, aut, cells={lib.this("open_"): 0})
    for ob in ("recovery before the files are opened", "consistent files on success"):
        need(res, "open_consistent", root, aut, ob, f"not found in open: {ob}")


@rule("C18")
def geometry(res, L):
    lib = L["mid"]
    for r in ("open", "recover", "verify"):
        root = lib.root(r)
        names = Names(root)
        g = Geometry(res, root, names, "geometry")
        if not g.check():
            raise AnchorError(f"{r} does not read a key file header")
        if r == "open":
            i = Installed(res, root, names, g, "geometry")
            for x, q, a in root.calls(lambda q: q == "nudb::context::insert"):
                i.check(x)
