"""Locks, generations, publication and lookups of the store (mid-level module)."""
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import split_ptr, AnchorError
from .common import *
from .commit import Caches, pmap_off, map_off, khterm, need
from .records import as_index, sel_form, Pairs

APP = ("insert", "fetch", "set_burst")
STORE = ("flush", "close", "insert", "fetch", "set_burst", "open", "dtor")
TERMS = {}


def keep(t):
    TERMS[t.id] = t
    return t.id


class LockAut(MidAut):
    """facts "X" / "S": the state lock is held exclusively / shared; "U": the insert lock"""

    def lk(self):
        if not hasattr(self, "_lk"):
            L = self.L
            self._lk = (L.this("m_"), L.this("u_"), L.this("g_"))
        return self._lk

    def lockstep(self, ev, op, st, check=False):
        if op is None or not op.a:
            return st
        m, u, g = self.lk()
        a0 = op.a[0]
        k = op.k
        rep = (lambda msg: self.report(ev, msg)) if check else (lambda msg: None)
        if a0 is m:
            if k in ("lock", "lock_shared", "try_lock", "try_lock_shared"):
                if "X" in st or "S" in st:
                    rep("the state lock is acquired while it is already held")
                return (st - {"X", "S"}) | {"X" if k.endswith("lock") and "shared" not in k else "S"}
            if k == "unlock":
                if "X" not in st:
                    rep("the state lock is released exclusively but not held exclusively")
                return st - {"X"}
            if k == "unlock_shared":
                if "S" not in st:
                    rep("the state lock is released shared but not held shared")
                return st - {"S"}
        elif a0 is u:
            if k == "lock":
                if "X" in st or "S" in st or "U" in st:
                    rep("the insert lock is acquired while another lock of the store is held")
                return st | {"U"}
            if k == "unlock":
                if "U" not in st:
                    rep("the insert lock is released but not held")
                return st - {"U"}
        return st


# ------------------------------------------------------------------------------- C13
class Locks(LockAut):
    def on_call(self, ev, op, st):
        q = ev.qn
        if op is None:
            if short(q) in ("nanosleep", "usleep", "sleep", "sleep_for"):
                self.oblige("no sleeping under the state lock", ev)
                if "X" in st or "S" in st:
                    self.report(ev, "sleeps while holding the state lock")
            return None
        m, u, g = self.lk()
        if op.k in ("lock", "lock_shared", "unlock", "unlock_shared") and op.a and op.a[0] in (m, u):
            self.oblige("lock and unlock paired and ordered", ev)
            if op.k.startswith("lock"):
                self.raii(ev)
            return self.lockstep(ev, op, st, True)
        if op.k == "glock_gen":
            gens = [f for f in st if isinstance(f, tuple) and f[0] == "gen"]
            self.oblige("generation registration paired", ev)
            if gens:
                self.report(ev, "a generation is registered twice on a path")
            if op.a[0] is not g:
                self.report(ev, "registers with something other than the store's generation barrier")
            self.raii(ev)
            return st | {("gen", self.vn.t[ev.ins.id].id)}
        if op.k == "gunlock_gen":
            f = ("gen", op.a[1].id)
            if op.a[0] is not g or f not in st:
                self.report(ev, "releases a generation other than the one it registered")
            return frozenset(x for x in st if not (isinstance(x, tuple) and x[0] == "gen"))
        if op.k == "gfinish":
            self.oblige("no lock held while waiting for readers", ev)
            if "X" in st or "S" in st:
                self.report(ev, "waits for readers while holding the state lock")
        if op.k == "gfinish" and any(isinstance(x, tuple) and x[0] == "gen" for x in st):
            self.report(ev, "waits for readers while registered as a reader")
        if (op.role is not None and op.k in ("read", "write", "sync", "trunc", "size", "bread", "bwrite", "wflush", "wprepare",
                                             "spillout", "rprepare", "breadbulk", "open", "create", "erase")):
            self.oblige("no file access under the exclusive lock", ev)
            if "X" in st:
                self.report(ev, f"{op.k} of a file while holding the exclusive lock")
        if op.k in ("lock",) and op.a and op.a[0] not in (m, u) and ("X" in st or "S" in st):
            self.report(ev, "acquires another mutex while holding the state lock")
        return None

    def raii(self, ev):
        ch = self.fn.chain(ev.ins)
        frames = [c for c in ch[:3]]
        if not any(any(w in c for w in ("unique_lock", "shared_lock", "lock_guard", "scoped_lock", "genlock")) for c in frames):
            self.report(ev, "a lock is taken without a guard object, so an exception leaves it held")

    def on_ret(self, ev, st):
        self.oblige("nothing held at return", ev)
        left = [f for f in ("X", "S", "U") if f in st] + [f for f in st if isinstance(f, tuple) and f[0] == "gen"]
        if left:
            w = {"X": "the state lock (exclusive)", "S": "the state lock (shared)", "U": "the insert lock"}
            self.report(ev, "returns while holding " + ", ".join(w.get(f, "a generation") for f in left))
        return None


@rule("C13")
def locks_balanced(res, L):
    for r in STORE:
        aut = Locks()
        run(res, "locks_balanced", L["mid"].root(r), aut)


# ------------------------------------------------------------------------------- C12
class Access(LockAut):
    """collect (field, read/write, locks) over all paths"""
    wants_loads = True

    def setup(self):
        L = self.L
        self.acc = {}
        lo = L.layout
        tops = []
        for n, (o, s) in lo.off.items():
            if "." in n or n in ("s_",):
                continue
            tops.append((o, s, n))
        for n, (o, s) in lo.st.items():
            if "." in n:
                continue
            tops.append((lo.base + o, s, n))
        self.tops = tops

    def field(self, t):
        b, o = split_ptr(t)
        if b is None or b.k != "arg" or b.p[0] != 0:
            return None
        if not o.is_const:
            return None
        best = None
        for off, s, n in self.tops:
            if off <= o.const < off + max(s, 1) and (best is None or s < best[1]):
                best = (n, s)
        return best[0] if best else f"+{o.const}"

    def rec(self, ev, f, w, st):
        if f is None:
            return
        locks = frozenset(x for x in st if x in ("X", "S", "U"))
        self.acc.setdefault((f, w, locks), (self.fn.where(ev.ins), self.fn.chain(ev.ins)[:4]))

    READS = ("pfind", "cfind", "csize", "psize", "pdata_size", "pempty")
    WRITES = ("pinsert", "pclear", "pperiodic_activity", "cclear", "cinsert", "ccreate", "creserve")

    def on_call(self, ev, op, st):
        if op is None:
            return None
        s2 = self.lockstep(ev, op, st)
        if s2 is not st:
            return s2
        if op.k in self.READS:
            self.rec(ev, self.field(op.a[0]), "r", st)
        elif op.k in self.WRITES:
            self.rec(ev, self.field(op.a[0]), "w", st)
        elif op.k == "swap":
            for a in op.a:
                self.rec(ev, self.field(a), "w", st)
        elif op.k.startswith("m:"):
            m = op.k[2:]
            w = "r" if m in ("find", "begin", "end", "cbegin", "cend", "size", "empty", "count", "at", "bucket_count") else "w"
            self.rec(ev, self.field(op.a[0]), w, st)
        return None

    def on_load(self, ev, st):
        self.rec(ev, self.field(ev.args[0]), "r", st)
        return None

    def on_store(self, ev, st):
        self.rec(ev, self.field(ev.args[0]), "w", st)
        return None

    def on_copy(self, ev, st):
        a = ev.args
        if len(a) > 1:
            self.rec(ev, self.field(a[0]), "w", st)
            if ev.qn.startswith("llvm.mem") and not ev.qn.startswith("llvm.memset"):
                self.rec(ev, self.field(a[1]), "r", st)
        return None


# fields with a discipline of their own: one line of reason each
EXEMPT = {
    "ec_": "written before ecb_ is set, read only after ecb_ was found set (C10)",
    "ecb_": "atomic",
    "df": "File objects are used through positioned operations and are not modified while open",
    "kf": "see df", "lf": "used by the flush thread only",
    "g_": "has its own mutex (C08)", "m_": "the lock itself", "u_": "the lock itself",
    "ctx_": "set at construction", "open_": "changed by open and close only, which exclude other use",
}


@rule("C12")
def lockset(res, L):
    lib = L["mid"]
    cls = {}
    for r, c in (("flush", "flush"), ("insert", "app"), ("fetch", "app"), ("set_burst", "app")):
        aut = Access()
        root = lib.root(r)
        run(res, "lockset", root, aut)
        for (f, w, locks), (site, chain) in aut.acc.items():
            if f.split(".")[0] in EXEMPT:
                continue
            cls.setdefault(f, {}).setdefault((c, w, locks), (site, chain, root))
    shared = 0
    for f, accs in sorted(cls.items()):
        items = list(accs.items())
        writes = [i for i in items if i[0][1] == "w"]
        if not writes:
            continue
        for (c1, w1, l1), (s1, ch1, r1) in writes:
            for (c2, w2, l2), (s2, ch2, r2) in items:
                if c1 == c2 == "flush":
                    continue
                shared += 1
                res.oblige(f"conflicting accesses of {f} share a lock", s1)
                ok = ("U" in l1 and "U" in l2) or ("X" in l1 and ("X" in l2 or "S" in l2)) or ("X" in l2 and "S" in l1)
                if not ok:
                    h1, h2 = sorted(l1) or ["no lock"], sorted(l2) or ["no lock"]
                    res.fail("lockset", r1.fn.dem.split("(")[0][:100], s1,
                             f"{f} is written under {'/'.join(h1)} here and {'written' if w2 == 'w' else 'read'} "
                             f"under {'/'.join(h2)} by {r2.name} at {s2}", ch1, key=f"{f} race {s2}")
    names = {f for f, a in cls.items() if any(k[1] == "w" for k in a)}
    for f in ("p0", "p1", "c1", "buckets_", "modulus_", "rate", "burst", "when"):
        if f not in names:
            res.fail("lockset", "-", "-", f"no write of shared field {f} was found: the analysis lost the field")


# ------------------------------------------------------------------------------- C07 / C08 (commit side)
class Publish(LockAut):
    ALL = frozenset(("swap", "clear", "buckets", "modulus", "gstart"))

    def setup(self):
        L = self.L
        self.ca = Caches(self.root)
        self.pairs = Pairs(self.root)
        self.p0, self.p1, self.c1, self.g = L.this("p0"), L.this("p1"), L.this("c1"), L.this("g_")
        self.b, self.m = L.this("buckets_"), L.this("modulus_")
        self.fe = Foreach(self.root)
        self.c1map = tm.add(self.c1, const(map_off(L)))

    def rep(self, ev, prop, msg):
        if prop == self.prop:
            self.report(ev, msg)

    def obl(self, ev, prop, msg):
        if prop == self.prop:
            self.oblige(msg, ev)

    def part(self, ev, st, what):
        self.obl(ev, "C07", "publication inside the exclusive section")
        if "X" not in st:
            self.rep(ev, "C07", f"{what} changes without the exclusive lock")
        return st | {("pub", what)}

    def pub(self, st):
        return frozenset(f[1] for f in st if isinstance(f, tuple) and f[0] == "pub")

    def on_call(self, ev, op, st):
        if op is None:
            return None
        a = op.a
        if op.k in ("lock", "unlock", "lock_shared", "unlock_shared"):
            s2 = self.lockstep(ev, op, st)
            if "X" in st and "X" not in s2:
                p = self.pub(st)
                if p:
                    self.obl(ev, "C07", "publication complete when the lock is released")
                    if p != self.ALL:
                        self.rep(ev, "C07", "the exclusive section ends with a partial publication: missing " +
                                 ", ".join(sorted(self.ALL - p)))
                    s2 = frozenset(f for f in s2 if not (isinstance(f, tuple) and f[0] == "pub")) | {"published"}
                    if "gstart" in p:
                        s2 = s2 | {"started"}
                s2 = frozenset(f for f in s2 if not (isinstance(f, tuple) and f[0] == "pv"))
            return s2
        if op.k == "swap":
            ids = {x.id for x in a}
            if ids == {self.p0.id, self.p1.id}:
                self.obl(ev, "C07", "pool swap under the exclusive lock")
                if "X" not in st:
                    self.rep(ev, "C07", "the pools are swapped without the exclusive lock")
                return None
            if self.c1 in a:
                if not (self.ca.pub in a):
                    self.rep(ev, "C07", "the published cache is not the one holding the new buckets")
                return self.part(ev, st, "swap")
            return None
        if op.k == "pclear" and a[0] is self.p0:
            return self.part(ev, st, "clear")
        if op.k in ("pclear",) and a[0] is self.p1:
            self.rep(ev, "C07", "elements inserted since the last commit are discarded")
            return None
        if op.k == "gstart":
            if a[0] is not self.g:
                self.rep(ev, "C08", "starts a generation on something else than the store's barrier")
            return self.part(ev, st, "gstart") - {"waited"}
        if op.k == "gfinish":
            if "published" in st and "started" in st:
                return st | {"waited"}
            return None
        if op.k == "cclear" and a[0] is self.c1:
            self.obl(ev, "C07", "bucket cache dropped only after its buckets are in the key file")
            if "X" not in st:
                self.rep(ev, "C07", "the published bucket cache is cleared without the exclusive lock")
            if "allkf" not in st:
                self.rep(ev, "C07", "the published bucket cache is dropped before all its buckets are in the key file")
            return None
        if op.mutates == "kf" and op.k not in ("create", "erase"):
            self.obl(ev, "C08", "key file changed only after older readers are gone")
            if "published" not in st:
                self.rep(ev, "C08", "the key file changes before the new buckets are published to readers")
            elif "waited" not in st:
                self.rep(ev, "C08", "the key file changes while readers of the previous generation may still use it")
            if op.k == "bwrite":
                return st - {("it", "miss")}
        return None

    def on_ok(self, ev, op, st):
        if op is not None and op.mutates == "kf" and op.k == "bwrite":
            return st | {"kw"}
        return None

    def on_store(self, ev, st):
        p, v = ev.args
        for t, w in ((self.b, "buckets"), (self.m, "modulus")):
            if p is t:
                st = self.part(ev, st, w) | {("pv", w, keep(v))}
                pv = {f[1]: TERMS[f[2]] for f in st if isinstance(f, tuple) and f[0] == "pv"}
                if len(pv) == 2:
                    self.obl(ev, "C07", "published count and modulus belong together")
                    if not self.pairs.ok(pv["buckets"], pv["modulus"]):
                        self.rep(ev, "C07", "the published bucket count and modulus do not belong together")
        return st

    def on_assume(self, ev, st):
        a, val = ev.args
        r = self.fe.test(a, val) if isinstance(a, tm.Atom) else None
        if r is None or r[0] is not self.c1map:
            return None
        if "it" in st and "kw" not in st:
            st = st | {"skip"}
        st = st - {"kw", "it"}
        if r[2]:
            return st if "skip" in st else st | {"allkf"}
        return st | {"it"}


@rule("C07")
def atomic_publication(res, L):
    for r in ("flush", "close"):
        root = L["mid"].root(r)
        aut = Publish()
        aut.prop = "C07"
        run(res, "atomic_publication", root, aut)
        for ob in ("publication complete when the lock is released", "pool swap under the exclusive lock",
                   "bucket cache dropped only after its buckets are in the key file", "published count and modulus belong together"):
            need(res, "atomic_publication", root, aut, ob, f"not found in the commit: {ob}")


@rule("C08")
def writer_waits(res, L):
    for r in ("flush", "close"):
        root = L["mid"].root(r)
        aut = Publish()
        aut.prop = "C08"
        run(res, "writer_waits", root, aut)
        need(res, "writer_waits", root, aut, "key file changed only after older readers are gone", "the commit changes no key file bucket")


# ------------------------------------------------------------------------------- lookups: C08 (reader side), C11, C26, C27, C06
class Search(LockAut):
    wants_loads = True
    wants_edges = True

    def setup(self):
        root, L, vn, fn = self.root, self.L, self.vn, self.fn
        self.p = {L.this("p0").id: "p0", L.this("p1").id: "p1"}
        self.c1 = L.this("c1")
        self.kfr = {}
        self.find, self.end = {}, {}
        maps = {}
        for n in ("p0", "p1"):
            maps[tm.add(L.this(n), const(pmap_off(L))).id] = n
        maps[tm.add(L.this("c1"), const(map_off(L))).id] = "c1"
        for i, o in self.ops.items():
            if i not in fn.ins:
                continue
            t = vn.t.get(i)
            if o.k in ("pfind", "cfind"):
                w = self.p.get(o.a[0].id) or ("c1" if o.a[0] is self.c1 else "?")
                for z in self.results(i, t):
                    self.find[z.id] = (w, i)
            elif o.k in ("m:end", "m:cend"):
                w = maps.get(o.a[0].id, "?")
                for z in self.results(i, t):
                    self.end[z.id] = w
        self.key = atom("arg", 1)
        self.ks = khterm(L, "key_size")
        self.bs = khterm(L, "block_size")
        self.hash = None
        for x, q, a in root.calls(lambda q: q == "vp::hasher::operator()"):
            self.hash = (x, a)
        self.idx = {}
        for h, body in fn.loops.items():
            for x in fn.blocks[h]:
                if x.op == "phi":
                    t = vn.t.get(x.id)
                    if t is not None and t.atom() is not None:
                        self.idx[t.atom().id] = (x, h)
        self.b0, self.m0 = L.this("buckets_"), L.this("modulus_")

    @staticmethod
    def results(i, t):
        return [t, atom("ev", t, (0,))] if t is not None else []

    def rep(self, ev, props, msg):
        if self.prop in props:
            self.report(ev, msg)

    def obl(self, ev, props, msg):
        if self.prop in props:
            self.oblige(msg, ev)

    # --- recognisers
    def is_hash(self, t):
        """t is the store's hash of the caller's key"""
        a = t.atom() if t is not None else None
        if a is None or a.k != "lshr":
            return False
        sh = a.p[1].const if isinstance(a.p[1], T) else a.p[1]
        if sh != 16:
            return False
        a = a.p[0].atom()
        if a is None or a.k != "call":
            return False
        x = self.fn.ins.get(a.p[-1])
        if x is None or (x.j.get("qn") or "") != "vp::hasher::operator()":
            return False
        c = self.vn.callargs[x.id]
        return c[1] is self.key and is_ld(c[2], self.ks) and c[0] is self.L.this("hasher")

    def is_n(self, t):
        r = as_index(self.root, t)
        if r is None:
            return False
        h, b, m = r
        return self.is_hash(h) and is_ld(b, self.b0) and is_ld(m, self.m0)

    def facts(self, st, k):
        return [f for f in st if isinstance(f, tuple) and f[0] == k]

    def without(self, st, *ks):
        return frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in ks))

    def bsize(self, st, t):
        """t is the key file's block size (directly or through a bucket constructed with it)"""
        if is_ld(t, self.bs):
            return True
        a = t.atom()
        if a is None or a.k != "ld":
            return False
        return ("bs", a.p[0].id) in st

    # --- events
    def on_call(self, ev, op, st):
        if op is None:
            if short(ev.qn) == "memcmp" or ev.qn in ("memcmp", "bcmp"):
                return self.memcmp(ev, st)
            if ev.qn == "vp::fetch_cb::operator()":
                return self.callback(ev, st)
            if ev.qn == "vp::hasher::operator()":
                a = ev.args
                self.obl(ev, ("C11", "C26", "C06"), "the caller's whole key is hashed with the store's hasher")
                if not (a[1] is self.key and is_ld(a[2], self.ks) and a[0] is self.L.this("hasher")):
                    self.rep(ev, ("C11", "C26", "C06"), "the hash is not computed from the caller's whole key")
            return None
        m, u, g = self.lk()
        a = op.a
        if op.k in ("lock", "lock_shared", "unlock", "unlock_shared"):
            s2 = self.lockstep(ev, op, st)
            if op.k == "lock_shared" and a[0] is m:
                s2 = frozenset(f for f in self.without(s2, "miss", "prot")) | {"sect"}
            if op.k == "unlock_shared" and a[0] is m:
                s2 = s2 - {"sect"}
                if "gen" in st and {"p0", "p1", "c1"} <= {f[1] for f in self.facts(st, "miss")}:
                    s2 = s2 | {("prot",)}
            if op.k == "unlock" and a[0] is u:
                s2 = s2 - {"Uall"}
            if op.k == "lock" and a[0] is u:
                s2 = s2 | {"Uall"}
            return s2
        if op.k == "glock_gen":
            self.obl(ev, ("C08",), "generation registered while the tables are locked")
            if "S" not in st and "X" not in st:
                self.rep(ev, ("C08",), "a reader registers its generation after releasing the table lock")
                return st
            if a[0] is not g:
                return st
            return st | {"gen"}
        if op.k == "gunlock_gen":
            return self.without(st - {"gen"}, "prot")
        if op.k in ("pfind", "cfind"):
            w = self.find.get(self.vn.t[ev.ins.id].id, ("?",))[0]
            self.obl(ev, ("C11", "C12", "C26", "C27"), "table lookup under the lock")
            if "S" not in st and "X" not in st:
                self.rep(ev, ("C11", "C26"), "an in-memory table is searched without the lock")
            if self.root.name == "insert" and "Uall" not in st:
                self.rep(ev, ("C11",), "insert looks up the key before inserts are serialized")
            if op.k == "pfind" and not (len(a) > 1 and a[1] is self.key):
                self.rep(ev, ("C11", "C26"), "an in-memory table is searched for something else than the caller's key")
            if op.k == "cfind":
                n = a[1] if len(a) == 2 else a[-1]
                if not self.is_n(n):
                    self.rep(ev, ("C06",), "the bucket cache is searched for another bucket than the key's hash selects")
                self.obl(ev, ("C06",), "cached bucket selected by the key's hash")
            return st
        if op.k == "bctor":
            o = a[0]
            st = self.dropobj(st, o)
            if len(a) > 1 and (is_ld(a[1], self.bs) or self.bsize(st, a[1])):
                st = st | {("bs", o.id)}
            if len(a) > 2 and self.from_find(a[2]):
                st = st | {("view", o.id), ("src", o.id, "c1")}
            return st
        if op.k == "bread":
            return self.bread(ev, op, st)
        if op.k == "blower_bound":
            self.viewuse(ev, a[0], st)
            self.obl(ev, ("C11", "C26"), "entries searched by the key's hash")
            if not self.is_hash(a[1]):
                self.rep(ev, ("C11", "C26"), "bucket entries are searched for another hash than the key's")
            return st
        if op.k == "bat":
            self.viewuse(ev, a[1], st)
            st = self.without(st, "ent", "cmp", "rd", "kl")
            return st | {("ent", a[0].id, a[1].id, keep(a[2]))}
        if op.k == "read" and op.role == "df":
            return self.dread(ev, op, st)
        if op.k == "pinsert":
            return self.pinsert(ev, op, st)
        return None

    def dropobj(self, st, o):
        return frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in ("view", "src", "exh", "bs", "szl", "spl", "ent") and f[1] == o.id))

    def from_find(self, t):
        b, _ = split_ptr(t)
        if b is None:
            return False
        z = b
        for _ in range(6):
            if z.k == "ld":
                z = split_ptr(z.p[0])[0]
                if z is None:
                    return False
            elif z.k == "ev":
                z = z.p[0].atom()
                if z is None:
                    return False
            else:
                break
        if z.k == "phi":
            x = self.fn.ins.get(z.p[-1])
            return x is not None and any(self.vn.op(v).id in self.find for p, v in x.j["in"])
        return z.k == "call" and self.ops.get(z.p[-1]) is not None and self.ops[z.p[-1]].k in ("pfind", "cfind")

    def viewuse(self, ev, b, st):
        if ("view", b.id) in st:
            self.obl(ev, ("C27",), "cached bucket data read under the lock")
            if "S" not in st and "X" not in st:
                self.rep(ev, ("C27",), "entries of a cached bucket are read after the lock was released")

    def bread(self, ev, op, st):
        o = op.a[0]
        off = op.a[2]
        if op.role == "kf":
            self.obl(ev, ("C08",), "key file read protected by a generation or the lock")
            miss = {f[1] for f in self.facts(st, "miss")}
            if not (("prot",) in st or ("S" in st and {"p0", "p1", "c1"} <= miss)):
                self.rep(ev, ("C08",), "the key file is read without a generation registered under the lock of the lookup")
            self.obl(ev, ("C06",), "key file bucket addressed by the key's hash")
            if not self.kfaddr(st, off):
                self.rep(ev, ("C06",), "the key file bucket read is not the one the key's hash selects")
            self.obl(ev, ("C11", "C26"), "disk searched only after the in-memory tables")
            if not {"p0", "p1", "c1"} <= miss:
                self.rep(ev, ("C11", "C26"), "the key file is searched although not all in-memory tables were")
            st = self.dropobj(st, o)
            return st | {("src", o.id, "kf")}
        if op.role == "df":
            self.obl(ev, ("C11", "C26"), "spill bucket read follows the chain")
            a = off.atom()
            if a is None or ("next", a.id) not in st:
                self.rep(ev, ("C11", "C26"), "the next bucket of the chain is read before every matching entry of the current one was compared")
            bsf = ("bs", o.id) in st
            st = self.without(self.dropobj(st, o), "next")
            return st | {("src", o.id, "df")} | ({("bs", o.id)} if bsf else frozenset())
        return st

    def kfaddr(self, st, off):
        """(n + 1) * block size"""
        for mono, c in off.m.items():
            for q in mono:
                t = tm.mk({(q,): 1})
                if self.bsize(st, t):
                    n, okk = {}, True
                    for mo, co in off.m.items():
                        l = list(mo)
                        if q in l:
                            l.remove(q)
                            n[tuple(l)] = co
                        else:
                            okk = False
                    if okk:
                        idx = tm.sub(tm.mk(n), const(1))
                        if self.is_n(idx):
                            return True
        return False

    def dread(self, ev, op, st):
        """a data record is read for the current entry: remember which bytes of the key arrived where"""
        off, buf, n = op.a[1], op.a[2], op.a[3]
        ent = self.facts(st, "ent")
        st = self.without(st, "rd", "cmp")
        self.obl(ev, ("C11", "C26"), "record of the matching entry is read")
        if not ent or ("hm",) not in st:
            self.rep(ev, ("C11", "C26"), "a data record is read that no entry with the key's hash refers to")
            return st
        s = ent[0][1]
        d = tm.sub(off, const(6))
        a = d.atom()
        good = a is not None and a.k == "ld" and a.p[0].id == s
        if not good:
            self.rep(ev, ("C11", "C26"), "the record is not read from the entry's offset past the size field")
            return st
        full = False
        v = tm.sub(n, atom("ld", self.ks, None)) if False else None
        ksn = [mono for mono, c in n.m.items() if len(mono) == 1 and mono[0].k == "ld" and mono[0].p[0] is self.ks and c == 1]
        if not ksn:
            self.rep(ev, ("C11", "C26"), "less than the whole key is read from the record")
            return st
        rest = tm.sub(n, tm.mk({ksn[0]: 1}))
        ra = rest.atom()
        if ra is not None and ra.k == "ld":
            b, o2 = split_ptr(ra.p[0])
            if b is not None and tm.mk({(b,): 1}).id == s and o2.is_const and o2.const == 16:
                full = True
        return st | {("rd", keep(buf), s, full)}

    def memcmp(self, ev, st):
        a = ev.args
        ret = self.vn.t.get(ev.ins.id)
        rd = self.facts(st, "rd")
        st = self.without(st, "cmp")
        self.obl(ev, ("C11", "C26"), "stored key compared with the caller's key")
        if rd and is_ld(a[2], self.ks):
            buf = rd[0][1]
            if {a[0].id, a[1].id} == {buf, self.key.id}:
                return st | {("cmp", keep(ret))}
        self.rep(ev, ("C11", "C26"), "a comparison does not cover the whole key of the record just read")
        return st

    def callback(self, ev, st):
        data, size = ev.args[1], ev.args[2]
        self.obl(ev, ("C26",), "callback receives the matching value")
        if "called" in st:
            self.rep(ev, ("C26",), "the callback is invoked twice on a path")
        if self.from_find(data):
            self.obl(ev, ("C27",), "value in memory handed out under the lock")
            if "S" not in st and "X" not in st:
                self.rep(ev, ("C27",), "a value owned by the pool is handed out after the lock was released")
            if "phit" not in st:
                self.rep(ev, ("C26",), "a pool value is handed out although the key was not found in the pool")
            d, s = data.atom(), size.atom()
            ok = d is not None and s is not None and d.k == "ld" and s.k == "ld"
            if ok:
                b1, o1 = split_ptr(d.p[0])
                b2, o2 = split_ptr(s.p[0])
                ok = b1 is b2 and o1.is_const and o2.is_const and (o1.const, o2.const) == (56, 40)
                ok = ok and self.hitbase(b1, st)
            if not ok:
                self.rep(ev, ("C26",), "the callback does not receive the found element's value and size")
            return st | {"called"}
        m = self.facts(st, "match")
        ok = False
        for f in m:
            buf, s, full = TERMS[f[1]], f[2], f[3]
            d = tm.sub(data, buf)
            a = size.atom()
            if is_ld(d, self.ks) and full and a is not None and a.k == "ld":
                b, o = split_ptr(a.p[0])
                ok = tm.mk({(b,): 1}).id == s and o.is_const and o.const == 16
        if not ok:
            self.rep(ev, ("C26",), "the callback does not receive exactly the value of the record whose key was found equal")
        return st | {"called"}

    def hitbase(self, b, st):
        t = tm.mk({(b,): 1})
        hits = {f[1] for f in self.facts(st, "hit")}
        if t.id in self.find:
            return self.find[t.id][1] in hits
        if b.k == "phi":
            x = self.fn.ins.get(b.p[-1])
            # the value chosen on this path must be the lookup that hit
            return x is not None and self.incoming(x, hits)
        return False

    def incoming(self, x, hits):
        path = self.ev.flow.path(self.ev.flow.node)
        if x.bb not in path:
            return False
        k = len(path) - 1 - path[::-1].index(x.bb)
        if k == 0:
            return False
        for p, v in x.j["in"]:
            if p == path[k - 1]:
                t = self.vn.op(v)
                return t.id in self.find and self.find[t.id][1] in hits
        return False

    def on(self, ev, st):
        self.ev = ev
        return super().on(ev, st)

    def pinsert(self, ev, op, st):
        a = op.a
        P = ("C11",)
        self.obl(ev, P, "element added only after the key was found absent")
        if op.a[0] is not self.L.this("p1"):
            self.rep(ev, P, "the element is not added to the pool of new elements")
        if "X" not in st:
            self.rep(ev, P, "an element is added without the exclusive lock")
        if "Uall" not in st:
            self.rep(ev, P, "an element is added although inserts are not serialized since the lookup")
        miss = {f[1] for f in self.facts(st, "miss")}
        if not {"p0", "p1"} <= miss:
            self.rep(ev, P, "an element is added although not both in-memory tables were found not to contain the key")
        if "end" not in st:
            self.rep(ev, P, "an element is added although the whole bucket chain was not searched for the key")
        if self.facts(st, "match") or "phit" in st:
            self.rep(ev, P, "an element is added although its key was found")
        self.obl(ev, ("C11", "C27"), "element added with the caller's key, value and size under its hash")
        if not (len(a) >= 5 and self.is_hash(a[1]) and a[2] is self.key and a[3] is atom("arg", 2) and a[4] is atom("arg", 3)):
            self.rep(ev, P, "the element added is not the caller's key and value under the key's hash")
        if "ins" in st:
            self.rep(ev, P, "the element is added twice")
        return st | {"ins"}

    def on_load(self, ev, st):
        p = ev.args[0]
        t = self.vn.t.get(ev.ins.id)
        b, o = split_ptr(p)
        if self.from_find(p):
            self.obl(ev, ("C27",), "table element read under the lock")
            if "S" not in st and "X" not in st:
                self.rep(ev, ("C27",), "an element of a shared table is read after the lock was released")
        if p is self.b0 or p is self.m0:
            self.obl(ev, ("C06",), "table size read under the lock")
            if "S" not in st and "X" not in st:
                self.rep(ev, ("C06",), "the table size is read outside the section of the lookup")
        if b is not None and b.k == "alloca" and o.is_const and t is not None and t.atom() is not None:
            bt = tm.mk({(b,): 1})
            if o.const == 8:
                st = st | {("szl", bt.id, t.atom().id)}
            elif o.const == 16:
                st = st | {("spl", bt.id, t.atom().id)}
        return st

    def on_copy(self, ev, st):
        if not ev.qn.startswith("llvm.memcpy") or len(ev.args) < 3:
            return None
        d, s, n = ev.args[0], ev.args[1], ev.args[2]
        if not (n.is_const and n.const == 32):
            return None
        st2 = set(self.dropobj(st, d))
        for f in st:
            if isinstance(f, tuple) and f[0] in ("view", "src", "exh", "bs") and f[1] == s.id:
                st2.add((f[0], d.id) + f[2:])
        return frozenset(st2)

    def on_assume(self, ev, st):
        a, val = ev.args
        if not isinstance(a, tm.Atom):
            return None
        if a.k == "eq":
            d = a.p[0]
            ms = list(d.m.items())
            # lookup outcome
            if len(ms) == 2 and all(len(m) == 1 and c in (1, -1) for m, c in ms):
                ts = [tm.mk({m: 1}) for m, c in ms]
                f = [t for t in ts if t.id in self.find]
                e = [t for t in ts if t.id in self.end]
                if f and e:
                    w, i = self.find[f[0].id]
                    if self.end[e[0].id] != w:
                        self.rep(ev, ("C11", "C26"), "a lookup result is compared with the end of another table")
                        return st
                    if val:
                        return st | {("miss", w)}
                    if w == "c1":
                        return st | {("miss", "c1hit")}
                    return st | {"phit", ("hit", i)}
            # hash of the entry
            ent = self.facts(st, "ent")
            if ent and len(ms) == 2:
                ts = [tm.mk({m: 1}) for m, c in ms]
                for x, y in (ts, ts[::-1]):
                    xa = x.atom()
                    if xa is not None and xa.k == "ld":
                        b, o = split_ptr(xa.p[0])
                        if b is not None and tm.mk({(b,): 1}).id == ent[0][1] and o.is_const and o.const == 8 and self.is_hash(y):
                            if val:
                                return st | {("hm",)}
                            return (st - {("hm",)}) | {("stop", ent[0][2])}
            # equal keys
            cmp_ = self.facts(st, "cmp")
            if cmp_ and len(ms) == 1 and d.id == cmp_[0][1]:
                rd = self.facts(st, "rd")
                st = self.without(st, "cmp")
                if val:
                    return st | {("match", rd[0][1], rd[0][2], rd[0][3])}
                return st | {("differ",)}
            # end of the chain
            if len(ms) == 1:
                xa = ms[0][0][0] if len(ms[0][0]) == 1 else None
                if xa is not None and xa.k == "ld":
                    b, o = split_ptr(xa.p[0])
                    if b is not None and b.k == "alloca" and o.is_const and o.const == 16:
                        bt = tm.mk({(b,): 1})
                        if ("spl", bt.id, xa.id) not in st or not self.facts(st, "src"):
                            return st
                        if val:
                            self.obl(ev, ("C11", "C26"), "chain searched to its end")
                            if ("exh", bt.id) in st:
                                return st | {"end"}
                            return st
                        return st | {("next", xa.id)} if ("exh", bt.id) in st else st
                    if b is not None and b.k == "alloca" and o.is_const and o.const == 8:
                        # an empty bucket
                        bt = tm.mk({(b,): 1})
                        if val and ("szl", bt.id, xa.id) in st:
                            return st | {("exh", bt.id)}
            if len(ms) == 2 and val:
                ts = [tm.mk({m: 1}) for m, c in ms]
                for x, y in (ts, ts[::-1]):
                    r = self.idxend(x, y, st)
                    if r is not None:
                        return st | {("exh", r)}
            return None
        if a.k == "ult" and not val:
            r = self.idxend(a.p[0], a.p[1], st)
            if r is not None:
                return st | {("exh", r)}
        return None

    def idxend(self, x, y, st):
        """index x reached the bucket's current size y -> bucket id"""
        xa, ya = x.atom(), y.atom()
        if xa is None or ya is None or xa.id not in self.idx or ya.k != "ld":
            return None
        b, o = split_ptr(ya.p[0])
        if b is None or b.k != "alloca" or not (o.is_const and o.const == 8):
            return None
        bt = tm.mk({(b,): 1})
        if ("szl", bt.id, ya.id) not in st:
            return None
        ph, h = self.idx[xa.id]
        for p, v in ph.j["in"]:
            t = self.vn.op(v)
            if p not in self.fn.loops[h]:
                ta = t.atom()
                if t.is_const and t.const == 0:
                    continue
                q = self.ops.get(ta.p[-1]) if ta is not None and ta.k == "call" else None
                if q is None or q.k != "blower_bound" or q.a[0].id != bt.id or not self.is_hash(q.a[1]):
                    return None
            elif t is not tm.add(x, const(1)):
                return None
        return bt.id

    def on_edge(self, ev, st):
        b, d = ev.args
        fn = self.fn
        # leaving the entry loop on a hash mismatch: entries are sorted by hash
        stop = self.facts(st, "stop")
        if stop:
            bid = stop[0][1]
            ent = self.facts(st, "ent")
            for h, body in fn.loops.items():
                if b in body and d not in body and ent:
                    i = TERMS[ent[0][3]].atom()
                    if i is not None and i.id in self.idx and self.idx[i.id][1] == h and self.sorted_from(i, bid):
                        st = self.without(st, "stop") | {("exh", bid)}
        if d in fn.loops and b in fn.loops[d]:
            ent = self.facts(st, "ent")
            if ent and self.facts(st, "match"):
                pass
            if ent and ("hm",) in st and not self.facts(st, "differ") and not self.facts(st, "match"):
                i = TERMS[ent[0][3]].atom()
                if i is not None and i.id in self.idx and self.idx[i.id][1] == d:
                    self.rep(ev, ("C11", "C26"), "an entry with the key's hash is passed over without comparing its key")
            if any(x[1] == d for x in self.idx.values()):
                st = self.without(st, "ent", "hm", "differ", "stop", "rd", "cmp")
        return st

    def sorted_from(self, i, bid):
        ph, h = self.idx[i.id]
        t = tm.mk({(i,): 1})
        for p, v in ph.j["in"]:
            if p in self.fn.loops[h]:
                if self.vn.op(v) is not tm.add(t, const(1)):
                    return False
            else:
                ta = self.vn.op(v).atom()
                q = self.ops.get(ta.p[-1]) if ta is not None and ta.k == "call" else None
                if q is None or q.k != "blower_bound" or q.a[0].id != bid:
                    return False
        return True

    def on_setec(self, ev, st):
        t, new, old = ev.args
        if isinstance(new, tuple) and new[0] == "E":
            nm = self.enum().get(new[1][1]) if new[1][0] == "code" else None
            if nm == "key_not_found":
                self.obl(ev, ("C26",), "absent key reported only after a complete search")
                miss = {f[1] for f in self.facts(st, "miss")}
                if not {"p0", "p1"} <= miss or "end" not in st:
                    self.rep(ev, ("C26",), "the key is reported absent before every place was searched")
                return st | {"nf"}
            if nm == "key_exists":
                self.obl(ev, ("C11",), "existing key reported")
                if "phit" not in st and not self.facts(st, "match"):
                    self.rep(ev, ("C11",), "a key is reported to exist that was not found")
        return None

    def enum(self):
        if not hasattr(self, "_en"):
            self._en = self.L.mod.enum("error")
        return self._en

    def on_ret(self, ev, st):
        from ..flow import ec_params
        k = ec_params(self.fn)
        s = ev.flow.ecstate(ev.ecs, atom("arg", k[0]).id) if k else "ok"
        if self.root.name == "fetch":
            self.obl(ev, ("C26",), "callback or error")
            if "called" in st and s != "ok":
                self.rep(ev, ("C26",), "fetch reports an error after it delivered the value")
            if "called" not in st and s == "ok":
                self.rep(ev, ("C26",), "fetch succeeds without delivering a value")
            if self.facts(st, "match") and "called" not in st:
                self.rep(ev, ("C26",), "the value of an equal key is not delivered")
            if "phit" in st and "called" not in st:
                self.rep(ev, ("C26",), "a value found in memory is not delivered")
        if self.root.name == "insert":
            self.obl(ev, ("C11",), "insert adds the element or reports an error")
            if "ins" not in st and s == "ok":
                self.rep(ev, ("C11",), "insert succeeds without adding the element")
            if "ins" in st and s != "ok":
                self.rep(ev, ("C11",), "insert reports an error after adding the element")
            if ("phit" in st or self.facts(st, "match")) and s == "ok":
                self.rep(ev, ("C11",), "insert succeeds although the key exists")
        return None


def _search(prop, roots, needs):
    def f(res, L):
        for r in roots:
            root = L["mid"].root(r)
            aut = Search()
            aut.prop = prop
            run(res, f.__name__, root, aut)
            for ob in needs:
                need(res, f.__name__, root, aut, ob, f"not found in {r}: {ob}")
    return f


for _p, _n, _r, _needs in (
        ("C08", "readers_protected", ("fetch", "insert"), ("generation registered while the tables are locked",
                                                           "key file read protected by a generation or the lock")),
        ("C11", "key_absent_before_insert", ("insert",), ("element added only after the key was found absent", "chain searched to its end",
                                                          "stored key compared with the caller's key", "existing key reported")),
        ("C26", "fetch_exact", ("fetch",), ("callback receives the matching value", "absent key reported only after a complete search",
                                            "chain searched to its end", "stored key compared with the caller's key")),
        ("C27", "borrowed_under_lock", ("fetch", "insert"), ("table element read under the lock",)),
        ("C06", "lookup_addressing", ("fetch", "insert"), ("key file bucket addressed by the key's hash",
                                                           "cached bucket selected by the key's hash"))):
    _f = _search(_p, _r, _needs)
    _f.__name__ = _n
    rule(_p)(_f)
