"""Commit protocol of the store (flush and close), on the mid-level module: File, bulk I/O, bucket,
cache and pool operations are opaque, everything else is inlined."""
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import split_ptr, AnchorError
from .common import *

ROOTS = ("flush", "close")


def hdr_expect(root, call):
    """expected layout of the log header: [(name, nbytes, predicate on the encoded value)]"""
    L, vn = root.lib, root.vn
    th = L.this
    ops = classify(root)

    def sizeof(role):
        def f(t):
            a = t.atom() if t is not None else None
            if a is None or a.k != "call":
                return False
            o = ops.get(a.p[-1])
            return o is not None and o.k == "size" and o.role == role
        return f

    def pepper(t):
        a = t.atom() if t is not None else None
        if a is None:
            return False
        if is_ld(t, tm.add(th("kh"), const(pepper_off(L)))):
            return True
        if a.k != "call":
            return False
        x = root.fn.ins.get(a.p[-1])
        if x is None or (x.j.get("qn") or "") != "vp::hasher::operator()":
            return False
        ca = vn.callargs[x.id]
        if not (ca[2].is_const and ca[2].const == 8):
            return False
        v = vn.load_at(x, ca[1], 8)
        if v is None or not is_ld(v, kh("salt")):
            return False
        # the hasher was built from the same salt
        for y, q, b in root.calls(lambda q: q == "vp::hasher::hasher"):
            if b[0] is ca[0] and root.fn.ins_dominates(y, x):
                return is_ld(b[1], kh("salt"))
        return False

    kho = khoff(L)

    def kh(n):
        return tm.add(th("kh"), const(kho[n]))

    def field(n):
        return lambda t: t is not None and is_ld(t, kh(n))

    return [("type", 8, lambda t: t is not None and t.is_const and t.const == int.from_bytes(b"nudb.log", "big")),
            ("version", 2, lambda t: t is not None and t.is_const and t.const == 2),
            ("uid", 8, field("uid")), ("appnum", 8, field("appnum")), ("key size", 2, field("key_size")),
            ("salt", 8, field("salt")), ("pepper", 8, pepper), ("block size", 2, field("block_size")),
            ("key file size", 8, sizeof("kf")), ("data file size", 8, sizeof("df"))]


def khoff(L):
    if not hasattr(L, "_khoff"):
        t = L.mod.type("key_file_header", "nudb::detail")
        L._khoff = {p: o for o, s, p, ty in L.mod.fields(t)}
    return L._khoff


def pepper_off(L):
    return khoff(L)["pepper"]


def khterm(L, n):
    return tm.add(L.this("kh"), const(khoff(L)[n]))


def check_header(bs, spec):
    """names of the fields whose bytes are not the expected big-endian value"""
    bad = []
    off = 0
    for name, n, pred in spec:
        v = be(bs[off:off + n])
        if not pred(v):
            bad.append(name)
        off += n
    return bad


def hdr_len(spec):
    return sum(n for _, n, _ in spec)


class Caches:
    """the commit's local caches: the one swapped into the store and the others (pre-images)"""

    def __init__(self, root):
        ops = classify(root)
        L = root.lib
        c1 = L.this("c1")
        local = {}
        for i, o in ops.items():
            if o.k == "ccache_t" and len(o.a) >= 3:
                b, _ = split_ptr(o.a[0])
                if b is not None and b.k == "alloca":
                    local[o.a[0].id] = o.a[0]
        self.pub = None
        for i, o in ops.items():
            if o.k == "swap" and len(o.a) == 2:
                for p, q in (o.a, o.a[::-1]):
                    if q is c1 and p.id in local:
                        self.pub = p
        if self.pub is None:
            raise AnchorError("the commit does not publish a locally built bucket cache")
        self.log = {i: t for i, t in local.items() if i != self.pub.id}
        self.c1 = c1
        moff = map_off(L)
        self.mapof = {}
        for t in list(local.values()) + [c1]:
            self.mapof[tm.add(t, const(moff)).id] = t


def map_off(L):
    if not hasattr(L, "_moff"):
        t = L.mod.type("cache_t<void>", "nudb::detail")
        for o, s, p, ty in L.mod.fields(t):
            if p == "map_":
                L._moff = o
                break
    return L._moff


def pmap_off(L):
    if not hasattr(L, "_pmoff"):
        t = L.mod.type("pool_t<void>", "nudb::detail")
        for o, s, p, ty in L.mod.fields(t):
            if p == "map_":
                L._pmoff = o
                break
    return L._pmoff


# ------------------------------------------------------------------------------- C01
class LogFirst(MidAut):
    def setup(self):
        self.spec = hdr_expect(self.root, None)

    def on_call(self, ev, op, st):
        if op is None:
            return None
        m = op.mutates
        if m in ("df", "kf", "?"):
            if op.k == "erase":
                return None
            self.oblige("data/key file change preceded by durable log header", ev)
            if "sync" not in st:
                self.report(ev, f"{op.k} may change the {name(m)} while the log header is not yet "
                            f"{'synced' if 'hdr' in st else 'written'}")
        if op.k == "write" and op.role == "lf":
            self.oblige("log header content", ev)
            off, buf, n = op.a[1], op.a[2], op.a[3]
            want = hdr_len(self.spec)
            if not (off.is_const and off.const == 0):
                return None
            if not (n.is_const and n.const == want):
                self.report(ev, f"log header is {n} bytes long, expected {want}")
                return None
            bad = check_header(bytes_of(self.vn, ev.ins, buf, want), self.spec)
            if bad:
                self.report(ev, f"log header field(s) {', '.join(bad)} do not carry the store's value")
        if op.role == "lf" and op.k in ("trunc", "erase"):
            return st - {"hdr", "sync"}
        return None

    def on_ok(self, ev, op, st):
        if op is None or op.role != "lf":
            return None
        if op.k == "write" and op.a[1].is_const and op.a[1].const == 0:
            return (st | {"hdr"}) - {"sync"}
        if op.k == "sync" and "hdr" in st:
            return st | {"sync"}
        return None


def name(role):
    return {"df": "data file", "kf": "key file", "lf": "log file"}.get(role, "file")


@rule("C01")
def log_header_first(res, L):
    for r in ROOTS:
        aut = LogFirst()
        run(res, "log_header_first", L["mid"].root(r), aut)
        need(res, "log_header_first", L["mid"].root(r), aut, "data/key file change preceded by durable log header",
             "no data or key file change found in the commit")
        need(res, "log_header_first", L["mid"].root(r), aut, "log header content", "the commit writes no log header")


def need(res, rulename, root, aut, ob, msg):
    if not any(k[0] == ob for k in aut.ob):
        res.fail(rulename, root.fn.dem.split("(")[0], root.name, msg)


# ------------------------------------------------------------------------------- C02
def counters(root, member):
    """phi atoms that carry the local copy of a store counter across the commit loops"""
    fn, vn, L = root.fn, root.vn, root.lib
    web, rest = set(), {}
    start = L.this(member)
    phis = {}
    for b in fn.rpo:
        for x in fn.blocks[b]:
            if x.op == "phi":
                t = vn.t.get(x.id)
                a = t.atom() if t is not None else None
                if a is not None and a.k == "phi":
                    phis[a.id] = (t, [vn.op(v) for p, v in x.j["in"] if p not in fn.dead and p in fn.rpon])
    web = {}
    ch = True
    while ch:
        ch = False
        for i, (t, ins) in phis.items():
            if i in web:
                continue
            for v in ins:
                if is_ld(v, start) or (v.atom() is not None and v.atom().id in web):
                    web[i] = t
                    ch = True
                    break
    return web, phis, start


def atoms_of(t):
    return {a.id for a in t.atoms()}


class PreImage(MidAut):
    def setup(self):
        root = self.root
        self.ca = Caches(root)
        self.fe = Foreach(root)
        self.web, self.phis, self.start_ = counters(root, "buckets_")
        self.headers = {h for h in self.fn.loops}
        self.wants_edges = True

    wants_edges = True

    def bs(self, n, off):
        """off == (n+1) * block size"""
        d = tm.add(n, const(1))
        b = atom("ld", khterm(self.L, "block_size"), None)
        return off is tm.mul(d, b)

    def fresh(self, n):
        a = n.atom()
        return a is not None and (a.id in self.web or is_ld(n, self.start_))

    def obj(self, t):
        return t.id

    def on_call(self, ev, op, st):
        if op is None:
            if ev.qn.startswith("llvm.memcpy"):
                pass
            return None
        k = op.k
        ca = self.ca
        if k in ("cinsert", "ccreate"):
            which = op.a[1] if k == "ccreate" else op.a[0]
            n = op.a[2] if k == "ccreate" else op.a[1]
            if which is ca.pub:
                self.oblige("bucket entering the new view has its original image recorded", ev)
                if k == "ccreate":
                    if not self.fresh(n):
                        self.report(ev, "a bucket that is not the newly added one is created empty: its original content "
                                    "would be neither kept nor logged")
                elif ("pre", n.id) not in st:
                    self.report(ev, "a bucket enters the set to be written without its original image being recorded "
                                "for the log")
                elif k == "cinsert" and not any(f[0] == "same" and f[1] == n.id and f[2] == op.a[2].id for f in st if isinstance(f, tuple)):
                    self.report(ev, "a bucket enters the set to be written with content other than the current one")
            elif which.id in ca.log:
                self.oblige("original bucket image is the confirmed key file content", ev)
                if k == "ccreate":
                    self.report(ev, "an empty bucket is recorded as original image")
                    return None
                b = op.a[2]
                off = [f[2] for f in st if isinstance(f, tuple) and f[0] == "c" and f[1] == b.id]
                if not off or not self.bs(n, self.T(off[0])):
                    self.report(ev, "the image recorded for the log is not the bucket read from its place in the key file")
                    return None
                return (st | {("pre", n.id), ("same", n.id, b.id), ("has", which.id)}) - {("all", which.id)}
        if k == "bread":
            return frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in ("c", "same")))
        if k in ("binsert", "berase", "bclear", "bspill", "spillout"):
            b = op.a[0]
            for f in st:
                if isinstance(f, tuple) and f[0] == "v" and f[1] == b.id and f[2] in ca.log:
                    self.report(ev, "an original bucket image kept for the log is modified")
            return frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in ("c", "same") and b.id in f[1:]))
        if k == "cclear" or (k == "swap" and any(t.id in ca.log for t in op.a)):
            for t in op.a:
                if t.id in ca.log and ("has", t.id) in st and ("all", t.id) not in st:
                    self.report(ev, "original bucket images are dropped before being written to the log")
        if k == "bctor":
            v = self.view(op.a[2]) if len(op.a) > 2 else None
            st = frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in ("v", "c", "same") and op.a[0].id in f[1:3]))
            if v is not None:
                return st | {("v", op.a[0].id, v[0].id)} | ({("same", v[1].id, op.a[0].id)} if v[1] is not None else frozenset())
            return st
        if k == "bencode":
            self.encode(ev, op)
            return st | {"enc"} if "elem" in st else None
        if k == "wprepare" and op.role == "lf":
            return st - {"flushed", "synced"}
        if op.mutates == "kf":
            self.oblige("key file changed only after every original bucket is durable in the log", ev)
            live = [i for i in ca.log]
            miss = [i for i in live if ("all", i) not in st]
            if miss or not ca.log:
                self.report(ev, "the key file is changed before every original bucket image has been written to the log")
            elif "synced" not in st:
                self.report(ev, "the key file is changed before the log is "
                            + ("synced" if "flushed" in st else "flushed and synced"))
        return None

    def T(self, tid):
        return TERM[tid]

    def view(self, p):
        """(cache, index or None) whose memory a bucket pointer designates"""
        a = p.atom()
        if a is None or a.k != "ld":
            return None
        base, off = split_ptr(a.p[0])
        if base is None:
            return None
        if base.k == "ev":
            c = base.p[0].atom() if isinstance(base.p[0], T) else None
            if c is not None and c.k == "call":
                o = self.ops.get(c.p[-1])
                if o is not None and o.k in ("cfind", "cinsert"):
                    return o.a[0], o.a[1]
        if base.k == "phi" and base.id in self.fe.loops:
            cont = self.fe.loops[base.id][0]
            c = self.ca.mapof.get(cont.id)
            if c is not None:
                return c, None
        return None

    def on_copy(self, ev, st):
        d, s = ev.args[0], ev.args[1]
        if not ev.qn.startswith("llvm.memcpy") or not (ev.args[2].is_const and ev.args[2].const == 32):
            return None
        st2 = set(f for f in st if not (isinstance(f, tuple) and f[0] in ("v", "c", "same") and
                                        d.id in (f[2:] if f[0] == "same" else f[1:2])))
        for f in st:
            if isinstance(f, tuple):
                if f[0] in ("v", "c") and f[1] == s.id:
                    st2.add((f[0], d.id, f[2]))
                if f[0] == "same" and f[2] == s.id:
                    st2.add(("same", f[1], d.id))
        return frozenset(st2)

    def encode(self, ev, op):
        """a log record: 8-byte big-endian bucket index, then the compact bucket"""
        vn = self.vn
        b, os = op.a[0], op.a[1]
        buf = vn.load_at(ev.ins, os, 8)
        self.oblige("log record layout", ev)
        base, off = split_ptr(buf) if buf is not None else (None, None)
        prep = None
        if base is not None and base.k == "ev":
            c = base.p[0].atom()
            if c is not None and c.k == "call":
                prep = self.ops.get(c.p[-1])
        if prep is None or prep.k != "wprepare" or prep.role != "lf":
            self.report(ev, "an original bucket image is not written to the log's buffered writer")
            return
        if not (off.is_const and off.const == 8):
            self.report(ev, "the bucket in a log record does not follow an 8-byte index")
            return
        idx = be(bytes_of(vn, ev.ins, tm.sub(buf, const(8)), 8))
        a = idx.atom() if idx is not None else None
        pb = None
        if a is not None and a.k == "ld":
            pb, po = split_ptr(a.p[0])
        if pb is None or pb.k != "phi" or pb.id not in self.fe.loops or not (po.is_const and po.const == 8):
            self.report(ev, "the index of a log record is not the index of the bucket it holds")
            return
        cont = self.fe.loops[pb.id][0]
        if self.ca.mapof.get(cont.id) is None or self.ca.mapof[cont.id].id not in self.ca.log:
            self.report(ev, "the log record does not hold an original bucket image")
        # the bucket comes from the same element
        p = vn.load_at(ev.ins, tm.add(b, const(24)), 8)
        size = vn.load_at(ev.ins, tm.add(b, const(8)), 8)
        if size is not None:
            want = tm.add(tm.scale(size, 18), const(16))
            if prep.a[-2] is not want:
                self.report(ev, "the space reserved for a log record is not its encoded size")

    def on_ok(self, ev, op, st):
        if op is None:
            return None
        if op.k == "bread" and op.role == "kf":
            TERM[op.a[2].id] = op.a[2]
            return st | {("c", op.a[0].id, op.a[2].id)}
        if op.role == "lf":
            if op.k == "wflush":
                return st | {"flushed"}
            if op.k == "sync" and "flushed" in st:
                return st | {"synced"}
            if op.k == "trunc":
                return st - {"flushed", "synced"}
        return None

    def on_assume(self, ev, st):
        a, val = ev.args
        r = self.fe.test(a, val)
        if r is not None:
            cont, phi, done = r
            c = self.ca.mapof.get(cont.id)
            if c is not None and c.id in self.ca.log:
                if "elem" in st and "enc" not in st:
                    self.report(ev, "an original bucket image is not written to the log")
                st = st - {"elem", "enc"}
                return st | ({("all", c.id)} if done else {"elem"})
            return None
        # result of a lookup in the pre-image cache
        if isinstance(a, tm.Atom) and a.k == "eq" and not val:
            d = a.p[0]
            f = e = None
            for mono, co in d.m.items():
                if len(mono) != 1:
                    return None
                if mono[0].k == "ev":
                    cc = mono[0].p[0].atom()
                    if cc is not None and cc.k == "call":
                        f = self.ops.get(cc.p[-1])
                elif mono[0].k == "call":
                    e = self.fe.ends.get(tm.mk({mono: 1}).id)
            if f is not None and f.k == "cfind" and e is not None and f.a[0].id in self.ca.log \
                    and self.ca.mapof.get(e.id) is f.a[0]:
                return st | {("pre", f.a[1].id)}
        return None

    def on_edge(self, ev, st):
        b, d = ev.args
        if d in self.headers and b in self.fn.loops[d]:
            # a new iteration: index terms denote other values
            return frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in ("pre", "same", "c")))
        return None


TERM = {}


@rule("C02")
def preimages_first(res, L):
    for r in ROOTS:
        root = L["mid"].root(r)
        aut = PreImage()
        run(res, "preimages_first", root, aut)
        for ob, msg in (("key file changed only after every original bucket is durable in the log",
                         "the commit never changes the key file"),
                        ("original bucket image is the confirmed key file content",
                         "the commit records no original bucket image"),
                        ("log record layout", "the commit writes no log record")):
            need(res, "preimages_first", root, aut, ob, msg)


# ------------------------------------------------------------------------------- C03
class Finalize(MidAut):
    def setup(self):
        self.ca = Caches(self.root)
        self.fe = Foreach(self.root)
        self.ec = self.L.this("ec_").id

    def on_call(self, ev, op, st):
        if op is None:
            return None
        k, r = op.k, op.role
        st0 = st
        if k == "write" and r == "lf":
            st = st | {"hdr"}
        if r == "df" and k in ("wprepare", "spillout"):
            st = st | {"dfb", "dfw"}
        if r == "df" and op.mutates:
            st = st | {"dfw"}
        if r == "kf" and op.mutates:
            st = (st | {"kfw"}) - {"wr"}
            if k == "bwrite" and "elem" in st:
                self.oblige("bucket written to its own block", ev)
                msg = self.placed(ev, op)
                if msg:
                    self.report(ev, msg)
        if k in ("cinsert", "ccreate"):
            which = op.a[1] if k == "ccreate" else op.a[0]
            if which is self.ca.pub:
                st = st | {"newb"}
        if (k == "trunc" or k == "erase") and r == "lf" and "hdr" in st:
            self.oblige("log discarded only when data and key file are durable", ev)
            why = []
            if "dfb" in st:
                why.append("data file records are still buffered")
            if "dfw" in st:
                why.append("the data file is not synced")
            if "kfall" not in st:
                why.append("not every new bucket has been written to the key file")
            if "kfw" in st:
                why.append("the key file is not synced")
            if k == "erase" and "done" not in st:
                why.append("the log has not been emptied and synced")
            if why:
                self.report(ev, "the log is discarded although " + " and ".join(why))
        if k in ("write", "wprepare", "wflush", "trunc") and r == "lf":
            st = st - {"done", "tr"}
        return st if st is not st0 else None

    def placed(self, ev, op):
        vn = self.vn
        b, off = op.a[0], op.a[2]
        bsz = atom("ld", khterm(self.L, "block_size"), None)
        for i, (cont, phi, h) in self.fe.loops.items():
            if self.ca.mapof.get(cont.id) is not self.ca.c1 and self.ca.mapof.get(cont.id) is not self.ca.pub:
                continue
            idx = [a for a in off.atoms() if a.k == "ld" and a.p[0] is tm.add(phi, const(8))]
            for a in idx:
                if off is tm.mul(tm.add(tm.mk({(a,): 1}), const(1)), bsz):
                    return None
        return "a bucket is not written at (index + 1) * block size"

    def on_ok(self, ev, op, st):
        if op is None:
            return None
        k, r = op.k, op.role
        if r == "df" and k == "wflush":
            return st - {"dfb"}
        if r == "df" and k == "sync" and "dfb" not in st:
            return st - {"dfw"}
        if r == "kf" and k == "bwrite":
            return st | {"wr"}
        if r == "kf" and k == "sync":
            return st - {"kfw"}
        if r == "lf" and k == "trunc" and op.a[1].is_const and op.a[1].const == 0:
            return st | {"tr"}
        if r == "lf" and k == "sync" and "tr" in st:
            return st | {"done"}
        return None

    def on_assume(self, ev, st):
        r = self.fe.test(*ev.args)
        if r is None:
            return None
        cont, phi, done = r
        c = self.ca.mapof.get(cont.id)
        if c is self.ca.c1 or c is self.ca.pub:
            if "elem" in st and "wr" not in st:
                self.report(ev, "a new bucket is not written to the key file")
            st = st - {"elem", "wr"}
            return st | ({"kfall"} if done else {"elem"})
        return None

    def on_ret(self, ev, st):
        if "hdr" in st and ev.flow.ecstate(ev.ecs, self.ec) in ("ok",):
            self.oblige("successful commit ends with an empty, synced log", ev)
            if "done" not in st:
                self.report(ev, "the commit reports success without having emptied and synced the log")
        return None


@rule("C03")
def finalize_order(res, L):
    for r in ROOTS:
        root = L["mid"].root(r)
        aut = Finalize()
        run(res, "finalize_order", root, aut, ec_init={root.lib.this("ec_"): "ok"})
        for ob, msg in (("log discarded only when data and key file are durable", "the commit never discards the log"),
                        ("successful commit ends with an empty, synced log", "no successful commit path found"),
                        ("bucket written to its own block", "the commit writes no bucket to the key file")):
            need(res, "finalize_order", root, aut, ob, msg)
