"""What a commit does with each buffered record, and what a split does with each bucket entry."""
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import split_ptr, AnchorError
from .common import *
from .commit import Caches, counters, pmap_off, map_off, khterm, need, name

ROOTS = ("flush", "close")


def sel_form(root, t, depth=0):
    """rewrite a two-way merge (phi of an if/else or if) as a conditional value"""
    a = t.atom() if t is not None else None
    if a is None or a.k != "phi" or depth > 3:
        return t
    x = root.fn.ins.get(a.p[-1])
    if x is None or x.op != "phi":
        return t
    fn, vn = root.fn, root.vn
    ins = [(p, v) for p, v in x.j["in"] if p in fn.rpon and p not in fn.dead]
    if len(ins) != 2 or x.bb in fn.loops:
        return t
    d = fn.idom[x.bb]
    tr = fn.blocks[d][-1]
    if tr.op != "br" or "cond" not in tr.j:
        return t
    side = {}
    for p, v in ins:
        for k, s in enumerate(tr.j["succ"]):
            if (p == d and s == x.bb) or (s != x.bb and fn.dominates(s, p) and fn.pred[s] == [d]):
                side[k] = vn.op(v)
    if len(side) != 2:
        return t
    l = vn.lit(tr.j["cond"])
    if l is True or l is False:
        return side[0] if l else side[1]
    ct, pol = l
    x1, x0 = (side[0], side[1]) if pol else (side[1], side[0])
    return atom("sel", ct, sel_form(root, x1, depth + 1), sel_form(root, x0, depth + 1))


def as_index(root, t):
    """t == bucket_index(h, buckets, modulus)  ->  (h, buckets, modulus)"""
    t = sel_form(root, t)
    a = t.atom() if t is not None else None
    if a is None or a.k != "sel":
        return None
    c = a.p[0].atom()
    if c is None or c.k != "ult":
        return None
    r, b = c.p
    x, y = a.p[1], a.p[2]
    ra = r.atom()
    if ra is None or ra.k != "op" or ra.p[0] != "urem" or x is not r:
        return None
    h, m = ra.p[1], ra.p[2]
    if tm.sub(r, y) is not tm.lshr(m, 1):
        return None
    return h, b, m


class Pairs:
    """pairs of terms that hold a matching bucket count and modulus"""

    def __init__(self, root):
        self.root = root
        self.b0, self.m0 = root.lib.this("buckets_"), root.lib.this("modulus_")

    def ok(self, b, m, seen=None):
        seen = seen if seen is not None else set()
        if (b.id, m.id) in seen:
            return True
        seen.add((b.id, m.id))
        root = self.root
        if is_ld(b, self.b0) and is_ld(m, self.m0):
            return True
        ba, ma = b.atom(), m.atom()
        # one more bucket
        b1 = tm.sub(b, const(1))
        ms = sel_form(root, m).atom()
        if ms is not None and ms.k == "sel":
            c = ms.p[0].atom()
            if c is not None and c.k == "eq" and ms.p[1] is tm.scale(ms.p[2], 2):
                old = ms.p[2]
                d = tm.sub(b1, old)
                if c.p[0] is d or c.p[0] is tm.scale(d, -1):
                    if self.ok(b1, old, seen):
                        return True
        if ba is not None and ma is not None and ba.k == "phi" and ma.k == "phi":
            x, y = root.fn.ins.get(ba.p[-1]), root.fn.ins.get(ma.p[-1])
            if x is not None and y is not None and x.bb == y.bb:
                iy = {p: v for p, v in y.j["in"]}
                for p, v in x.j["in"]:
                    if p in root.fn.dead or p not in root.fn.rpon:
                        continue
                    if not self.ok(root.vn.op(v), root.vn.op(iy[p]), seen):
                        return False
                return True
        return False


class Records(MidAut):
    """C04: every record of the pool reaches the data file and the index, before it is published"""
    wants_loads = True

    def setup(self):
        L = self.L
        self.fe = Foreach(self.root)
        self.p0, self.p1 = L.this("p0"), L.this("p1")
        self.map0 = tm.add(self.p0, const(pmap_off(L)))
        self.c1 = L.this("c1")
        self.ks = atom("ld", khterm(L, "key_size"), None)
        self.pool = {i: v for i, v in self.fe.loops.items() if v[0] is self.map0}
        self.ca = Caches(self.root)

    def it(self, t, off):
        """the pool loop phi such that t is a load from phi+off"""
        a = t.atom() if t is not None else None
        if a is None or a.k != "ld":
            return None
        b, o = split_ptr(a.p[0])
        if b is not None and b.id in self.pool and o.is_const and o.const == off:
            return self.pool[b.id][1]
        return None

    def on_load(self, ev, st):
        base, off = split_ptr(ev.args[0])
        if base is not None and base.k == "alloca" and tm.mk({(base,): 1}).id in self.root.writers and off.is_const \
                and off.const in (24, 32):
            return st | {("l", ev.ins.id)}
        return None

    def on_call(self, ev, op, st):
        if op is None:
            return None
        k = op.k
        if k == "swap" and len(op.a) == 2:
            s = {op.a[0].id, op.a[1].id}
            if s == {self.p0.id, self.p1.id}:
                self.oblige("inserted records are taken over as a whole", ev)
                return frozenset({"taken"})
            if self.c1.id in s and self.ca.pub.id in s:
                self.oblige("publication only after every record is in the data file and the index", ev)
                why = []
                if "alldata" not in st:
                    why.append("not every inserted record has been written to the data file")
                if "allidx" not in st:
                    why.append("not every inserted record has been entered in a bucket")
                if "dfb" in st:
                    why.append("buffered data has not been written out")
                if why:
                    self.report(ev, "the new view is published although " + " and ".join(why))
        if k == "pclear":
            if op.a[0] is self.p0 and not has(st, "alldata", "allidx"):
                self.report(ev, "inserted records are dropped before they are in the data file and the index")
            if op.a[0] is self.p1:
                self.report(ev, "records inserted since the commit started are dropped")
        if k == "wprepare" and op.role == "df":
            st = frozenset(("lp", f[1]) if isinstance(f, tuple) and f[0] == "l" else f for f in st
                           if not (isinstance(f, tuple) and f[0] == "lp")) | {"dfb"}
            if "elem" in st:
                self.oblige("data record reserved with its encoded size", ev)
                t = op.a[-2]
                d = tm.sub(t, tm.add(self.ks, const(6)))
                if self.it(d, 40) is None:
                    self.report(ev, "the space reserved for a data record is not size field + key + value")
                st = st | {("prep", ev.ins.id)}
            return st
        if k in ("spillout", "wflush") and op.role == "df":
            st = frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in ("l", "lp")))
            return st | {"dfb"} if k == "spillout" else st
        if k == "binsert" and "elem" in st:
            f = [self.it(op.a[1], 64), self.it(op.a[2], 40), self.it(op.a[3], 32)]
            if all(z is not None for z in f):
                self.oblige("index entry carries the record's offset, size and hash", ev)
                if not ("so" in st or "alldata" in st):
                    self.report(ev, "a record is entered in a bucket before its data file offset is known")
                return st | {"idx"}
        return None

    def on_store(self, ev, st):
        ptr, val = ev.args
        b, o = split_ptr(ptr)
        if b is None or b.id not in self.pool or not (o.is_const and o.const == 64):
            return None
        self.oblige("record offset taken from the writer right before the record is appended", ev)
        ids = []
        offs = set()
        for mono, c in val.m.items():
            if len(mono) != 1 or c != 1 or mono[0].k != "ld":
                ids = None
                break
            pb, po = split_ptr(mono[0].p[0])
            if pb is None or tm.mk({(pb,): 1}).id not in self.root.writers or \
                    self.root.writers[tm.mk({(pb,): 1}).id] != "df":
                ids = None
                break
            ids.append(mono[0].p[1])
            offs.add(po.const)
        if not ids or offs != {24, 32}:
            self.report(ev, "the offset kept for a record is not the data writer's position")
            return st | {"so"}
        if all(("l", i) in st for i in ids):
            if any(isinstance(f, tuple) and f[0] == "prep" for f in st):
                self.report(ev, "the offset kept for a record is taken after the record was appended")
            return st | {"so"}
        if all(("lp", i) in st for i in ids):
            return st | {"so"}
        self.report(ev, "the offset kept for a record is stale: the writer has moved since it was read")
        return st | {"so"}

    def on_copy(self, ev, st):
        if "elem" not in st:
            return None
        d, s, n = ev.args[:3]
        b, o = split_ptr(d)
        if b is None or b.k != "ev":
            return None
        c = b.p[0].atom()
        if c is None or c.k != "call" or ("prep", c.p[-1]) not in st:
            return None
        vn = self.vn
        if o.is_const and o.const == 6:
            if self.it(s, 48) is not None and n is self.ks:
                st = st | {"key"}
            else:
                self.report(ev, "the key stored in a data record is not the record's key")
        elif tm.sub(o, const(6)) is self.ks:
            if self.it(s, 56) is not None and self.it(n, 40) is not None:
                st = st | {"val"}
            else:
                self.report(ev, "the value stored in a data record is not the record's value")
        else:
            return None
        v = be(bytes_of(vn, ev.ins, tm.sub(d, o), 6))
        if self.it(v, 40) is not None:
            st = st | {"size"}
        return st

    def on_ok(self, ev, op, st):
        if op is not None and op.role == "df" and op.k == "wflush":
            return st - {"dfb"}
        return None

    ELEM = {"elem", "so", "idx", "key", "val", "size"}

    def on_assume(self, ev, st):
        r = self.fe.test(*ev.args)
        if r is None or r[0] is not self.map0:
            return None
        h = self.fe.loops[r[1].atom().id][2]
        if "elem" in st:
            if not has(st, "so", "key", "val", "size"):
                st = st | {("md", h)}
                if any(isinstance(f, tuple) and f[0] == "prep" for f in st):
                    miss = [w for f, w in (("so", "offset"), ("size", "size field"), ("key", "key"), ("val", "value")) if f not in st]
                    self.report(ev, "a data record is appended without its " + ", ".join(miss))
            if "idx" not in st:
                st = st | {("mi", h)}
        st = frozenset(f for f in st if f not in self.ELEM and not (isinstance(f, tuple) and f[0] in ("prep", "l", "lp")))
        if not r[2]:
            return st | {"elem"}
        if ("md", h) not in st:
            st = st | {"alldata"}
        if ("mi", h) not in st:
            st = st | {"allidx"}
        return frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in ("md", "mi")))


@rule("C04")
def every_record_committed(res, L):
    for r in ROOTS:
        root = L["mid"].root(r)
        aut = Records()
        run(res, "every_record_committed", root, aut)
        for ob in ("inserted records are taken over as a whole",
                   "publication only after every record is in the data file and the index",
                   "data record reserved with its encoded size",
                   "index entry carries the record's offset, size and hash",
                   "record offset taken from the writer right before the record is appended"):
            need(res, "every_record_committed", root, aut, ob, f"not found in the commit: {ob}")


# ------------------------------------------------------------------------------- C05 / C06
class Split(MidAut):
    """bucket entries are never lost, duplicated or overfilled; spill chains are read after they are written"""
    wants_edges = True
    wants_loads = True

    def setup(self):
        root = self.root
        L = self.L
        self.ca = Caches(root)
        self.fe = Foreach(root)
        self.pairs = Pairs(root)
        self.cap = atom("ld", khterm(L, "capacity"), None)
        self.bs = atom("ld", khterm(L, "block_size"), None)
        self.map0 = tm.add(L.this("p0"), const(pmap_off(L)))
        # spill chain pointers: the offsets buckets are read from in the data file
        self.want = {"C05": set(), "C06": set()}
        self.idxphi = {}
        for h, body in self.fn.loops.items():
            for x in self.fn.blocks[h]:
                if x.op == "phi":
                    t = self.vn.t.get(x.id)
                    if t is not None and t.atom() is not None:
                        self.idxphi[t.atom().id] = (x, h)

    def rep(self, ev, prop, msg):
        if prop == self.prop:
            self.report(ev, msg)

    def obl(self, ev, prop, msg):
        if prop == self.prop:
            self.oblige(msg, ev)

    # --- views: which bucket index an object stands for
    def ix(self, st, obj):
        r = [f[2] for f in st if isinstance(f, tuple) and f[0] == "ix" and f[1] == obj.id]
        return TERMS[r[0]] if r else None

    def setix(self, st, obj, n):
        st = frozenset(f for f in st if not (isinstance(f, tuple) and f[0] == "ix" and f[1] == obj.id))
        if n is None:
            return st
        TERMS[n.id] = n
        return st | {("ix", obj.id, n.id)}

    def drop(self, st, kinds, obj):
        return frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in kinds and f[1] == obj.id))

    def on_call(self, ev, op, st):
        if op is None:
            return None
        k = op.k
        if k == "bctor":
            o = op.a[0]
            st = self.drop(st, ("room", "fresh", "ix", "cleared"), o)
            if len(op.a) > 2:
                a = op.a[2].atom()
                if a is not None and a.k == "ld":
                    b, _ = split_ptr(a.p[0])
                    if b is not None and b.k == "ev":
                        c = b.p[0].atom()
                        q = self.ops.get(c.p[-1]) if c is not None and c.k == "call" else None
                        if q is not None and q.k in ("cfind", "cinsert"):
                            return self.setix(st, o, q.a[1])
            return st
        if k == "ccreate":
            o = op.a[0]
            st = self.setix(self.drop(st, ("room", "fresh", "cleared"), o), o, op.a[2])
            return st | {("fresh", o.id), "newb"}
        if k == "bat":
            s, src, i = op.a
            st = frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in ("at", "as")))
            if any(isinstance(f, tuple) and f[0] == "owe" for f in st):
                self.rep(ev, "C05", "a moved bucket entry is not erased from the bucket it came from")
            if any(isinstance(f, tuple) and f[0] == "due" for f in st):
                self.rep(ev, "C05", "a bucket entry is erased without having been moved to another bucket")
            TERMS[i.id] = i
            return st | {("at", s.id, src.id, i.id)}
        if k == "spillout":
            b = op.a[0]
            if ("chain", b.id) in st and ("cleared", b.id) not in st:
                self.rep(ev, "C05", "a bucket whose spill chain is being redistributed may be spilled with its old chain attached")
            return self.drop(st, ("room",), b) | {"dfb"}
        if k == "wprepare" and op.role == "df":
            return frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in ("l", "inwin"))) | {"dfb"}
        if k == "wflush" and op.role == "df":
            return frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in ("l", "inwin")))
        if k == "bspill":
            if op.a[1].is_const and op.a[1].const == 0:
                return st | {("cleared", op.a[0].id)}
            return None
        if k == "bread" and op.role == "df":
            self.obl(ev, "C05", "spill record read only when it is in the file")
            off = op.a[2]
            if "dfb" in st and not any(isinstance(f, tuple) and f[0] == "inwin" and self.below(TERMS[f[1]], off) for f in st):
                self.rep(ev, "C05", "a spill record is read although it may still be in the write buffer")
            self.chain(ev, off)
            self.tails(ev, st)
            st = frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in ("ent", "tail", "exh")
                                                 and (f[0] != "exh" or f[1] == op.a[0].id)))
            return st | {("ent", op.a[0].id), ("tail", op.a[0].id)}
        if k == "binsert":
            return self.insert(ev, op, st)
        if k == "berase":
            b, i = op.a
            own = [f for f in st if isinstance(f, tuple) and f[0] == "owe"]
            if own and own[0][1] == b.id and own[0][2] == i.id:
                return (st - set(own)) | {"erased"}
            if any(isinstance(f, tuple) and f[0] == "at" and f[2] == b.id and f[3] == i.id for f in st):
                # erased first: its copy has to be inserted before the next entry is looked at
                return st | {"erased", ("due", b.id, i.id)}
            self.rep(ev, "C05", "a bucket entry is erased without having been moved to another bucket")
            return st | {"erased"}
        if k in ("cfind", "cinsert") and op.a[0].id in {self.ca.pub.id, *self.ca.log}:
            self.index_used(ev, op.a[1], st)
        return None

    def below(self, y, off):
        """the start of the window, known to be at least y, is past the start of the bucket at off"""
        d = tm.sub(y, off)
        return d.const >= -7 and all(c > 0 for m, c in d.m.items() if m) and \
            all(m == n for m in d.m if m for n in self.cap.m)

    def chain(self, ev, off):
        """the offset comes from the spill link of a bucket"""
        seen, st = set(), [off]
        while st:
            t = st.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            a = t.atom()
            if a is not None and a.k == "ld":
                b, o = split_ptr(a.p[0])
                if o.is_const and o.const == 16 and b is not None and b.k == "alloca":
                    continue
            if a is not None and a.k == "phi":
                x = self.fn.ins.get(a.p[-1])
                st.extend(self.vn.op(v) for p, v in x.j["in"] if p in self.fn.rpon and p not in self.fn.dead)
                continue
            if a is not None and a.k == "sel":
                st.extend(a.p[1:3])
                continue
            self.rep(ev, "C05", "the offset a spill record is read from is not a bucket's spill link")
            return

    def index_used(self, ev, n, st):
        """bucket indices the commit looks up: bucket_index(h, b, m), or the split pair"""
        self.obl(ev, "C06", "bucket looked up at its computed index")
        r = as_index(self.root, n)
        if r is not None:
            h, b, m = r
            if not self.pairs.ok(b, m):
                self.rep(ev, "C06", "a bucket index is computed from a bucket count and modulus that do not belong together")
            a = h.atom()
            pb, po = split_ptr(a.p[0]) if a is not None and a.k == "ld" else (None, None)
            if pb is None or pb.id not in self.fe.loops or self.fe.loops[pb.id][0] is not self.map0 or not (
                    po.is_const and po.const == 32):
                self.rep(ev, "C06", "the index of the bucket an inserted record goes to is not computed from its hash")
            return
        if self.split_source(n) is not None:
            return
        self.rep(ev, "C06", "a bucket is looked up at an index that is neither the record's bucket nor the bucket being split")

    def split_source(self, n):
        """n == b - m'/2 where (b+1, m') is a matching pair  -> (b, m')"""
        for mono, c in n.m.items():
            if c == -1 and len(mono) == 1 and mono[0].k == "lshr" and mono[0].p[1] == 1:
                m = mono[0].p[0]
                b = tm.add(n, tm.mk({mono: 1}))
                if self.pairs.ok(tm.add(b, const(1)), m):
                    return b, m
        return None

    def insert(self, ev, op, st):
        b, off, size, h = op.a
        self.obl(ev, "C05", "bucket has room for the entry it receives")
        at = [f for f in st if isinstance(f, tuple) and f[0] == "at"]
        src = None
        for f in at:
            s = f[1]
            if all(self.fld(t, s, o) for t, o in ((off, 0), (size, 16), (h, 8))):
                src = f
        pool = all(self.poolfld(t, o) for t, o in ((off, 64), (size, 40), (h, 32)))
        if src is None and not pool:
            self.rep(ev, "C05", "the entry inserted in a bucket does not carry offset, size and hash of one record")
            self.rep(ev, "C06", "the entry inserted in a bucket does not carry offset, size and hash of one record")
            return None
        st2 = st
        transfer = src is not None and ("fresh", b.id) in st and ("ent", src[2]) not in st
        if ("room", b.id) in st:
            st2 = self.drop(st2, ("room",), b)
        elif not transfer:
            self.rep(ev, "C05", "an entry is inserted in a bucket that was not checked for overflow since the last insertion")
        if src is not None and ("ent", src[2]) not in st:
            due = ("due", src[2], src[3])
            if due in st2:
                st2 = st2 - {due}
            else:
                st2 = st2 | {("owe", src[2], src[3])}
        if not transfer:
            st2 = self.drop(st2, ("fresh",), b)
        if ("chain", b.id) in st and ("cleared", b.id) not in st:
            self.rep(ev, "C05", "a bucket keeps its old spill chain while the chain's entries are redistributed")
        # the right bucket
        n = self.ix(st, b)
        self.obl(ev, "C06", "entry goes to the bucket its hash selects")
        if src is not None:
            dec = [f for f in st if isinstance(f, tuple) and f[0] == "as" and f[1] == src[1]]
            if n is None or not dec:
                self.rep(ev, "C06", "during a split an entry is moved without its bucket index having been computed")
            else:
                tgt = TERMS[dec[0][2]]
                if dec[0][3]:
                    good = n is tgt
                else:
                    ss = self.split_source(n)
                    good = ss is not None and (ss[0] is tgt or n is tgt)
                    if n is not tgt and ss is None:
                        good = False
                if not good:
                    self.rep(ev, "C06", "during a split an entry is put in the bucket its hash does not select")
        else:
            r = as_index(self.root, n) if n is not None else None
            if r is None or not (r[0].atom() is not None and r[0].atom().k == "ld" and h.atom() is not None
                                 and r[0].atom().p[0] is h.atom().p[0]):
                self.rep(ev, "C06", "an inserted record is entered in a bucket other than the one its hash selects")
        return st2 | {"ins"}

    def fld(self, t, s, o):
        a = t.atom()
        if a is None or a.k != "ld":
            return False
        return a.p[0] is tm.add(TERM_S(s), const(o))

    def poolfld(self, t, o):
        a = t.atom()
        if a is None or a.k != "ld":
            return False
        b, oo = split_ptr(a.p[0])
        return b is not None and b.id in self.fe.loops and self.fe.loops[b.id][0] is self.map0 and oo.is_const and oo.const == o

    def on_ok(self, ev, op, st):
        if op is None:
            return None
        if op.k == "spillout":
            return st | {("room", op.a[0].id)}
        if op.k == "wflush" and op.role == "df":
            return st - {"dfb"}
        return None

    def on_load(self, ev, st):
        base, off = split_ptr(ev.args[0])
        if base is None or base.k != "alloca" or not off.is_const:
            return None
        bt = tm.mk({(base,): 1})
        if bt.id in self.root.writers and off.const in (24, 32):
            return st | {("l", ev.ins.id)}
        if off.const == 16:
            # a bucket's spill link is read: its chain is about to be walked
            if any(isinstance(f, tuple) and f[0] == "ix" and f[1] == bt.id for f in st):
                return st | {("link", bt.id)}
        return None

    def on_copy(self, ev, st):
        d, s = ev.args[0], ev.args[1]
        if not ev.qn.startswith("llvm.memcpy") or not (ev.args[2].is_const and ev.args[2].const == 32):
            return None
        st2 = set(self.drop(st, ("room", "fresh", "ix", "cleared", "chain", "exh"), d))
        for f in st:
            if isinstance(f, tuple) and f[0] in ("room", "fresh", "ix", "cleared", "chain") and f[1] == s.id:
                st2.add((f[0], d.id) + f[2:])
        return frozenset(st2)

    def tails(self, ev, st):
        """a spill record's entries were all visited before moving on"""
        for f in st:
            if isinstance(f, tuple) and f[0] == "tail" and ("exh", f[1]) not in st:
                self.rep(ev, "C05", "not every entry of a spill record is redistributed")

    def finished(self, ev, st):
        """the split of this iteration is complete: every entry of the old bucket and of its chain was visited"""
        if "newb" not in st:
            return
        for f in st:
            if isinstance(f, tuple) and f[0] == "tail":
                self.rep(ev, "C05", "the spill chain of a split bucket is not followed to its end")
        done = False
        for f in st:
            if isinstance(f, tuple) and f[0] == "exh":
                n = self.ix(st, TERMS_BY_ID.get(f[1]))
                if n is not None and self.split_source(n) is not None:
                    done = True
        self.obl(ev, "C05", "every entry of the split bucket considered")
        if not done:
            self.rep(ev, "C05", "not every entry of the split bucket is considered for the new bucket")

    def on_assume(self, ev, st):
        a, val = ev.args
        if not isinstance(a, tm.Atom):
            return None
        if a.k == "eq" and val and len(a.p[0].m) == 1:
            (mono, c), = a.p[0].m.items()
            if len(mono) == 1 and mono[0].k == "ld":
                b, o = split_ptr(mono[0].p[0])
                if b is not None and b.k == "alloca" and o.is_const:
                    bt = tm.mk({(b,): 1})
                    if o.const == 8:
                        return st | {("exh", bt.id)}
                    if o.const == 16 and ("tail", bt.id) in st:
                        self.tails(ev, st)
                        return st - {("tail", bt.id)}
        end = None
        if a.k == "ult" and not val:
            end = a.p[0].atom(), a.p[1].atom()
        if a.k == "eq" and val and len(a.p[0].m) == 2 and sorted(a.p[0].m.values()) == [-1, 1]:
            # the index has become the number of entries
            x, y = (m[0] if len(m) == 1 else None for m in a.p[0].m)
            end = (x, y) if y is not None and y.k == "ld" else (y, x)
        if end is not None:
            x, y = end
            if y is not None and y.k == "ld" and x is not None and x.id in self.idxphi:
                b, o = split_ptr(y.p[0])
                if b is not None and b.k == "alloca" and o.is_const and o.const == 8:
                    ph, h = self.idxphi[x.id]
                    init = [self.vn.op(v) for p, v in ph.j["in"] if p not in self.fn.loops[h]]
                    if all(t.is_const and t.const == 0 for t in init):
                        return st | {("exh", tm.mk({(b,): 1}).id)}
        if a.k == "eq":
            d = a.p[0]
            # spill link known to be set
            for mono, c in d.m.items():
                if len(d.m) == 1 and len(mono) == 1 and mono[0].k == "ld":
                    b, o = split_ptr(mono[0].p[0])
                    if b is not None and b.k == "alloca" and o.is_const and o.const == 16 and not val:
                        bt = tm.mk({(b,): 1})
                        if ("link", bt.id) in st:
                            return st | {("chain", bt.id)}
            # bucket index of the entry under consideration compared with an index
            at = [f for f in st if isinstance(f, tuple) and f[0] == "at"]
            if at:
                for mono, c in d.m.items():
                    if len(mono) != 1 or c not in (1, -1):
                        continue
                    it = tm.mk({mono: 1})
                    r = as_index(self.root, it)
                    if r is None:
                        continue
                    if not self.fld(r[0], at[0][1], 8):
                        continue
                    other = tm.add(d, tm.mk({mono: -c}))
                    other = tm.scale(other, -c)
                    if not self.pairs.ok(r[1], r[2]):
                        self.rep(ev, "C06", "a bucket index is computed from a bucket count and modulus that do not belong together")
                    if other is not tm.sub(r[1], const(1)) and self.split_source(other) is None:
                        self.rep(ev, "C06", "during a split an entry's bucket index is compared with neither of the two buckets")
                    TERMS[other.id] = other
                    return st | {("as", at[0][1], other.id, val)}
        if a.k == "ult":
            # the spill record lies entirely below the buffered window
            # (a record is put into the buffer by one prepare, after a header of 8 bytes, so it
            # is in the file as soon as its bucket starts before the window)
            x, y = a.p
            if val:
                x, y = y, tm.add(x, const(1))
            xa = x.atom()
            if xa is not None and xa.k == "ld":
                b, o = split_ptr(xa.p[0])
                if b is not None and tm.mk({(b,): 1}).id in self.root.writers and o.is_const and o.const == 24 \
                        and ("l", xa.p[1]) in st:
                    TERMS[y.id] = y
                    return st | {("inwin", y.id)}
        return None

    def on_edge(self, ev, st):
        b, d = ev.args
        fn, vn = self.fn, self.vn
        if d not in fn.loops or b not in fn.loops[d]:
            return None
        # entry loop?
        at = [f for f in st if isinstance(f, tuple) and f[0] == "at"]
        if at:
            i = TERMS[at[0][3]]
            ia = i.atom()
            if ia is not None and ia.id in self.idxphi and self.idxphi[ia.id][1] == d:
                x = self.idxphi[ia.id][0]
                nv = [vn.op(v) for p, v in x.j["in"] if p == b][0]
                nv = self.value(nv, ev, i)
                src = at[0][2]
                self.obl(ev, "C05", "every entry of a split bucket is visited once")
                if any(isinstance(f, tuple) and f[0] == "owe" for f in st):
                    self.rep(ev, "C05", "a moved bucket entry is not erased from the bucket it came from")
                if any(isinstance(f, tuple) and f[0] == "due" for f in st):
                    self.rep(ev, "C05", "a bucket entry is erased without having been moved to another bucket")
                if ("ent", src) in st:
                    if "ins" not in st:
                        self.rep(ev, "C05", "an entry of a spill record is not put back in a bucket")
                    if nv is not tm.add(i, const(1)):
                        self.rep(ev, "C05", "entries of a spill record are not visited one by one")
                else:
                    want = i if "erased" in st else tm.add(i, const(1))
                    if nv is not want:
                        self.rep(ev, "C05", "an entry of the split bucket is skipped or visited twice")
                    dec = [f for f in st if isinstance(f, tuple) and f[0] == "as" and f[1] == at[0][1]]
                    if dec and "erased" not in st:
                        tgt = TERMS[dec[0][2]]
                        n2 = self.split_source(tgt) is None
                        moved_needed = dec[0][3] if n2 else not dec[0][3]
                        if moved_needed:
                            self.rep(ev, "C06", "an entry that belongs to the new bucket stays in the old one")
        if self.entry_loop(d):
            st = frozenset(f for f in st if f not in ("ins", "erased") and not (isinstance(f, tuple) and f[0] in ("at", "as", "owe", "due")))
        else:
            st = frozenset(f for f in st if f not in ("ins", "erased") and not (isinstance(f, tuple) and f[0] in
                           ("at", "as", "owe", "due", "inwin", "l")))
        cs = [c for i, (c, p, h) in self.fe.loops.items() if h == d]
        if any(c is self.map0 for c in cs):
            self.finished(ev, st)
        if cs:
            st = frozenset(f for f in st if not isinstance(f, tuple) and f != "newb")
        return st

    def value(self, t, ev, stop):
        a = t.atom()
        if t is stop:
            return t
        if a is not None and a.k == "phi":
            # the incoming value may itself be a merge; follow the path actually taken
            x = self.fn.ins.get(a.p[-1])
            node = ev.flow.node
            path = ev.flow.path(node)
            if x is not None and x.bb in path:
                k = len(path) - 1 - path[::-1].index(x.bb)
                if k > 0:
                    for p, v in x.j["in"]:
                        if p == path[k - 1]:
                            return self.value(self.vn.op(v), ev, stop)
        return t

    def entry_loop(self, d):
        return any(x[1] == d for x in self.idxphi.values())


TERMS = {}


def TERM_S(i):
    return TERMS_BY_ID.get(i)


class _Cache(dict):
    def get(self, i):
        if i not in self:
            if len(self) == 0 or i >= self.hi:
                self.update({t.id: t for t in tm._terms.values()})
                self.hi = len(tm._terms)
        return dict.get(self, i)


TERMS_BY_ID = _Cache()


@rule("C05")
def split_and_spill(res, L):
    for r in ROOTS:
        root = L["mid"].root(r)
        aut = Split()
        aut.prop = "C05"
        run(res, "split_and_spill", root, aut)
        for ob in ("spill record read only when it is in the file", "bucket has room for the entry it receives",
                   "every entry of a split bucket is visited once"):
            need(res, "split_and_spill", root, aut, ob, f"not found in the commit: {ob}")


@rule("C06")
def commit_addressing(res, L):
    for r in ROOTS:
        root = L["mid"].root(r)
        aut = Split()
        aut.prop = "C06"
        run(res, "commit_addressing", root, aut)
        for ob in ("bucket looked up at its computed index", "entry goes to the bucket its hash selects"):
            need(res, "commit_addressing", root, aut, ob, f"not found in the commit: {ob}")


class Taken(MidAut):
    """a flush or close leaves no record behind: the pool of inserted records is found empty or taken over by a commit"""

    def setup(self):
        L = self.L
        self.p0, self.p1 = L.this("p0"), L.this("p1")
        self.map1 = tm.add(self.p1, const(pmap_off(L)))
        self.sizes, self.empties = set(), set()
        for x, q, a in self.root.calls():
            if q.startswith("std::map<") and a and a[0] is self.map1 and short(q) in ("size", "empty"):
                t = self.vn.t.get(x.id)
                at = t.atom() if t is not None else None
                l = self.vn.l.get(x.id)
                if at is not None:
                    self.sizes.add(at.id)
                if l not in (None, True, False):
                    z = l[0].atom() if isinstance(l[0], T) else l[0]
                    if z is not None:
                        self.empties.add(z.id)
                self.empties.add(("call", x.id))

    def on_call(self, ev, op, st):
        if op is None:
            return None
        if op.k == "swap" and len(op.a) == 2 and {op.a[0].id, op.a[1].id} == {self.p0.id, self.p1.id}:
            return st | {"took"}
        return None

    def on_assume(self, ev, st):
        a, val = ev.args
        if not isinstance(a, tm.Atom):
            return None
        if a.id in self.empties or a.k == "call" and ("call", a.p[-1]) in self.empties:
            # empty() itself (a size is never used as a condition)
            return st | {"none"} if val else None
        if a.k == "eq":
            m = [k for k in a.p[0].m if k]
            if len(m) == 1 and len(m[0]) == 1 and m[0][0].id in self.sizes and () not in a.p[0].m:
                return st | {"none"} if val else None
        if a.k == "ult":
            x, y = a.p
            xa, ya = x.atom(), y.atom()
            if xa is not None and xa.id in self.sizes and y.is_const and y.const == 1 and val:
                return st | {"none"}
            if x.is_const and x.const == 0 and ya is not None and ya.id in self.sizes and not val:
                return st | {"none"}
        return None

    def on_ret(self, ev, st):
        self.oblige("inserted records committed, or none there", ev)
        if "took" not in st and "none" not in st:
            self.report(ev, "returns without committing the inserted records, which were not found to be none")
        return None


@rule("C04", "C33")
def nothing_left_behind(res, L):
    lib = L["mid"]
    for r in ROOTS:
        root = lib.root(r)
        aut = Taken()
        cells = {lib.this("ecb_"): 0}
        if r == "close":
            cells[lib.this("open_")] = 1
        run(res, "nothing_left_behind", root, aut, cells=cells)
        need(res, "nothing_left_behind", root, aut, "inserted records committed, or none there", f"{r} does not return")
