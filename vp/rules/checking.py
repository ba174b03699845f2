"""What success of verify implies (mid-level module): C24.

Both algorithms are followed through one automaton.  A path that returns success must have examined every data record,
every spill record, every bucket with its chain, and (normal) every entry or (fast) the number of entries of every bucket."""
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import split_ptr, AnchorError
from ..flow import ec_params
from .common import *
from .commit import need
from .headers import Names, Known, SIZE
from .cells import rebuild
from .records import as_index
from .regen import be_at
from .loops import Loop, innermost, leaves, div_exact, consecutive


class CLoop(Loop):
    """a loop whose terms are in canonical form"""

    def __init__(self, root, header, can):
        super().__init__(root, header, can)
        self.can = can

    def tests(self):
        out = {}
        for b in self.body:
            t = self.fn.blocks[b][-1]
            if t.op != "br" or "cond" not in t.j or all(s in self.body for s in t.j["succ"]):
                continue
            l = self.vn.lit(t.j["cond"])
            if l in (True, False):
                continue
            raw = l[0].atom()
            a = self.can(l[0]).atom() if raw is not None else None
            c = self.count(a) if a is not None else None
            if c is not None and ((t.j["succ"][0] in self.body) == l[1]) == c[1]:
                out[raw.id] = (c[0], c[1], b)
        return out

    def covers(self, t, n, start=tm.ZERO, unit=const(1)):
        """the values of t over n iterations are start, start + unit, ... (in either direction)"""
        r = self.at(t)
        if r is None:
            return False
        return r[0] is start and r[1] is unit or r[1] is tm.scale(unit, -1) and r[0] is tm.add(start, tm.mul(unit, tm.sub(n, const(1))))


class Verify(MidAut):
    wants_loads = True
    wants_edges = True

    def setup(self):
        root, fn, vn = self.root, self.fn, self.vn
        self.n = Names(root)
        self.memo = {}
        self.T = {}
        self.out = atom("arg", ec_params(fn)[0])
        self.B = atom("hdr", "kh", "buckets")
        self.BS = atom("hdr", "kh", "block_size")
        self.KS = atom("hdr", "kh", "key_size")
        self.loops = {h: CLoop(root, h, self.can) for h in fn.loops}
        # sections of the key file read into memory
        self.sec = {}
        for i, o in self.ops.items():
            if o.k == "read" and o.role == "kf" and not o.a[1].is_const:
                q, ln = div_exact(self.can(o.a[1]), self.BS), div_exact(self.can(o.a[3]), self.BS)
                if q is not None and ln is not None:
                    X = tm.sub(q, const(1))
                    self.sec[i] = (X, tm.add(X, ln), self.can(o.a[2]))
        if len(set(self.sec.values())) > 1:
            raise AnchorError("verify reads sections of the key file in several ways")
        self.X, self.Y, self.base = next(iter(self.sec.values())) if self.sec else (None, None, None)
        self.bn = tm.sub(self.Y, self.X) if self.sec else None
        self.sections = self._sections() if self.sec else None
        # counted loops
        self.tests = {}                     # condition atom id -> (loop header, count, value that goes on)
        for h, l in self.loops.items():
            for aid, (n, go, b) in l.tests().items():
                if n is self.B or n is self.bn:
                    self.tests[aid] = (h, n, go)
        # indices of entries
        self.idx = {}                       # phi atom id -> (phi, header)
        for h in fn.loops:
            for x in fn.blocks[h]:
                if x.op == "phi" and vn.t.get(x.id) is not None and vn.t[x.id].atom() is not None:
                    self.idx[vn.t[x.id].atom().id] = (x, h)
        self.eloops = {}                    # loops over entries: header -> kinds
        for o in self.ops.values():
            if o.k == "bat":
                a = o.a[2].atom()
                if a is not None and a.id in self.idx:
                    self.eloops.setdefault(self.idx[a.id][1], set()).add(a)
        # the counters of the buckets of a section: what is tested to be zero for every bucket
        self.nk = set()
        for b in fn.rpo:
            if b in fn.dead or self.bn is None:
                continue
            hs = [h for h, body in fn.loops.items() if b in body]
            for x in fn.blocks[b]:
                if x.op in ("load", "store") and hs:
                    e = self.element(vn.memat[x.id])
                    if e is not None and any(self.loops[h].covers(e[1], self.bn, e[2], e[3]) for h in hs):
                        self.nk.add(e[0])

    # --- terms
    def can(self, t, depth=12):
        r = self.memo.get(t.id)
        if r is None:
            r = tm.ZERO
            for m, c in t.m.items():
                p = const(c)
                for a in m:
                    p = tm.mul(p, self.can_atom(a, depth))
                r = tm.add(r, p)
            self.memo[t.id] = r
        return r

    def can_atom(self, a, depth):
        t = tm.mk({(a,): 1})
        if not depth:
            return t
        if a.k == "ld":
            n = self.n.name(t)
            if n is None:
                return t
            if n == ("dh", "key_size"):
                n = ("kh", "key_size")
            return atom("hdr", *n)
        if a.k in ("phi", "call", "alloca", "arg", "g", "init", "hdr"):
            return t
        n = self.n.name(t)
        if n is not None:
            return atom("hdr", *n)
        ps = [self.can(p, depth - 1) if isinstance(p, T) else p for p in a.p]
        return t if all(x is y for x, y in zip(ps, a.p)) else rebuild(a, ps)

    def named(self, t):
        """canonical form; a whole value that is a header field is that field"""
        n = self.n.name(t)
        if n is not None:
            return atom("hdr", *(("kh", "key_size") if n == ("dh", "key_size") else n))
        return self.can(t)

    def counter(self, p):
        """(array, index) of an address in an array of counters, one per bucket of the section"""
        e = self.element(p)
        if e is None:
            return None
        q = div_exact(tm.sub(e[1], e[2]), e[3])
        return (e[0], q) if q is not None else None

    def element(self, p):
        """(array, address or index, where it starts, step) of something in an array that was allocated here"""
        p = self.can(p)
        b, o = split_ptr(p)
        if b is not None and b.k == "phi":
            # a pointer that steps through the array
            x = self.fn.ins.get(b.p[-1])
            l = self.loops.get(x.bb) if x is not None else None
            r = l.aff.get(b) if l is not None else None
            b = split_ptr(r[0])[0] if r is not None else None
        if b is None or b.k != "call" or b is self.base_atom():
            return None
        x = self.fn.ins.get(b.p[-1])
        q = (x.j.get("qn") or "") if x is not None else ""
        if q.startswith("std::vector<") and short(q) in ("operator[]", "at") and p is tm.mk({(b,): 1}):
            a = self.vn.callargs[x.id]
            v = split_ptr(a[0])[0]
            return (v, self.can(a[1]), tm.ZERO, const(1)) if v is not None else None
        if not q.startswith("operator new"):
            return None
        w = self.width(p)
        return (b, p, tm.mk({(b,): 1}), const(w)) if w else None

    def width(self, p):
        """the size of the elements, from the step in which the address moves"""
        for w in (8, 4, 2):
            b, o = split_ptr(p)
            if b.k == "phi":
                l = self.loops[self.fn.ins[b.p[-1]].bb]
                if l.aff[b][1] in (const(w), tm.scale(const(w), -1)):
                    return w
            elif o.m and not o.is_const and all(c % w == 0 for c in o.m.values()):
                return w
        return None

    def base_atom(self):
        return split_ptr(self.base)[0] if self.base is not None else None

    def prep(self, n):
        def f(cid):
            o = self.ops.get(cid)
            return o is not None and o.k == "rprepare" and o.role == "df" and o.a[1].is_const and o.a[1].const == n
        return f

    def size_call(self, t):
        return be_at(t, self.prep(6), 6, 4)

    def keyhash(self, h):
        """the place of the key whose salted hash this is"""
        a = h.atom() if h is not None else None
        if a is None or a.k != "lshr":
            return None
        sh = a.p[1].const if isinstance(a.p[1], T) else a.p[1]
        c = a.p[0].atom()
        x = self.fn.ins.get(c.p[-1]) if sh == 16 and c is not None and c.k == "call" else None
        if x is None or (x.j.get("qn") or "") != "vp::hasher::operator()":
            return None
        ca = self.vn.callargs[x.id]
        if self.named(ca[2]) is not self.KS:
            return None
        for y, q, b in self.root.calls(lambda q: q == "vp::hasher::hasher"):
            if b[0] is ca[0] and self.fn.ins_dominates(y, x) and self.n.name(b[1]) == ("kh", "salt"):
                return ca[1]
        return None

    def rechash(self, h, st):
        """the hash of the current data record's key"""
        return self.reckey(self.keyhash(h), st)

    def reckey(self, p, st):
        p = p.atom() if p is not None else None
        if p is None or p.k != "ev" or p.p[1] != (0,):
            return False
        q = p.p[0].atom()
        return q is not None and q.k == "call" and ("data", q.p[-1]) in st

    def recindex(self, n, st):
        """the bucket the current data record's key belongs to"""
        ix = as_index(self.root, n)
        if ix is None:
            return False
        h, b, m = ix
        return self.named(b) is self.B and self.named(m) is atom("hdr", "kh", "modulus") and self.rechash(h, st)

    # --- facts
    def facts(self, st, k):
        return [f for f in st if isinstance(f, tuple) and f[0] == k]

    def fact(self, st, k):
        for f in st:
            if isinstance(f, tuple) and f[0] == k:
                return f
        return None

    @staticmethod
    def without(st, *ks):
        return frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in ks or f in ks))

    def keep(self, t):
        self.T[t.id] = t
        return t.id

    def drop_obj(self, st, o):
        return frozenset(f for f in st if not (isinstance(f, tuple) and len(f) > 1 and f[0] in (
            "src", "inmem", "exh", "szl", "spl", "kb", "cb", "cur") and f[1] == o))

    def drop_ent(self, st):
        return self.without(st, "ent", "hm", "om", "sm", "differ", "stop", "krd", "rd", "cmp", "szok", "hok")

    REC = ("rec", "kind", "todo", "data", "off", "skipped", "skip2", "valid", "src", "inmem", "exh", "next", "dec", "szl", "spl", "ge", "lt", "b")

    def _sections(self):
        a = self.X.atom()
        x = self.fn.ins.get(a.p[-1]) if a is not None and a.k == "phi" else None
        if x is None or x.bb not in self.fn.loops:
            return "the sections do not start at a loop variable"
        body = self.fn.loops[x.bb]
        for p, v in x.j["in"]:
            if p not in self.fn.rpon or p in self.fn.dead:
                continue
            t = self.vn.op(v)
            if p in body:
                for w in leaves(self.fn, self.vn, t):
                    w = self.can(w)
                    if consecutive(self.X, self.Y, self.B, w):
                        continue
                    return "a section does not start where the previous one ended"
            elif not (t.is_const and t.const == 0):
                return "the first section does not start at bucket 0"
        return None

    # --- duties: something to be done for every bucket
    def duty_test(self, st, a, val):
        h, n, go = self.tests[a.id]
        ds = ("bucket",) if n is self.B else ("count", "zero")
        for d in ds:
            p, s = ("pend", d, h), ("skip", d, h)
            if val == go:
                st = (st | {s} if p in st else st) | {p}
                if d == "count":
                    st = self.without(st, "cb", "cur", "acc", "owe", "chend", "szl", "spl")
                if d == "bucket":
                    st = self.without(self.drop_ent(st), "kb", "exh", "next", "szl", "spl")
            else:
                if p not in st and s not in st and (d != "zero" or "end" in st) and (d != "count" or "sec" in st):
                    st = st | {("did", d)}
                st = st - {p, s}
        return st

    def duty_done(self, st, d, i, start=tm.ZERO, unit=const(1)):
        """done for the bucket with this index (or address)"""
        n = self.B if d == "bucket" else self.bn
        return frozenset(f for f in st if not (isinstance(f, tuple) and f[:2] == ("pend", d) and
                                               self.loops[f[2]].covers(i, n, start, unit)))

    # --- conditions
    def on_assume(self, ev, st):
        a, val = ev.args
        if not isinstance(a, tm.Atom):
            return None
        st0 = st
        st = st | (set(self.n.facts(a, val)) - st)
        if a.id in self.tests:
            h, n, go = self.tests[a.id]
            if n is self.bn and val != go:
                self.unspent(ev, st)
            st = self.duty_test(st, a, val)
        e = self.at_end(a, val)
        if e and "scan" in st:
            self.pend(ev, st)
            st = self.without(st, *self.REC) | {"end"}
            st = self.drop_ent(st)
        if a.k == "eq":
            st = self.equal(ev, a.p[0], val, st)
        elif a.k == "ult":
            st = self.less(ev, a, val, st)
        return st if st != st0 else None

    def at_end(self, a, val):
        if a.k == "call":
            o = self.ops.get(a.p[-1])
            return val if o is not None and o.k == "reof" else None
        def off(t):
            c = t.atom()
            o = self.ops.get(c.p[-1]) if c is not None and c.k == "call" else None
            return o is not None and o.k == "roffset"
        size = atom("hdr", "size", "df")
        if a.k == "ult":
            return (not val) if off(a.p[0]) and self.named(a.p[1]) is size else None
        if a.k == "eq":
            d = self.can(a.p[0])
            for m, c in d.m.items():
                t = tm.mk({m: 1})
                if off(t) and (tm.sub(t, d) if c == 1 else tm.add(t, d)) is size:
                    return val
        return None

    def less(self, ev, a, val, st):
        x, y = self.can(a.p[0]), self.can(a.p[1])
        if self.X is not None and x is self.X and y is self.B:
            if val:
                self.section_done(ev, st)
                st = self.without(st, "did", "end", "scan", "sec", "open")
                return st | {"open"}
            self.section_done(ev, st)
            return self.without(st, "open") | {"all"}
        if self.X is not None:
            n = None
            if y is self.bn:
                n = self.known_index(tm.add(a.p[0], self.X), st)
                if n is not None:
                    return st | {("ge",), ("lt",)} if val else st - {"todo"}
            if y is self.X or y is self.Y:
                n = a.p[0]
                if self.recindex(n, st):
                    if y is self.X:
                        return st - {"todo"} if val else st | {("ge",)}
                    return st | {("lt",)} if val else st - {"todo"}
        if not val:
            r = self.idxend(a.p[0], a.p[1], st)
            if r is not None:
                return self.exhausted(ev, r, st)
        return st

    def known_index(self, n, st):
        return n if self.recindex(n, st) else None

    def exhausted(self, ev, o, st):
        self.passed(ev, st)
        return self.drop_ent(st) | {("exh", o)}

    def equal(self, ev, d, val, st):
        c = self.size_call(d)
        if c is not None and ("rec", c) in st:
            return self.without(st, "kind") | ({("kind", "spill")} if val else {("kind", "data"), "todo"})
        # counters
        z = d.atom()
        if z is not None and z.k == "ld" and val:
            e = self.element(z.p[0])
            if e is not None and e[0] in self.nk:
                self.oblige("every counter is tested", ev)
                st = self.duty_done(st, "zero", *e[1:])
        # a valid spill record's size
        if val and self.fact(st, "skip2") is not None:
            call = self.fact(st, "skip2")[1]
            for s in (1, -1):
                for q in self.shape(d, s):
                    if be_at(q, self.prep(2), 2) == call:
                        self.oblige("size of a spill record checked", ev)
                        st = st | {"valid"}
        # the current entry
        for f in self.facts(st, "ent"):
            s = self.T[f[1]]
            st = self.entry(ev, d, val, st, s)
        # the keys differ
        cmp_ = self.fact(st, "cmp")
        if cmp_ is not None and z is not None and d.id == cmp_[1]:
            st = self.without(st, "cmp") | ({"differ"} if not val else {"same"})
        # the end of a chain, or an empty bucket
        if z is not None and z.k == "ld":
            b, o = split_ptr(z.p[0])
            if b is not None and b.k == "alloca" and o.is_const:
                bt = tm.mk({(b,): 1}).id
                if o.const == 16 and ("spl", bt, z.id) in st:
                    st = self.spill(ev, bt, d, val, st)
                if o.const == 8 and val and ("szl", bt, z.id) in st:
                    st = self.exhausted(ev, bt, st)
        if z is not None and z.k in ("ld", "phi") and self.is_link(d, st):
            if val:
                st = self.counted(ev, st | {"chend"})
        # the end of the entries
        if val and len(d.m) == 2:
            ts = [tm.mk({m: 1}) for m in d.m]
            for x, y in (ts, ts[::-1]):
                r = self.idxend(x, y, st)
                if r is not None:
                    st = self.exhausted(ev, r, st)
        return st

    def shape(self, d, s):
        """d == 0 says (spill size) == 8 + 18 * n: the terms the spill size may be"""
        d = tm.scale(d, s)
        out = []
        t = self.can(d)
        # the part that is a number of bytes of whole entries behind a bucket's header
        rest = tm.sub(t, const(8))
        whole = {m: c for m, c in rest.m.items() if c % 18 == 0 and m and all(a.k in ("hdr", "op", "phi", "sel", "min") for a in m)}
        q = tm.scale(tm.sub(rest, tm.mk(whole)), -1)
        out.append(q)
        return out

    def entry(self, ev, d, val, st, s):
        """a comparison with a field of the current entry"""
        for m, c in d.m.items():
            if len(m) != 1 or m[0].k != "ld" or c not in (1, -1 & (1 << 64) - 1, -1):
                continue
            b, o = split_ptr(m[0].p[0])
            sb, so = split_ptr(s)
            if b is None or b is not sb:
                continue
            k = tm.sub(o, so)
            x = tm.mk({m: 1})
            other = tm.sub(x, d) if c == 1 else tm.add(x, d)
            if not k.is_const:
                continue
            k = k.const
            if self.fact(st, "kb") is not None and self.fact(st, "rec") is None:
                r = self.fact(st, "krd")
                if r is not None and val:
                    if k == 16 and self.sizeof(other, r[1]):
                        st = st | {"szok"}
                    if k == 8:
                        p = self.keyhash(other)
                        if p is not None and self.can(p) is tm.add(self.T[r[2]], const(6)):
                            st = st | {"hok"}
                continue
            if k == 8 and self.rechash(other, st):
                st = st | {"hm"} if val else (st - {"hm"}) | {"stop"}
            if k == 0 and val:
                q = other.atom()
                if q is not None and q.k == "call" and ("recoff", q.p[-1]) in st:
                    st = st | {"om"}
            if k == 16 and val:
                call = self.size_call(other)
                if call is not None and ("rec", call) in st:
                    st = st | {"sm"}
        return st

    def sizeof(self, t, call):
        """the size field of the record read by this call"""
        bp = tm.bytes_poly(t)
        return bp is not None and sorted(bp) == list(range(6)) and all(
            a.k == "fbyte" and a.p[0] == call and a.p[1] is const(5 - k) for k, a in bp.items())

    def spill(self, ev, bt, d, val, st):
        if ("kb", bt) in st:
            if ("exh", bt) not in st:
                return st
            if val:
                self.oblige("a bucket and its whole chain checked", ev)
                for f in self.facts(st, "kidx"):
                    st = self.duty_done(st, "bucket", self.T[f[1]], self.BS, self.BS)
                return st
            return st | {("next", d.id)}
        if ("src", bt) in st and not val and ("exh", bt) in st:
            return st | {("next", d.id)}
        return st

    # --- entries
    def idxend(self, x, y, st):
        """index x reached the current size y of a bucket -> the bucket"""
        ya = y.atom()
        if ya is None or ya.k != "ld":
            return None
        b, o = split_ptr(ya.p[0])
        if b is None or b.k != "alloca" or not (o.is_const and o.const == 8):
            return None
        bt = tm.mk({(b,): 1})
        if ("szl", bt.id, ya.id) not in st:
            return None
        for i in (x, tm.sub(x, const(1))):
            a = i.atom()
            if a is not None and a.id in self.idx and self.runs(a, bt, st) and \
                    (i is x or any(self.T[f[3]] is i and f[2] == bt.id for f in self.facts(st, "ent"))):
                return bt.id
        return None

    def runs(self, i, bt, st):
        """the index runs from the first entry to examine in steps of one"""
        ph, h = self.idx[i.id]
        t = tm.mk({(i,): 1})
        for p, v in ph.j["in"]:
            if p in self.fn.dead or p not in self.fn.rpon:
                continue
            w = self.vn.op(v)
            if p in self.fn.loops[h]:
                if w is not tm.add(t, const(1)):
                    return False
                continue
            if w.is_const and w.const == 0:
                continue
            a = w.atom()
            q = self.ops.get(a.p[-1]) if a is not None and a.k == "call" else None
            if q is None or q.k != "blower_bound" or q.a[0].id != bt.id or not self.rechash(q.a[1], st):
                return False
        return True

    def passed(self, ev, st):
        """the current entry is left behind"""
        if self.fact(st, "ent") is None:
            return
        if self.fact(st, "kb") is not None and self.fact(st, "rec") is None:
            self.oblige("an entry checked against its record", ev)
            if "szok" not in st:
                self.report(ev, "an entry's size is not checked against its record's")
            if "hok" not in st:
                self.report(ev, "an entry's hash is not checked against its record's key")
            return
        if self.fact(st, "rec") is not None and "hm" in st and "om" not in st:
            self.oblige("records with equal hashes compared", ev)
            if "differ" not in st:
                self.report(ev, "a record with the same hash is passed over without comparing its key")

    def on_edge(self, ev, st):
        b, d = ev.args
        fn = self.fn
        if "stop" in st and self.fact(st, "ent") is not None:
            f = self.fact(st, "ent")
            i = self.T[f[3]].atom()
            for h, body in fn.loops.items():
                if b in body and d not in body and i is not None and i.id in self.idx and self.idx[i.id][1] == h \
                        and self.runs(i, self.T[f[2]], st):
                    st = self.drop_ent(st) | {("exh", f[2])}
                    break
        if d in fn.loops and b in fn.loops[d] and d in self.eloops:
            f = self.fact(st, "ent")
            if f is None:
                if self.fact(st, "kb") is not None and self.fact(st, "rec") is None and "open" not in st and \
                        any(self.zero_start(a) for a in self.eloops[d]):
                    self.report(ev, "an entry is passed over without looking at it")
            else:
                self.passed(ev, st)
                st = self.drop_ent(st)
        return st

    def zero_start(self, a):
        ph, h = self.idx[a.id]
        return any(self.vn.op(v).is_const for p, v in ph.j["in"] if p not in self.fn.loops[h])

    # --- counting
    def is_link(self, t, st):
        """t is the spill offset of the bucket last reached in the chain being counted"""
        if self.fact(st, "cur") is None:
            return False
        a = t.atom()
        if a is None:
            return False
        if a.k == "ld":
            b, o = split_ptr(a.p[0])
            return b is not None and o.is_const and o.const == 16 and ("cur", tm.mk({(b,): 1}).id) in st \
                and ("spl", tm.mk({(b,): 1}).id, a.id) in st
        if a.k == "phi":
            x = self.fn.ins.get(a.p[-1])
            if x is None or x.op != "phi" or x.bb not in self.fn.loops:
                return False
            for p, v in x.j["in"]:
                if p in self.fn.dead or p not in self.fn.rpon:
                    continue
                for w in leaves(self.fn, self.vn, self.vn.op(v)):
                    z = w.atom()
                    b, o = split_ptr(z.p[0]) if z is not None and z.k == "ld" else (None, None)
                    if b is None or b.k != "alloca" or not (o.is_const and o.const == 16):
                        return False
                    if p in self.fn.loops[x.bb] and not self.after_read(z, b, x.bb):
                        return False
            return True
        return False

    def after_read(self, z, b, h):
        """the load comes after the bucket was read in this iteration"""
        x = self.fn.ins.get(z.p[-1]) if isinstance(z.p[-1], int) else None
        if x is None:
            return False
        return any(o.k == "bread" and o.a[0] is tm.mk({(b,): 1}) and o.x.bb in self.fn.loops[h] and self.fn.ins_dominates(o.x, x)
                   for o in self.ops.values())

    def accs(self):
        """the variables of loops that read spill buckets"""
        if not hasattr(self, "_accs"):
            hs = {innermost(self.fn, o.x.bb) for o in self.ops.values() if o.k == "bread"}
            self._accs = [(self.vn.t[x.id].atom(), h) for i, (x, h) in self.idx.items() if h in hs]
        return self._accs

    def accumulates(self, t, st):
        """t is the size of the bucket plus the sizes of the spill buckets read in a loop"""
        a = t.atom()
        x = self.fn.ins.get(a.p[-1]) if a is not None and a.k == "phi" else None
        if x is None or x.op != "phi" or x.bb not in self.fn.loops:
            return False
        for p, v in x.j["in"]:
            if p in self.fn.dead or p not in self.fn.rpon:
                continue
            for w in leaves(self.fn, self.vn, self.vn.op(v)):
                if p in self.fn.loops[x.bb]:
                    w = tm.sub(w, t) if tm.sub(w, t).atom() is not None else tm.sub(w, self.sofar(w, st))
                z = w.atom()
                b, o = split_ptr(z.p[0]) if z is not None and z.k == "ld" else (None, None)
                if b is None or b.k != "alloca" or not (o.is_const and o.const == 8):
                    return False
                if p in self.fn.loops[x.bb] and not self.after_read(z, b, x.bb):
                    return False
        return True

    def sofar(self, w, st):
        """the part of a sum that is the current bucket's counter, as it is in memory"""
        ac = self.fact(st, "acc")
        for m, c in w.m.items():
            if ac is not None and len(m) == 1 and c == 1 and m[0].k == "ld":
                r = self.counter(m[0].p[0])
                if r is not None and r[0] in self.nk and r[1] is self.T[ac[1]]:
                    return tm.mk({m: 1})
        return tm.ZERO

    def counted(self, ev, st):
        ac = self.fact(st, "acc")
        if ac is not None and "chend" in st and self.fact(st, "owe") is None:
            self.oblige("entries of a bucket and its chain counted", ev)
            st = self.duty_done(st, "count", self.T[ac[1]])
        return st

    def on_store(self, ev, st):
        ptr, val = ev.args
        r = self.counter(ptr)
        if r is None or r[0] not in self.nk:
            return None
        i = r[1]
        a = val.atom()
        cb = self.fact(st, "cb")
        if cb is not None and self.T[cb[2]] is i:
            if a is not None and a.k == "ld" and ("szl", cb[1], a.id) in st:
                return self.counted(ev, self.without(st, "acc") | {("acc", self.keep(i))})
            if self.accumulates(val, st):
                return self.counted(ev, self.without(st, "acc", "owe") | {("acc", self.keep(i))})
        ld_ = [m[0] for m, c in val.m.items() if len(m) == 1 and c == 1 and m[0].k == "ld" and m[0].p[0] is ptr]
        if not ld_:
            ld_ = [m[0] for m, c in val.m.items() if len(m) == 1 and c == 1 and m[0].k == "ld" and self.can(m[0].p[0]) is self.can(ptr)]
        if ld_:
            d = tm.sub(val, tm.mk({(ld_[0],): 1}))
            if d is const(-1 & (1 << 64) - 1) and self.fact(st, "rec") is not None:
                self.oblige("found entries are counted down", ev)
                if self.recindex(tm.add(i, self.X), st):
                    if "dec" in st:
                        self.report(ev, "an entry is counted down twice")
                    return st | {"dec"}
            z = d.atom()
            ac = self.fact(st, "acc")
            if z is not None and z.k == "ld" and ac is not None and self.T[ac[1]] is i:
                for f in self.facts(st, "owe"):
                    if ("szl", f[1], z.id) in st:
                        return self.counted(ev, st - {f})
        else:
            # the sum so far may have been forwarded to the store
            ac = self.fact(st, "acc")
            if ac is not None and self.T[ac[1]] is i and self.facts(st, "owe"):
                for m, c in val.m.items():
                    if len(m) == 1 and c == 1 and any(("szl", f[1], m[0].id) in st for f in self.facts(st, "owe")):
                        rest = tm.sub(val, tm.mk({m: 1}))
                        if self.accumulates(rest, st):
                            return self.counted(ev, self.without(st, "owe"))
        self.report(ev, "a bucket's counter is changed by something other than its entries")
        return None

    def unspent(self, ev, st):
        if self.fact(st, "owe") is not None and "end" not in st and not any(
                ev.ins.bb in self.fn.loops[h] and self.accumulates(tm.mk({(x_,): 1}), st) for x_, h in self.accs()):
            self.report(ev, "the entries of a spill bucket are not counted")

    # --- calls
    def on_load(self, ev, st):
        b, o = split_ptr(ev.args[0])
        t = self.vn.t.get(ev.ins.id)
        if b is not None and b.k == "alloca" and o.is_const and t is not None and t.atom() is not None:
            bt = tm.mk({(b,): 1}).id
            if o.const in (8, 16) and any(isinstance(f, tuple) and f[0] in ("src", "kb", "cb", "cur", "owe") and f[1] == bt for f in st):
                k = "szl" if o.const == 8 else "spl"
                return frozenset(f for f in st if not (isinstance(f, tuple) and f[:2] == (k, bt))) | {(k, bt, t.atom().id)}
        return None

    def on_copy(self, ev, st):
        if not ev.qn.startswith("llvm.memcpy") or len(ev.args) < 3:
            return None
        d, s, n = ev.args[0], ev.args[1], ev.args[2]
        if not (n.is_const and n.const == 32):
            return None
        st2 = set(self.drop_obj(st, d.id))
        for f in st:
            if isinstance(f, tuple) and f[0] in ("src", "inmem", "exh", "kb", "cb", "cur") and f[1] == s.id:
                st2.add((f[0], d.id) + f[2:])
        return frozenset(st2)

    def on_call(self, ev, op, st):
        if op is None:
            if short(ev.qn) in ("memcmp", "bcmp"):
                return self.memcmp(ev, st)
            return None
        k, r, a = op.k, op.role, ev.args
        if "failed" in st and k in ("rprepare", "read", "rctor", "bread", "breadbulk"):
            self.report(ev, "verification goes on after an error")
        if op.mutates is not None:
            self.report(ev, f"verify changes the {op.mutates}")
        if k == "read" and ev.ins.id in self.sec:
            if self.sections:
                self.report(ev, self.sections)
            return self.without(st, "did", "end", "scan", "sec")
        if k == "rctor":
            self.oblige("the scan covers every record", ev)
            if r != "df" or not (a[2].is_const and a[2].const == SIZE["dh"]) or self.named(a[3]) is not atom("hdr", "size", "df"):
                self.report(ev, "the scan does not cover the data records from the header to the end of the file")
            for h in ("dh", "kh"):
                for m in Known(st).valid(h):
                    self.report(ev, f"the data file is scanned without checking the {h} header's {m}")
            for m in ("uid", "appnum", "key_size"):
                if not Known(st).eq(("dh", m), ("kh", m)):
                    self.report(ev, f"the data file is scanned although the headers may disagree in their {m}")
            return self.drop_ent(self.without(st, "end", *self.REC)) | {"scan"}
        if k == "roffset":
            return self.without(st, "off") | {("off", ev.ins.id)}
        if k == "rprepare" and r == "df":
            if a[1].is_const and a[1].const == 6:
                self.pend(ev, st)
                o = self.fact(st, "off")
                st = self.drop_ent(self.without(st, "recoff", *self.REC))
                return st | ({("recoff", o[1])} if o is not None else set())
            return self.without(st, "off")
        if k == "breadbulk":
            return self.drop_obj(st, a[0].id)
        if k == "bctor":
            st = self.drop_obj(st, a[0].id)
            if len(a) > 2 and self.base is not None and self.named(a[1]) is self.BS:
                q = div_exact(tm.sub(self.can(a[2]), self.base), self.BS)
                if q is not None:
                    n = tm.add(q, self.X)
                    if self.recindex(n, st) and "todo" in st:
                        self.oblige("record looked up in the section in memory", ev)
                        if ("ge",) not in st or ("lt",) not in st:
                            self.report(ev, "a record is looked up in a bucket outside the section in memory")
                        return self.without(st, "src") | {("src", a[0].id), ("inmem", a[0].id)}
                    if self.fact(st, "rec") is None and any(l.covers(q, self.bn) for l in self.loops.values()):
                        st = self.without(st, "cb", "cur", "acc", "owe", "chend")
                        return st | {("cb", a[0].id, self.keep(q)), ("cur", a[0].id), ("inmem", a[0].id)}
            return st
        if k == "bread":
            return self.bread(ev, op, st)
        if k == "bat":
            self.passed_if_other(ev, a, st)
            e = ("ent", self.keep(a[0]), self.keep(a[1]), self.keep(a[2]))
            if any(f[2:] == e[2:] for f in self.facts(st, "ent")):
                return st | {e}
            st = self.drop_ent(st)
            o = a[1].id
            if ("src", o) in st and self.fact(st, "rec") is not None or ("kb", o) in st and self.fact(st, "rec") is None:
                return st | {e}
            return st
        if k == "read" and r == "df" and not a[1].is_const:
            return self.dread(ev, a, st)
        if k in ("binsert", "berase", "bclear", "bspill"):
            self.report(ev, "verify changes a bucket")
        return None

    def passed_if_other(self, ev, a, st):
        f = self.fact(st, "ent")
        if f is not None and f[2:] != (a[1].id, a[2].id):
            self.passed(ev, st)

    def bread(self, ev, op, st):
        a = ev.args
        o = a[0].id
        if op.role == "kf":
            n = self.can(a[2])
            st = self.drop_obj(st, o)
            if self.fact(st, "rec") is not None:
                self.oblige("record looked up in the key file", ev)
                if not self.recindex_at(a[2], st):
                    self.report(ev, "a record is not looked up in the bucket its key's hash selects")
                    return st
                return self.without(st, "src") | {("src", o)}
            return self.drop_ent(self.without(st, "kb", "kidx", "exh", "next")) | {("kb", o), ("kidx", self.keep(n))}
        if op.role == "df":
            self.passed(ev, st)
            t = a[2]
            if self.fact(st, "rec") is not None:
                if ("next", t.id) not in st:
                    self.report(ev, "the search for a record does not follow the chain of its bucket")
                if ("inmem", o) in st:
                    self.report(ev, "a spill bucket is read over the section in memory")
                st = self.drop_obj(self.drop_ent(self.without(st, "next", "src", "exh")), o)
                return st | {("src", o)}
            if self.fact(st, "kb") is not None:
                if ("next", t.id) not in st:
                    self.report(ev, "the check of a bucket does not follow its chain")
                st = self.drop_obj(self.drop_ent(self.without(st, "next", "kb", "exh")), o)
                return st | {("kb", o)}
            if self.fact(st, "cur") is not None:
                self.unspent(ev, st)
                if not self.is_link(t, st):
                    self.report(ev, "the count of a bucket's entries does not follow its chain")
                if ("inmem", o) in st:
                    self.report(ev, "a spill bucket is read over the section in memory")
                cb = ("cb", o)
                keepcb = [f for f in st if isinstance(f, tuple) and f[:2] == cb]
                st = self.drop_obj(self.without(st, "cur", "chend"), o) | set(keepcb)
                return st | {("cur", o), ("owe", o)}
        return st

    def bucket_no(self, t):
        """n where the address is (n + 1) * block size"""
        q = div_exact(self.can(t), self.BS)
        return tm.sub(q, const(1)) if q is not None else None

    def recindex_at(self, t, st):
        for m in t.m:
            for a in m:
                z = tm.mk({(a,): 1})
                if self.named(z) is self.BS:
                    q = div_exact(t, z)
                    if q is None:
                        # the block size was loaded twice
                        q = self.bucket_no(t)
                        q = tm.add(q, const(1)) if q is not None else None
                    if q is not None and self.recindex(tm.sub(q, const(1)), st):
                        return True
        return False

    def dread(self, ev, a, st):
        """(part of) the record an entry refers to is read"""
        st = self.without(st, "krd", "rd", "cmp", "szok", "hok")
        for f in self.facts(st, "ent"):
            sb, so = split_ptr(self.T[f[1]])
            for d in (0, 6):
                z = tm.sub(a[1], const(d)).atom()
                if z is None or z.k != "ld":
                    continue
                b, o = split_ptr(z.p[0])
                if b is not sb or tm.sub(o, so) is not const(0):
                    continue
                n = self.can(a[3])
                if d == 0 and n is tm.add(self.KS, const(6)):
                    st = st | {("krd?", ev.ins.id, self.keep(self.can(a[2])))}
                if d == 6 and n is self.KS:
                    st = st | {("rd?", self.keep(self.can(a[2])))}
                if d == 0 and n is tm.add(self.KS, const(6)):
                    st = st | {("rd?", self.keep(tm.add(self.can(a[2]), const(6))))}
        return st

    def memcmp(self, ev, st):
        a = ev.args
        st = self.without(st, "cmp", "differ")
        rd = self.facts(st, "rd")
        if rd and self.named(a[2]) is self.KS:
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if any(self.can(x) is self.T[f[1]] for f in rd) and self.reckey(y, st):
                    t = self.vn.t.get(ev.ins.id)
                    if t is not None:
                        st = st | {("cmp", t.id)}
        return st

    def on_ok(self, ev, op, st):
        if op is None:
            return None
        k, r, a = op.k, op.role, ev.args
        if k == "read" and r == "df":
            return frozenset((f[0][:-1],) + f[1:] if isinstance(f, tuple) and f[0] in ("krd?", "rd?") else f for f in st)
        if k == "read" and ev.ins.id in self.sec:
            self.oblige("section of the key file loaded", ev)
            return st | {"sec"}
        if k == "rprepare" and r == "df" and "scan" in st:
            if a[1].is_const and a[1].const == 6:
                return st | {("rec", ev.ins.id)}
            kd = self.fact(st, "kind")
            if kd == ("kind", "data"):
                self.oblige("data record read completely", ev)
                c = self.size_call(tm.sub(a[1], self.ks_in(a[1])))
                if c is not None and ("rec", c) in st and self.fact(st, "data") is None:
                    return st | {("data", ev.ins.id)}
                self.report(ev, "a data record is not read as key and value")
            elif kd == ("kind", "spill"):
                if self.fact(st, "skip2") is None:
                    if a[1].is_const and a[1].const == 2:
                        return st | {("skip2", ev.ins.id)}
                    self.report(ev, "a spill record is skipped by something other than its size")
                else:
                    c = be_at(a[1], self.prep(2), 2)
                    if c is not None and ("skip2", c) in st and "skipped" not in st:
                        return st | {"skipped"}
                    self.report(ev, "a spill record is skipped by something other than its size")
            else:
                self.report(ev, "part of a record is read before its kind is known")
            return None
        if k == "breadbulk":
            if self.fact(st, "kind") == ("kind", "spill") and self.fact(st, "skip2") is not None and "skipped" not in st:
                return st | {"skipped"}
            self.report(ev, "a bucket is read from the data file out of place")
        return None

    def ks_in(self, t):
        for m in t.m:
            z = tm.mk({m: 1})
            if self.named(z) is self.KS:
                return z
        return tm.ZERO

    def on_fail(self, ev, op, st):
        return st | {"failed"}

    def on_drop(self, ev, op, st):
        self.report(ev, "verification goes on without examining an error")
        return None

    # --- what must have been established
    def pend(self, ev, st):
        if "scan" not in st or self.fact(st, "rec") is None:
            return
        kd = self.fact(st, "kind")
        if kd is None:
            self.report(ev, "a record is passed over without looking at its size")
        elif kd[1] == "spill":
            self.oblige("spill record checked", ev)
            if "valid" not in st:
                self.report(ev, "the size of a spill record is not checked")
            if "skipped" not in st:
                self.report(ev, "a spill record is not skipped as a whole")
        elif "todo" in st:
            self.oblige("data record found in its bucket", ev)
            if "om" not in st:
                self.report(ev, "a data record is accepted although no entry of its bucket refers to it")
            if "hm" not in st:
                self.report(ev, "a data record is accepted although the entry's hash was not compared")
            if "open" in st:
                if "sm" not in st:
                    self.report(ev, "a data record is accepted although the entry's size was not compared")
                if "dec" not in st:
                    self.report(ev, "a record found is not counted")

    def section_done(self, ev, st):
        if "open" not in st:
            return
        self.oblige("section of buckets checked", ev)
        if "sec" not in st:
            self.report(ev, "a section of the key file is not loaded")
        if "end" not in st:
            self.report(ev, "a section is left before every data record was examined")
        for d, m in (("count", "the entries of every bucket of a section are not counted"),
                     ("zero", "a section is left without testing that every entry was found")):
            if ("did", d) not in st:
                self.report(ev, m)

    def on_ret(self, ev, st):
        if ev.flow.ecstate(ev.ecs, self.out.id) != "ok":
            return None
        self.oblige("success only when everything was examined", ev)
        if "failed" in st:
            self.report(ev, "verify reports success after an error")
        if "same" in st:
            self.report(ev, "verify reports success although two records have the same key")
        if "all" in st:
            return None
        if "open" in st:
            self.report(ev, "verify reports success before every section was examined")
        if "end" not in st:
            self.report(ev, "verify reports success before every data record was examined")
        if ("did", "bucket") not in st:
            self.report(ev, "verify reports success before every bucket was examined")
        return None


@rule("C24")
def verify_checks(res, L):
    root = L["mid"].root("verify")
    aut = Verify()
    run(res, "verify_checks", root, aut)
    for ob in ("the scan covers every record", "data record found in its bucket", "record looked up in the key file",
               "record looked up in the section in memory", "records with equal hashes compared", "spill record checked",
               "an entry checked against its record", "a bucket and its whole chain checked", "found entries are counted down",
               "entries of a bucket and its chain counted", "every counter is tested", "section of buckets checked",
               "success only when everything was examined"):
        need(res, "verify_checks", root, aut, ob, f"not found in verify: {ob}")
