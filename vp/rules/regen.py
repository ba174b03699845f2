"""Key file regeneration (mid-level module): crash order (C16) and completeness of the regenerated index (C37)."""
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import split_ptr, AnchorError
from ..flow import ec_params
from .common import *
from .commit import need, check_header, hdr_len
from .headers import Names, Known, LITERAL, SIZE, FILE
from .records import as_index
from .loops import Loop, innermost, leaves, div_exact, consecutive


def be_at(t, ptr_call_ok, n, keep=None):
    """call id if t is the big-endian value of the n bytes handed out by a reader's prepare call
    (only the low `keep` bytes may be present)"""
    bp = tm.bytes_poly(t)
    if bp is None:
        return None
    if sorted(bp) not in ([list(range(n))] + ([list(range(keep))] if keep else [])):
        return None
    cid = None
    for k, a in bp.items():
        if a.k != "ld":
            return None
        base, off = split_ptr(a.p[0])
        if base is None or base.k != "ev" or base.p[1] != (0,) or not off.is_const or off.const != n - 1 - k:
            return None
        c = base.p[0].atom()
        if c is None or c.k != "call" or (cid is not None and c.p[-1] != cid):
            return None
        cid = c.p[-1]
    return cid if cid is not None and ptr_call_ok(cid) else None


class Rekey(MidAut):
    def setup(self):
        self.n = Names(self.root)
        self.out = atom("arg", ec_params(self.fn)[0])
        self.nofile = ("cond", 2)
        # the salt is the value the log header's and key header's salt field hold; the block size likewise
        self.salt = self.bs = None
        for o in self.ops.values():
            if o.k == "write" and o.role == "kf" and o.a[1].is_const and o.a[1].const == 0:
                b = bytes_of(self.vn, o.x, o.a[2], 56)
                s, z = be(b[28:36]), be(b[44:46])
                if s is not None and z is not None:
                    if self.salt not in (None, s) or self.bs not in (None, z):
                        raise AnchorError("the key file header is written with differing salts or block sizes")
                    self.salt, self.bs = s, z
        if self.bs is None or (self.bs.atom() is None and not self.bs.is_const):
            raise AnchorError("rekey does not write a key file header with a known salt and block size")

    def ecv(self, ev, t):
        return ev.flow.ecstate(ev.ecs, t.id)

    def dh(self, f):
        return lambda t: t is not None and self.n.name(t) == ("dh", f)

    def pepper(self, t):
        a = t.atom() if t is not None else None
        if a is None or a.k != "call":
            return False
        x = self.fn.ins.get(a.p[-1])
        if x is None or (x.j.get("qn") or "") != "vp::hasher::operator()":
            return False
        ca = self.vn.callargs[x.id]
        return ca[2].is_const and ca[2].const == 8 and self.vn.load_at(x, ca[1], 8) is self.salt and self.salted(ca[0], x)

    def salted(self, h, x):
        for y, q, b in self.root.calls(lambda q: q == "vp::hasher::hasher"):
            if b[0] is h and self.fn.ins_dominates(y, x):
                return b[1] is self.salt
        return False

    def spec(self, h):
        def lit(b):
            return lambda t: t is not None and t.is_const and t.const == int.from_bytes(b, "big")
        s = [("type", 8, lit(LITERAL[h])), ("version", 2, lit(b"\2")), ("uid", 8, self.dh("uid")),
             ("appnum", 8, self.dh("appnum")), ("key size", 2, self.dh("key_size")),
             ("salt", 8, lambda t: t is self.salt), ("pepper", 8, self.pepper), ("block size", 2, lambda t: t is self.bs)]
        if h == "lh":
            s += [("key file size", 8, lit(b"\0")), ("data file size", 8, lambda t: t is not None and self.n.name(t) == ("size", "df"))]
        else:
            arg = atom("arg", self.lfarg()).atom()
            s += [("load factor", 2, lambda t: t is not None and tm.contains(t, lambda a: a is arg))]
        return s

    def lfarg(self):
        for b in self.fn.rpo:
            for x in self.fn.blocks[b]:
                if x.op == "fcmp":
                    for o in x.j["a"]:
                        t = self.vn.op(o)
                        if t.atom() is not None and t.atom().k == "arg":
                            return t.atom().p[0]
        raise AnchorError("rekey does not check its load factor")

    def late(self, ev, t, st):
        """a data file size taken after the data file was changed"""
        a = t.atom() if t is not None else None
        if a is not None and a.k == "call" and ("late", a.p[-1]) in st:
            self.report(ev, "uses a data file size taken after the data file was changed")

    @staticmethod
    def without(st, *kinds):
        return frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in kinds or f in kinds))


class Order(Rekey):
    """C16"""

    def on_call(self, ev, op, st):
        if op is None:
            return None
        k, r, a = op.k, op.role, ev.args
        if k == "size" and r == "df" and "dfmut" in st:
            return st | {("late", ev.ins.id)}
        if k == "wctor":
            self.oblige("data file appended at its end", ev)
            if r != "df" or self.n.name(a[2]) != ("size", "df"):
                self.report(ev, "spill records are not appended at the end of the data file")
            self.late(ev, a[2], st)
            return None
        if k == "create":
            self.oblige("files created once their absence is established", ev)
            if r == "kf":
                if "nolog" not in st:
                    self.report(ev, "the key file is created although a log file may exist")
            elif r != "lf":
                self.report(ev, f"creates the {r}")
            return None
        if op.mutates is None:
            return None
        if k == "erase":
            if r != "lf":
                self.report(ev, f"deletes the {r}")
            self.oblige("log deleted only when everything is durable", ev)
            self.complete(ev, st, "the log is deleted")
            return st | {"logerase"}
        if r == "lf":
            if k != "write" or not (a[1].is_const and a[1].const == 0):
                self.report(ev, "the log is changed by something other than writing its header")
                return None
            if "lhd" in st:
                self.report(ev, "the log header is written again")
            self.oblige("log header describes the state before", ev)
            n = hdr_len(self.spec("lh"))
            if not (a[3].is_const and a[3].const == n):
                self.report(ev, "the log header is not written as one complete block")
            bs = content(self.vn, ev, 2, n)
            for b in check_header(bs, self.spec("lh")):
                self.report(ev, f"the log header's {b} is not what recovery needs")
            v = be(bs[54:62])
            self.late(ev, v, st)
            return st | {"dirty:lf"}
        if r == "df":
            self.oblige("data file changed under a durable log", ev)
            if "lhd" not in st:
                self.report(ev, "the data file is changed before the log header is durable")
            if k not in ("spillout", "wprepare", "wflush"):
                self.report(ev, "the data file is changed by something other than appending spill records")
            st = st | {"dfmut", "dirty:df"}
            return st | {"buffered"} if k != "wflush" else st
        if r == "kf":
            at0 = a[1].is_const and a[1].const == 0 if k == "write" else False
            small = at0 and a[3].is_const and a[3].const <= SIZE["kh"]
            if k != "write":
                self.report(ev, f"the key file is changed by {k}")
                return None
            if not small:
                self.oblige("key file grows under a durable log", ev)
                if "lhd" not in st:
                    self.report(ev, "the key file becomes usable before the log is durable: recovery would keep it half built")
            if at0:
                self.oblige("key file header content", ev)
                bs = content(self.vn, ev, 2, hdr_len(self.spec("kh")))
                for b in check_header(bs, self.spec("kh")):
                    self.report(ev, f"the key file header's {b} is wrong")
            return st | {"dirty:kf"}
        self.report(ev, "changes an unidentified file")
        return None

    def complete(self, ev, st, what):
        if "dirty:df" in st or "buffered" in st:
            self.report(ev, f"{what} before the data file is durable")
        if "dirty:kf" in st:
            self.report(ev, f"{what} before the key file is durable")
        if "kh" not in st:
            self.report(ev, f"{what} without a complete key file header")

    def on_ok(self, ev, op, st):
        if op is None:
            return None
        k, r = op.k, op.role
        if k == "open" and r == "lf":
            return st | {"logexists"}
        if k == "create":
            return st | {"created:" + r}
        if k == "write" and r == "lf":
            return st | {"lhw"}
        if k == "write" and r == "kf" and ev.args[1].is_const and ev.args[1].const == 0 and \
                not (ev.args[3].is_const and ev.args[3].const < hdr_len(self.spec("kh"))):
            return st | {"kh"}
        if k == "wflush":
            return st - {"buffered"}
        if k == "sync":
            if r == "lf" and "lhw" in st:
                st = st | {"lhd"}
            if r == "df" and "buffered" in st:
                return st
            return st - {"dirty:" + r}
        if k == "erase":
            return st | {"erased"}
        return None

    def on_fail(self, ev, op, st):
        if op is not None and op.k == "open" and op.role == "lf":
            st = self.without(st, "lastfail") | {("lastfail", ev.ins.id)}
            if ev.extra == self.nofile:
                return st | {"nolog"}
            return st
        return None

    def on_ecis(self, ev, st):
        for f in st:
            if isinstance(f, tuple) and f[0] == "lastfail" and ev.args[1] == self.nofile:
                return st | {"nolog"}
        return None

    def on_ret(self, ev, st):
        e = self.ecv(ev, self.out)
        if e == "ok":
            self.oblige("regeneration succeeds", ev)
            if "erased" not in st:
                self.report(ev, "regeneration succeeds but leaves its log")
            for f in ("kf", "lf"):
                if "created:" + f not in st:
                    self.report(ev, f"regeneration succeeds without having created the {f}")
        elif "erased" in st:
            self.report(ev, "the log is gone although regeneration failed")
        return None


class Regen(Rekey):
    """C37"""

    def setup(self):
        super().setup()
        BS = self.bs
        # bucket sections: key file writes at (X + 1) * block size
        self.sec = {}
        for i, o in self.ops.items():
            if o.k == "write" and o.role == "kf" and not o.a[1].is_const:
                q = div_exact(o.a[1], BS)
                ln = div_exact(o.a[3], BS)
                if q is not None and ln is not None:
                    X = tm.sub(q, const(1))
                    self.sec[i] = (X, tm.add(X, ln))
        xs = set(self.sec.values())
        if len(xs) != 1:
            raise AnchorError("rekey does not write the buckets section by section")
        self.X, self.Y = next(iter(xs))
        self.bn = tm.sub(self.Y, self.X)
        self.B = None
        for i, o in self.ops.items():
            if o.k == "bctor" and not self.isempty(o):
                n = self.index_of(o.a[2], None)
                ix = as_index(self.root, n) if n is not None else None
                if ix is not None:
                    self.B = ix[1]
        if self.B is None:
            raise AnchorError("rekey does not select a bucket by hash")
        self.steps = self._outer()
        self.empties = self._empties()

    @staticmethod
    def isempty(o):
        return "empty_t" in (o.x.j.get("dem") or "")

    def index_of(self, addr, base):
        """the bucket index n of an address base + (n - X) * block size"""
        if base is not None:
            q = div_exact(tm.sub(addr, base), self.bs)
            return tm.add(q, self.X) if q is not None else None
        a = self.bs.atom()
        part = tm.mk({m: c for m, c in addr.m.items() if (a in m if a is not None else True)})
        q = div_exact(part, self.bs)
        return tm.add(q, self.X) if q is not None else None

    def _outer(self):
        """is X a loop variable running from 0 over consecutive sections?"""
        a = self.X.atom()
        x = self.fn.ins.get(a.p[-1]) if a is not None and a.k == "phi" else None
        if x is None or x.bb not in self.fn.loops:
            return "the sections do not start at a loop variable"
        body = self.fn.loops[x.bb]
        for p, v in x.j["in"]:
            if p not in self.fn.rpon or p in self.fn.dead:
                continue
            t = self.vn.op(v)
            if p in body:
                for w in leaves(self.fn, self.vn, t):
                    if consecutive(self.X, self.Y, self.B, w):
                        continue
                    return "a section does not start where the previous one ended"
            elif not (t.is_const and t.const == 0):
                return "the first section does not start at bucket 0"
        return None

    def _empties(self):
        """loops that make every bucket of a section empty: id of the constructor -> the section's address;
        self.etest: condition atom -> value for another bucket"""
        out, self.etest, self.eloop = {}, {}, set()
        for i, o in self.ops.items():
            if o.k != "bctor" or not self.isempty(o):
                continue
            h = innermost(self.fn, o.x.bb)
            if h is None or o.a[1] is not self.bs:
                continue
            L = Loop(self.root, h)
            r = L.at(o.a[2])
            if r is None:
                continue
            for aid, (n, go, b) in L.tests().items():
                if not self.fn.dominates(b, o.x.bb) or n is not self.bn:
                    continue
                if r[1] is self.bs:
                    base = r[0]
                elif r[1] is tm.scale(self.bs, -1):
                    base = tm.sub(r[0], tm.mul(tm.sub(n, const(1)), self.bs))
                else:
                    continue
                out[i] = base
                self.etest[aid] = go
        return out

    def prep(self, n):
        def f(cid):
            o = self.ops.get(cid)
            return o is not None and o.k == "rprepare" and o.role == "df" and (n is None or o.a[1].is_const and o.a[1].const == n)
        return f

    def size_call(self, t):
        return be_at(t, self.prep(6), 6, 4)

    def fact(self, st, kind):
        for f in st:
            if isinstance(f, tuple) and f[0] == kind:
                return f
        return None

    def on_assume(self, ev, st):
        a, val = ev.args
        if not isinstance(a, tm.Atom):
            return None
        if a.id in self.etest:
            if val == self.etest[a.id]:
                return (st | {"eskip", "epend"}) if "epend" in st else st | {"epend"}
            if "epend" in st or "eskip" in st:
                return None
            return st | ({"emptied"} if self.fact(st, "base") is not None else {"emptied", "nobucket"})
        if a.k == "eq":
            c = self.size_call(a.p[0])
            if c is not None and ("rec", c) in st:
                st = self.without(st, "kind")
                return st | ({("kind", "spill")} if val else {("kind", "data"), "todo"})
            return None
        if a.k == "call":
            o = self.ops.get(a.p[-1])
            if o is not None and o.k == "reof" and val:
                self.pend(ev, st)
                return st | {"scandone"}
            return None
        if a.k == "ult":
            x, y = a.p
            if x is self.X and y is self.B:
                if val:
                    if "chunk" in st:
                        self.report(ev, "a section of buckets is not written")
                    return self.without(st, "emptied", "nobucket", "scandone", "epend", "eskip", "base") | {"chunk"}
                return st | {"all"}
            n = tm.add(x, self.X)
            if y is self.bn and self.hashed(n, st):
                return st | {("ge", n.id), ("lt", n.id)} if val else st - {"todo"}
            if (y is self.X or y is self.Y) and self.hashed(x, st):
                n = x
                if y is self.X:
                    if val:
                        return st - {"todo"}
                    return st | {("ge", n.id)}
                if not val:
                    return st - {"todo"}
                return st | {("lt", n.id)}
        return None

    def hashed(self, n, st):
        """n is the bucket index of the current record's key"""
        ix = as_index(self.root, n)
        if ix is None:
            return False
        h, b, m = ix
        if b is not self.B:
            return False
        ma = m.atom()
        x = self.fn.ins.get(ma.p[-1]) if ma is not None and ma.k == "call" else None
        if x is None or short(x.j.get("qn") or "") != "ceil_pow2" or self.vn.callargs[x.id][0] is not self.B:
            return False
        return self.keyhash(h, st)

    def keyhash(self, h, st):
        a = h.atom()
        if a is None or a.k != "lshr" or a.p[1] != 16:
            return False
        c = a.p[0].atom()
        x = self.fn.ins.get(c.p[-1]) if c is not None and c.k == "call" else None
        if x is None or (x.j.get("qn") or "") != "vp::hasher::operator()":
            return False
        ca = self.vn.callargs[x.id]
        if not self.salted(ca[0], x) or self.n.name(ca[2]) != ("dh", "key_size"):
            return False
        p = ca[1].atom()
        if p is None or p.k != "ev" or p.p[1] != (0,):
            return False
        q = p.p[0].atom()
        return q is not None and q.k == "call" and ("data", q.p[-1]) in st

    def pend(self, ev, st):
        if "todo" in st:
            self.report(ev, "a data record is not entered into the regenerated key file")
        if ("kind", "spill") in st and "skipped" not in st:
            self.report(ev, "a spill record is not skipped as a whole")
        r = self.fact(st, "rec")
        if r is not None and self.fact(st, "kind") is None:
            self.report(ev, "a record is passed over without looking at its size")

    def on_call(self, ev, op, st):
        if op is None:
            return None
        k, r, a = op.k, op.role, ev.args
        if "nobucket" in st and k in ("bctor", "binsert"):      # no bucket lies in an empty section
            return st - {"todo"} if k == "binsert" else st
        if k == "size" and r == "df" and "dfmut" in st:
            return st | {("late", ev.ins.id)}
        if k in ("spillout", "wprepare", "wflush") and r == "df":
            return st | {"dfmut"}
        if k == "rctor":
            self.oblige("every section scans the whole data file", ev)
            if r != "df" or not (a[2].is_const and a[2].const == SIZE["dh"]) or self.n.name(a[3]) != ("size", "df"):
                self.report(ev, "the scan does not cover the data records from the header to the original end of the file")
            self.late(ev, a[3], st)
            if "emptied" not in st:
                self.report(ev, "records are entered into buckets that were not all made empty")
            return self.without(st, "rec", "kind", "todo", "data", "off", "skipped", "skip2", "scandone") | {"scan"}
        if k == "roffset":
            return self.without(st, "off") | {("off", ev.ins.id)}
        if k == "rprepare" and r == "df":
            if "scan" not in st:
                return None
            if a[1].is_const and a[1].const == 6:
                self.pend(ev, st)
                o = self.fact(st, "off")
                st = self.without(st, "rec", "kind", "todo", "data", "off", "recoff", "skipped", "skip2", "b", "n", "ge", "lt", "room")
                return st | ({("recoff", o[1])} if o is not None else set())
            st = self.without(st, "off")
            return st
        if k == "bctor":
            b = a[0]
            st = frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in ("b", "room") and f[1] == b.id))
            if self.isempty(op):
                self.oblige("section's buckets made empty", ev)
                if op.x.id in self.empties:
                    base = ev.flow.resolve(self.empties[op.x.id], ev.env)
                    return (st - {"epend"}) | {("base", base.id)}
                return st
            ba = self.fact(st, "base")
            if ba is not None and a[1] is self.bs:
                q = self.index_of(a[2], self.term(ba[1]))
                if q is not None:
                    return st | {("b", b.id, q.id)}
            return st
        if k == "binsert":
            self.oblige("data record entered into its bucket", ev)
            b = [f for f in st if isinstance(f, tuple) and f[0] == "b" and f[1] == a[0].id]
            n = self.term(b[0][2]) if b else None
            if n is None or not self.hashed(n, st):
                self.report(ev, "a record is not entered into the bucket its key's hash selects")
            else:
                if ("ge", n.id) not in st or ("lt", n.id) not in st:
                    self.report(ev, "a record is entered into a bucket outside the section in memory")
                if as_index(self.root, n)[0] is not a[3]:
                    self.report(ev, "the hash stored with a record is not the hash that selects its bucket")
            if ("room", a[0].id) not in st:
                self.report(ev, "a record is entered into a bucket that may be full")
            o = a[1].atom()
            if o is None or o.k != "call" or ("recoff", o.p[-1]) not in st:
                self.report(ev, "the offset stored is not that of the record")
            c = self.size_call(a[2])
            if c is None or ("rec", c) not in st:
                self.report(ev, "the size stored is not that of the record")
            if ("kind", "data") not in st or self.fact(st, "data") is None:
                self.report(ev, "something other than a completely read data record is entered")
            if "todo" not in st:
                self.report(ev, "a record is entered twice")
            return (st - {"todo", ("room", a[0].id)})
        if k in ("bclear", "berase", "bspill"):
            self.report(ev, "entries are removed from a bucket of the regenerated key file")
            return None
        if op.mutates == "kf" and k == "write":
            if ev.ins.id in self.sec:
                self.oblige("section written after a complete scan", ev)
                ba = self.fact(st, "base")
                if "scandone" not in st or "emptied" not in st:
                    self.report(ev, "a section of buckets is written before all records were entered")
                if "nobucket" not in st and (ba is None or self.term(ba[1]) is not a[2]):
                    self.report(ev, "the section written is not the one the records were entered into")
                if self.steps:
                    self.report(ev, self.steps)
                return st | {"sec"}
            if "sec" in st:
                self.report(ev, "the key file is overwritten after a section of buckets was written")
        return None

    def term(self, i):
        from .records import TERMS_BY_ID
        return TERMS_BY_ID.get(i)

    def on_ok(self, ev, op, st):
        if op is None:
            return None
        k, r, a = op.k, op.role, ev.args
        if k == "rprepare" and r == "df" and "scan" in st:
            if a[1].is_const and a[1].const == 6:
                return st | {("rec", ev.ins.id)}
            kd = self.fact(st, "kind")
            if kd == ("kind", "data"):
                self.oblige("data record read completely", ev)
                for m in a[1].m:
                    t = tm.mk({m: 1})
                    if self.n.name(t) == ("dh", "key_size"):
                        c = self.size_call(tm.sub(a[1], t))
                        if c is not None and ("rec", c) in st:
                            return st | {("data", ev.ins.id)}
                self.report(ev, "a data record is not read as key and value")
            elif kd == ("kind", "spill"):
                if a[1].is_const and a[1].const == 2:
                    return st | {("skip2", ev.ins.id)}
                c = be_at(a[1], self.prep(2), 2)
                if c is not None and ("skip2", c) in st:
                    return st | {"skipped"}
                self.report(ev, "a spill record is skipped by something other than its size")
            return None
        if k == "spillout":
            return st | {("room", a[0].id)}
        if k == "write" and ev.ins.id in self.sec:
            return st - {"chunk"}
        return None

    def on_ret(self, ev, st):
        if self.ecv(ev, self.out) == "ok":
            self.oblige("every section written", ev)
            if "all" not in st or "chunk" in st:
                self.report(ev, "regeneration succeeds without writing every bucket")
        return None


@rule("C16")
def log_first_log_last(res, L):
    root = L["mid"].root("rekey")
    aut = Order()
    run(res, "log_first_log_last", root, aut)
    for ob in ("log header describes the state before", "data file changed under a durable log",
               "log deleted only when everything is durable", "key file grows under a durable log", "regeneration succeeds"):
        need(res, "log_first_log_last", root, aut, ob, f"not found in rekey: {ob}")


@rule("C37")
def every_record_indexed(res, L):
    root = L["mid"].root("rekey")
    aut = Regen()
    run(res, "every_record_indexed", root, aut)
    for ob in ("data record entered into its bucket", "section written after a complete scan", "section's buckets made empty",
               "every section scans the whole data file", "every section written"):
        need(res, "every_record_indexed", root, aut, ob, f"not found in rekey: {ob}")
