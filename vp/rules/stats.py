"""What verify reports about the files (mid-level module): C41.

The automaton of checking.py is followed once more, this time for what is added to the members of verify_info.  Every addition
pays for something examined: a data record (1 and its size), a spill record passed (1 and its size), a bucket of a chain (its
entries), a spill record in use (1 and its size), a chain (one bucket of the histogram).  Everything examined is paid for once."""
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import split_ptr, AnchorError
from ..flow import Automaton
from .common import *
from .commit import need
from .checking import Verify
from .regen import be_at

# what is reported as it stands in the files
WHOLE = {"version": ("dh", "version"), "uid": ("dh", "uid"), "appnum": ("dh", "appnum"), "key_size": ("kh", "key_size"),
         "salt": ("kh", "salt"), "pepper": ("kh", "pepper"), "block_size": ("kh", "block_size"), "capacity": ("kh", "capacity"),
         "buckets": ("kh", "buckets"), "key_file_size": ("size", "kf"), "dat_file_size": ("size", "df")}
SAME = {("kh", "uid"): ("dh", "uid"), ("kh", "appnum"): ("dh", "appnum"), ("dh", "key_size"): ("kh", "key_size"),
        ("kh", "version"): ("dh", "version")}
RECORD = {"value_count": "data", "value_bytes": "data", "spill_count_tot": "spill", "spill_bytes_tot": "spill"}
CHAIN = {"key_count": "keys", "spill_count": "one", "spill_bytes": "bytes"}
RATIO = ("avg_fetch", "waste", "overhead", "actual_load")
CONV = ("uitofp", "sitofp", "fpext", "fptrunc")


class Stats(Verify):
    REC = Verify.REC + ("pay", "b0")

    def report(self, ev, msg, key=None):
        pass                            # C24's business

    def oblige(self, name, ev=None):
        pass

    def say(self, ev, msg):
        Automaton.report(self, ev, msg)

    def had(self, name, ev):
        Automaton.oblige(self, name, ev)

    # --- where things are
    def setup(self):
        super().setup()
        m = self.root.lib.mod
        self.arg0 = atom("arg", 0)
        self.cell, self.hist = {}, None
        for o, s, p, ty in m.fields(m.type("verify_info", "nudb")):
            if "." in p and not p.startswith("hist"):
                continue
            if p.startswith("hist"):
                self.hist = self.hist or o
            else:
                self.cell[tm.add(self.arg0, const(o)).id] = p
        names = set(self.cell.values())
        for n in list(WHOLE) + list(RECORD) + list(CHAIN) + list(RATIO) + ["bucket_size", "algorithm"]:
            if n not in names:
                raise AnchorError(f"verify_info has no member {n}")
        if self.hist is None:
            raise AnchorError("verify_info has no member hist")
        t = m.type("verify_info", "nudb")
        self.nhist = (t["size"] - self.hist) // 8
        self.webs = {}                  # phi instruction id -> web
        self.kind = {}                  # web -> what it sums up
        self.glob = {}                  # web -> the member it is stored to
        self.findflags()
        self.spillreads = [o for o in self.ops.values() if o.k == "bread" and o.role == "df"]
        for b in self.fn.rpo:
            if b in self.fn.dead:
                continue
            for x in self.fn.blocks[b]:
                if x.op != "store":
                    continue
                p, v = self.vn.memat[x.id], self.vn.op(x.j["a"][0])
                c = self.cell.get(p.id)
                if c in CHAIN or c in RECORD:
                    l = self.has(v, p)
                    d = tm.sub(v, l) if l is not None else v
                    if l is None:
                        w = self.web(v)
                        if w is not None:
                            self.glob[w] = c
                    elif c in CHAIN:
                        self.web(d)
                h = self.slot(p)
                if h is not None:
                    for t in self.clamped(h):
                        self.web(t)

    def has(self, v, p):
        """the loaded value of the place p that v adds something to"""
        for m, c in v.m.items():
            if len(m) == 1 and c == 1 and m[0].k == "ld" and m[0].p[0] is p:
                return tm.mk({m: 1})
        return None

    def slot(self, p):
        """the index of the histogram's element at this place"""
        b, o = split_ptr(p)
        if b is None or b is not self.arg0.atom():
            return None
        d = tm.sub(o, const(self.hist))
        if d.is_const:
            return tm.const(d.const // 8) if 0 <= d.const < 8 * self.nhist and d.const % 8 == 0 else None
        return tm.mk({m: c // 8 for m, c in d.m.items()}) if all(c % 8 == 0 for c in d.m.values()) else None

    def clamped(self, h):
        """what the index is the number of, where it is limited to the last element"""
        a = h.atom()
        last = const(self.nhist - 1)
        if a is not None and a.k == "min" and any(q is last for q in a.p):
            return [q for q in a.p if isinstance(q, T) and q is not last]
        if a is not None and a.k in ("phi", "sel"):
            # a merge of the number and the last element
            out = [q for q in self._merge(a) if q is not last]
            if len(out) < len(self._merge(a)) and len(set(out)) == 1:
                return out[:1]
        return []

    def _merge(self, a):
        if a.k == "sel":
            return [q for q in a.p[1:3] if isinstance(q, T)]
        x = self.fn.ins.get(a.p[-1])
        if x is None or x.op != "phi" or x.bb in self.fn.loops:
            return []
        return [self.vn.op(v) for p, v in x.j["in"] if p in self.fn.rpon and p not in self.fn.dead]

    def zeroed(self, base, lo, hi, at, depth=3):
        """the bytes [lo, hi) behind base are zero when control reaches the instruction at"""
        need_ = set(range(lo, hi))
        for b in self.fn.rpo:
            if b in self.fn.dead:
                continue
            for x in self.fn.blocks[b]:
                if x.op == "store" and self.zero(self.vn.op(x.j["a"][0])):
                    p, o = split_ptr(self.vn.memat[x.id])
                    if p is base and o.is_const and self.fn.ins_dominates(x, at):
                        need_ -= set(range(o.const, o.const + x.j["size"]))
                    elif p is not None and p.k == "phi":
                        # a pointer that runs through the bytes
                        y = self.fn.ins.get(p.p[-1])
                        l = self.loops.get(y.bb) if y is not None else None
                        r = l.aff.get(p) if l is not None else None
                        e = self.runs_to(l, p) if r is not None and x.bb in l.body else None
                        if e is not None and r[1] is const(x.j["size"]):
                            s, so = split_ptr(r[0])
                            q, eo = split_ptr(e)
                            if s is base and q is base and so.is_const and eo.is_const and self.fn.dominates(y.bb, at.bb):
                                need_ -= set(range(so.const, eo.const))
                elif x.op in ("call", "invoke"):
                    q, a = x.j.get("qn") or "", self.vn.callargs.get(x.id) or []
                    if not (q.startswith("llvm.mem") and len(a) > 2 and a[2].is_const and self.fn.ins_dominates(x, at)):
                        continue
                    p, o = split_ptr(a[0])
                    if p is not base or not o.is_const:
                        continue
                    if q.startswith("llvm.memset"):
                        if a[1] is tm.ZERO:
                            need_ -= set(range(o.const, o.const + a[2].const))
                    elif depth:
                        s, so = split_ptr(a[1])
                        got = set(range(o.const, o.const + a[2].const)) & need_
                        if s is not None and so.is_const and got and self.zeroed(
                                s, min(got) - o.const + so.const, max(got) + 1 - o.const + so.const, x, depth - 1):
                            need_ -= got
        return not need_

    @staticmethod
    def zero(t):
        a = t.atom()
        return t is tm.ZERO or a is not None and a.k == "fp" and a.p[0] == "0"

    def runs_to(self, l, p):
        """where a pointer that is advanced in a loop ends"""
        t = self.fn.blocks[l.header][-1]
        lit = self.vn.lit(t.j["cond"]) if t.op == "br" and "cond" in t.j else None
        a = lit[0].atom() if lit not in (None, True, False) and isinstance(lit[0], T) else lit[0] if lit not in (None, True, False) else None
        if a is None or a.k != "eq":
            return None
        me = tm.mk({(p,): 1})
        for d in (a.p[0], tm.scale(a.p[0], -1)):
            e = tm.sub(me, d)
            if p not in {q for m in e.m for q in m}:
                return e
        return None

    # --- sums kept in variables
    def phi(self, a):
        x = self.fn.ins.get(a.p[-1]) if a.k == "phi" and isinstance(a.p[-1], int) else None
        return x if x is not None and x.op == "phi" and self.vn.t.get(x.id) is not None and self.vn.t[x.id].atom() is a else None

    def web(self, t):
        """the variable this value belongs to: the merges it passes through from a start value, with what is added between"""
        for m, c in t.m.items():
            if len(m) != 1 or c != 1:
                continue
            x = self.phi(m[0])
            if x is None:
                continue
            if x.id in self.webs:
                return self.webs[x.id]
            w = self._web(x)
            if w is not None:
                return w
        return None

    def _web(self, x0):
        ids, todo, deltas, starts = {x0.id}, [x0], [], []
        while todo:
            x = todo.pop()
            for p, v in x.j["in"]:
                if p in self.fn.dead or p not in self.fn.rpon or v["k"] == "undef":
                    continue
                t = self.vn.op(v)
                nxt = None
                c = [self.phi(m[0]) for m, k in t.m.items() if len(m) == 1 and k == 1 and self.phi(m[0]) is not None]
                c = [y for y in c if y.id in ids] or c
                if len(c) == 1 or c and c[0].id in ids:
                    nxt = c[0]
                elif c:
                    return None
                if nxt is None:
                    starts.append(t)
                    continue
                d = tm.sub(t, self.vn.t[nxt.id])
                if d is not tm.ZERO:
                    deltas.append(d)
                if nxt.id not in ids:
                    ids.add(nxt.id)
                    todo.append(nxt)
        if not deltas:
            return None
        kinds = {self.deltakind(d) for d in deltas}
        w = min(ids)
        for i in ids:
            self.webs[i] = w
        self.kind[w] = kinds.pop() if len(kinds) == 1 else None
        return w

    def member(self, t, k):
        """the object whose size (8) or spill (16) member this is"""
        a = t.atom()
        b, o = split_ptr(a.p[0]) if a is not None and a.k == "ld" else (None, None)
        return tm.mk({(b,): 1}) if b is not None and b.k == "alloca" and o.is_const and o.const == k else None

    def deltakind(self, d):
        if d is const(1):
            return "one"
        if self.member(d, 8) is not None:
            return "keys"
        q = tm.sub(d, const(16))
        if q.m and all(c == 18 for c in q.m.values()) and self.member(tm.mk({m: 1 for m in q.m}), 8) is not None:
            return "bytes"
        return None

    # --- facts
    def current(self, st, t):
        """the size of the bucket of the chain last reached"""
        a = t.atom()
        return a is not None and any(("szl", f[1], a.id) in st for f in st
                                     if isinstance(f, tuple) and f[0] in ("cur", "kb", "cb"))

    def expected(self, st, kind, d):
        if kind == "one":
            return d is const(1)
        if kind == "keys":
            return self.current(st, d)
        q = tm.sub(d, const(16))
        return bool(q.m) and all(c == 18 for c in q.m.values()) and self.current(st, tm.mk({m: 1 for m in q.m}))

    def targets(self, kinds):
        return [n for n, k in CHAIN.items() if k in kinds] + [w for w, k in self.kind.items() if k in kinds and w not in self.glob]

    def open_bucket(self, ev, st):
        self.had("bucket of the key file reached", ev)
        st = self.without(st, "due", "unpaid", "paid", "whole", "hist")
        return st | {"bk"} | {("due", t) for t in self.targets(("keys",))}

    def spill_reached(self, ev, st):
        self.had("spill record in use reached", ev)
        if ("hist",) in st:
            self.say(ev, "a bucket's place in the histogram is taken before its chain was followed to the end")
        for t in self.targets(("keys", "one", "bytes")):
            if ("due", t) in st:
                st = st | {("unpaid", t)}
            if ("whole", t) in st:
                self.say(ev, f"{t} is completed before the chain was followed to the end")
            st = st | {("due", t)}
        return st

    def pay(self, ev, st, t, d):
        kind = CHAIN.get(t) or self.kind.get(t)
        if "bk" in st and ("due", t) in st and self.expected(st, kind, d):
            self.had(f"{kind} added", ev)
            return (st - {("due", t)}) | {("paid", t)}
        if not isinstance(t, int) and "bk" in st:
            if self.complete(st, kind, d):
                self.had(f"{kind} added", ev)
                if ("whole", t) in st or ("paid", t) in st:
                    self.say(ev, f"what is found in a chain is added to {t} twice")
                return self.without_(st, ("due", "unpaid"), t) | {("whole", t)}
        if isinstance(t, int):
            return st | {("bad", t)}
        self.say(ev, f"{t} is changed by something other than what was found in the files")
        return st

    @staticmethod
    def without_(st, ks, t):
        return frozenset(f for f in st if not (isinstance(f, tuple) and len(f) > 1 and f[0] in ks and f[1] == t))

    def complete(self, st, kind, d):
        """d is the sum of one kind of thing over the current bucket and its chain"""
        a = d.atom()
        if a is None:
            return False
        x = self.phi(a)
        w = self.webs.get(x.id) if x is not None else None
        if w is not None and w not in self.glob and self.kind.get(w) == kind and ("z", w) in st and not any(
                (k, w) in st for k in ("due", "unpaid", "bad")):
            return True
        if kind != "keys":
            return False
        ac, owe = self.fact(st, "acc"), self.fact(st, "owe")
        if ac is None or owe is not None:
            return False
        if a.k == "ld":
            r = self.counter(a.p[0])
            if r is not None and r[0] in self.nk and r[1] is self.T[ac[1]]:
                return True
        return self.accumulates(d, st)

    def chain_over(self, ev, st):
        """the current bucket and its chain are left behind"""
        self.had("bucket and chain left", ev)
        for t in CHAIN:
            if ("due", t) in st or ("unpaid", t) in st:
                self.say(ev, f"{t} does not include everything found in a bucket and its chain")
        if ("hist",) not in st:
            self.say(ev, "a bucket is not counted in the histogram")
        return self.without(st, "due", "unpaid", "paid", "whole", "hist", "bad", "z") - {"bk"}

    # --- events
    def starts(self, ev):
        """everything that is added to starts at zero"""
        if not hasattr(self, "_zero"):
            self._zero = {}
            f = {p: (o, s) for o, s, p, ty in self.root.lib.mod.fields(self.root.lib.mod.type("verify_info", "nudb"))}
            done = set(self.glob.values())
            for c in list(RECORD) + list(CHAIN):
                if c not in done:
                    self._zero[c] = self.zeroed(self.arg0.atom(), f[c][0], f[c][0] + f[c][1], ev.ins)
            self._zero["hist"] = self.zeroed(self.arg0.atom(), self.hist, self.hist + 8 * self.nhist, ev.ins)
        for c, ok in sorted(self._zero.items()):
            self.had("sum starts at zero", ev)
            if not ok:
                self.say(ev, f"{c} does not start at zero")

    def duty_test(self, st, a, val):
        if "bk" in st and (self.tests[a.id][1] is self.B or self.fact(st, "cb") is not None):
            st = self.chain_over(self.ev, st)
        return super().duty_test(st, a, val)

    def on_assume(self, ev, st):
        self.ev = ev
        st0 = st
        a, val = ev.args
        if isinstance(a, tm.Atom):
            if a.k == "eq":
                d = self.can(a.p[0])
                if self.X is not None and (d is self.X or tm.scale(d, -1) is self.X or d in (
                        tm.sub(self.Y, self.B), tm.sub(self.B, self.Y))):
                    st = self.without(st, "b0") | {("b0", val)}
                c = self.infoname(a.p[0])
                if c == "value_count":
                    st = (st | {"novalue"}) if val else st - {"novalue"}
            elif a.k == "ult" and self.X is not None and self.can(a.p[0]) is self.X and a.p[1] is const(1):
                st = self.without(st, "b0") | {("b0", val)}
            sk = self.fact(st, "skip2")
            if sk is not None and a.k in ("eq", "ult") and self.kin(a, sk[1]):
                self.say(ev, "spill records left by a key file with another block size are rejected")
        r = super().on_assume(ev, st)
        st = st if r is None else r
        return st if st != st0 else None

    def findflags(self):
        """variables that are set to one constant before the sections of the key file and to others from then on"""
        self.flags, self.xh = set(), None
        x = self.phi(self.X.atom()) if self.X is not None and self.X.atom() is not None else None
        if x is None:
            return
        self.xh = x.bb
        for y in self.fn.blocks[x.bb]:
            if y.op != "phi" or y.id not in self.vn.t:
                continue
            ids, todo, ok, vals = {y.id}, [y], True, set()
            while todo and ok:
                for p, v in todo.pop().j["in"]:
                    if p in self.fn.dead or p not in self.fn.rpon or v["k"] == "undef":
                        continue
                    t = self.vn.op(v)
                    z = self.phi(t.atom()) if t.atom() is not None else None
                    if t.is_const:
                        vals.add(t.const)
                    elif z is None:
                        ok = False
                    elif z.id not in ids:
                        ids.add(z.id)
                        todo.append(z)
            if ok and len(vals) > 1:
                self.flags |= ids

    def kin(self, a, call):
        """a comparison of a spill record's size with something in the key file's header"""
        ts = [self.can(q) for q in a.p if isinstance(q, T)]
        at = set()
        for t in ts:
            at |= set(tm.walk(t, set()))
        return any(x.k == "hdr" and x.p[0] == "kh" and x.p[1] in ("block_size", "capacity") for x in at) and any(
            x.k == "ev" and x.p[0].atom() is not None and x.p[0].atom().k == "call" and x.p[0].atom().p[-1] == call for x in at)

    def pass_(self, st):
        """("b0", whether this is the one pass in which spill records are counted), None if that is not known"""
        b0 = self.fact(st, "b0")
        if b0 is None and self.flags:
            return ("b0", ("fs",) in st)
        return b0

    def pend(self, ev, st):
        kd = self.fact(st, "kind")
        if "scan" not in st or self.fact(st, "rec") is None or kd is None:
            return
        have = {f[1] for f in self.facts(st, "pay")}
        if kd[1] == "data":
            want = {n for n, k in RECORD.items() if k == "data"} if "todo" in st else set()
        else:
            b0 = self.pass_(st)
            want = {n for n, k in RECORD.items() if k == "spill"} if "open" not in st or b0 == ("b0", True) else set()
            if "open" in st and b0 is None and have:
                self.say(ev, "spill records are counted again for every section of the key file")
        self.had(f"{kd[1]} record left", ev)
        for n in sorted(want - have):
            self.say(ev, f"a {kd[1]} record is not counted in {n}")
        for n in sorted(have - want):
            if self.pass_(st) is not None or kd[1] == "data":
                self.say(ev, f"a {kd[1]} record is counted in {n} in more than one pass over the data file")

    def on_edge(self, ev, st):
        b, d = ev.args
        st0 = st
        if self.flags and d == self.xh:
            st = self.without(st, "fs") | ({("fs",)} if b not in self.fn.loops[d] else set())
        seen = set()
        for x in self.fn.blocks[d]:
            if x.op != "phi" or x.id not in self.webs:
                continue
            w = self.webs[x.id]
            for p, v in x.j["in"]:
                if p != b or v["k"] == "undef":
                    continue
                t = self.vn.op(v)
                base = [m[0] for m, c in t.m.items() if len(m) == 1 and c == 1 and self.phi(m[0]) is not None
                        and self.webs.get(self.phi(m[0]).id) == w]
                if not base:
                    if (w, t.id) not in seen:
                        st = self.reset(ev, st, w, t)
                    seen.add((w, t.id))
                    continue
                dl = tm.sub(t, tm.mk({(base[0],): 1}))
                if dl is not tm.ZERO and (w, dl.id) not in seen:
                    seen.add((w, dl.id))
                    st = self.added(ev, st, self.glob[w], dl) | {("dirty", self.glob[w])} if w in self.glob else self.pay(ev, st, w, dl)
        r = super().on_edge(ev, st)
        st = st if r is None else r
        return st if st != st0 else None

    def reset(self, ev, st, w, t):
        if w in self.glob:
            if t is not tm.ZERO or ("z", w) in st:
                self.say(ev, f"{self.glob[w]} does not start at zero")
            return st | {("z", w)}
        st = self.without_(st, ("bad", "z"), w)
        if ("paid", w) in st or ("unpaid", w) in st:
            return st | {("bad", w)}
        if t is tm.ZERO:
            return st | {("z", w)}
        if self.kind.get(w) == "keys" and self.current(st, t) and ("due", w) in st:
            return (st - {("due", w)}) | {("z", w), ("paid", w)}
        return st | {("bad", w)}

    def added(self, ev, st, c, d):
        """d is added to a member"""
        st = self.without(st, "set")
        if c in CHAIN:
            return self.pay(ev, st, c, d)
        if self.fact(st, "kind") != ("kind", RECORD[c]) or self.fact(st, "rec") is None:
            self.say(ev, f"{c} is changed although there is no {RECORD[c]} record to count")
            return st
        if ("pay", c) in st:
            self.say(ev, f"a record is counted in {c} twice")
        if c in ("value_count", "spill_count_tot"):
            ok = d is const(1)
        elif c == "value_bytes":
            call = self.size_call(d)
            ok = call is not None and ("rec", call) in st
        else:
            call = be_at(tm.sub(d, const(8)), self.prep(2), 2)
            ok = call is not None and ("skip2", call) in st
        if not ok:
            self.say(ev, f"what is added to {c} is not the record's")
        self.had(f"{RECORD[c]} record counted", ev)
        return st | {("pay", c)}

    def on_load(self, ev, st):
        st0 = st
        t = self.vn.t.get(ev.ins.id)
        c = self.cell.get(ev.args[0].id)
        if t is not None and (c in RECORD or c in CHAIN):
            st = self.without_(st, ("cur_",), c) | {("cur_", c, self.keep(t))}
        r = super().on_load(ev, st)
        st = st if r is None else r
        return st if st != st0 else None

    def on_store(self, ev, st):
        ptr, val = ev.args
        c = self.cell.get(ptr.id)
        if c is None:
            h = self.slot(ptr)
            if h is not None and "scan" in st or h is not None and "bk" in st:
                return self.histogram(ev, st, ptr, h, val)
            return super().on_store(ev, st)
        if c in RECORD or c in CHAIN:
            f = [f for f in st if isinstance(f, tuple) and f[0] == "cur_" and f[1] == c]
            base = self.T[f[0][2]] if f else None
            new = self.without_(st, ("cur_", "dirty"), c) | {("cur_", c, self.keep(val))}
            w = self.web(val)
            if w is not None and self.glob.get(w) == c:
                d = [self.phi(m[0]) for m, k in val.m.items() if len(m) == 1 and k == 1 and self.phi(m[0]) is not None
                     and self.webs.get(self.phi(m[0]).id) == w]
                d = tm.sub(val, self.vn.t[d[0].id])
                return self.added(ev, new, c, d) if d is not tm.ZERO else new
            if base is None:
                base = self.has(val, ptr)
            if base is None:
                if val is tm.ZERO and "scan" not in st and "bk" not in st:
                    return new
                self.say(ev, f"{c} is overwritten")
                return new
            return self.added(ev, new, c, tm.sub(val, base))
        if c in WHOLE or c in ("bucket_size", "load_factor", "algorithm"):
            st = self.without_(st, ("is",), c)
            return st | {("is", c)} if self.right(c, val, st) else st
        if c in RATIO:
            st = self.without_(st, ("set",), c)
            r = self.ratio_of(c, val, st)
            if r is False:
                self.say(ev, f"{c} is not computed from the members it is defined by")
            return st | {("set", c)}
        return None

    def right(self, c, val, st):
        if c == "algorithm":
            return val.is_const
        if c == "bucket_size":
            return self.can(val) is tm.add(const(8), tm.scale(atom("hdr", "kh", "capacity"), 18))
        if c == "load_factor":
            return self.mentions(val, atom("hdr", "kh", "load_factor"))
        n = self.named(val)
        a = n.atom()
        if a is None or a.k != "hdr":
            return False
        return SAME.get(tuple(a.p), tuple(a.p)) == WHOLE[c]

    def mentions(self, t, w, depth=6):
        if self.named(t) is w:
            return True
        return depth > 0 and any(isinstance(q, T) and self.mentions(q, w, depth - 1) for m in t.m for a in m for q in a.p)

    def histogram(self, ev, st, ptr, h, val):
        l = self.has(val, ptr)
        ts = self.clamped(h)
        w = self.web(ts[0]) if len(ts) == 1 else None
        st = self.without(st, "set")
        if l is None or tm.sub(val, l) is not const(1) or "bk" not in st:
            self.say(ev, "the histogram is changed by something other than a bucket")
            return st
        if w is None or not self.complete(st, "one", ts[0]):
            self.say(ev, "a bucket is not counted in the histogram under its number of spill records")
        if ("hist",) in st:
            self.say(ev, "a bucket is counted in the histogram twice")
        self.had("bucket counted in the histogram", ev)
        return st | {("hist",)}

    # --- ratios
    def infoname(self, t):
        """the member (or what is the same) a whole value is"""
        a = t.atom()
        if a is not None and a.k == "ld":
            c = self.cell.get(a.p[0].id)
            if c is not None:
                return c
        x = self.phi(a) if a is not None else None
        if x is not None and self.webs.get(x.id) in self.glob:
            return self.glob[self.webs[x.id]]
        n = self.named(t).atom()
        if n is not None and n.k == "hdr":
            for c, w in WHOLE.items():
                if SAME.get(tuple(n.p), tuple(n.p)) == w:
                    return c
        return None

    def poly(self, t):
        """an integer in terms of members: {sorted names: coefficient}; None if something else is involved"""
        out = {}
        for m, c in t.m.items():
            k = []
            for a in m:
                n = self.infoname(tm.mk({(a,): 1}))
                if n is None:
                    return None
                k.append(n)
            if c >= 1 << 63:
                c -= 1 << 64
            out[tuple(sorted(k))] = c
        return out

    def unconv(self, t):
        a = t.atom() if isinstance(t, T) else None
        while a is not None and a.k == "op" and a.p[0] in CONV:
            t = a.p[1]
            a = t.atom()
        return t

    def quotient(self, t):
        t = self.unconv(t)
        a = t.atom()
        if a is None or a.k != "op" or a.p[0] != "fdiv":
            return None
        return self.unconv(a.p[1]), self.unconv(a.p[2])

    def ratio_of(self, c, val, st):
        """True, False, or None where the form is not understood"""
        z = val.atom()
        if z is not None and z.k == "fp" and c in ("avg_fetch", "overhead"):
            return "novalue" in st
        if c == "overhead":
            a = self.unconv(val).atom()
            if a is None or a.k != "op" or a.p[0] not in ("fsub", "fadd"):
                q = self.quotient(val)
                # the useful part is not subtracted
                return False if q is not None and self.poly(q[0]) == {("dat_file_size",): 1, ("key_file_size",): 1} else None
            w = self.unconv(a.p[2]).atom() if isinstance(a.p[2], T) else None
            if w is None or w.k != "fp":
                return None
            if float(w.p[0]) != (1 if a.p[0] == "fsub" else -1):
                return False
            val = a.p[1]
        q = self.quotient(val)
        if q is None:
            return None
        n, d = (self.poly(x) for x in q)
        if c == "avg_fetch":
            return d == {("value_count",): 1} if d is not None else None
        if n is None or d is None:
            return None
        if c == "waste":
            return n == {("spill_bytes_tot",): 1, ("spill_bytes",): -1} and d == {("dat_file_size",): 1}
        if c == "actual_load":
            return n == {("key_count",): 1} and d == {("buckets", "capacity"): 1}
        return n == {("dat_file_size",): 1, ("key_file_size",): 1} and d == {
            ("value_bytes",): 1, ("key_count",): 6, ("key_count", "key_size"): 1}

    def bread(self, ev, op, st):
        r = super().bread(ev, op, st)
        st2 = st if r is None else r
        if self.fact(st, "rec") is not None:
            return st2
        if op.role == "kf":
            return self.open_bucket(ev, st2)
        if op.role == "df" and (self.fact(st, "kb") is not None or self.fact(st, "cur") is not None):
            return self.spill_reached(ev, st2)
        return st2

    def on_call(self, ev, op, st):
        st0 = st
        if op is not None and op.k == "rprepare" and op.role == "df" and op.a[1].is_const and op.a[1].const == 6:
            r = super().on_call(ev, op, st)
            return r
        if op is not None and op.k == "rctor" and op.role == "df":
            self.starts(ev)
        if op is not None and op.k == "breadbulk":
            self.say(ev, "a spill record left by another key file is read as a bucket of this one")
        r = super().on_call(ev, op, st)
        st = st if r is None else r
        if op is not None and op.k == "bctor" and self.fact(st, "rec") is None and any(
                f[1] == op.a[0].id for f in self.facts(st, "cb")):
            st = self.open_bucket(ev, st)
        return st

    def on_ret(self, ev, st):
        if ev.flow.ecstate(ev.ecs, self.out.id) != "ok":
            return None
        self.had("success", ev)
        if "bk" in st:
            st = self.chain_over(ev, st)
        for n in list(WHOLE) + ["bucket_size", "load_factor", "algorithm"]:
            if ("is", n) not in st:
                self.say(ev, f"verify reports something else as {n} than what the files say")
        for n in RATIO:
            if ("set", n) not in st:
                self.say(ev, f"{n} is not computed from the final numbers")
        for f in self.facts(st, "dirty"):
            self.say(ev, f"{f[1]} is not stored")
        return None


@rule("C41")
def statistics(res, L):
    root = L["mid"].root("verify")
    aut = Stats()
    run(res, "statistics", root, aut)
    for ob in ("data record left", "spill record left", "data record counted", "spill record counted", "bucket of the key file reached",
               "spill record in use reached", "bucket and chain left", "bucket counted in the histogram", "keys added", "one added",
               "bytes added", "success"):
        need(res, "statistics", root, aut, ob, f"not found in verify: {ob}")
