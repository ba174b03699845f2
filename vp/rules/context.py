"""The background context (ctx module): locking, list membership, wake-ups, service loop, list links (C33)."""
from .. import model
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import AnchorError, split_ptr, default_effects
from ..lib import Root, STORE
from ..flow import Automaton
from .common import *
from .posix import Posix, _at

METHODS = ("start", "stop_all", "run", "flush", "insert", "erase", "dtor")
WAITING, FLUSHING = "waiting", "flushing"
NUMS = (0, 1, 2, 3)


def effects(vn, x, args, mem):
    q = x.j.get("qn") or ""
    if q.startswith("llvm.") or x.j.get("callee", "").startswith("llvm.") if x.j.get("callee") else q.startswith("llvm."):
        return default_effects(vn, x, args, mem)
    if not q or q.startswith(("std::mutex::", "std::condition_variable::", "std::thread::", "nudb::")):
        vn.kill_base(mem, lambda b: b.k != "alloca")
        return None
    return model.effects(vn, x, args, mem)


class Where:
    """offsets of the members"""

    def __init__(self, L):
        m = L.mod
        self.f = {p: (o, s) for o, s, p, t in reversed(m.fields(m.type("context", "nudb")))}
        self.n = {p: o for o, s, p, t in m.fields(m.type("store_base", "nudb::detail"))}
        for k in ("m_", "waiting_.head_", "flushing_.head_", "num_threads_", "stop_", "t_"):
            if k not in self.f:
                raise AnchorError(f"context has no member {k}")
        for k in ("next_", "prev_", "state_"):
            if k not in self.n:
                raise AnchorError(f"store_base has no member {k}")
        en = m.enum("state", "nudb::detail::store_base")
        self.val = {n: v for v, n in en.items()}
        for k in ("waiting", "flushing", "intermediate", "none"):
            if k not in self.val:
                raise AnchorError(f"store_base::state has no value {k}")
        self.states = frozenset(self.val.values())
        self.listof = {self.val["waiting"]: WAITING, self.val["flushing"]: FLUSHING,
                       self.val["intermediate"]: None, self.val["none"]: None}
        self.stateof = {WAITING: self.val["waiting"], FLUSHING: self.val["flushing"]}
        self.name = {v: n for n, v in self.val.items()}
        self.cvs = sorted({o for p, (o, s) in self.f.items() if "." not in p and s == 48 and (p + "._M_cond") in self.f})

    def field(self, off):
        """guarded member at an offset of the context"""
        for k in ("waiting_", "flushing_", "num_threads_", "stop_"):
            o, s = self.f[k]
            if o <= off < o + s:
                return k if s < 16 else k + ("head" if off == self.f[k + ".head_"][0] else "tail")
        return None


class Ctx(Posix):
    """one context method: lock discipline, list membership, wake-ups"""
    wants_ptrs = True

    def __init__(self, name, w, cvs):
        super().__init__()
        self.name, self.w, self.cvroles = name, w, cvs

    def start(self):
        s = set()
        if self.name == "flush":
            s.add(("due",))
        return frozenset(s)

    def setup(self):
        self.this = atom("arg", 0)
        w = self.w
        self.stores = set()        # atoms that are pointers to stores
        vn = self.vn
        if self.name in ("insert", "erase"):
            self.stores.add(atom("arg", 1).atom())
        heads = {tm.add(self.this, const(w.f[k + ".head_"][0])).id for k in ("waiting_", "flushing_")}
        changed = True
        while changed:
            changed = False
            for b in self.fn.rpo:
                for x in self.fn.blocks[b] if b not in self.fn.dead else ():
                    a = vn.t[x.id].atom() if x.id in vn.t else None
                    if a is None or a in self.stores:
                        continue
                    y = False
                    if x.op == "load":
                        p = vn.memat[x.id]
                        bb, o = split_ptr(p)
                        y = p.id in heads or bb in self.stores and o.is_const and o.const in (w.n["next_"], w.n["prev_"])
                    elif x.op == "phi":
                        y = any(v["k"] == "v" and vn.op(v).atom() in self.stores for p, v in x.j["in"])
                    if y:
                        self.stores.add(a)
                        changed = True

    # -- small state algebra
    def held(self, st):
        return ("held",) in st

    def drop(self, st, *kinds):
        return frozenset(f for f in st if f[0] not in kinds)

    def forget(self, st):
        """another thread may have run"""
        keep = set()
        for f in st:
            if f[0] in ("cur", "stop", "empty", "num", "rung", "all", "touched", "iter", "itk", "iterset", "nonnull"):
                continue
            if f[0] in ("sv", "ml") and self.sv(st, f[1]) != frozenset([self.w.val["intermediate"]]):
                continue
            keep.add(f)
        return frozenset(keep)

    def sv(self, st, p):
        f = self.get(st, "sv", p)
        return f[2] if f else None

    def ml(self, st, p):
        f = self.get(st, "ml", p)
        return f[2] if f else "?"

    def put(self, st, *f):
        k = {"sv": 2, "ml": 2, "empty": 2, "itk": 2}.get(f[0], 1)
        return frozenset(g for g in st if g[:k] != f[:k]) | {f}

    def nums(self, st):
        f = self.get(st, "num")
        return f[1] if f else frozenset(NUMS)

    def consistent(self, ev, st, what):
        """list membership and state agree at a point other threads can see"""
        self.oblige(f"lists and states agree at {what}", ev)
        for f in st:
            if f[0] == "touched":
                v, l = self.sv(st, f[1]), self.ml(st, f[1])
                if v is None or len(v) != 1:
                    if l != "?":
                        self.report(ev, "a store's list is changed but not its state")
                    continue
                want = self.w.listof[next(iter(v))]
                if want is None and v != frozenset([self.w.val["intermediate"]]) and ("flushed", f[1]) in st:
                    self.report(ev, "a flushed store is not put back")
                if l == "?" or l != want:
                    self.report(ev, f"a store is left in state {self.w.name[next(iter(v))]} but " +
                                ("may still be in a list" if l == "?" else f"in the {l} list" if l else "in no list"))
            elif f[0] == "mis":
                self.report(ev, f"the stores moved to the {f[1]} list keep another state")

    def final(self, st):
        """what becomes of the argument when the lock is released"""
        p = atom("arg", 1).atom()
        out = set(f for f in st if f[0] != "final")
        if self.name in ("insert", "erase"):
            v, l = self.sv(st, p), self.ml(st, p)
            if v is not None or l != "?":
                out.add(("final", v, l))
            else:
                out |= {f for f in st if f[0] == "final"}
        return frozenset(out)

    # -- memory
    def place(self, p):
        """('f', field) | ('s', store atom, member) | None"""
        b, o = split_ptr(p)
        if b is None or not o.is_const:
            return None
        if b is self.this.atom():
            k = self.w.field(o.const)
            return ("f", k) if k else None
        if b in self.stores:
            for k in ("next_", "prev_", "state_"):
                if o.const == self.w.n[k]:
                    return ("s", b, k)
        return None

    def guard(self, ev, st, pl, what):
        self.oblige("shared members are accessed with the lock held", ev)
        if not self.held(st):
            self.report(ev, f"{pl[1] if pl[0] == 'f' else 'a member of a store: ' + pl[2]} is {what} without the lock")

    def on_load(self, ev, st):
        pl = self.place(ev.args[0])
        if pl is None:
            return None
        self.guard(ev, st, pl, "read")
        t = self.vn.t.get(ev.ins.id)
        if ev.ins.id in self.vn.l and self.vn.l[ev.ins.id] not in (True, False):
            t = self.vn.l[ev.ins.id][0]
        a = t.atom() if t is not None else None
        if a is None:
            return None
        while a.k == "bit" and isinstance(a.p[0], T) and a.p[0].atom() is not None:
            a = a.p[0].atom()
        if a.k != "ld":
            return None
        st2 = st
        if a in self.stores:
            if self.sv(st, a) == frozenset([self.w.val["intermediate"]]) and ("cur", a) not in st:
                self.report(ev, "a store taken for flushing is not put back")
            if ("cur", a) not in st:
                st2 = frozenset(f for f in st2 if not (f[0] in ("sv", "ml", "touched", "nonnull", "flushed") and f[1] == a))
        return frozenset(f for f in st2 if f[:2] != ("cur", a)) | {("cur", a, pl)}

    def on_store(self, ev, st):
        pl = self.place(ev.args[0])
        if pl is None:
            return None
        self.guard(ev, st, pl, "written")
        w = self.w
        v = ev.args[1]
        st = frozenset(f for f in st if not (f[0] == "cur" and f[2] == pl))
        if pl[0] == "f":
            k = pl[1]
            if k == "num_threads_":
                old = [f[1] for f in self.cursnap if f[2] == pl]
                d = None
                for a in old:
                    d2 = tm.sub(v, tm.mk({(a,): 1}))
                    if d2.is_const:
                        d = d2.const if d2.const < 1 << 31 else d2.const - (1 << 32)
                ns = self.nums(st)
                st = self.drop(st, "num")
                if d == 1:
                    if ("in",) in st:
                        self.report(ev, "a thread is counted twice")
                    return st | {("in",), ("num", frozenset(min(n + 1, 3) for n in ns))}
                if d == -1:
                    if ("in",) not in st or ("out",) in st:
                        self.report(ev, "a thread is counted out that was not counted in")
                    return self.need(st, "threads") | {("out",)}
                self.report(ev, "the number of threads is set to something else")
                return st
            if k == "stop_":
                st = self.drop(st, "stop")
                if v.is_const and v.const & 1:
                    return self.need(st, "stop") | {("stop", True), ("stopset",)}
                if v.is_const:
                    if ("stopset",) in st and ("drained",) not in st:
                        self.report(ev, "stopping ends before the threads have left")
                    return st | {("stop", False), ("reset",)}
                self.report(ev, "the stop flag is set to something unknown")
                return st
            self.report(ev, f"{k} is changed directly")
            return st
        _, p, k = pl
        if k != "state_":
            return st
        if not v.is_const or v.const not in w.states:
            self.report(ev, "a store gets an unknown state")
            return st
        if p.k == "phi" and self.get(st, "iter", p) is not None:
            return st | {("iterset", p, v.const)}
        old = self.sv(st, p)
        mid = w.val["intermediate"]
        if v.const != mid and (old is not None and mid in old or old is None and self.name != "insert"):
            st = self.need(st, "state")
            if old == frozenset([mid]) and ("flushed", p) not in st and self.ml(st, p) is None and self.name != "erase":
                self.report(ev, "a store taken for flushing is not flushed")
        return self.put(self.put(st, "sv", p, frozenset([v.const])), "touched", p) | {("touched", p)}

    # -- wake-ups
    def need(self, st, role):
        """waiters for role must be woken"""
        if ("rung", self.cvroles.get(role)) in st:
            return st
        return st | {("need", role)}

    def pending(self, ev, st, where):
        for f in st:
            if f[0] == "need":
                self.report(ev, {"threads": "a thread leaves without waking those who wait for it",
                                 "stop": "stopping does not wake the waiting threads",
                                 "state": "a store leaves flushing without waking those who wait for it",
                                 "work": "other threads are not told about stores to flush"}[f[1]])

    # -- conditions
    def on_assume(self, ev, st):
        a, val = ev.args
        if not isinstance(a, tm.Atom):
            return None
        a, val = self.cond(a, val, st)
        if a in (True, False):
            return None if a == val else []
        w = self.w
        if a.k == "eq" and val and a.p[0].atom() is not None and a.p[0].atom().k == "arg":
            return []               # neither this nor a reference is null
        for f in list(st):
            if f[0] != "cur":
                continue
            x, pl = f[1], f[2]
            if a is not x and not tm.contains(tm.mk({(a,): 1}), lambda z: z is x):
                continue
            t = tm.mk({(x,): 1})
            if pl == ("f", "stop_"):
                st = self.drop(st, "stop") | {("stop", val)} if a.k == "bit" or a is x else st
                if a.k == "eq":
                    st = self.drop(st, "stop") | {("stop", not val)}
            elif pl == ("f", "num_threads_"):
                ns = frozenset(n for n in self.nums(st) if _at(a, val, t, n, 32))
                if not ns:
                    return []
                st = self.drop(st, "num") | {("num", ns)}
                if ns <= frozenset((0, 1)):
                    st = st - {("need", "work")}
                if ns == frozenset((0,)) and ("stopset",) in st:
                    st = st | {("drained",)}
            elif pl[0] == "f" and pl[1] in ("waiting_head", "flushing_head") and a.k == "eq" and (a.p[0] is t or a.p[0] is tm.scale(t, -1)):
                l = pl[1][:-4].rstrip("_")
                st = self.put(st, "empty", l, val)
                if val:
                    if l == WAITING:
                        st = st - {("due",)}
                    else:
                        st = st - {("busy",), ("need", "work")}
                elif x in self.stores:
                    st = self.put(self.put(st, "ml", x, l), "sv", x, frozenset([w.stateof[l]]))
            elif pl[0] == "s" and pl[2] == "state_":
                p = pl[1]
                old = self.sv(st, p) or w.states
                vs = frozenset(v for v in old if _at(a, val, t, v, 32))
                if not vs:
                    return []
                st = self.put(st, "sv", p, vs)
                if len(vs) == 1 and ("touched", p) not in st:
                    st = self.put(st, "ml", p, w.listof[next(iter(vs))])
        if a.k == "eq":
            for f in list(st):
                if f[0] == "iter" and (a.p[0] is tm.mk({(f[1],): 1}) or a.p[0] is tm.mk({(f[1],): -1})):
                    if val:
                        k = self.get(st, "itk", f[1])
                        if ("iterbad", f[1]) not in st:
                            for s in w.states if k is None else [k[2]]:
                                st = st | {("all", f[2], s)}
                                if f[2] in w.stateof and w.stateof[f[2]] == s:
                                    st = st - {("mis", f[2])}
                        st = frozenset(g for g in st if not (g[0] in ("iter", "itk", "iterset", "iterbad") and g[1] == f[1]))
        if a.k == "call" and a.p[-1] in self.fn.ins and (self.fn.ins[a.p[-1]].j.get("qn") or "") == "std::thread::joinable":
            st = st | {("joinable", val)}
        return st

    def on_edge(self, ev, st):
        b, d = ev.args
        if d in self.fn.loops and d in self.merges:
            back = b in self.fn.loops[d]
            for x in self.merges[d]:
                a = self.vn.t[x.id].atom() if x.id in self.vn.t else None
                if a is None or a not in self.stores:
                    continue
                t = self.incoming(x, b, st)
                if not back:
                    st = frozenset(g for g in st if not (g[0] in ("iter", "itk", "iterset", "iterbad") and g[1] == a))
                    c = self.get(st, "cur", t.atom()) if t is not None and t.atom() is not None else None
                    if c is not None and c[2][0] == "f" and c[2][1].endswith("head"):
                        st = st | {("iter", a, c[2][1][:-4].rstrip("_"))}
                elif self.get(st, "iter", a) is not None:
                    ta = t.atom() if t is not None else None
                    ok = ta is not None and ta.k == "ld" and ta.p[0] is tm.add(tm.mk({(a,): 1}), const(self.w.n["next_"]))
                    ks = {g[2] for g in st if g[:2] == ("iterset", a)}
                    k = self.get(st, "itk", a)
                    st = frozenset(g for g in st if g[:2] != ("iterset", a))
                    if not ok or len(ks) != 1 or k is not None and k[2] not in ks:
                        st = st | {("iterbad", a)}
                    else:
                        st = self.put(st, "itk", a, next(iter(ks)))
            return st
        return self.enter(b, d, st)

    # -- calls
    def on_call(self, ev, st):
        self.cursnap = [f for f in st if f[0] == "cur"]
        x = ev.ins
        q = x.j.get("qn") or ""
        a = ev.args
        m = q.split("::")[-1]
        w = self.w
        if q.startswith("std::mutex::"):
            b, o = split_ptr(a[0])
            if b is not self.this.atom() or not o.is_const or o.const != w.f["m_"][0]:
                return None
            if m == "lock":
                if self.held(st):
                    self.report(ev, "the lock is taken twice")
                return self.forget(st) | {("held",)}
            if m == "unlock":
                if not self.held(st):
                    self.report(ev, "the lock is released without being held")
                self.consistent(ev, st, "unlock")
                st = self.final(st)
                st = self.forget(st)
                return self.drop(st, "held")
            if m != "mutex" and m != "~mutex":
                self.report(ev, f"the lock is used with {m}")
            return None
        if q.startswith("nudb::context::list::"):
            return self.listop(ev, m, a, st)
        if q.startswith("std::condition_variable::"):
            return self.cv(ev, m, a, st)
        if q.startswith("std::thread::"):
            if m == "join":
                self.oblige("join", ev)
                if self.held(st):
                    self.report(ev, "a thread is joined with the lock held")
                self.pending(ev, st, "join")
                if ("stopset",) not in st:
                    self.report(ev, "a thread is joined that was not told to stop")
                return st | {("joined",)}
            if m in ("operator=", "swap") and tm.sub(a[0], self.this) is const(w.f["t_"][0]) and self.name == "start":
                self.oblige("start", ev)
                if not self.held(st):
                    self.report(ev, "the thread is started without the lock")
                if ("stop", False) not in st or ("joinable", False) not in st:
                    self.report(ev, "a thread is started although one runs or the context is stopping")
                return st | {("started",)}
            return None
        if not x.j.get("callee") and not q:
            p = a[0].atom() if a else None
            if p in self.stores:
                self.oblige("flush outside the lock", ev)
                if self.held(st):
                    self.report(ev, "a store is flushed with the lock held")
                if self.sv(st, p) != frozenset([w.val["intermediate"]]) or self.ml(st, p) is not None:
                    self.report(ev, "a store is flushed that was not taken out of the lists and marked")
                if ("flushed", p) in st:
                    self.report(ev, "a store is flushed twice")
                self.pending(ev, st, "flush")
                return st | {("flushed", p)}
        return None

    def which(self, t):
        for k in (WAITING, FLUSHING):
            if t is tm.add(self.this, const(self.w.f[k + "_"][0])) or t is self.this and self.w.f[k + "_"][0] == 0:
                return k
        return None

    def listop(self, ev, m, a, st):
        l = self.which(a[0])
        w = self.w
        self.oblige(f"list {m}", ev)
        if not self.held(st):
            self.report(ev, "a list is changed without the lock")
        st = frozenset(f for f in st if not (f[0] == "cur" and f[2][0] == "f" and f[2][1].endswith(("head", "tail"))))
        if m == "splice":
            r = self.which(a[1])
            if l is None or r is None or l == r:
                self.report(ev, "unknown lists are joined")
                return st
            if ("all", r, w.stateof[l]) not in st:
                st = st | {("mis", l)}
            st = self.put(frozenset(f for f in st if f[:2] not in (("all", r), ("all", l))), "empty", r, True)
            st = frozenset(f for f in st if f[:2] != ("empty", l))
            if r == WAITING:
                st = st - {("due",)}
            return self.gain(st, l)
        p = a[1].atom()
        if l is None or p not in self.stores:
            self.report(ev, "an unknown list or store is used")
            return st
        at = self.ml(st, p)
        if m == "push_back":
            if at == "?" and self.name != "insert":
                self.report(ev, "a store is added to a list although it may be in one")
            elif at not in ("?", None):
                self.report(ev, "a store is added to a list although it is in one")
            st = frozenset(f for f in st if f[:2] not in (("all", l), ("empty", l)))
            st = self.put(st, "ml", p, l) | {("touched", p)}
            return self.gain(st, l)
        if m == "erase":
            if at != l:
                self.report(ev, "a store is removed from a list that it may not be in")
            st = frozenset(f for f in st if f[:2] != ("empty", l))
            return self.put(st, "ml", p, None) | {("touched", p)}
        self.report(ev, f"unknown list operation {m}")
        return st

    def gain(self, st, l):
        if l == FLUSHING:
            st = (st if self.nums(st) <= frozenset((0, 1)) else self.need(st, "work")) | {("busy",)}
        return st

    def cv(self, ev, m, a, st):
        b, o = split_ptr(a[0])
        c = o.const if b is self.this.atom() and o.is_const else None
        w = self.w
        if m in ("notify_all", "notify_one"):
            self.oblige("wake-up", ev)
            for r, rc in self.cvroles.items():
                if rc == c:
                    if r == "work":
                        if self.nums(st) <= frozenset((2, 3)):
                            st = st - {("busy",)}
                        st = st - {("need", r)}
                    elif m == "notify_all":
                        st = st - {("need", r)}
            if m == "notify_all" and self.held(st):
                st = st | {("rung", c)}
            return st
        if m.startswith("wait"):
            timed = m != "wait"
            self.oblige("wait", ev)
            if not self.held(st):
                self.report(ev, "waits without holding the lock")
            self.consistent(ev, st, "wait")
            self.pending(ev, st, "wait")
            for f in st:
                if f[0] == "sv" and f[2] == frozenset([w.val["intermediate"]]) and ("flushed", f[1]) in st:
                    self.report(ev, "a flushed store is not put back")
            if self.name == "run":
                if ("stop", False) not in st:
                    self.report(ev, "waits although it may have been told to stop")
                if ("due",) in st:
                    self.report(ev, "waits again before the waiting stores were taken")
                if ("busy",) in st:
                    self.report(ev, "waits although stores remain to be flushed")
                if not timed and self.get(st, "empty", FLUSHING) != ("empty", FLUSHING, True):
                    self.report(ev, "waits for work that may already be there")
            elif self.name in ("stop_all", "dtor"):
                if ("stopset",) not in st:
                    self.report(ev, "waits for threads that were not told to stop")
                if not timed and 0 in self.nums(st):
                    self.report(ev, "waits for threads that may all have left")
            elif self.name == "erase":
                if not timed and self.sv(st, atom("arg", 1).atom()) != frozenset([w.val["intermediate"]]):
                    self.report(ev, "waits for a flush that may be over")
            elif not timed:
                self.report(ev, "waits where nothing is waited for")
            st = self.forget(st)
            if self.name == "erase":
                st = frozenset(f for f in st if f[0] not in ("sv", "ml"))
            if timed and self.name == "run":
                st = st | {("due",), ("ticked",)}
            return st
        return None

    def on_ret(self, ev, st):
        self.oblige(f"{self.name} returns", ev)
        n = self.name
        w = self.w
        if self.held(st):
            self.report(ev, "returns with the lock held")
        self.pending(ev, st, "return")
        for f in st:
            if f[0] == "sv" and f[2] == frozenset([w.val["intermediate"]]) and ("flushed", f[1]) in st:
                self.report(ev, "a flushed store is not put back")
            elif f[0] == "sv" and f[2] == frozenset([w.val["intermediate"]]) and n in ("run", "flush"):
                self.report(ev, "a store taken for flushing is not flushed")
        if n == "run":
            if ("in",) not in st or ("out",) not in st:
                self.report(ev, "a thread that serviced the context is not counted in and out")
            if ("sawstop",) not in st:
                self.report(ev, "the service loop ends although it was not told to stop")
        if n == "flush":
            if ("sawstop",) not in st and ("others",) not in st and (("due",) in st or ("busy",) in st):
                self.report(ev, "returns before every waiting store was flushed")
        if n in ("stop_all", "dtor") and ("sawstop",) not in st:
            if ("stopset",) not in st:
                self.report(ev, "threads are not told to stop")
            elif ("drained",) not in st:
                self.report(ev, "returns before the threads have left")
            if ("joined",) not in st and ("joinable", False) not in st:
                self.report(ev, "the context's own thread is not joined")
            if ("stopset",) in st and ("reset",) not in st:
                self.report(ev, "the context stays stopped")
        fin = self.get(st, "final")
        if n == "insert" and (fin is None or fin[1:] != (frozenset([w.val["waiting"]]), WAITING)):
            self.report(ev, "a store is not put on the waiting list")
        if n == "erase" and (fin is None or fin[1:] != (frozenset([w.val["none"]]), None)):
            self.report(ev, "a store is not removed")
        return None

    def on(self, ev, st):
        self.cursnap = [f for f in st if f[0] == "cur"]
        r = super().on(ev, st)
        if r is None or r == []:
            return r
        # remembered observations
        if ("stop", True) in r and ("stopset",) not in r:
            r = r | {("sawstop",)}
        f = self.get(r, "num")
        if self.name == "flush" and f is not None and 0 not in f[1]:
            r = r | {("others",)}
        return r


def method(L, name):
    lib = L["ctx"]
    k = "m_" + name
    if k not in lib.cache:
        lib.cache[k] = Root(lib, k, lib.fn(r"context_test::m_%s\(" % name), effects)
    return lib.cache[k]


def roles(L, w):
    """the condition variable each kind of waiter waits on"""
    out = {}

    def waited(name, timed):
        root = method(L, name)
        s = set()
        for x, q, a in root.calls(lambda q: q.startswith("std::condition_variable::wait")):
            b, o = split_ptr(a[0])
            if b is atom("arg", 0).atom() and o.is_const and (timed or q.endswith("::wait")):
                s.add(o.const)
        return s
    for role, name, timed in (("threads", "stop_all", False), ("state", "erase", False), ("work", "run", False), ("stop", "run", True)):
        s = waited(name, timed)
        if len(s) != 1:
            raise AnchorError(f"context::{name} does not wait on exactly one condition variable")
        out[role] = next(iter(s))
    return out


class Shape(Posix):
    """C33: a list operation run on every arrangement of a few nodes (links only)"""
    wants_ptrs = True

    def __init__(self, w, mem, args):
        super().__init__()
        self.w, self.mem0, self.argv = w, mem, args
        self.ends = []

    def start(self):
        return frozenset(("m", o, f, v) for (o, f), v in self.mem0.items())

    def value(self, t, st):
        """(object, offset), 0 for null, None if unknown"""
        t = self.pathval(t, st)
        if t.is_const:
            return 0 if t.const == 0 else None
        b, o = split_ptr(t)
        if b is None or not o.is_const:
            return None
        if b.k == "arg":
            v = self.argv.get(b.p[0])
        elif b.k == "sel":
            l = tm.term_lit(b.p[0])
            r = self.decide(l[0].atom(), st) if l not in (True, False) and l[0].atom() is not None else None
            if r is None:
                return None
            v = self.value(b.p[1] if r == l[1] else b.p[2], st)
        else:
            f = self.get(st, "v", b)
            v = f[2] if f else None
        if v is None or v == 0:
            return v if o.const == 0 else None
        return (v[0], v[1] + o.const)

    def on_load(self, ev, st):
        p = self.value(ev.args[0], st)
        t = self.vn.t.get(ev.ins.id)
        a = t.atom() if t is not None else None
        if not isinstance(p, tuple):
            self.report(ev, "a link of no element is read")
            return None
        if a is None or a.k != "ld":
            return None
        f = self.get(st, "m", p[0], p[1])
        return frozenset(g for g in st if g[:2] != ("v", a)) | {("v", a, f[3] if f else None)}

    def on_store(self, ev, st):
        b, _ = split_ptr(ev.args[0])
        if b is not None and b.k == "alloca":
            return None
        p = self.value(ev.args[0], st)
        v = self.value(ev.args[1], st)
        if not isinstance(p, tuple) or v is None:
            self.report(ev, "a link of no element is written" if not isinstance(p, tuple) else "a link is set to something unknown")
            return None
        return frozenset(g for g in st if g[:3] != ("m", p[0], p[1])) | {("m", p[0], p[1], v)}

    def on_assume(self, ev, st):
        a, val = ev.args
        if not isinstance(a, tm.Atom) or a.k != "eq":
            return None
        r = self.decide(a, st)
        return None if r is None or r == val else []

    def decide(self, a, st):
        """truth of a comparison of links, None if unknown"""
        if a.k != "eq":
            return None
        d = self.pathval(a.p[0], st)
        if d.is_const:
            return d.const == 0
        pos = [m[0] for m, c in d.m.items() if m and c == 1]
        neg = [m[0] for m, c in d.m.items() if m and c == -1]
        if len(pos) + len(neg) not in (1, 2) or len(pos) > 1 or len(neg) > 1 or () in d.m:
            return None
        x = self.value(tm.mk({(pos[0],): 1}), st) if pos else 0
        y = self.value(tm.mk({(neg[0],): 1}), st) if neg else 0
        return None if x is None or y is None else x == y

    def on_edge(self, ev, st):
        return self.enter(ev.args[0], ev.args[1], st)

    def on_ret(self, ev, st):
        self.oblige("links after the operation", ev)
        self.ends.append((ev, {(f[1], f[2]): f[3] for f in st if f[0] == "m"}))
        return None


def chain(mem, lst, nodes, w, off):
    """a consistent list"""
    mem[(lst, off["head"])] = (nodes[0], 0) if nodes else 0
    mem[(lst, off["tail"])] = (nodes[-1], 0) if nodes else 0
    for i, n in enumerate(nodes):
        mem[(n, w.n["next_"])] = (nodes[i + 1], 0) if i + 1 < len(nodes) else 0
        mem[(n, w.n["prev_"])] = (nodes[i - 1], 0) if i else 0
    return mem


SHAPES = {
    "push_back": [((l, "N"), l + "N") for l in ("", "A", "AB", "ABC")],
    "erase": [((l, "N"), l.replace("N", "")) for l in ("N", "NA", "AN", "ANB", "NAB", "ABN", "ABNC", "ANBC")],
    "splice": [((l, r), l + r) for l in ("", "A", "AB") for r in ("", "C", "CD", "CDE")],
}


@rule("C33")
def lists(res, L):
    w = Where(L["ctx"])
    off = {"head": w.f["waiting_.head_"][0] - w.f["waiting_"][0], "tail": w.f["waiting_.tail_"][0] - w.f["waiting_"][0]}
    for op, cases in SHAPES.items():
        fn = L["ctx"].fn(r"^nudb::context::list::%s\(" % op)
        root = Root(L["ctx"], "list_" + op, fn, effects)
        for (l, r), want in cases:
            mem = chain({}, "L", list(l), w, off)
            if op == "splice":
                chain(mem, "R", list(r), w, off)
            elif op == "push_back":
                mem[("N", w.n["next_"])] = mem[("N", w.n["prev_"])] = None
            aut = Shape(w, mem, {0: ("L", 0), 1: ("R", 0) if op == "splice" else ("N", 0)})
            run(res, "list links", root, aut)
            exp = chain({}, "L", list(want), w, off)
            if op == "splice":
                chain(exp, "R", [], w, off)
            if not aut.ends:
                res.fail("list links", op, "", f"{op} of {l or 'an empty list'} never returns")
            for ev, got in aut.ends:
                for (o, f), v in exp.items():
                    if got.get((o, f)) != v:
                        what = {off["head"]: "head", off["tail"]: "tail"}.get(f) if o in "LR" else \
                            {w.n["next_"]: "next", w.n["prev_"]: "prev"}.get(f)
                        m = f"{op} leaves a wrong {what} link"
                        res.at("list links", fn, ev.ins, m, key=m)


@rule("C33")
def service(res, L):
    w = Where(L["ctx"])
    cvs = roles(L, w)
    for n in METHODS:
        aut = Ctx(n, w, cvs)
        run(res, "context", method(L, n), aut)
        if n == "start" and not any(k[0] == "start" for k in aut.ob):
            res.fail("context", n, "", "start does not start a thread")
        if n == "run" and not any(k[0] == "flush outside the lock" for k in aut.ob):
            res.fail("context", n, "", "run flushes nothing")
        if n == "flush" and not any(k[0] == "flush outside the lock" for k in aut.ob):
            res.fail("context", n, "", "flush flushes nothing")


class Own(Automaton):
    """a store that brings its own context starts it"""

    def start(self):
        return frozenset()

    def on(self, ev, st):
        if ev.k == "call" and ev.qn == "nudb::context::start":
            self.oblige("own context started", ev)
            return st | {"started"}
        if ev.k == "ret":
            self.oblige("own context started", ev)
            if "started" not in st:
                self.report(ev, "a store's own context is not started")
        return None


@rule("C33")
def own_context(res, L):
    lib = L["main"]
    root = Root(lib, "ctor", lib.fn(STORE + r"basic_store\(\)$"))
    run(res, "context", root, Own())
