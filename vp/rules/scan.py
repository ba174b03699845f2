"""Walking the data file record by record (mid-level module): C25."""
from .. import terms as tm
from ..terms import T, atom, const
from ..flow import ec_params
from .common import *
from .commit import need
from .headers import Names, Known, SIZE
from .regen import be_at


class Visit(MidAut):
    CB = "vp::visit_cb::operator()"

    def setup(self):
        self.n = Names(self.root)
        self.out = atom("arg", ec_params(self.fn)[0])

    def ecv(self, ev, t):
        return ev.flow.ecstate(ev.ecs, t.id)

    def prep(self, n):
        def f(cid):
            o = self.ops.get(cid)
            return o is not None and o.k == "rprepare" and o.role == "df" and o.a[1].is_const and o.a[1].const == n
        return f

    def size_call(self, t):
        return be_at(t, self.prep(6), 6, 4)

    @staticmethod
    def without(st, *kinds):
        return frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in kinds or f in kinds))

    def fact(self, st, kind):
        for f in st:
            if isinstance(f, tuple) and f[0] == kind:
                return f
        return None

    def at_end(self, a, val):
        """the condition says that the reader has reached (True) or not reached (False) the end"""
        if a.k == "call":
            o = self.ops.get(a.p[-1])
            return val if o is not None and o.k == "reof" else None
        if a.k in ("ult", "eq"):
            def off(t):
                c = t.atom()
                o = self.ops.get(c.p[-1]) if c is not None and c.k == "call" else None
                return o is not None and o.k == "roffset"
            if a.k == "ult":
                return (not val) if off(a.p[0]) and self.n.name(a.p[1]) == ("size", "df") else None
            d = a.p[0]
            for m, c in d.m.items():
                t = tm.mk({m: 1})
                if off(t):
                    r = tm.sub(t, d) if c == 1 else tm.add(t, d)
                    if self.n.name(r) == ("size", "df"):
                        return val
        return None

    def on_assume(self, ev, st):
        a, val = ev.args
        if not isinstance(a, tm.Atom):
            return None
        fs = set(self.n.facts(a, val)) - st
        st2 = st | fs
        if a.k == "eq":
            c = self.size_call(a.p[0])
            if c is not None and ("rec", c) in st:
                st2 = self.without(st2, "kind") | ({("kind", "spill")} if val else {("kind", "data"), "todo"})
        e = self.at_end(a, val)
        if e and "scan" in st:
            self.pend(ev, st2)
            st2 = st2 | {"end"}
        return st2 if st2 != st else None

    def pend(self, ev, st):
        if "todo" in st:
            self.report(ev, "a data record is not delivered")
        if ("kind", "spill") in st and "skipped" not in st:
            self.report(ev, "a spill record is not skipped as a whole")
        if self.fact(st, "rec") is not None and self.fact(st, "kind") is None:
            self.report(ev, "a record is passed over without looking at its size")

    def on_call(self, ev, op, st):
        if ev.qn == self.CB:
            self.callback(ev, st)
            return st - {"todo"}
        if op is None:
            return None
        k, r, a = op.k, op.role, ev.args
        if "failed" in st and k in ("rprepare", "read", "rctor"):
            self.report(ev, "the scan continues after an error")
        if k == "rctor":
            self.oblige("the scan covers every record", ev)
            if r != "df" or not (a[2].is_const and a[2].const == SIZE["dh"]) or self.n.name(a[3]) != ("size", "df"):
                self.report(ev, "the scan does not cover the data records from the header to the end of the file")
            if "scan" in st:
                self.report(ev, "records are scanned twice")
            for m in Known(st).valid("dh"):
                self.report(ev, f"the data file is scanned without checking its {m}")
            return st | {"scan"}
        if k == "rprepare" and r == "df":
            if a[1].is_const and a[1].const == 6:
                if "end" in st:
                    self.report(ev, "reading goes on after the end of the file")
                self.pend(ev, st)
                return self.without(st, "rec", "kind", "todo", "data", "skipped", "skip2")
            return None
        if op.mutates is not None:
            self.report(ev, f"visit changes the {op.mutates}")
        return None

    def on_ok(self, ev, op, st):
        if op is None:
            return None
        k, r, a = op.k, op.role, ev.args
        if k == "rprepare" and r == "df":
            if a[1].is_const and a[1].const == 6:
                return st | {("rec", ev.ins.id)}
            kd = self.fact(st, "kind")
            if kd == ("kind", "data"):
                self.oblige("data record read completely", ev)
                for m in a[1].m:
                    t = tm.mk({m: 1})
                    if self.n.name(t) == ("dh", "key_size"):
                        c = self.size_call(tm.sub(a[1], t))
                        if c is not None and ("rec", c) in st and self.fact(st, "data") is None:
                            return st | {("data", ev.ins.id)}
                self.report(ev, "a data record is not read as key and value")
            elif kd == ("kind", "spill"):
                self.oblige("spill record skipped", ev)
                if "skipped" in st:
                    self.report(ev, "more than a spill record is skipped")
                elif self.fact(st, "skip2") is None:
                    if a[1].is_const and a[1].const == 2:
                        return st | {("skip2", ev.ins.id)}
                    self.report(ev, "a spill record is skipped by something other than its size")
                else:
                    c = be_at(a[1], self.prep(2), 2)
                    if c is not None and ("skip2", c) in st:
                        return st | {"skipped"}
                    self.report(ev, "a spill record is skipped by something other than its size")
            elif "scan" in st:
                self.report(ev, "part of a record is read before its kind is known")
            return None
        return None

    def on_fail(self, ev, op, st):
        return st | {"failed"}

    def on_drop(self, ev, op, st):
        self.report(ev, "the scan continues without examining an error")
        return None

    def callback(self, ev, st):
        self.oblige("data record delivered", ev)
        a = ev.args
        if "failed" in st:
            self.report(ev, "a record is delivered after an error")
        if "todo" not in st:
            self.report(ev, "a record is delivered twice, or something other than a data record is delivered")
            return
        p = a[1].atom()
        q = p.p[0].atom() if p is not None and p.k == "ev" and p.p[1] == (0,) else None
        if q is None or q.k != "call" or ("data", q.p[-1]) not in st:
            self.report(ev, "the key delivered is not the record's key")
        if self.n.name(a[2]) != ("dh", "key_size"):
            self.report(ev, "the key size delivered is not the database's")
        d = tm.sub(a[3], a[1])
        if self.n.name(d) != ("dh", "key_size"):
            self.report(ev, "the value delivered does not start behind the key")
        c = self.size_call(a[4])
        if c is None or ("rec", c) not in st:
            self.report(ev, "the size delivered is not the record's")

    def on_ret(self, ev, st):
        if self.ecv(ev, self.out) == "ok":
            self.oblige("success only at the end of the file", ev)
            if "end" not in st:
                self.report(ev, "visit reports success before the end of the file")
            if "failed" in st:
                self.report(ev, "visit reports success after an error")
        return None


@rule("C25")
def visit_delivers(res, L):
    root = L["mid"].root("visit")
    aut = Visit()
    run(res, "visit_delivers", root, aut)
    for ob in ("the scan covers every record", "data record read completely", "data record delivered", "spill record skipped",
               "success only at the end of the file"):
        need(res, "visit_delivers", root, aut, ob, f"not found in visit: {ob}")
