"""C42: a lookup reads no more than its bucket chain and the records whose hash matches"""
from .common import *
from .protocol import Search
from ..ir import split_ptr
from .. import terms as tm
from .commit import need


class Frugal(Search):
    """Search's reading of fetch and insert (what was found where, which entry matched), with a budget of file accesses:
    the key file once, only when no table in memory answers; a spill record per link followed; a data record per entry
    whose stored hash is the key's."""

    def on_call(self, ev, op, st):
        if op is not None and op.role in ("kf", "df", "lf", "?") and op.k not in ("wctor", "rctor"):
            st = self.budget(ev, op, st)
        return super().on_call(ev, op, st) or st

    def budget(self, ev, op, st):
        P = "C42"
        if op.role == "lf" or op.role == "?":
            self.report(ev, "a lookup accesses a file other than the key file and the data file")
            return st
        if "phit" in st:
            self.report(ev, "a file is accessed although the key was found in memory")
        if self.facts(st, "match"):
            self.report(ev, "a file is accessed although the record of the key was already found")
        if "end" in st:
            self.report(ev, "a file is accessed although the whole chain was searched")
        if op.k == "bread" and op.role == "kf":
            self.oblige("key file read at most once", ev)
            if "kfread" in st:
                self.report(ev, "a lookup reads the key file more than once")
            if ("miss", "c1hit") in st:
                self.report(ev, "the key file is read although the bucket is in memory")
            if not {"p0", "p1", "c1"} <= {f[1] for f in self.facts(st, "miss")}:
                self.report(ev, "the key file is read before every table in memory was searched")
            return st | {"kfread"}
        if op.k == "bread" and op.role == "df":
            self.oblige("one spill record read per link", ev)
            a = op.a[2].atom()
            if a is None or ("next", a.id) not in st:
                self.report(ev, "a spill record is read that no link just reached refers to")
            return st - {"recread"}
        if op.k == "read" and op.role == "df":
            self.oblige("data record read for a matching entry only", ev)
            ent = self.facts(st, "ent")
            if not ent or ("hm",) not in st:
                self.report(ev, "a data record is read whose entry's hash was not found equal to the key's")
            if "recread" in st:
                self.report(ev, "the record of an entry is read twice")
            self.oblige("at most the record is read", ev)
            if not self.within(ent, op.a[3]):
                self.report(ev, "more than the record is read")
            return st | {"recread"}
        self.report(ev, "a lookup accesses a file in another way than by reading a bucket or a record")
        return st

    def within(self, ent, n):
        """the length is the key's size, or that and the entry's size"""
        if not ent:
            return True
        if is_ld(n, self.ks):
            return True
        mono = [m for m, c in n.m.items() if len(m) == 1 and m[0].k == "ld" and m[0].p[0] is self.ks and c == 1]
        rest = tm.sub(n, tm.mk({mono[0]: 1})) if mono else n
        a = rest.atom()
        if a is None or a.k != "ld":
            return False
        b, o = split_ptr(a.p[0])
        return b is not None and tm.mk({(b,): 1}).id == ent[0][1] and o.is_const and o.const == 16

    def on_edge(self, ev, st):
        s2 = super().on_edge(ev, st)
        s2 = st if s2 is None else s2
        # another entry, or another bucket
        if not self.facts(s2, "ent"):
            s2 = s2 - {"recread"}
        return s2

    def on_ret(self, ev, st):
        return None


@rule("C42")
def lookup_reads(res, L):
    for r in ("fetch", "insert"):
        root = L["mid"].root(r)
        aut = Frugal()
        aut.prop = "C42"
        run(res, "lookup_reads", root, aut)
        for ob in ("key file read at most once", "one spill record read per link", "data record read for a matching entry only"):
            need(res, "lookup_reads", root, aut, ob, f"not found in {r}: {ob}")
