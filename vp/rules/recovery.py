"""Recovery (mid-level module): what it may change under which evidence (C15), and in which order (C14)."""
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import split_ptr, AnchorError
from ..flow import ec_params
from .common import *
from .commit import need
from .headers import Names, Known, FILE, SIZE


class Recovery(MidAut):
    needs = ("dh", "kh", "lh")

    def setup(self):
        self.n = Names(self.root)
        for h in self.needs:
            if h not in self.n.objs.values():
                raise AnchorError(f"recovery does not read the {h} header")
        self.afacts = {}
        e = {n: v for v, n in self.L.mod.enum("error").items()}
        self.short = ("code", e["short_read"])
        self.nofile = ("cond", 2)
        self.out = atom("arg", ec_params(self.fn)[0])
        t = self.L.mod.type("bucket_t<void>", "nudb::detail")
        self.spoff = [o for o, s, p, ty in self.L.mod.fields(t) if p == "spill_"]
        self.readers = {o.a[0].id: o for o in self.ops.values() if o.k == "rctor"}

    def ecv(self, ev, t):
        return ev.flow.ecstate(ev.ecs, t.id)

    def hf(self, ev):
        k = (ev.args[0], ev.args[1])
        if k not in self.afacts:
            self.afacts[k] = self.n.facts(*ev.args)
        return self.afacts[k]

    def is_eof(self, a):
        if a.k == "call":
            o = self.ops.get(a.p[-1])
            return o is not None and o.k == "reof"
        return False

    # an error that is set is the one of the last operation that failed: its kind may be established later
    def failed(self, ev, st):
        return self.without(st, "lastfail") | {("lastfail", ev.ins.id)}

    def on_ecis(self, ev, st):
        for f in st:
            if isinstance(f, tuple) and f[0] == "lastfail":
                op = self.ops.get(f[1])
                if op is not None and ev.args[0].id == self.out.id:
                    return self.kind(op, st, ev.args[1])
        return None

    def on_fail(self, ev, op, st):
        if op is None:
            return None
        st = self.failed(ev, st)
        return self.kind(op, st, ev.extra) if ev.extra is not None else st

    def kind(self, op, st, kind):
        return st

    def on_ecisnt(self, ev, st):
        if ev.args[0].id == self.out.id and ev.args[1] == self.short:
            return st | {"notshort"}
        return None

    @staticmethod
    def without(st, *kinds):
        return frozenset(f for f in st if not (isinstance(f, tuple) and f[0] in kinds or f in kinds))


class Evidence(Recovery):
    """C15"""

    def known(self, st):
        return Known(st)

    def header_ok(self, ev, st, what):
        """the evidence for restoring from the log"""
        k = Known(st)
        bad = []
        for h in ("dh", "lh"):
            if ("read", h) not in st:
                bad.append(f"the {h} header was not read")
        bad += [f"log header: {x}" for x in k.valid("lh")]
        bad += [f"data file header: {x}" for x in k.valid("dh")]
        if k.const(("lh", "key_file_size"), 0):
            bad += [f"log and data file: {x}" for x in k.match("lh", "dh", ("uid", "appnum", "key_size"))]
        else:
            if ("read", "kh") not in st:
                bad.append("the key file header was not read")
            bad += [f"key file header: {x}" for x in k.valid("kh")]
            bad += [f"key and data file: {x}" for x in k.match("kh", "dh", ("uid", "appnum", "key_size"))]
            bad += [f"key and log file: {x}" for x in k.match("kh", "lh", ("uid", "appnum", "key_size", "salt", "pepper",
                                                                          "block_size"))]
        for b in bad:
            self.report(ev, f"{what} is changed without this evidence: {b}")

    def on_assume(self, ev, st):
        a, val = ev.args
        st2 = set(st)
        st2.update(self.hf(ev))
        if isinstance(a, tm.Atom):
            if a.k == "ult":
                n = self.record_index(a.p[0], st)
                if n is not None and val and self.n.name(a.p[1]) == ("kh", "buckets"):
                    st2.add(("idx", n.id))
            s = self.spill_test(a)
            if s is not None and s[1] == val:
                st2.add("spillok")
        return frozenset(st2)

    def spill_test(self, a):
        """(bucket, outcome) of a test that shows the bucket's spill record lies in the data file, or that there is none"""
        def spill(t):
            x = t.atom()
            if x is None or x.k != "ld":
                return None
            for o in self.spoff:
                b = tm.sub(x.p[0], const(o))
                if b.id in self.buckets:
                    return b
            return None
        if a.k == "eq":
            b = spill(a.p[0])
            return (b, True) if b is not None else None
        if a.k == "ult" and self.n.name(a.p[0]) == ("size", "df"):
            # data file size < 8 + 18 * capacity + spill
            for mono, c in a.p[1].m.items():
                t = tm.mk({mono: 1})
                b = spill(t) if mono else None
                if b is not None and c == 1:
                    rest = tm.sub(a.p[1], t)
                    if len(rest.m) == 2 and rest.const == 8:
                        (m2, c2), = [(m, c) for m, c in rest.m.items() if m]
                        if c2 == 18 and self.n.name(tm.mk({m2: 1})) == ("kh", "capacity"):
                            return (b, False)
        return None

    def setup(self):
        super().setup()
        self.buckets = {o.a[0].id for o in self.ops.values() if o.k == "bctor"}

    def record_index(self, t, st):
        """the term if it is the index decoded from the current log record"""
        bp = tm.bytes_poly(t)
        if bp is None or sorted(bp) != list(range(8)):
            return None
        for k, a in bp.items():
            if a.k != "ld":
                return None
            base, off = split_ptr(a.p[0])
            if base is None or base.k != "ev" or not off.is_const or off.const != 7 - k or base.p[1] != (0,):
                return None
            c = base.p[0].atom()
            if c is None or c.k != "call":
                return None
            o = self.ops.get(c.p[-1])
            if o is None or o.k != "rprepare" or o.role != "lf":
                return None
        return t

    def write_place(self, t, st):
        """the record index term of a key file offset (index + 1) * block size"""
        by = {}
        for mono in t.m:
            for a in mono:
                if a.k == "ld" and a.w == 8:
                    base, off = split_ptr(a.p[0])
                    if base is not None and base.k == "ev" and off.is_const and 0 <= off.const < 8:
                        by[7 - off.const] = a
        if sorted(by) != list(range(8)):
            return None
        n = tm.ZERO
        for k, a in by.items():
            n = tm.add(n, tm.mk({(a,): tm._wrap(1 << (8 * k))}))
        if self.record_index(n, st) is None:
            return None
        for mono in t.m:
            for a in mono:
                bs = tm.mk({(a,): 1})
                if self.n.name(bs) in (("kh", "block_size"), ("lh", "block_size")) and \
                        tm.mul(tm.add(n, const(1)), bs) is t:
                    return n
        for bs in self.composites():
            if tm.mul(tm.add(n, const(1)), bs) is t:
                return n
        return None

    def composites(self):
        if not hasattr(self, "_comp"):
            self._comp = []
            for t in list(self.vn.t.values()):
                if t is not None and len(t.m) > 1 and self.n.name(t) in (("kh", "block_size"), ("lh", "block_size")):
                    self._comp.append(t)
        return self._comp

    def on_ok(self, ev, op, st):
        if op is None:
            return None
        if op.k == "read" and ev.ins.id in self.n.reads:
            return st | {("read", self.n.reads[ev.ins.id])}
        if op.k == "rprepare":
            return st | {"prepared"}
        if op.k == "breadbulk":
            return st | {("bucket", ev.args[0].id)}
        if op.k == "erase" and op.role == "lf":
            return st | {"logerased"}
        return None

    def kind(self, op, st, kind):
        if op.k == "read" and self.n.reads.get(op.x.id) == "lh" and kind == self.short:
            return st | {"torn"}
        if op.k == "erase" and op.role == "lf" and kind == self.nofile:
            return st | {"logerased"}
        return st

    def on_call(self, ev, op, st):
        if op is None:
            return None
        if "notshort" in st and ev.extra and ev.extra[1] is not None:
            r = self._on_call(ev, op, st - {"notshort"})
            return st - {"notshort"} if r is None else r
        return self._on_call(ev, op, st)

    def _on_call(self, ev, op, st):
        if op.k == "rctor":
            a = ev.args
            self.oblige("log records start behind the log header", ev)
            if not (op.role == "?" or self.root.file_role(a[1]) == "lf"):
                self.report(ev, "log records are read from another file")
            if not (a[2].is_const and a[2].const == SIZE["lh"]):
                self.report(ev, "log records are not read from the end of the log header")
            if self.n.name(a[3]) != ("size", "lf"):
                self.report(ev, "log records are not read up to the end of the log file")
            return None
        if op.k == "rprepare":
            self.oblige("log record index", ev)
            if not (ev.args[1].is_const and ev.args[1].const == 8):
                self.report(ev, "a log record's index is not read as 8 bytes")
            return self.without(st, "prepared", "bucket", "idx", "spillok")
        if op.k == "breadbulk":
            return self.without(st, "bucket", "spillok")
        if op.mutates is None:
            return None
        if op.role == "lf":
            self.oblige("log changed only when it was used up, torn or useless", ev)
            return None
        if op.role not in ("df", "kf"):
            self.report(ev, "an unidentified file is changed")
            return None
        what = {"df": "the data file", "kf": "the key file"}[op.role]
        if op.k == "erase" and op.role == "kf" and self.kfsmall(st):
            self.oblige("key file without buckets discarded", ev)
            k = Known(st)
            for b in ([] if ("read", "dh") in st else ["data file header read"]) + k.valid("dh"):
                self.report(ev, f"the key file is deleted without a valid data file header: {b}")
            if "logerased" not in st:
                self.report(ev, "the key file is deleted while the log it belongs to remains")
            return None
        self.oblige("change under a valid matching log", ev)
        self.header_ok(ev, st, what)
        if op.k == "bwrite":
            self.oblige("log record applied only if complete and in range", ev)
            n = self.write_place(ev.args[2], st)
            if op.role != "kf":
                self.report(ev, "a log record is written to another file than the key file")
            if "prepared" not in st or ("bucket", ev.args[0].id) not in st:
                self.report(ev, "a log record is applied that was not read completely")
            if n is None:
                self.report(ev, "a log record's bucket is not written to the key file block of its index")
            elif ("idx", n.id) not in st:
                self.report(ev, "a log record is applied without checking that its bucket exists")
            if "spillok" not in st:
                self.report(ev, "a log record is applied without checking its bucket's spill record offset")
        elif op.k in ("write", "create", "wflush", "wprepare", "spillout"):
            self.report(ev, f"{what} is changed by something other than a restore")
        return None

    def kfsmall(self, st):
        return any(isinstance(f, tuple) and f[0] == "lt" and f[1] == ("size", "kf") and f[2] <= SIZE["kh"] + 1 for f in st)

    def on_ret(self, ev, st):
        self.oblige("recovery returns", ev)
        e = self.ecv(ev, self.out)
        last = [self.ops[f[1]] for f in st if isinstance(f, tuple) and f[0] == "lastfail"]
        if e == "ok" or not last:
            return None
        op = last[0]
        if (op.k in ("rprepare", "breadbulk") or op.k == "read" and self.n.reads.get(op.x.id) == "lh") and \
                (e == ("E", self.short) or e == "err" and "notshort" not in st):
            self.report(ev, "a torn log makes recovery fail: the end of the log is not told apart from other errors")
        return None


class Order(Recovery):
    """C14.  Facts: live (log header read), rec (a record was read and is not written yet), dirty:f, trunced:f, cleared, erased"""
    needs = ("lh",)

    def on_assume(self, ev, st):
        a, val = ev.args
        st2 = set(st)
        for f in self.hf(ev):
            if f[0] == "c" and f[1] == ("lh", "key_file_size") and f[2] == 0:
                st2.add("rekey")
            if f == ("nz", ("lh", "key_file_size")):
                st2.add("commit")
            if f[0] == "lt" and f[1] == ("size", "kf") and f[2] <= SIZE["kh"] + 1:
                st2.add("kfsmall")
        if isinstance(a, tm.Atom) and self.is_eof(a):
            if val:
                st2.add("done")
        if "rekey" in st2 and "commit" in st2:
            return []
        return frozenset(st2)

    def on_call(self, ev, op, st):
        if op is None:
            return None
        k, r = op.k, op.role
        if k == "rprepare":
            self.pending(ev, st)
            if "hdr" in st:
                self.report(ev, "a log record is skipped")
            return st - {"done"}
        if k == "breadbulk":
            return st - {"hdr"}
        if k == "bwrite":
            if "restored" in st:
                self.report(ev, "a bucket is restored after the files were truncated")
            return st | {"dirty:kf"}
        if k == "trunc" and r in ("df", "kf"):
            self.pending(ev, st)
            self.oblige("files restored to the logged size", ev)
            f = {"df": "dat_file_size", "kf": "key_file_size"}[r]
            n = self.n.name(ev.args[1])
            zero = ev.args[1].is_const and ev.args[1].const == 0
            if r == "kf" and zero and "rekey" in st:
                pass
            elif n != ("lh", f):
                self.report(ev, f"the {r} is not truncated to the size in the log header")
            elif r == "kf" and "rekey" not in st and "commit" not in st:
                pass
            if "done" not in st and "rekey" not in st:
                self.report(ev, "the files are truncated before the whole log was restored")
            return (st | {"dirty:" + r, "restored"}) - {"trunced:" + r}
        if k == "trunc" and r == "lf" or k == "erase" and r == "lf":
            self.discard(ev, op, st)
            if k == "trunc":
                if not (ev.args[1].is_const and ev.args[1].const == 0):
                    self.report(ev, "the log is not cleared completely")
                return (st | {"dirty:lf"}) - {"cleared"}
            if "open:lf" in st and "kfsmall" not in st and "cleared" not in st:
                self.report(ev, "the log is deleted before its truncation is durable")
            return None
        if k == "close" and r == "lf":
            return st - {"open:lf"}
        if k == "erase" and r == "kf":
            self.oblige("key file deleted last", ev)
            if "kfsmall" not in st and "rekey" not in st:
                self.report(ev, "the key file is deleted although it existed before the interrupted operation")
            if "erased:lf" not in st:
                self.report(ev, "the key file is deleted while the log remains")
            return None
        if op.mutates in ("df", "kf"):
            self.report(ev, "recovery changes a database file other than by restoring it")
        return None

    def discard(self, ev, op, st):
        self.oblige("log discarded only when nothing is left to restore", ev)
        if "kfsmall" in st or "torn" in st:
            for f in ("df", "kf"):
                if "dirty:" + f in st:
                    self.report(ev, f"the log is discarded while the {f} is changed and not synced")
            return
        for f, n in (("df", "data"), ("kf", "key")):
            if "dirty:" + f in st or "trunced:" + f not in st:
                self.report(ev, f"the log is discarded before the {n} file is restored and durable")

    def pending(self, ev, st):
        if "rec" in st:
            self.report(ev, "a record read from the log is not written back")

    def on_ok(self, ev, op, st):
        if op is None:
            return None
        k, r = op.k, op.role
        if k == "open":
            return st | {"open:" + r}
        if k == "read" and self.n.reads.get(ev.ins.id) == "lh":
            return st | {"live"}
        if k == "rprepare":
            return st | {"hdr"}
        if k == "breadbulk":
            return st | {"rec"}
        if k == "bwrite":
            return st - {"rec"}
        if k == "trunc" and r in ("df", "kf"):
            return st | {"t:" + r}
        if k == "trunc" and r == "lf":
            return st | {"t:lf"}
        if k == "sync":
            if "t:" + r in st:
                st = (st - {"dirty:" + r}) | ({"trunced:" + r} if r != "lf" else {"cleared"})
            elif r != "lf":
                st = st - {"dirty:" + r}
            return st
        if k == "erase":
            return st | {"erased:" + r}
        return None

    def kind(self, op, st, kind):
        if op.k == "read" and self.n.reads.get(op.x.id) == "lh" and kind == self.short:
            return st | {"torn"}
        if op.k in ("rprepare", "breadbulk") and kind == self.short:
            return st | {"done"}
        if op.k == "open" and op.role == "lf" and kind == self.nofile:
            return st | {"nolog"}
        if op.k == "erase" and op.role == "lf" and kind == self.nofile:
            return st | {"erased:lf"}
        return st

    def on_ret(self, ev, st):
        e = self.ecv(ev, self.out)
        if e != "ok":
            return None
        self.oblige("recovery succeeds", ev)
        self.pending(ev, st)
        if "nolog" in st:
            for f in ("df", "kf"):
                if "dirty:" + f in st:
                    self.report(ev, "files are changed although there is no log")
            return None
        if "kfsmall" in st:
            self.report(ev, "recovery succeeds although there is no usable key file")
            return None
        if "erased:lf" not in st:
            self.report(ev, "recovery succeeds but leaves the log")
        if "live" in st:
            for f, n in (("df", "data"), ("kf", "key")):
                if "trunced:" + f not in st:
                    self.report(ev, f"recovery succeeds without restoring the {n} file")
            if "rekey" in st and "erased:kf" not in st:
                self.report(ev, "recovery of an interrupted regeneration leaves the partial key file")
        elif "torn" not in st:
            self.report(ev, "recovery succeeds without reading the log header")
        return None


@rule("C15")
def change_under_evidence(res, L):
    root = L["mid"].root("recover")
    aut = Evidence()
    run(res, "change_under_evidence", root, aut)
    for ob in ("change under a valid matching log", "log record applied only if complete and in range",
               "log records start behind the log header"):
        need(res, "change_under_evidence", root, aut, ob, f"not found in recover: {ob}")


@rule("C14")
def restore_order(res, L):
    root = L["mid"].root("recover")
    aut = Order()
    run(res, "restore_order", root, aut)
    for ob in ("files restored to the logged size", "log discarded only when nothing is left to restore", "recovery succeeds"):
        need(res, "restore_order", root, aut, ob, f"not found in recover: {ob}")


class Partial(Recovery):
    """C16: recovery removes what an interrupted regeneration left of a key file"""
    needs = ("lh",)

    def on_assume(self, ev, st):
        st2 = set(st)
        for f in self.hf(ev):
            if f[0] == "c" and f[1] == ("lh", "key_file_size") and f[2] == 0:
                st2.add("partial")
            if f == ("nz", ("lh", "key_file_size")):
                st2.add("whole")
            if f[0] == "lt" and f[1] == ("size", "kf") and f[2] <= SIZE["kh"] + 1:
                st2.add("partial")
        if "partial" in st2 and "whole" in st2:
            return []
        return frozenset(st2)

    def on_call(self, ev, op, st):
        if op is not None and op.k == "erase":
            return st | {"tried:" + str(op.role)}
        return None

    def on_ok(self, ev, op, st):
        if op is not None and op.k == "erase":
            return st | {"erased:" + str(op.role)}
        return None

    def kind(self, op, st, kind):
        if op.k == "erase" and op.role == "lf" and kind == self.nofile:
            return st | {"erased:lf"}
        return st

    def on_ret(self, ev, st):
        if "partial" in st and "erased:lf" in st:
            self.oblige("partial key file removed once its log is gone", ev)
            if "tried:kf" not in st:
                self.report(ev, "recovery discards the log of an interrupted regeneration but leaves the partial key file")
        return None


@rule("C16", "recovery removes a partial key file")
def partial_removed(res, L):
    root = L["mid"].root("recover")
    aut = Partial()
    run(res, "partial_removed", root, aut)
    need(res, "partial_removed", root, aut, "partial key file removed once its log is gone", "recover does not handle a partial key file")
