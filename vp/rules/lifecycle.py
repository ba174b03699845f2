"""Opening, closing and failing of a store (mid-level module): C10, C30."""
from ..terms import T, atom, const
from ..ir import split_ptr
from ..flow import ec_params
from .common import *
from .commit import need, pmap_off
from .. import terms as tm

DISK = ("read", "write", "sync", "trunc", "size", "bread", "bwrite", "wflush", "wprepare", "spillout", "rprepare", "breadbulk",
        "open", "create", "erase", "close")


class Store(MidAut):
    def setup(self):
        L = self.L
        self.ec, self.ecb, self.opn = L.this("ec_"), L.this("ecb_"), L.this("open_")
        self.p0, self.p1, self.c1 = L.this("p0"), L.this("p1"), L.this("c1")
        self.p1map = tm.add(self.p1, const(pmap_off(L)))
        self.geo = {L.this("buckets_").id, L.this("modulus_").id}
        k = ec_params(self.fn)
        self.out = atom("arg", k[0]) if k else None

    def ecv(self, ev, t):
        return ev.flow.ecstate(ev.ecs, t.id)

    @staticmethod
    def iserr(v):
        return v == "err" or (isinstance(v, tuple) and v[0] == "E")

    def cell(self, ev, t):
        return ev.ecs.get(-1 - t.id)


class FailedStore(Store):
    """every operation on a store whose commit failed earlier: nothing changes, the error is reported"""

    def on_call(self, ev, op, st):
        if op is None:
            if ev.qn == "vp::fetch_cb::operator()":
                self.report(ev, "fetch delivers a value although a commit failed before")
            return None
        if op.mutates is not None:
            self.report(ev, f"changes the {op.mutates} after a commit failed")
        if self.root.name in ("insert", "fetch") and op.k in DISK:
            self.report(ev, "accesses a file although a commit failed before")
        if op.k == "pinsert":
            self.report(ev, "an element is added although a commit failed before")
        if op.k == "swap" and self.c1 in op.a:
            self.report(ev, "new buckets are published after a commit failed")
        if op.k == "cclear" and op.a[0] is self.c1:
            self.report(ev, "the bucket cache is dropped after a commit failed")
        return None

    def on_store(self, ev, st):
        p, v = ev.args
        if p.id in self.geo:
            self.report(ev, "the published table size changes after a commit failed")
        if p is self.ecb and not (v.is_const and v.const == 1):
            self.report(ev, "the failure flag is cleared")
        return None

    def on_setec(self, ev, st):
        t, new, old = ev.args
        if t is self.ec:
            self.report(ev, "the recorded commit error is overwritten")
        return None

    def on_ret(self, ev, st):
        self.oblige("store failed: nothing changes", ev)
        if self.out is not None:
            self.oblige("store failed: error reported", ev)
            if not self.iserr(self.ecv(ev, self.out)):
                self.report(ev, "does not report the error of the failed commit")
        if self.cell(ev, self.ecb) != 1:
            self.report(ev, "the failure flag is not kept")
        if not self.iserr(self.ecv(ev, self.ec)):
            self.report(ev, "the recorded commit error is lost")
        return None


class Failing(Store):
    """a commit that fails sets the error, then the flag; a close then keeps the log and reports"""

    def on_store(self, ev, st):
        p, v = ev.args
        if p is self.ecb and v.is_const and v.const == 1:
            self.oblige("failure flag set after the error", ev)
            if not self.iserr(self.ecv(ev, self.ec)):
                self.report(ev, "the failure flag is set before the error is recorded")
        elif p is self.ecb:
            self.report(ev, "the failure flag is cleared")
        return None

    def on_call(self, ev, op, st):
        if op is not None and op.k == "erase":
            self.oblige("log deleted only after a successful commit", ev)
            if self.ecv(ev, self.ec) != "ok" or self.cell(ev, self.ecb) == 1:
                self.report(ev, "a file is deleted although the commit failed")
        return None

    def on_ret(self, ev, st):
        e = self.ecv(ev, self.ec)
        if e != "ok":
            self.oblige("failed commit recorded at return", ev)
            if self.cell(ev, self.ecb) != 1 and not self.closing(st):
                self.report(ev, "a failed commit does not stop the store")
            if self.out is not None and not self.iserr(self.ecv(ev, self.out)):
                self.report(ev, "close does not report the failure")
        return None

    def closing(self, st):
        return "done" in st

    def on_fail(self, ev, op, st):
        # deleting the log is the last step of close: its failure no longer affects a running store
        if op is not None and op.k == "erase":
            return st | {"done"}
        return None


@rule("C10")
def failed_store_stops(res, L):
    lib = L["mid"]
    for r in ("flush", "close", "insert", "fetch"):
        root = lib.root(r)
        aut = FailedStore()
        cells = {lib.this("ecb_"): 1}
        if r == "close":
            cells[lib.this("open_")] = 1
        run(res, "failed_store_stops", root, aut, ec_init={lib.this("ec_"): "err"}, cells=cells)
        need(res, "failed_store_stops", root, aut, "store failed: nothing changes", "no return found")


@rule("C10")
def failure_recorded(res, L):
    lib = L["mid"]
    for r in ("flush", "close"):
        root = lib.root(r)
        aut = Failing()
        cells = {lib.this("ecb_"): 0}
        if r != "flush":
            cells[lib.this("open_")] = 1
        run(res, "failure_recorded", root, aut, ec_init={lib.this("ec_"): "ok"}, cells=cells)
        need(res, "failure_recorded", root, aut, "failed commit recorded at return", "no failing path found")


class Opening(Store):
    def on_call(self, ev, op, st):
        q = ev.qn
        if q == "nudb::context::insert":
            self.oblige("registered with the context last", ev)
            if not (len(ev.args) > 1 and ev.args[1] is atom("arg", 0)):
                self.report(ev, "registers something other than the store being opened")
            if "reg" in st:
                self.report(ev, "the store is registered twice")
            return st | {"reg"}
        if "reg" in st and op is not None and (op.k in DISK or op.k in ("pinsert", "swap")):
            self.report(ev, "open continues to work on the store after registering it for background commits")
        return None

    def on_store(self, ev, st):
        b, o = split_ptr(ev.args[0])
        # the background thread only flushes: it uses every member but the flag the caller's own calls consult
        if b is not None and b.k == "arg" and b.p[0] == 0 and "reg" in st and ev.args[0].id != self.opn.id:
            self.report(ev, "a member of the store is written after the store was registered for background commits")
        return None

    def on_ret(self, ev, st):
        self.oblige("open: all or nothing", ev)
        e = self.ecv(ev, self.out)
        if e == "ok":
            self.oblige("open succeeds", ev)
            if self.cell(ev, self.opn) != 1 or "reg" not in st:
                self.report(ev, "open succeeds without an open, registered store")
            if self.cell(ev, self.ecb) != 0 or self.ecv(ev, self.ec) != "ok":
                self.report(ev, "a newly opened store keeps an error of its past")
        else:
            if self.cell(ev, self.opn) == 1:
                self.report(ev, "the store counts as open although open failed")
            if "reg" in st:
                self.report(ev, "the store stays registered although open failed")
        return None


class Closing(Store):
    """an open store is closed"""

    def on_call(self, ev, op, st):
        q = ev.qn
        if q == "nudb::context::erase":
            self.oblige("background commits stopped first", ev)
            if not (len(ev.args) > 1 and ev.args[1] is atom("arg", 0)):
                self.report(ev, "stops background commits of something other than this store")
            return st | {"stopped"}
        if op is None:
            r = model_dtor(self.root, ev)
            if r is not None:
                return st | {("closed", r)}
            return None
        if "stopped" not in st and (op.k in DISK or op.k in ("lock", "swap", "pclear", "m:size", "m:empty", "m:begin")):
            self.report(ev, "works on the store before background commits of it were stopped")
        if op.k == "close":
            return st | {("closed", op.role)}
        if op.k == "erase":
            self.oblige("log deleted after it was closed", ev)
            if op.role != "lf":
                self.report(ev, "deletes a file other than the log")
            if ("closed", "lf") not in st:
                self.report(ev, "the log file is deleted while it is open")
            if "empty" not in st and "trunced" not in st:
                self.report(ev, "the log is deleted although elements inserted were not committed")
        return None

    def on_ok(self, ev, op, st):
        if op is not None and op.k == "trunc" and op.role == "lf":
            return st | {"trunced"}
        if op is not None and op.k == "erase":
            return st | {"erased"}
        return None

    def on_assume(self, ev, st):
        if empty_test(self.root, ev.args[0], ev.args[1], self.p1map):
            return st | {"empty"}
        return None

    def on_store(self, ev, st):
        if ev.args[0] is self.opn and not (ev.args[1].is_const and ev.args[1].const == 0):
            self.report(ev, "close marks the store open")
        return None

    def on_ret(self, ev, st):
        self.oblige("closed at return", ev)
        if self.cell(ev, self.opn) != 0:
            self.report(ev, "the store still counts as open after close")
        if "stopped" not in st:
            self.report(ev, "the store stays registered for background commits after close")
        e = self.ecv(ev, self.ec)
        if e == "ok":
            self.oblige("successful close commits, releases files and deletes the log", ev)
            if "empty" not in st and "trunced" not in st:
                self.report(ev, "close succeeds without committing what was inserted")
            for r, n in (("df", "data"), ("kf", "key"), ("lf", "log")):
                if ("closed", r) not in st:
                    self.report(ev, f"close succeeds but keeps the {n} file")
            if "erased" not in st:
                self.report(ev, "close succeeds but leaves the log file")
        return None


def model_dtor(root, ev):
    if short(ev.qn) in ("~file", "~posix_file"):
        r = root.file_role(ev.args[0])
        return r if r != "?" else None
    return None


class Dtor(Store):
    """the destructor closes the store on every path, before any part of it is destroyed"""

    def on_call(self, ev, op, st):
        q = ev.qn
        if q.endswith("::close") and "basic_store<" in q:
            self.oblige("destructor closes the store", ev)
            if ev.args[0] is not atom("arg", 0):
                self.report(ev, "the destructor closes something other than the store")
            return st | {"closed"}
        if "::~" in q and "closed" not in st and "boost::system" not in q:
            b, o = split_ptr(ev.args[0])
            if b is not None and b.k in ("arg", "ld"):
                self.report(ev, "a part of the store is destroyed before the store is closed")
        return None

    def on_ret(self, ev, st):
        if "closed" not in st:
            self.report(ev, "the store is destroyed without being closed")
        return None


class NotOpen(Store):
    def on_call(self, ev, op, st):
        if ev.qn.startswith("llvm.") or ev.qn.startswith("boost::system::"):
            return None
        if "::~" in ev.qn or short(ev.qn) in ("operator delete", "operator delete[]"):
            return None
        if op is not None and (op.k in DISK or op.mutates or op.k in ("swap", "pclear", "lock", "m:size", "m:empty", "pinsert")) \
                or ev.qn.startswith("nudb::context::"):
            self.report(ev, f"closing a store that is not open calls {ev.qn}")
        return None

    def on_ret(self, ev, st):
        self.oblige("closing a closed store does nothing", ev)
        if self.out is not None and self.ecv(ev, self.out) != "ok":
            self.report(ev, "closing a store that is not open reports an error")
        return None


@rule("C30")
def open_all_or_nothing(res, L):
    lib = L["mid"]
    root = lib.root("open")
    aut = Opening()
    run(res, "open_all_or_nothing", root, aut, cells={lib.this("open_"): 0, lib.this("ecb_"): None},
        ec_init={lib.this("ec_"): "any"})
    need(res, "open_all_or_nothing", root, aut, "registered with the context last", "open does not register the store")
    need(res, "open_all_or_nothing", root, aut, "open succeeds", "open never succeeds")


@rule("C30")
def close_complete(res, L):
    lib = L["mid"]
    roots = [lib.root("close")]
    d = lib.root("dtor")
    if any(True for _ in d.calls(lambda q: q.endswith("::close") and "basic_store<" in q)):
        aut = Dtor()
        run(res, "close_complete", d, aut)
        need(res, "close_complete", d, aut, "destructor closes the store", "the destructor does not close the store")
    else:
        roots.append(d)     # the destructor does the work itself
    for root in roots:
        r = root.name
        aut = Closing()
        run(res, "close_complete", root, aut, ec_init={lib.this("ec_"): "ok"}, cells={lib.this("open_"): 1, lib.this("ecb_"): 0})
        for ob in ("background commits stopped first", "log deleted after it was closed",
                   "successful close commits, releases files and deletes the log"):
            need(res, "close_complete", root, aut, ob, f"not found in {r}: {ob}")
        aut = NotOpen()
        run(res, "close_complete", root, aut, cells={lib.this("open_"): 0})
        need(res, "close_complete", root, aut, "closing a closed store does nothing", "no return found")
