"""Which file operations an entry point may perform at all (mid-level module): C22 append-only data file, C23 read-only operations."""
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import AnchorError
from .common import *
from .commit import need
from .headers import Names

WRITERS = ("flush", "close", "insert", "open", "recover", "rekey", "create", "create2", "fetch", "visit", "verify")
SCAN, READ = 0, 1


class AppendOnly(MidAut):
    """every change of the data file is an append at its current end"""

    def setup(self):
        self.n = Names(self.root)

    @staticmethod
    def stale(st):
        return frozenset(f for f in st if not (isinstance(f, tuple) and f[0] == "cur"))

    def on_ok(self, ev, op, st):
        if op is None:
            return None
        if op.k == "size" and op.role == "df":
            return st | {("cur", ev.ins.id)}
        if op.k == "create" and op.role == "df":
            return st | {"created"}
        return None

    def on_call(self, ev, op, st):
        if op is None:
            return None
        k, r, a = op.k, op.role, ev.args
        if k == "size" and r == "df":
            return frozenset(f for f in st if f != ("cur", ev.ins.id))
        if k == "wctor" and r not in ("lf", "kf"):
            self.oblige("appends start at the current end of the data file", ev)
            c = a[2].atom()
            if r != "df":
                self.report(ev, "a buffered writer is made for a file that cannot be identified")
            elif c is None or c.k != "call" or ("cur", c.p[-1]) not in st or a[2] is not tm.mk({(c,): 1}):
                self.report(ev, "appending does not start at the current end of the data file")
            return st
        if k in ("wprepare", "wflush", "spillout") and r not in ("lf", "kf"):
            return self.stale(st)
        if k == "write" and r not in ("kf", "lf"):
            self.oblige("data file written only when new", ev)
            if "created" not in st or not (a[1].is_const and a[1].const == 0) or "hdr" in st:
                self.report(ev, "writes into the data file at a place that is not known to be behind its end")
            return self.stale(st) | {"hdr"}
        if k == "bwrite" and r not in ("kf", "lf"):
            self.report(ev, "writes a bucket into the data file")
        if k == "trunc" and r not in ("kf", "lf"):
            self.oblige("data file shortened only to a logged size", ev)
            if self.root.name != "recover":
                self.report(ev, "changes the length of the data file outside recovery")
            elif self.n.name(a[1]) != ("lh", "dat_file_size"):
                self.report(ev, "shortens the data file to a size that no log header recorded")
            return self.stale(st)
        if k == "erase" and r == "df" and "created" not in st:
            self.report(ev, "deletes a data file it did not create")
        return None


FOREIGN = {"fopen", "freopen", "open", "open64", "openat", "creat", "unlink", "unlinkat", "remove", "rename", "truncate", "ftruncate",
           "write", "pwrite", "fwrite", "mkdir", "rmdir", "link", "symlink", "system", "remove_all", "resize_file", "copy_file",
           "erase_file", "recover", "rekey", "create", "basic_ofstream", "basic_fstream", "basic_filebuf", "mkstemp", "tmpfile"}


class ReadOnly(MidAut):
    def on_call(self, ev, op, st):
        if op is None:
            q = ev.qn or ev.ins.j.get("callee") or ""
            if short(q.split("<")[0]) in FOREIGN:
                self.report(ev, f"calls {short(q.split('<')[0])}, which may change files")
            return None
        k, r, a = op.k, op.role, ev.args
        if op.mutates is not None or k in ("create", "erase"):
            self.report(ev, f"changes the {r} ({k})")
        elif k == "open":
            self.oblige("files opened for reading", ev)
            m = a[1]
            ok = m.is_const and m.const in (SCAN, READ)
            if not ok:
                self.report(ev, "opens a file with write access")
        elif k in ("read", "bread", "breadbulk", "rprepare", "size"):
            self.oblige("file only read", ev)
        return None


@rule("C22")
def data_file_appended(res, L):
    n = 0
    for r in WRITERS:
        root = L["mid"].root(r)
        aut = AppendOnly()
        run(res, "data_file_appended", root, aut)
        n += sum(1 for o in res.ob if o[0] == "appends start at the current end of the data file")
    if not n:
        raise AnchorError("no entry point appends to the data file")


@rule("C23")
def read_only(res, L):
    for r in ("fetch", "visit", "verify"):
        root = L["mid"].root(r)
        aut = ReadOnly()
        run(res, "read_only", root, aut)
        need(res, "read_only", root, aut, "file only read", f"{r} does not read a file")
