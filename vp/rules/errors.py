"""Error discipline of every entry point: an I/O error stops the operation and reaches its caller."""
from ..flow import ec_params
from .common import *

ALL = ("flush", "close", "insert", "fetch", "open", "recover", "rekey", "create", "create2", "visit", "verify")
# failures an operation may recognise by their specific code and handle: (operation, code)
HANDLED = {("open", "no_such_file_or_directory"), ("read", "short_read"), ("rprepare", "short_read"),
           ("breadbulk", "short_read"), ("bread", "short_read"), ("bread", "invalid_bucket_size"),
           ("bread", "invalid_bucket_spill")}


def out_keys(root):
    """the error_code parameters of the entry point (for flush: the store's own error)"""
    L = root.lib
    if root.name == "flush":
        return [L.this("ec_").id]
    return [atom("arg", k).id for k in ec_params(root.fn)]


class ErrFlow(MidAut):
    wants_ptrs = False
    """state facts: "failed" an I/O error was observed; "out" it must reach the caller"""

    def setup(self):
        self.outs = out_keys(self.root)
        self.enum = enum_names(self.root.lib)

    def on_drop(self, ev, op, st):
        ins = self.fn.ins.get(ev.args[0])
        q = (ins.j.get("qn") or "") if ins is not None else ""
        if short(q) != "erase":
            self.report(ev, f"the result of {short(q)} is overwritten before it is examined")
        return None

    @staticmethod
    def failed(st):
        return [f for f in st if isinstance(f, tuple) and f[0] == "failed"]

    def on_call(self, ev, op, st):
        m = op.mutates if op is not None else None
        if m is not None:
            self.oblige("no file is changed after an I/O error", ev)
            if self.failed(st) and op.k != "erase":
                self.report(ev, f"{op.k} changes a file after an I/O error")
                return None
        old = ev.extra[1] if ev.extra else None
        if (op is None or op.k != "erase") and (old == "err" or isinstance(old, tuple) and old[0] == "E"):
            self.report(ev, f"{op.k if op is not None else short(ev.qn)} is called although an error has occurred")
        return None

    def on_fail(self, ev, op, st):
        k = op.k if op is not None else short(ev.qn)
        if k == "erase":
            return None
        self.oblige(f"failure of {k} reaches the caller", ev)
        return st | {("failed", k)}

    def on_setec(self, ev, st):
        t, new, old = ev.args
        if new == "ok" and isinstance(old, tuple) and old[0] == "E":
            nm = self.enum.get(old[1])
            return frozenset(f for f in st if not (isinstance(f, tuple) and f[0] == "failed" and (f[1], nm) in HANDLED))
        return None

    def on_ret(self, ev, st):
        if self.failed(st):
            self.oblige("error exit", ev)
            if all(ev.flow.ecstate(ev.ecs, o) == "ok" for o in self.outs):
                self.report(ev, f"returns success after a failed {self.failed(st)[0][1]}")
        return None


def enum_names(L):
    """the specific error values code may compare an error code with"""
    r = {("code", v): n for v, n in L.mod.enum("error").items()}
    r[("cond", 2)] = "no_such_file_or_directory"
    return r


@rule("C09")
def no_error_dropped(res, L):
    for r in ALL:
        aut = ErrFlow()
        run(res, "no_error_dropped", L["main"].root(r), aut)
