"""The command line tool (cli module): exit status and arguments of its commands (C31)."""
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import AnchorError
from ..lib import Root
from .common import *
from .posix import Posix

# command -> (operation, {argument: option})
COMMANDS = {
    "recover": ("recover", {0: "dat", 1: "key", 2: "log"}),
    "rekey": ("rekey", {0: "dat", 1: "key", 2: "log", 5: "count", 6: "buffer"}),
    "verify": ("verify", {1: "dat", 2: "key", 3: "buffer"}),
    "visit": ("visit", {0: "dat"}),
}


class Exit(Posix):
    """every return of main gives the status of what ran before it"""

    def setup(self):
        g = self.root.lib.mod.globals
        self.text = {n: bytes(v["data"][:-1]).decode("latin1") for n, v in g.items()
                     if v.get("const") and v.get("data") and v.get("ew") == 1}
        self.made = {}
        for x, q, a in self.root.calls(lambda q: q.startswith("std::__cxx11::basic_string") and q.endswith("::basic_string")):
            if len(a) >= 2:
                self.made.setdefault(a[0].id, []).append(a[1])

    def const_text(self, t):
        a = t.atom()
        if a is None:
            return None
        n = repr(t).lstrip("@")
        return self.text.get(n)

    def option(self, t, depth=6):
        """the command line options a value comes from"""
        if depth == 0:
            return {"?"}
        s = self.const_text(t)
        if s is not None:
            return {s}
        a = t.atom()
        if a is not None and a.k == "phi" and isinstance(a.p[-1], int):
            x = self.fn.ins.get(a.p[-1])
            return set().union(*[self.option(self.vn.op(v), depth - 1) for p, v in x.j["in"] if v["k"] != "undef"])
        if a is not None and a.k in ("ld", "call"):
            if a.k == "ld":
                a = a.p[0].atom()
            y = self.fn.ins.get(a.p[-1]) if a is not None and a.k == "call" else None
            q = y.j.get("qn") or "" if y is not None else ""
            if q.endswith("::as") or q.endswith("any_cast"):
                return self.option(self.vn.callargs[y.id][0], depth - 1)
            if q.endswith("::operator[]"):
                return self.option(self.vn.callargs[y.id][1], depth - 1)
        if t.is_const:
            return set()
        src = self.made.get(t.id)
        if src:
            return set().union(*[self.option(s, depth - 1) for s in src])
        return {"?"}

    @staticmethod
    def op(ev):
        q = ev.qn
        n = q.split("::")[-1]
        if q.startswith("nudb::") and n in [c[0] for c in COMMANDS.values()] and q == "nudb::" + n:
            return n
        if q.startswith("nudb::posix_file::") or q == "nudb::detail::read":
            return "file"
        return None

    def on_call(self, ev, st):
        n = self.op(ev)
        if n is None:
            if ev.qn.endswith("::help"):
                return st | {("help",)}
            return None
        if n == "file":
            return None
        self.oblige(f"{n} is run with the paths of the command line", ev)
        cmd = self.get(st, "cmd")
        for c, (o, args) in COMMANDS.items():
            if o == n:
                if cmd is None or cmd[1] != c:
                    self.report(ev, f"{n} is run by another command")
                for k, want in args.items():
                    got = self.option(ev.args[k])
                    if not got <= {want}:
                        self.report(ev, f"{n} is given {', '.join(sorted(got))} for {want}")
        return frozenset(f for f in st if f[0] not in ("ran", "ok")) | {("ran", n)}

    def on_ok(self, ev, st):
        n = self.op(ev)
        return None if n is None or n == "file" else st | {("ok", n)}

    def on_fail(self, ev, st):
        n = self.op(ev)
        return None if n is None else st | {("failed", n)}

    def on_assume(self, ev, st):
        a, val = ev.args
        if isinstance(a, tm.Atom) and a.k == "eq" and val:
            c = [p.atom() for p in a.p if isinstance(p, T)]
            a = c[0] if len(c) == 1 or not c[0] is None else a
            y = self.fn.ins.get(a.p[-1]) if a is not None and a.k == "call" else None
            if y is None or not (y.j.get("qn") or "").endswith("::compare"):
                a = None
        if isinstance(a, tm.Atom) and a.k == "call" and val:
            y = self.fn.ins.get(a.p[-1])
            if y is not None and (y.j.get("qn") or "").split("::")[-1] in ("operator==", "compare"):
                for t in self.vn.callargs[y.id]:
                    s = self.const_text(t)
                    if s in COMMANDS or s in ("help", "info"):
                        if self.get(st, "cmd") is not None:
                            return []
                        return st | {("cmd", s)}
        return None

    def on_edge(self, ev, st):
        b, d = ev.args
        if d not in self.fn.loops or d not in self.merges:
            return self.enter(b, d, st)
        # what a flag kept across a loop is after this turn
        new = []
        for x in self.merges[d]:
            for p, v in x.j["in"] if x.ty[:1] == "i" else ():
                if p == b and v["k"] != "undef":
                    n = self.number(self.vn.op(v), ev.env, st)
                    if n is not None and n & 0xff in (0, 1):
                        new.append(("flag", x.id, n & 0xff))
        ids = {x.id for x in self.merges[d]}
        return frozenset(f for f in st if not (f[0] == "flag" and f[1] in ids)) | frozenset(new)

    def on_ret(self, ev, st):
        self.oblige("exit status", ev)
        v = self.number(self.vn.op(ev.ins.j["a"][0]), ev.env, st)
        cmd = self.get(st, "cmd")
        if v is None:
            self.report(ev, "the exit status cannot be determined")
            return None
        v &= 0xff
        bad = [f[1] for f in st if f[0] == "failed"]
        pend = [f[1] for f in st if f[0] == "ran" and ("ok", f[1]) not in st and ("failed", f[1]) not in st]
        if v == 0:
            if bad:
                self.report(ev, f"success although {'an operation on a file' if bad[0] == 'file' else bad[0]} failed")
            elif pend:
                self.report(ev, f"success although it was not checked whether {pend[0]} failed")
            elif cmd is None:
                self.report(ev, "success although no known command was given")
            elif cmd[1] in COMMANDS and ("ok", COMMANDS[cmd[1]][0]) not in st:
                self.report(ev, f"success of {cmd[1]} although it was not carried out")
        else:
            if ("ok",) in [f[:1] for f in st] and not bad and not pend:
                self.report(ev, "failure although the command was carried out")
        return None


@rule("C31")
def exit_status(res, L):
    lib = L["cli"]
    if "root" not in lib.cache:
        lib.cache["root"] = Root(lib, "main", lib.fn(r"^main$"))
    aut = Exit()
    run(res, "exit status", lib.cache["root"], aut)
    for c, (o, _) in COMMANDS.items():
        if not any(k[0].startswith(o + " is run") for k in aut.ob):
            res.fail("exit status", "main", "", f"the command {c} runs nothing")
