"""The POSIX file class down to its system calls (posix module): transfers and error reports (C28), descriptor ownership (C29)."""
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import AnchorError, split_ptr
from ..flow import Automaton
from ..lib import Root
from .common import *

NEG, ZERO, POS = "neg", "zero", "pos"
# system call -> (classes of result, classes that mean failure)
SYS = {
    "open": ((NEG, ZERO, POS), (NEG,)), "open64": ((NEG, ZERO, POS), (NEG,)),
    "posix_fadvise": ((ZERO, POS), (POS,)), "posix_fadvise64": ((ZERO, POS), (POS,)),
    "unlink": ((NEG, ZERO), (NEG,)), "fstat": ((NEG, ZERO), (NEG,)), "fstat64": ((NEG, ZERO), (NEG,)),
    "pread": ((NEG, ZERO, POS), (NEG,)), "pread64": ((NEG, ZERO, POS), (NEG,)),
    "pwrite": ((NEG, ZERO, POS), (NEG,)), "pwrite64": ((NEG, ZERO, POS), (NEG,)),
    "fsync": ((NEG, ZERO), (NEG,)), "fdatasync": ((NEG, ZERO), (NEG,)),
    "ftruncate": ((NEG, ZERO), (NEG,)), "ftruncate64": ((NEG, ZERO), (NEG,)),
}
FDARG = {"posix_fadvise": 0, "fstat": 0, "pread": 0, "pwrite": 0, "fsync": 0, "fdatasync": 0, "ftruncate": 0, "close": 0}
EINTR = 4
O_ACC, O_RDWR, O_CREAT, O_EXCL, O_TRUNC, O_APPEND = 3, 2, 0o100, 0o200, 0o1000, 0o2000
METHODS = ("default", "move", "assign", "dtor", "is_open", "close", "create", "open", "erase", "size", "read", "write", "sync", "trunc")
HARMLESS = {"__errno_location", "strlen"}


def callee(x):
    return x.j.get("callee") or x.j.get("qn") or ""


def base(name):
    return name[:-2] if name.endswith("64") else name


def s64(c, w=64):
    c %= 1 << w
    return c - (1 << w) if c >> (w - 1) else c


def sysname(x):
    q = callee(x)
    return base(q) if q in SYS or q == "close" else None


def classes(a, val, r, cls, w):
    """the result classes of call result r (an atom's term) for which condition a may have the value val"""
    out = []
    for k in cls:
        if k == POS:
            ok = _pos(a, val, r, w)
        else:
            ok = _at(a, val, r, -1 if k == NEG else 0, w)
        if ok:
            out.append(k)
    return frozenset(out)


def _lin(t, r):
    """(coefficient of r, constant) of t, None if anything else occurs"""
    k, c = 0, 0
    ra = r.atom()
    for m, v in t.m.items():
        if m == ():
            c = v
        elif m == (ra,):
            k = v
        else:
            return None
    return s64(k), s64(c)


def _at(a, val, r, v, w):
    """may condition a be val when r == v"""
    if a.k == "eq":
        l = _lin(a.p[0], r)
        if l is None or not l[0]:
            return True
        return ((l[0] * v + l[1]) % (1 << w) == 0) == val
    if a.k in ("slt", "ult"):
        x, y = _lin(a.p[0], r), _lin(a.p[1], r)
        if x is None or y is None or not (x[0] or y[0]):
            return True
        p, q = x[0] * v + x[1], y[0] * v + y[1]
        if a.k == "ult":
            p, q = p % (1 << w), q % (1 << w)
        else:
            p, q = s64(p, w), s64(q, w)
        return (p < q) == val
    return True


def _pos(a, val, r, w):
    """may condition a be val for some r >= 1"""
    if a.k == "eq":
        l = _lin(a.p[0], r)
        if l is None or abs(l[0]) != 1:
            return True
        v = s64(-l[1] * l[0], w)
        return True if not val else v >= 1
    return any(_at(a, val, r, v, w) for v in (1, 2, (1 << (w - 1)) - 1))


def evalt(t, look):
    """numeric value of a term whose atoms look() knows the values of, else None"""
    s = 0
    for m, c in t.m.items():
        p = c
        for a in m:
            v = evala(a, look)
            if v is None:
                return None
            p *= v
        s += p
    return s % (1 << 64)


def evala(a, look):
    v = look(a)
    if v is not None:
        return v
    if a.k == "sel":
        c = evalt(a.p[0], look)
        return None if c is None else evalt(a.p[1] if c & 1 else a.p[2], look)
    ps = [evalt(p, look) if isinstance(p, T) else p for p in a.p]
    if any(p is None for p in ps):
        return None
    if a.k == "not":
        return 1 - (ps[0] & 1)
    if a.k == "eq":
        return int(ps[0] == 0)
    if a.k == "bit":
        return ps[0] & 1
    if a.k == "band":
        return ps[0] & ps[1] & 1
    if a.k == "bxor":
        return (ps[0] ^ ps[1]) & 1
    if a.k == "or":
        return ps[0] | ps[1]
    if a.k == "and":
        return ps[0] & ps[1]
    if a.k == "xor":
        return ps[0] ^ ps[1]
    if a.k in ("trunc", "zext"):
        return ps[0] & ((1 << ps[1]) - 1) if a.k == "trunc" else ps[0]
    if a.k == "lshr":
        return ps[0] >> ps[1]
    if a.k == "shl":
        return (ps[0] << ps[1]) % (1 << 64)
    return None


class Posix(Automaton):
    wants_loads = True
    wants_edges = True

    def start(self):
        return frozenset()

    def on(self, ev, st):
        if not hasattr(self, "fn"):
            self.fn, self.vn = self.root.fn, self.root.vn
            self.merges = {}
            for b in self.fn.rpo:
                ph = [x for x in self.fn.blocks[b] if x.op == "phi"]
                if ph and b not in self.fn.dead:
                    self.merges[b] = ph
            self.choices = set()
            for x in [x for ph in self.merges.values() for x in ph]:
                for p, v in x.j["in"] if x.ty != "i1" else ():
                    if v["k"] != "undef":
                        self.choices |= {tm.term_lit(a.p[0])[0].atom() for a in tm.walk(self.vn.op(v), set())
                                         if a.k == "sel" and not a.p[0].is_const}
            self.setup()
        m = getattr(self, "on_" + ev.k, None)
        r = m(ev, st) if m is not None else None
        if ev.k == "assume" and ev.args[0] in self.choices and r != []:
            r = st if r is None else r
            r = frozenset(f for f in r if f[:2] != ("cond", ev.args[0])) | {("cond", ev.args[0], ev.args[1])}
        return r

    def setup(self):
        pass

    # -- merged values along the path
    def enter(self, b, d, st):
        if d not in self.merges or d in self.fn.loops:
            return st
        return frozenset(f for f in st if f[:2] != ("in", d)) | {("in", d, b)}

    def pathval(self, t, st, depth=8):
        """t with merges replaced by what they are on this path"""
        if not depth:
            return t
        out = tm.ZERO
        for m, c in t.m.items():
            p = const(c)
            for a in m:
                x = self.fn.ins.get(a.p[-1]) if a.k == "phi" and isinstance(a.p[-1], int) else None
                r = None
                if x is not None and x.op == "phi" and x.bb not in self.fn.loops:
                    pr = [f[2] for f in st if f[:2] == ("in", x.bb)]
                    if pr:
                        r = self.incoming(x, pr[0], st, depth - 1)
                if a.k == "sel" and not a.p[0].is_const:
                    l = tm.term_lit(a.p[0])
                    f = self.get(st, "cond", l[0].atom())
                    if f is not None:
                        r = self.pathval(a.p[1] if f[2] == l[1] else a.p[2], st, depth - 1)
                p = tm.mul(p, r if r is not None else tm.mk({(a,): 1}))
            out = tm.add(out, p)
        return out

    def incoming(self, x, b, st, depth=8):
        for p, v in x.j["in"]:
            if p == b and v["k"] != "undef":
                return self.pathval(self.vn.op(v), st, depth)
        return None

    def number(self, t, env, st, depth=8):
        """the number a term is on this path, else None"""
        def look(a):
            v = env.get(a.id) if env else None
            if isinstance(v, (int, bool)):
                return int(v)
            x = self.fn.ins.get(a.p[-1]) if a.k == "phi" and isinstance(a.p[-1], int) else None
            if x is not None and x.bb in self.fn.loops:
                f = self.get(st, "flag", x.id)
                return f[2] if f is not None else None
            if x is not None and x.op == "phi" and x.bb not in self.fn.loops and depth:
                f = self.get(st, "in", x.bb)
                for p, v in x.j["in"] if f is not None else ():
                    if p == f[2] and v["k"] != "undef":
                        return self.number(self.vn.op(v), None, st, depth - 1)
            return None
        return evalt(t, look)

    def cond(self, a, val, st):
        """the condition with merged values replaced; True/False if decided"""
        if a.k not in ("eq", "ult", "slt"):
            return a, val
        ps = [self.pathval(p, st) for p in a.p if isinstance(p, T)]
        if a.k == "eq":
            if ps[0] is a.p[0]:
                return a, val
            l = tm.eq(ps[0], const(0))
            return (l, val) if l in (True, False) else (l[0].atom(), val == l[1])
        if ps[0] is a.p[0] and ps[1] is a.p[1]:
            return a, val
        return atom(a.k, *ps, w=1).atom(), val

    @staticmethod
    def get(st, *k):
        for f in st:
            if f[:len(k)] == k:
                return f
        return None

    @staticmethod
    def without(st, *ks):
        return frozenset(f for f in st if f[0] not in ks)


def width_of(x):
    t = x.ty or "i64"
    return int(t[1:]) if t[:1] == "i" and t[1:].isdigit() else 64


class Transfer(Posix):
    """C28: results of system calls examined, failures reported, transfers completed"""

    def setup(self):
        self.ecarg = {"create": 3, "open": 3, "erase": 1, "size": 1, "read": 4, "write": 4, "sync": 1, "trunc": 2}[self.name]
        self.out = atom("arg", self.ecarg)
        self.fd0 = atom("arg", 0)
        self.ecs = {}            # temporary error_code -> value it was made of
        for x, q, a in self.root.calls(lambda q: q.startswith("boost::system::error_code::error_code")):
            if len(a) >= 2:
                self.ecs[a[0].id] = a[1]
        self.updates = {}        # header phi id -> [(delta coefficient or None)]
        self.steps = []          # per back edge: {phi id: change}
        self.site = None
        self.L = self.root.lib
        self.short = self.L.mod.enum("error").get("short_read") if hasattr(self.L.mod, "enum") else None
        if isinstance(self.short, dict) or self.short is None:
            for v, n in self.L.mod.enum("error").items():
                if n == "short_read":
                    self.short = v
        self.mode_phi = None

    # -- events
    def on_load(self, ev, st):
        p = ev.args[0].atom()
        if p is not None and p.k == "call":
            y = self.fn.ins.get(p.p[-1])
            if y is not None and callee(y) == "__errno_location":
                t = self.vn.t.get(ev.ins.id)
                last = self.get(st, "last")
                if t is not None and t.atom() is not None and last is not None:
                    return frozenset(f for f in st if f[:2] != ("errno", t.atom().id)) | {("errno", t.atom().id, last[1])}
        return None

    def cls(self, st, cid):
        f = self.get(st, "r", cid)
        return f[2] if f is not None else None

    def failing(self, st, cid):
        x = self.fn.ins[cid]
        c = self.cls(st, cid)
        return c is not None and c <= frozenset(SYS[callee(x)][1])

    def on_assume(self, ev, st):
        a, val = ev.args
        if not isinstance(a, tm.Atom):
            return None
        raw = a
        a, val = self.cond(a, val, st)
        if a in (True, False):
            return None if a == val else []
        st2 = st
        for f in st:
            if f[0] == "r":
                x = self.fn.ins[f[1]]
                t = self.vn.t.get(x.id)
                if t is None or t.atom() is None or not tm.contains(tm.mk({(a,): 1}), lambda z: z is t.atom()):
                    continue
                c = classes(a, val, t, f[2], width_of(x))
                if c != f[2]:
                    st2 = (st2 - {f}) | {("r", f[1], c)}
        if a.k == "eq":
            for f in st:
                if f[0] == "errno":
                    e = [z for m in a.p[0].m for z in m if z.id == f[1]]
                    if e and val:
                        l = _lin(a.p[0], tm.mk({(e[0],): 1}))
                        if l is not None and abs(l[0]) == 1 and -l[1] * l[0] == EINTR:
                            st2 = st2 | {("eintr", f[2])}
        if self.name in ("read", "write"):
            new = self.remfacts(raw, ev.args[1]) | self.remfacts(a, val)
            if any(("left", d, 1 - k) in st2 for _, d, k in new):
                return []
            st2 = st2 | new
        md = atom("arg", 1)
        if self.name in ("open", "create") and a.k == "eq" and val:
            l = _lin(a.p[0], md)
            if l is not None and abs(l[0]) == 1:
                st2 = st2 | {("mode", -l[1] * l[0])}
        return st2 if st2 != st else None

    def isrem(self, t):
        """t is plus or minus a loop variable or combination that may be the number of bytes left"""
        return True

    def remfacts(self, a, val):
        out = set()
        if a.k == "eq":
            out.add(("left", a.p[0], 0 if val else 1))
        elif a.k == "ult":
            d = tm.sub(a.p[1], a.p[0])
            # x < y: y - x is not zero; not x < y: taken as nothing left (the difference never gets negative)
            out.add(("left", d, 1 if val else 0))
        return out

    def on_edge(self, ev, st):
        b, d = ev.args
        if d in self.fn.loops:
            if b in self.fn.loops[d]:
                up = {}
                for x in self.merges.get(d, ()):
                    if x.id in self.vn.t and x.ty != "i1":
                        t = self.incoming(x, b, st)
                        up[x.id] = None if t is None else tm.sub(t, self.vn.t[x.id])
                self.steps.append((ev, up, st))
                if all(t is not None and not t.m for t in up.values()):
                    return st            # nothing changed
            own = {self.vn.t[x.id].atom() for x in self.merges.get(d, ()) if x.id in self.vn.t}
            return frozenset(f for f in st if f[0] != "left" or not tm.contains(f[1], lambda z: z in own))
        return self.enter(b, d, st)

    def on_call(self, ev, st):
        x = ev.ins
        n = callee(x)
        nm = sysname(x)
        if nm is None:
            if x.j.get("qn", "").startswith(("boost::", "std::")) or n in HARMLESS or n.startswith("llvm."):
                return None
            self.report(ev, f"calls {short(n)}, which is not known to report errors the same way")
            return None
        # the previous failure must have been an interruption, or been reported
        for f in list(st):
            if f[0] == "r":
                y = self.fn.ins[f[1]]
                fail = frozenset(SYS[callee(y)][1])
                if y.id == x.id:
                    if f[2] <= fail and ("eintr", y.id) not in st:
                        self.report(ev, f"{nm} is repeated after a failure that is not an interruption")
                    elif f[2] & fail and not f[2] <= fail:
                        self.report(ev, f"the result of {nm} is not examined before it is called again")
                elif f[2] & fail and not f[2] <= fail and nm != "close":
                    self.report(ev, f"the result of {sysname(y)} is not examined")
        st = frozenset(f for f in st if not (f[0] in ("r", "eintr", "reported", "errno") and f[1 if f[0] != "errno" else 2] == x.id) and f[0] != "last")
        st = st | {("last", x.id)}
        if nm == "close":
            return st
        st = st | {("r", x.id, frozenset(SYS[n][0]))}
        self.oblige(f"{nm}: result examined and failure reported", ev)
        a = ev.args
        if nm in FDARG and not self.isfd(a[FDARG[nm]]):
            self.report(ev, f"{nm} is applied to something other than the file's descriptor")
        self.args(ev, nm, a, st)
        return st

    def isfd(self, t):
        a = t.atom()
        if a is None:
            return False
        if a.k == "ld" and a.p[0] is self.fd0:
            return True
        y = self.fn.ins.get(a.p[-1]) if a.k == "call" else None
        return y is not None and sysname(y) == "open"

    def cstr(self, t, k):
        a = t.atom()
        y = self.fn.ins.get(a.p[-1]) if a is not None and a.k == "call" else None
        return y is not None and short(y.j.get("qn") or "") in ("c_str", "data") and self.vn.callargs[y.id][0] is atom("arg", k)

    def args(self, ev, nm, a, st):
        if nm == "open":
            self.oblige("open flags", ev)
            if not self.cstr(a[0], 2):
                self.report(ev, "opens something other than the given path")
            m = self.get(st, "mode")
            fl = self.number(a[1], ev.env, st)
            if m is None:
                return           # not one of the four modes
            if fl is None:
                self.report(ev, "the flags of open cannot be determined")
                return
            want = self.name == "create"
            if want != bool(fl & O_CREAT) or want and not fl & O_EXCL:
                self.report(ev, "an existing file is not refused" if want else "a missing file is created")
            if fl & O_TRUNC:
                self.report(ev, "the file is emptied when opened")
            mode = m[1]
            if mode in (0, 1) and fl & O_ACC:
                self.report(ev, "a file opened for reading is opened with write access")
            if mode in (2, 3) and fl & O_ACC != O_RDWR:
                self.report(ev, "a file opened for writing is not opened for reading and writing")
            if mode == 3 and fl & O_APPEND:
                self.report(ev, "a file opened for writing at offsets is opened in append mode")
        elif nm == "unlink":
            if not self.cstr(a[0], 0):
                self.report(ev, "deletes something other than the given path")
        elif nm == "ftruncate":
            if a[1] is not atom("arg", 1):
                self.report(ev, "sets a length other than the given one")
        elif nm in ("pread", "pwrite"):
            if (nm == "pread") != (self.name == "read"):
                self.report(ev, f"{nm} in {self.name}")
            if not any(f[0] == "left" and f[2] == 1 for f in st) and nm == "pread":
                self.report(ev, "reads nothing, which is then taken for the end of the file")
            self.site = (ev, a)

    def on_setec(self, ev, st):
        t, new, old = ev.args
        if t is not self.out:
            return None
        x = ev.ins
        a = self.vn.callargs[x.id]
        last = self.get(st, "last")
        if new == "ok":
            self.report(ev, "the error code is cleared")
            return None
        self.oblige("error reported", ev)
        made = a[1] if len(a) > 1 else None
        if made is not None and not made.is_const and made.id in self.ecs and self.ecs[made.id].is_const:
            made = self.ecs[made.id]
        if made is not None and made.is_const:          # an error of the library
            cid = last[1] if last is not None else None
            if self.name == "read" and made.const == self.short and cid is not None and self.cls(st, cid) == frozenset([ZERO]):
                return st | {("reported", cid)}
            self.report(ev, "a made-up error is reported")
            return st | {("reported", cid)}
        v = None if len(a) < 2 else self.ecs.get(a[1].id)
        if v is None and (ev.ins.j.get("qn") or "").endswith("::assign"):
            v = a[1]
        va = v.atom() if v is not None else None
        if va is not None:
            va2 = va
            if va.k in ("trunc", "sext", "zext") and isinstance(va.p[0], T) and va.p[0].atom() is not None:
                va2 = va.p[0].atom()
            f = self.get(st, "errno", va2.id)
            if f is not None:
                if self.cls(st, f[2]) is not None and self.failing(st, f[2]) and sysname(self.fn.ins[f[2]]) != "posix_fadvise":
                    return st | {("reported", f[2])}
                self.report(ev, "an error is reported although the call did not fail, or not with errno")
                return st
            if va2.k == "call" and va2.p[-1] in self.fn.ins and sysname(self.fn.ins[va2.p[-1]]) == "posix_fadvise":
                if self.failing(st, va2.p[-1]):
                    return st | {("reported", va2.p[-1])}
                self.report(ev, "an error is reported although the call did not fail")
                return st
        self.report(ev, "the error reported is not that of the failed call")
        return st | {("reported", last[1] if last is not None else None)}

    def on_ret(self, ev, st):
        self.oblige(f"{self.name} returns", ev)
        rep = [f for f in st if f[0] == "reported"]
        for f in st:
            if f[0] != "r":
                continue
            y = self.fn.ins[f[1]]
            nm = sysname(y)
            fail = frozenset(SYS[callee(y)][1])
            if f[2] & fail:
                if not f[2] <= fail:
                    self.report(ev, f"the result of {nm} is not examined")
                elif ("reported", f[1]) not in st:
                    self.report(ev, f"a failure of {nm} is not reported")
            if self.name == "read" and nm == "pread" and f[2] == frozenset([ZERO]) and not rep:
                self.report(ev, "the end of the file is not reported as a short read")
        if not rep and self.name in ("read", "write"):
            self.done(ev, st)
        if not rep and not any(f[0] == "r" for f in st) and self.name not in ("read", "write"):
            self.report(ev, f"{self.name} does nothing")
        if self.name == "size" and not rep:
            self.sizeret(ev, st)
        return None

    def sizeret(self, ev, st):
        v = ev.ins.j.get("a") or []
        t = self.pathval(self.vn.op(v[0]), st) if v else None
        a = t.atom() if t is not None else None
        for x, q, ca in self.root.calls():
            if sysname(x) == "fstat" and a is not None and a.k == "ld" and a.w == 64 and a.p[0] is tm.add(ca[1], const(48)):
                return
        self.report(ev, "the size returned is not the file's")

    def done(self, ev, st):
        self.finals.append((ev, frozenset((f[1], f[2]) for f in st if f[0] == "left")))

    def __init__(self, name):
        super().__init__()
        self.name = name
        self.finals = []

    # -- after the flow: the loop's progress
    def transfer(self, res, rulename):
        """offset, buffer and length advance together by what was transferred"""
        fn, vn = self.fn, self.vn

        def bad(ev, m):
            res.at(rulename, fn, ev.ins, m, key=m)
        if self.site is None:
            res.fail(rulename, self.name, "", f"{self.name} transfers nothing")
            return
        ev, a = self.site
        n = vn.t[ev.ins.id]
        coef = {}
        for e, up, st in self.steps:
            for i, d in up.items():
                if d is not None and d.m:
                    k = _coef(d, n)
                    if k is not None and k != 0:
                        coef.setdefault(i, set()).add(k)
        P = atom("progress", 0)

        def value(t):
            """t in terms of the bytes transferred so far"""
            out = tm.ZERO
            for m, c in t.m.items():
                p = const(c)
                for z in m:
                    x = fn.ins.get(z.p[-1]) if z.k == "phi" else None
                    r = tm.mk({(z,): 1})
                    if x is not None and x.id in coef and len(coef[x.id]) == 1:
                        init = None
                        for pr, v in x.j["in"]:
                            if pr not in fn.loops.get(x.bb, ()):
                                init = vn.op(v)
                        if init is not None:
                            r = tm.add(init, tm.scale(P, next(iter(coef[x.id]))))
                    p = tm.mul(p, r)
                out = tm.add(out, p)
            return out
        res.oblige("position, buffer and length advance together", fn.where(ev.ins))
        for e, up, st in self.steps:
            ks = {}
            for i, d in up.items():
                if i in coef:
                    k = 0 if d is not None and not d.m else _coef(d, n) if d is not None else None
                    ks[i] = k
            if not ks:
                continue
            ratio = {None if k is None else (k * next(iter(coef[i]))) for i, k in ks.items()}
            cls = self.cls(st, ev.ins.id)
            if ratio == {0}:
                if cls is not None and POS in cls:
                    bad(e, "transferred bytes are not counted")
            elif len({0 if k == 0 else 1 for k in ks.values()}) != 1 or any(k is None or k not in coef[i] for i, k in ks.items()):
                bad(e, "position, buffer and length do not advance together after a partial transfer")
            elif cls is None or NEG in cls:
                bad(e, "a failed call's result is added to the position")
        off, buf = value(a[3]), value(a[1])
        D = tm.sub(off, atom("arg", 1))
        E = tm.sub(buf, atom("arg", 2))
        if D is not P and D.m or E is not P and E.m or (D is not E):
            bad(ev, "a transfer does not continue at the position and buffer address reached")
            return
        left = tm.sub(atom("arg", 3), D)
        if not any(v is left or v.is_const and v.const > 0 for v in [value(l) for l in amounts(a[2])]) or \
                not self.bounded(a[2], value, left):
            bad(ev, "more than the remaining bytes are transferred")
        if not self.finals:
            bad(ev, f"{self.name} never succeeds")
        for e, fs in self.finals:
            ok = any(k == 0 and (value(t) is left or value(t) is tm.scale(left, -1)) for t, k in fs)
            if not ok:
                bad(e, "success is returned before every byte was transferred")

    def bounded(self, t, value, left):
        """t <= left"""
        a = t.atom()
        v = value(t)
        if v is left:
            return True
        if a is not None and a.k == "min":
            return any(self.bounded(p, value, left) for p in a.p if isinstance(p, T))
        if a is not None and a.k == "sel":
            c = tm.term_lit(a.p[0])
            ca = c[0].atom() if c not in (True, False) else None
            if ca is None or ca.k != "ult":
                return False
            lo, hi = (ca.p[0], ca.p[1])
            for arm, pos in ((a.p[1], True), (a.p[2], False)):
                if self.bounded(arm, value, left):
                    continue
                holds = pos == c[1]      # lo < hi holds on this arm?
                U = 1 << 64
                if arm.is_const and not holds and value(lo) is left and hi.is_const and arm.const % U <= hi.const % U:
                    continue                 # left >= hi >= arm
                if arm.is_const and holds and value(hi) is left and lo.is_const and arm.const % U <= lo.const % U + 1:
                    continue                 # left > lo
                return False
            return True
        return False


def amounts(t):
    a = t.atom()
    if a is not None and a.k in ("min", "sel"):
        return [l for p in a.p[-2:] if isinstance(p, T) for l in amounts(p)]
    return [t]


def _coef(d, n):
    """k with d == k * n"""
    if not d.m:
        return 0
    for k in (1, -1):
        if d is tm.scale(n, k):
            return k
    return None


class Owner(Posix):
    """C29"""

    def __init__(self, name, alias=False):
        super().__init__()
        self.name = name
        self.alias = alias       # the two files are one

    def start(self):
        s = set()
        if self.name in ("open", "create"):
            s.add(("none", "this"))
        return frozenset(s)

    def setup(self):
        self.this = atom("arg", 0)
        self.other = atom("arg", 1) if self.name in ("move", "assign") else None
        self.same = [tm.sub(self.this, self.other), tm.sub(self.other, self.this)] if self.name == "assign" else []
        self.ecarg = atom("arg", 3) if self.name in ("open", "create") else None

    def cellname(self, p):
        if p is self.this and self.name not in ("erase",):
            return "this"
        if self.other is not None and p is self.other:
            return "this" if self.alias else "other"
        return None

    def cell(self, st, c):
        f = self.get(st, "cell", c)
        if f is not None:
            return f[2]
        return None if self.name in ("default", "move") and c == "this" else c

    def val(self, t, st):
        """descriptor a term denotes: 'this'/'other' (initial value), ('open', id), -1, or ('?', id)"""
        if t.is_const:
            return -1 if s64(t.const, 32) == -1 else ("?", t.id)
        a = t.atom()
        if a is not None and a.k in ("trunc", "sext", "zext") and isinstance(a.p[0], T):
            return self.val(a.p[0], st)
        if a is not None and a.k == "ld":
            f = self.get(st, "ldv", a.id)
            if f is not None:
                return f[2]
        if a is not None and a.k == "call" and a.p[-1] in self.fn.ins and sysname(self.fn.ins[a.p[-1]]) == "open":
            return ("open", a.p[-1])
        u = self.pathval(t, st)
        if u is not t:
            return self.val(u, st)
        return ("?", t.id)

    def on_load(self, ev, st):
        c = self.cellname(ev.args[0])
        if c is None:
            return None
        t = self.vn.t.get(ev.ins.id)
        a = t.atom() if t is not None else None
        if a is None or a.k != "ld":
            return None
        return frozenset(f for f in st if f[:2] != ("ldv", a.id)) | {("ldv", a.id, self.cell(st, c))}

    def on_edge(self, ev, st):
        return self.enter(ev.args[0], ev.args[1], st)

    def none(self, v, st):
        return v == -1 or ("none", v) in st

    def on_assume(self, ev, st):
        a, val = ev.args
        if not isinstance(a, tm.Atom):
            return None
        if a.k == "eq":
            d = a.p[0]
            if any(d is t for t in self.same):
                return None if val == self.alias else []
        for t in [tm.mk({(z,): 1}) for z in self.atoms(a)]:
            v = self.val(t, st)
            if isinstance(v, tuple) and v[0] == "?" or v is None:
                continue
            x = self.fn.ins.get(t.atom().p[-1]) if t.atom().k in ("call", "ld") else None
            c = classes(a, val, t, (NEG, ZERO, POS), 32)
            if c == frozenset([NEG]):
                return st | {("none", v)}
            if NEG not in c:
                return st | {("some", v)}
        return None

    def atoms(self, a):
        out = []
        for p in a.p:
            if isinstance(p, T):
                for m in p.m:
                    out += [z for z in m if z.k in ("ld", "call")]
        return out

    def on_store(self, ev, st):
        c = self.cellname(ev.args[0])
        if c is None:
            return None
        self.oblige("descriptor replaced", ev)
        v = self.val(ev.args[1], st)
        st2 = frozenset(f for f in st if f[:2] != ("cell", c)) | {("cell", c, v)}
        return st2

    def on_call(self, ev, st):
        nm = sysname(ev.ins)
        if nm is None:
            return None
        if nm == "close":
            v = self.val(ev.args[0], st)
            self.oblige("descriptor closed", ev)
            if v in (None,) or isinstance(v, tuple) and v[0] == "?":
                self.report(ev, "closes something other than the file's descriptor")
                return None
            if ("closed", v) in st:
                self.report(ev, "closes a descriptor twice")
            if v == "other":
                self.report(ev, "closes the descriptor of the file moved from")
            if self.none(v, st):
                return None
            return st | {("closed", v)}
        if nm in FDARG:
            v = self.val(ev.args[FDARG[nm]], st)
            self.oblige("descriptor used while open", ev)
            if ("closed", v) in st or v == -1:
                self.report(ev, f"{nm} is called on a closed descriptor")
        return None

    def iserr(self, ev):
        v = ev.flow.ecstate(ev.ecs, self.ecarg.id)
        return v == "err" or isinstance(v, tuple) and v[0] == "E"

    def on_ret(self, ev, st):
        self.oblige("descriptor owned once at return", ev)
        if self.alias:
            if self.cell(st, "this") != "this" or ("closed", "this") in st:
                self.report(ev, "moving a file onto itself closes it")
            return None
        gone = self.name == "dtor"
        cells = {} if gone else {"this": self.cell(st, "this")}
        if self.other is not None:
            cells["other"] = self.cell(st, "other")
        vals = set()
        if self.name not in ("default", "move", "erase"):
            vals.add("this")
        if self.other is not None:
            vals.add("other")
        for f in st:
            if f[0] in ("cell", "closed") and isinstance(f[-1], tuple) and f[-1][0] == "open":
                vals.add(f[-1])
        for x, q, a in self.root.calls():
            if sysname(x) == "open" and (("some", ("open", x.id)) in st):
                vals.add(("open", x.id))
        if self.name == "erase":
            return None
        for v in vals:
            if self.none(v, st):
                continue
            own = [c for c, w in cells.items() if w == v]
            if ("closed", v) in st:
                if own:
                    self.report(ev, "a closed descriptor is kept")
            elif not own:
                self.report(ev, "an open descriptor is lost")
            elif len(own) > 1:
                self.report(ev, "two files own the same descriptor")
        t = cells.get("this")
        n = self.name
        if n == "default" and t != -1:
            self.report(ev, "a new file object does not start closed")
        if n == "close" and not self.none(t, st):
            self.report(ev, "the file is still open after close")
        if n in ("move", "assign"):
            if t != "other":
                self.report(ev, "moving a file does not move its descriptor")
            if not self.none(cells["other"], st):
                self.report(ev, "the file moved from keeps a descriptor")
        if n in ("open", "create"):
            if self.iserr(ev):
                if not self.none(t, st):
                    self.report(ev, "a failed open leaves the file open")
            elif not (isinstance(t, tuple) and t[0] == "open"):
                self.report(ev, "a successful open does not keep the descriptor")
        if n in ("size", "read", "write", "sync", "trunc", "is_open") and t != "this":
            self.report(ev, f"{n} changes the descriptor")
        if n == "is_open":
            l = self.vn.lit(ev.ins.j["a"][0])
            a = l[0].atom() if l not in (True, False) else None
            x = None
            if a is not None:
                for z in self.atoms(a):
                    if z.k == "ld" and z.p[0] is self.this:
                        x = z
            tt = tm.mk({(x,): 1}) if x is not None else None
            if tt is None or classes(a, l[1], tt, (NEG, ZERO, POS), 32) != frozenset([ZERO, POS]):
                self.report(ev, "is_open does not tell whether there is a descriptor")
        return None


def method(L, name):
    lib = L["posix"]
    k = "m_" + name
    if k not in lib.cache:
        lib.cache[k] = Root(lib, k, lib.fn(r"\bvp::m_%s\(" % name))
    return lib.cache[k]


@rule("C28")
def transfers(res, L):
    for n in ("create", "open", "erase", "size", "read", "write", "sync", "trunc"):
        root = method(L, n)
        aut = Transfer(n)
        run(res, "transfers", root, aut)
        if not any(o.endswith("returns") for o in [k[0] for k in aut.ob]):
            res.fail("transfers", n, "", f"{n} never returns")
        if n in ("read", "write") and not aut.viol:
            aut.transfer(res, "transfers")


@rule("C29")
def descriptors(res, L):
    for n in METHODS:
        root = method(L, n)
        run(res, "descriptors", root, Owner(n))
        if n == "assign":
            run(res, "descriptors", root, Owner(n, True))
