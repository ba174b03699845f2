"""C38: nothing depends on memory that was never written: definite initialisation of local objects, over every way through the
functions (with everything inlined), down to single bytes."""
import os
import re
import subprocess
from .. import ir, model, build
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import AnchorError, split_ptr
from ..flow import Flow, Automaton, Budget
from .common import *

ALL = "all"
REST = 1 << 40
USES = ("icmp", "add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem", "switch", "br", "select",
        "getelementptr", "ret", "fcmp", "fadd", "fmul", "fdiv", "uitofp", "fptoui", "inttoptr")


def merge(iv, lo, hi):
    """a set of disjoint sorted intervals with one more"""
    out = []
    for a, b in iv:
        if b < lo or a > hi:
            out.append((a, b))
        else:
            lo, hi = min(a, lo), max(b, hi)
    out.append((lo, hi))
    return tuple(sorted(out))


def meet(x, y):
    if x == ALL:
        return y
    if y == ALL:
        return x
    out = []
    for a, b in x:
        for c, d in y:
            lo, hi = max(a, c), min(b, d)
            if lo < hi:
                out.append((lo, hi))
    return tuple(sorted(out))


def covers(iv, lo, hi):
    return iv == ALL or any(a <= lo and hi <= b for a, b in iv)


class Init:
    def __init__(self, res, fn, vn, label):
        self.res, self.fn, self.vn = res, fn, vn
        self.objs = {}
        self.bad = []
        for b in fn.rpo:
            for x in fn.blocks[b]:
                if x.op == "alloca" and x.id in vn.t:
                    a = vn.t[x.id].atom()
                    if a is not None:
                        self.objs[a] = x
        self.heap, self.alias, self.loopfill = {}, {}, {}
        if label == "mid":
            self.memory()
        self.uses = {}
        for b in fn.rpo:
            if b in fn.dead:
                continue
            for x in fn.blocks[b]:
                for o in self.operands(x):
                    if o.get("k") == "v":
                        self.uses.setdefault(o["v"], []).append(x)
        self.run()
        for x, o, off, n in self.bad:
            if not self.excluded(x, o, off, n):
                res.at("definite initialisation", fn, x, "memory is used that may never have been written")

    def excluded(self, x, o, off, n):
        """no way that the outcomes of the operations allow leads to the use with the bytes unwritten"""
        aut = Ways(self, x, o, off, off + n)
        try:
            Flow(self.fn, self.vn, aut, "any", 40000).run()
        except Budget:
            return False
        return not aut.hit

    @staticmethod
    def operands(x):
        ops = list(x.j.get("a") or []) + [v for p, v in (x.j.get("in") or [])]
        if isinstance(x.j.get("cond"), dict):
            ops.append(x.j["cond"])
        if "base" in x.j:
            ops.append(x.j["base"])
            ops += [v for v, s in x.j.get("var", [])]
        return [o for o in ops if isinstance(o, dict)]

    def consumed(self, x, depth=0):
        """an instruction that acts on the value loaded, if any (copies to elsewhere do not)"""
        for u in self.uses.get(x.id, []):
            if u.op in USES:
                return u
            if u.op in ("call", "invoke") and not (u.j.get("qn") or "").startswith("llvm."):
                return u
            if u.op in ("zext", "sext", "trunc", "freeze", "phi") and depth < 4:
                r = self.consumed(u, depth + 1)
                if r is not None:
                    return r
        return None

    def memory(self):
        """memory made with new[], and the pointer variables that point to it or nowhere"""
        fn, vn = self.fn, self.vn
        for b in fn.rpo:
            if b in fn.dead:
                continue
            for x in fn.blocks[b]:
                if x.op in ("call", "invoke") and (x.j.get("qn") or "").startswith("operator new") and x.id in vn.t:
                    a = vn.t[x.id].atom()
                    if a is not None:
                        self.objs[a] = x
                        self.heap[a] = vn.callargs[x.id][0]
        phis = [x for b in fn.rpo if b not in fn.dead for x in fn.blocks[b] if x.op == "phi" and x.id in vn.t]
        for _ in range(4):
            for x in phis:
                a = vn.t[x.id].atom()
                ts = [vn.op(v) for p, v in x.j["in"] if p in fn.rpon and p not in fn.dead]
                to = {self.alias.get(t.atom(), t.atom()) for t in ts if not (t.is_const and t.const == 0) and t.atom() is not a}
                if a is not None and len(to) == 1 and next(iter(to)) in self.heap:
                    self.alias[a] = next(iter(to))

    def obj(self, t):
        b, o = split_ptr(t)
        b = self.alias.get(b, b)
        if b is None or b not in self.objs:
            return None, None
        return b, o.const if o.is_const else None

    def first(self):
        return {a: () for a in self.objs}

    def along(self, b, i, d, s):
        """memory of size zero needs no filling, and a loop that writes at moving places is taken to fill the memory"""
        fn, vn = self.fn, self.vn
        s = dict(s)
        for h, body in fn.loops.items():
            if b in body and d not in body:
                for o in self.filled(h, body):
                    s[o] = ALL
        t = fn.blocks[b][-1]
        if t.op == "br" and "cond" in t.j and len(t.j["succ"]) == 2 and t.j["succ"][0] != t.j["succ"][1]:
            l = vn.lit(t.j["cond"])
            if l not in (True, False):
                a = l[0].atom() if isinstance(l[0], T) else l[0]
                val = l[1] == (d == t.j["succ"][0])
                for o, n in self.heap.items():
                    z = tm.eq(n, const(0))
                    if z not in (True, False) and z[0].atom() is a and z[1] == val:
                        s[o] = ALL
                    elif a is not None and a.k == "eq" and val and s[o] != ALL:
                        # nothing lies behind a part that is the whole
                        for k in (tm.sub(n, a.p[0]), tm.add(n, a.p[0])):
                            if k.is_const and 0 < k.const < 1 << 20:
                                s[o] = merge(s[o], k.const, REST)
        return s

    def filled(self, h, body):
        if h not in self.loopfill:
            r = set()
            for b in body:
                for x in self.fn.blocks[b]:
                    if x.op == "store":
                        o, off = self.obj(self.vn.op(x.j["a"][1]))
                        if o in self.heap and off is None:
                            r.add(o)
            self.loopfill[h] = r
        return self.loopfill[h]

    def all(self, s, t):
        """everything an unknown function may reach through a pointer counts as written"""
        for a in tm.walk(t, set()):
            a = self.alias.get(a, a)
            if a in self.objs:
                s[a] = ALL

    def run(self):
        fn = self.fn
        ins = {fn.rpo[0]: self.first()}
        order = [b for b in fn.rpo if b not in fn.dead]
        changed = True
        n = 0
        while changed and n < 60:
            changed = False
            n += 1
            for b in order:
                if b not in ins:
                    continue
                s = self.block(b, dict(ins[b]), False)
                s0 = s
                for i, d in enumerate(fn.succ[b]):
                    if d in fn.dead:
                        continue
                    s = self.along(b, i, d, s0) if self.heap else s0
                    if d not in ins:
                        ins[d] = dict(s)
                        changed = True
                    else:
                        for a in self.objs:
                            m = meet(ins[d][a], s[a])
                            if m != ins[d][a]:
                                ins[d][a] = m
                                changed = True
        for b in order:
            if b in ins:
                self.block(b, dict(ins[b]), True)
        self.res.states += len(order)

    def block(self, b, s, check):
        for x in self.fn.blocks[b]:
            self.step(x, s, check)
        return s

    def step(self, x, s, check):
        vn = self.vn
        if x.op == "store":
            o, off = self.obj(vn.op(x.j["a"][1]))
            self.all(s, vn.op(x.j["a"][0]))
            if o is not None:
                if x.j["a"][0].get("k") == "undef":
                    pass
                elif s[o] != ALL:
                    s[o] = ALL if off is None else merge(s[o], off, off + x.j["size"])
        elif x.op == "load":
            o, off = self.obj(vn.op(x.j["a"][0]))
            if o is not None and off is not None and check:
                self.need(x, s, o, off, x.j["size"])
        elif x.op in ("call", "invoke"):
            self.call(x, s, check)

    def need(self, x, s, o, off, n, at=None):
        at = at or self.consumed(x)
        if at is None:
            return
        self.res.oblige("memory read was written before", self.fn.where(x))
        if not covers(s[o], off, off + n):
            self.bad.append((x, o, off, n))

    def call(self, x, s, check):
        vn = self.vn
        q = x.j.get("qn") or ""
        name = x.j.get("callee") or ""
        a = vn.callargs.get(x.id, [])
        if name.startswith("llvm.lifetime.start"):
            o, off = self.obj(a[1])
            if o is not None and off == 0:
                s[o] = ()
            return
        if name.startswith("llvm.memset") or name.startswith("llvm.memcpy") or name.startswith("llvm.memmove") or q in ("memcpy", "memmove", "memset"):
            o, off = self.obj(a[0])
            if o is None:
                if not name.startswith("llvm.memset") and q != "memset":
                    p, poff = self.obj(a[1])
                    if p is not None and poff is not None and a[2].is_const and check and a[2].const <= 1 << 20:
                        # a copy of a whole object may carry padding
                        pass
                return
            if s[o] == ALL:
                return
            if off is not None and not a[2].is_const and o in self.heap and tm.add(a[2], const(off)) is self.heap[o]:
                s[o] = merge(s[o], off, REST)
                return
            if off is None or not a[2].is_const:
                s[o] = ALL
                return
            n = a[2].const
            if "memset" not in (name or q):
                p, poff = self.obj(a[1])
                if p is not None and poff is not None and s[p] != ALL:
                    for lo, hi in s[p]:
                        lo, hi = max(lo, poff) - poff, min(hi, poff + n) - poff
                        if lo < hi:
                            s[o] = merge(s[o], off + lo, off + hi)
                    return
            s[o] = merge(s[o], off, off + n)
            return
        if name.startswith("llvm."):
            return
        me = self.vn.t[x.id].atom() if x.id in self.vn.t else None
        if me is not None and me in self.heap:
            s[me] = ()
            return
        m = q.split("::")[-1]
        if model.is_file(q) and m == "write":
            o, off = self.obj(a[2])
            if o is not None and off is not None and check:
                if a[3].is_const:
                    self.need(x, s, o, off, a[3].const, at=x)
                elif o in self.heap:
                    self.need(x, s, o, off, REST - off, at=x)
        if model.is_file(q) and m == "read" and a[3].is_const:
            o, off = self.obj(a[2])
            if o is not None and off is not None:
                if s[o] != ALL:
                    s[o] = merge(s[o], off, off + a[3].const)
                return
        for t in a:
            self.all(s, t)


class Ways(Automaton):
    """one use of some bytes of one object, along the ways that the outcomes of operations and conditions allow"""
    wants_loads = True
    wants_life = True

    def __init__(self, ini, x, o, lo, hi):
        super().__init__()
        self.ini, self.x, self.o, self.lo, self.hi, self.hit = ini, x, o, lo, hi, False

    def start(self):
        return ()

    def on(self, ev, st):
        if ev.ins is self.x and ev.k in ("load", "call") and not covers(st, self.lo, self.hi):
            self.hit = True
        if ev.k not in ("store", "call", "copy", "life"):
            return None
        s = {self.o: st}
        ini = self.ini
        keep, ini.objs = ini.objs, {self.o: ini.objs[self.o]}
        try:
            ini.step(ev.ins, s, False)
        finally:
            ini.objs = keep
        v = s[self.o]
        return [v if v == ALL else meet(v, ((self.lo, self.hi),))]


LEVELS = (("main", None), ("mid", None), ("comp", r"^vp::m_"), ("rec", r"^vp::m_"), ("bnd", r"."), ("ctx", r"."), ("posix", r"."), ("cli", r"."))


@rule("C38", "local objects")
def objects(res, L):
    for lv, rx in LEVELS:
        lib = L[lv]
        for fn in lib.mod.fns:
            if not fn.rpo or fn.dem.startswith("vp::m_") is False and "nudb" not in fn.dem and lv not in ("cli",):
                continue
            vn = ir.VN(fn, effects=model.effects)
            res.funcs.add(fn.dem.split("(")[0][:160])
            Init(res, fn, vn, lv)


TUS = ("main", "comp", "cli", "ctx", "posix")


@rule("C38", "local variables")
def variables(res, L):
    """definite initialisation of scalar variables, by the dataflow analysis of the compiler's front end"""
    n = 0
    for name in TUS:
        cpp = os.path.join(build.VERIF, "drivers", name + ".cpp")
        if not os.path.exists(cpp):
            continue
        p = subprocess.run([build.CLANG, "-std=c++14", "-fsyntax-only", "-include", "stdexcept", "-I" + os.path.join(build.REPO, "include"),
                            "-I" + build.REPO, "-DNDEBUG", "-Wuninitialized", "-Wsometimes-uninitialized",
                            "-fno-caret-diagnostics", cpp], capture_output=True, text=True)
        if p.returncode:
            raise build.BuildError(f"compiling {name} failed")
        n += 1
        res.oblige("variables initialised before they are used", f"all functions of driver {name}")
        for l in p.stderr.splitlines():
            m = re.match(r"(.*?):(\d+):\d+: warning: (.*) \[-W(sometimes-)?uninitialized[\w-]*\]$", l)
            if m and os.path.realpath(m.group(1)).startswith(os.path.realpath(build.REPO)):
                f = os.path.relpath(os.path.realpath(m.group(1)), os.path.realpath(build.REPO))
                res.fail("definite initialisation", f, f"{f}:{m.group(2)}", f"a variable may be used uninitialised: {m.group(3)}",
                         key="uninit " + m.group(3))


# ---------------------------------------------------------------- members
CLASSES = {
    "m_store": "nudb::basic_store<vp::hasher, vp::file>", "m_store_own": "nudb::basic_store<vp::hasher, vp::file>",
    "m_store_base": "nudb::detail::store_base", "m_context": "nudb::context", "m_gentex": "nudb::detail::gentex_t", "m_arena": "nudb::detail::arena_t",
    "m_buffer": "nudb::detail::buffer", "m_buffer_n": "nudb::detail::buffer", "m_pool": "nudb::detail::pool_t", "m_cache": "nudb::detail::cache_t",
    "m_reader": "nudb::detail::bulk_reader", "m_writer": "nudb::detail::bulk_writer", "m_bucket_empty": "nudb::detail::bucket_t",
    "m_istream": "nudb::detail::istream_t", "m_ostream": "nudb::detail::ostream_t", "m_verify_info": "nudb::verify_info", "m_xxhasher": "nudb::xxhasher",
    "m_posix": "nudb::posix_file",
}


class Made(Init):
    """bytes of the object at the first argument that have been written on every way to the return"""

    def __init__(self, fn, vn):
        self.me = atom("arg", 0).atom()
        self.end = None
        self.fn, self.vn, self.res = fn, vn, Result()
        self.bad, self.uses, self.heap, self.alias = [], {}, {}, {}
        self.objs = {self.me: None}
        self.run()

    def all(self, s, t):
        """an unknown constructor or function that is given the object fills the member it is given, no more"""

    def step(self, x, s, check):
        super().step(x, s, check)
        if check and x.op == "ret":
            self.end = s[self.me] if self.end is None else meet(self.end, s[self.me])


def scalars(mod, t, base=0, path="", depth=0):
    """(offset, size, path) of the plain values among the members that classes of the library declare"""
    out = []
    name = t["name"].replace("typeinfo name for ", "")
    if re.match(r"(std::(__cxx11::)?(unordered_|multi)?(map|set|list|deque|vector|basic_string)<)|boost::|vp::", name):
        return out
    mine = name.startswith("nudb::")
    for m in t.get("m") or []:
        if "off" not in m or depth > 9:
            continue
        p = path if m.get("base") else (path + "." + m["n"] if path else m["n"])
        sub = mod.types.get(m["t"]) if not m["t"].startswith("*") else None
        if sub is not None:
            out += scalars(mod, sub, base + m["off"], p, depth + 1)
        elif mine and m["size"] and m["n"] and not m["n"].startswith("_vptr"):
            out.append((base + m["off"], m["size"], p))
    return out


class Opened(Made):
    """as above for a member function, on the ways on which a flag of the object is set"""

    def __init__(self, fn, vn, flag):
        self.flag = flag
        self.me, self.then = atom("arg", 0).atom(), atom("opened", 0).atom()
        self.end, self.site = None, None
        self.fn, self.vn, self.res = fn, vn, Result()
        self.bad, self.uses, self.heap, self.alias = [], {}, {}, {}
        self.objs = {self.me: None, self.then: None}
        self.run()

    def first(self):
        return {self.me: (), self.then: ALL}

    def step(self, x, s, check):
        super(Made, self).step(x, s, check)
        if x.op == "store":
            o, off = self.obj(self.vn.op(x.j["a"][1]))
            v = self.vn.op(x.j["a"][0])
            if o is not self.me or off is None:
                pass
            elif off == self.flag:
                on = not v.is_const or v.const & 1
                s[self.then] = s[self.me] if on else ALL
                if on:
                    self.site = x
            elif s[self.then] != ALL:
                s[self.then] = merge(s[self.then], off, off + x.j["size"])
        elif check and x.op == "ret" and s[self.then] != ALL:
            self.end = s[self.then] if self.end is None else meet(self.end, s[self.then])


@rule("C38", "members")
def members(res, L):
    lib = L["obj"]
    mod = lib.mod
    late = None
    for name, cls in CLASSES.items():
        fns = [f for f in mod.fns if re.match(rf"vp::{name}\(", f.dem)]
        t = None
        for n, q in mod.types.items():
            d = n.replace("typeinfo name for ", "")
            if (d == cls or d.startswith(cls + "<")) and (t is None or len(n) < len(t["name"])) and q.get("m"):
                t = q
        if t is None or not fns:
            res.notes.append(f"{cls} not found")
            continue
        fn = fns[0]
        m = Made(fn, ir.VN(fn, effects=model.effects))
        res.funcs.add(cls + "::" + cls.split("<")[0].split("::")[-1])
        for off, size, path in scalars(mod, t):
            if covers(m.end or (), off, off + size):
                res.oblige("member written by the constructor", f"{name[2:]}: {path}")
            elif name.startswith("m_store") and name != "m_store_base":
                late = (late or set()) | {(off, size, path)}
            elif name == "m_verify_info" and path == "algorithm":
                res.notes.append("verify_info::algorithm is set by verify, not by the constructor")
            else:
                res.fail("members", cls, f"{cls}: {path}", f"no value is given to the member {path.split('.')[-1]} of {cls} when it is constructed",
                         key="member " + path)
    if not late:
        return
    main = L["mid"]
    fn = main.root("open").fn
    flag = [o for o, sz, p in scalars(main.mod, main.mod.type("basic_store<vp::hasher, vp::file>", "nudb")) if p == "open_"]
    if not flag:
        raise AnchorError("basic_store has no flag that says that it is open")
    if any(p == "open_" for o, sz, p in late):
        res.fail("members", "nudb::basic_store", "nudb::basic_store: open_", "a constructed store may already count as open", key="member open_")
    o = Opened(fn, ir.VN(fn, effects=model.effects), flag[0])
    res.funcs.add("nudb::basic_store::open")
    if o.site is None or o.end is None:
        raise AnchorError("open does not mark the store as open")
    for off, size, path in sorted(late):
        if path == "open_":
            continue
        res.oblige("member written by open", path)
        if not covers(o.end, off, off + size):
            res.at("members", fn, o.site, f"the store counts as open while its member {path} has no value", key="member " + path)
