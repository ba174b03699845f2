"""Loaded modules, analysis roots, and the roles of the library's objects."""
import functools
import time
from . import ir, model, build
from . import terms as tm
from .terms import T, atom, const
from .ir import AnchorError, split_ptr
from .flow import Flow, Automaton, Budget

STORE = r"basic_store<vp::hasher, vp::file>::"

# how each driver configuration is compiled: (std, defines)
CONFIGS = {
    "c++14": ("c++14", ("NDEBUG",)),
    "c++11": ("c++11", ("NDEBUG",)),
    "c++17": ("c++17", ("NDEBUG",)),
    "asserts": ("c++14", ()),
}

ROOTS = {
    "flush": STORE + r"flush\(\)",
    "close": STORE + r"close\(",
    "insert": STORE + r"insert\(",
    "set_burst": STORE + r"set_burst\(",
    "fetch": STORE + r"fetch<vp::fetch_cb const&>\(void const\*",
    "open": r"void nudb::" + STORE + r"open<",
    "dtor": STORE + r"~basic_store\(\)",
    "recover": r"^void nudb::recover<",
    "rekey": r"^void nudb::rekey<",
    "create": r"^void nudb::create<.*error_code&, vp::arg",
    "create2": r"^void nudb::create<vp::hasher, vp::file>\(.*const&, (unsigned (long|int), ){4}float",
    "visit": r"^void nudb::visit<",
    "verify": r"^void nudb::verify<",
}

# what the extractor does beyond inlining
IRX = {"hash": ("--unroll",), "num": ("--unroll",), "rnd": ("--unroll",)}

# (argument index of the data, key and log file paths)
PATHS = {
    "open": {1: "df", 2: "kf", 3: "lf"},
    "recover": {0: "df", 1: "kf", 2: "lf"},
    "rekey": {0: "df", 1: "kf", 2: "lf"},
    "create": {0: "df", 1: "kf", 2: "lf"},
    "create2": {0: "df", 1: "kf", 2: "lf"},
    "visit": {0: "df"},
    "verify": {1: "df", 2: "kf"},
}


class Root:
    """one inlined function with its value numbering and object roles"""

    def __init__(self, lib, name, fn, effects=model.effects):
        self.lib, self.name, self.fn = lib, name, fn
        self.vn = ir.VN(fn, effects=effects, immutable=lib.immutable if name in MEMBERS else None)
        self.paths = {}
        self._roles()

    def _roles(self):
        if self.name in PATHS:
            self.role, self.roleterm = model.file_objects(self.fn, self.vn, PATHS[self.name])
            for k, r in PATHS[self.name].items():
                self.paths[atom("arg", k).id] = r
        elif self.name in MEMBERS:
            L = self.lib.layout
            self.role = {}
            for off, r in L.files.items():
                self.role[tm.add(atom("arg", 0), const(off)).id] = {r}
            for off, r in L.paths.items():
                self.paths[tm.add(atom("arg", 0), const(off)).id] = r
            self._moves()
        else:
            self.role = {}

    def _moves(self):
        """follow move construction of files (and of the path strings beside them)"""
        fn, vn = self.fn, self.vn
        mv = []
        for b in fn.rpo:
            for x in fn.blocks[b]:
                if x.op in ("call", "invoke"):
                    q = x.j.get("qn") or ""
                    a = vn.callargs[x.id]
                    if model.is_file(q) and q.split("::")[-1] in ("file", "posix_file", "operator=") and len(a) == 2:
                        mv.append((a[0].id, a[1].id, self.role))
                    elif q.startswith("std::__cxx11::basic_string") and len(a) == 2:
                        mv.append((a[0].id, a[1].id, self.paths))
        for _ in range(4):
            for d, s, m in mv:
                if s in m and d not in m:
                    m[d] = m[s]

    def calls(self, pred=None):
        for b in self.fn.rpo:
            if b in self.fn.dead:
                continue
            for x in self.fn.blocks[b]:
                if x.op in ("call", "invoke"):
                    q = x.j.get("qn") or ""
                    if q.startswith("llvm.lifetime"):
                        continue
                    if pred is None or pred(q):
                        yield x, q, self.vn.callargs[x.id]

    def file_role(self, t):
        r = self.role.get(t.id)
        if not r:
            return "?"
        return next(iter(r)) if len(r) == 1 else "?"

    def fop(self, x, a=None):
        """(op, role, args) of a File operation, else None"""
        q = x.j.get("qn") or ""
        if not model.is_file(q):
            return None
        m = q.split("::")[-1]
        a = self.vn.callargs[x.id] if a is None else a
        if m == "erase":
            return m, self.paths.get(a[0].id, "?"), a
        if m in model.FILE_OPS:
            return m, self.file_role(a[0]), a
        return None

    def run(self, aut, ec_entry="ok", limit=400000, ec_init=None, cells=None):
        aut.root = self
        try:
            fl = Flow(self.fn, self.vn, aut, ec_entry, limit, ec_init=ec_init, cells=cells)
            fl.run()
        except Budget:
            aut.viol.clear()
            aut.ob.clear()
            fl = Flow(self.fn, self.vn, aut, ec_entry, limit, correlate=False, ec_init=ec_init, cells=cells)
            fl.run()
        return fl


MEMBERS = ("flush", "close", "insert", "fetch", "set_burst", "open", "dtor")


class Layout:
    """where basic_store keeps its parts, from debug information and from open()"""

    def __init__(self, lib):
        m = lib.mod
        t = m.type("basic_store<vp::hasher, vp::file>", "nudb")
        fl = m.fields(t)
        self.fields = fl
        self.off = {}
        for off, size, path, ty in fl:
            self.off.setdefault(path, (off, size))
        self.state = None
        # optional<state> s_: the state's members are one level of storage deeper; find them by type
        st = m.type("state", "nudb::basic_store<vp::hasher, vp::file>")
        self.st = {n: (o, s) for o, s, n, ty in m.fields(st)}
        self.size = t.get("size")


class Lib:
    def __init__(self, level="main", config="c++14"):
        std, defs = CONFIGS[config]
        self.level, self.config = level, config
        self.path = build.module(level, std, defs, irx=IRX.get(level, ()))
        self.mod = ir.Module(self.path)
        self.cache = {}
        self._layout = None
        self._imm = None

    def fn(self, regex):
        v = self.mod.find(regex)
        if len(v) > 1 and "~" in regex:
            v = v[:1]       # the complete and base object destructors are the same code
        if len(v) != 1:
            raise AnchorError(f"expected exactly one function matching /{regex}/, found {len(v)}")
        return v[0]

    @property
    def layout(self):
        if self._layout is None:
            self._layout = Layout(self)
            self._locate()
        return self._layout

    def _locate(self):
        """offsets of the state's file objects and paths inside basic_store, from what open() installs"""
        L = self._layout
        fn = self.fn(ROOTS["open"])
        vn = ir.VN(fn, effects=model.effects)
        role, terms = model.file_objects(fn, vn, PATHS["open"])
        L.files = {}
        for tid, rs in role.items():
            t = terms.get(tid)
            if t is None:
                continue
            b, o = split_ptr(t)
            if b is not None and b.k == "arg" and b.p[0] == 0 and o.is_const:
                if len(rs) != 1:
                    raise AnchorError("open() installs a file object opened with more than one path")
                L.files[o.const] = next(iter(rs))
        if sorted(L.files.values()) != ["df", "kf", "lf"]:
            raise AnchorError(f"open() does not install one data, key and log file ({L.files})")
        # the state object's base inside basic_store
        dfo = [o for o, r in L.files.items() if r == "df"][0]
        names = {r: n for n, r in (("df", "df"), ("kf", "kf"), ("lf", "lf"))}
        for cand in ("df",):
            if cand in L.st:
                L.base = dfo - L.st[cand][0]
        if not hasattr(L, "base"):
            raise AnchorError("basic_store::state has no member df")
        L.paths = {}
        for n, r in (("dp", "df"), ("kp", "kf"), ("lp", "lf")):
            if n in L.st:
                L.paths[L.base + L.st[n][0]] = r

    def o(self, path):
        """offset in basic_store of a member of it or of its state"""
        L = self.layout
        if path in L.st:
            return L.base + L.st[path][0]
        if path in L.off:
            return L.off[path][0]
        raise AnchorError(f"basic_store has no member {path}")

    def this(self, path):
        return tm.add(atom("arg", 0), const(self.o(path)))

    def immutable(self, base, off, size):
        """fields of the store that nothing but open() writes"""
        if base.k != "arg" or base.p[0] != 0 or not off.is_const:
            return False
        if self._imm is None:
            return False
        lo, hi = self._imm
        return lo <= off.const < hi

    def root(self, name):
        if name not in self.cache:
            if name in MEMBERS and self._imm is None:
                self._imm = (0, 0)
                o = self.o("kh")
                n = self.layout.st["kh"][1]
                if self._nostores(o, o + n):
                    self._imm = (o, o + n)
            self.cache[name] = Root(self, name, self.fn(ROOTS[name]))
        return self.cache[name]

    def _nostores(self, lo, hi):
        for r in ("flush", "close", "insert", "fetch", "set_burst"):
            fn = self.fn(ROOTS[r])
            vn = ir.VN(fn, effects=model.effects)
            for b in fn.rpo:
                for x in fn.blocks[b]:
                    if x.op == "store":
                        bb, o = split_ptr(vn.memat[x.id])
                        if bb is not None and bb.k == "arg" and bb.p[0] == 0 and o.is_const and lo <= o.const < hi:
                            return False
        return True


@functools.lru_cache(maxsize=None)
def lib(level="main", config="c++14"):
    return Lib(level, config)
