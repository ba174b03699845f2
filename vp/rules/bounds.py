"""C21: every access to memory of a known size lies within it, whatever the files contain.

Memory regions of known size: locals, new[], buffers (what they were reserved for), what a bulk reader or writer hands out, arena
memory, array members of the caller's objects.  For every access with its address in such a region, offset + length <= size must follow
from the conditions that dominate the access (linear forms over header fields, loop variables and bytes read)."""
from .. import terms as tm
from ..terms import T, atom, const, ZERO
from ..ir import split_ptr, AnchorError
from .common import *
from .cells import Cells, lin, sgn, atoms, rebuild, replace, pos
from .headers import Names, TYPENAME
from .loops import Loop
from .recovery import Evidence
from .codec import Bucket, ends, rec, shape, at, entry_at, HEAD, STRIDE, A

NODE = 32          # std::_Rb_tree_node_base, before the element
KEY = 24           # pool_t::value_type
MINBLOCK = 104     # verify(key_file_header) and create reject smaller blocks (C17, C19)

ROOTS = ("open", "insert", "fetch", "flush", "close", "recover", "rekey", "create", "visit", "verify")


class Bounds(Cells):
    def __init__(self, root):
        super().__init__()
        self.root, self.fn, self.vn, self.L = root, root.fn, root.vn, root.lib
        self.names = Names(root)
        self.memo, self.fmemo = {}, {}
        self.loops = {}
        self.busy, self.cmemo = set(), {}
        self.wmemo, self.nmemo, self.smemo = {}, {}, {}

    # -- one name for each value
    def canon(self, t, depth=12):
        r = self.memo.get(t.id)
        if r is None:
            r = ZERO
            for m, c in t.m.items():
                p = const(c)
                for a in m:
                    p = tm.mul(p, self.canon_atom(a, depth))
                r = tm.add(r, p)
            self.memo[t.id] = r
        return r

    def canon_atom(self, a, depth):
        t = tm.mk({(a,): 1})
        if not depth:
            return t
        if a.k == "ld":
            n = self.names.name(t)
            if n is not None:
                return atom("hdr", *n)
            z = self.buffer_size(a)
            if z is None:
                z = self.local(a)
            if z is None and self.node(a):
                z = atom("node", a.p[0])
            return z if z is not None else t
        if a.k == "sel" and not a.p[0].is_const:
            x = self.overflow(a)
            if x is not None:
                return self.canon(x, depth - 1)
        if a.k in ("phi", "call", "alloca", "arg", "g", "init"):
            return t
        ps = [self.canon(p, depth - 1) if isinstance(p, T) else p for p in a.p]
        return t if all(x is y for x, y in zip(ps, a.p)) else rebuild(a, ps)

    def overflow(self, a):
        """new T[n] asks for n * sizeof(T), or throws"""
        c = tm.term_lit(a.p[0])
        e = c[0].atom() if isinstance(c[0], T) else None
        if e is not None and e.k == "ev" and e.p[1] == (1,):
            i = e.p[0].atom()
            if i is not None and i.k == "intr" and "mul.with.overflow" in str(i.p[0]):
                return tm.mul(i.p[1], i.p[2])
        return None

    def local(self, a):
        """a field of a local that only bucket_t::at fills: the call that did"""
        b, off = split_ptr(a.p[0])
        x = self.fn.ins.get(a.p[-1]) if isinstance(a.p[-1], int) else None
        if b is None or b.k != "alloca" or not off.is_const or x is None or x.op != "load":
            return None
        w = self.writers(b)
        if w is None:
            return None
        c = self.last(x, lambda y: y.id in w)
        return atom("filled", b, off.const, next(iter(c)).id) if c is not None and len(c) == 1 else None

    def writers(self, b):
        if b not in self.wmemo:
            out = set()
            for y in self.fn.ins.values():
                if y.op in ("call", "invoke"):
                    q = y.j.get("qn") or y.j.get("callee") or ""
                    if any(split_ptr(p)[0] is b for p in self.vn.callargs.get(y.id, ())) and not q.startswith("llvm.lifetime"):
                        if short(q) not in ("at", "operator[]") or "bucket_t" not in q:
                            out = None
                            break
                        out.add(y.id)
                elif y.op == "store":
                    p, v = self.vn.memat.get(y.id), self.vn.op(y.j["a"][0])
                    p = self.vn.op(y.j["a"][1]) if p is None else p
                    if split_ptr(v)[0] is b:
                        out = None
                        break
                    if split_ptr(p)[0] is b:
                        out.add(y.id)
            self.wmemo[b] = out
        return self.wmemo[b]

    def node(self, a):
        """in an element of a std::map, reached by an iterator: its key is const"""
        b, off = split_ptr(a.p[0])
        if b is None or not off.is_const:
            return False
        if b not in self.nmemo:
            self.nmemo[b] = self.isiter(b)
        return self.nmemo[b] and NODE <= off.const < NODE + KEY

    def isiter(self, a):
        x = self.fn.ins.get(a.p[-1]) if isinstance(a.p[-1], int) else None
        if a.k != "phi" or x is None:
            return False
        for _, v in x.j["in"]:
            y = self.fn.ins.get(v.get("v"))
            if y is not None and y.op == "call" and "_Rb_tree_increment" in (y.j.get("qn") or "") and self.vn.callargs[y.id][0].atom() is a:
                return True
        return False

    # -- regions
    def last(self, x, pred):
        """the instructions that pred picks which can come last before x; None if there may be none"""
        fn = self.fn
        out, seen = [], set()
        work = [(x.bb, x)]
        while work:
            b, stop = work.pop()
            hit = None
            for y in fn.blocks[b]:
                if y is stop:
                    break
                if pred(y):
                    hit = y
            if hit is not None:
                out.append(hit)
                continue
            if b == fn.rpo[0]:
                return None
            for p in fn.pred[b]:
                if p in fn.rpon and p not in fn.dead and p not in seen:
                    seen.add(p)
                    work.append((p, None))
        return out

    def before(self, x, obj):
        """the calls that last gave the buffer at obj its memory, on each path to x; None if on some path there was none"""
        def gives(y):
            if y.op not in ("call", "invoke") or not (y.j.get("qn") or "").startswith("nudb::detail::buffer::"):
                return False
            return self.vn.callargs[y.id][0] is obj
        return self.last(x, gives)

    def buffer(self, a):
        """a load from a buffer object: (offset in it, the sizes it may have been given last)"""
        x = self.fn.ins.get(a.p[-1]) if isinstance(a.p[-1], int) else None
        if x is None or x.op != "load":
            return None
        for off in (0, 8):
            obj = tm.sub(a.p[0], const(off))
            c = self.before(x, obj) if self.isbuffer(obj) else None
            if c:
                return off, [self.vn.callargs[y.id] if self.fresh(y, x) else () for y in c]
        return None

    def fresh(self, c, x):
        """the values the call c was given are still what their names mean at x: nothing on the way from c to x computes them anew"""
        key = c.id, x.id
        if key not in self.smemo:
            fn = self.fn
            ids = {a.p[-1] for t in self.vn.callargs[c.id][1:] for a in self.every(self.canon(t)) if a.p and isinstance(a.p[-1], int)}
            ids = {i for i in ids if i in fn.ins}
            fwd, bwd = self.reach(c, True), self.reach(x, False, c)
            self.smemo[key] = not any(fn.ins[i].bb in fwd and fn.ins[i].bb in bwd and self.between(c, x, fn.ins[i]) for i in ids)
        return self.smemo[key]

    def every(self, t):
        out = set()
        work = [t]
        while work:
            for a in atoms(work.pop()):
                if a not in out:
                    out.add(a)
                    if a.k not in ("phi", "call", "ld", "filled", "node", "alloca", "arg"):
                        work += [p for p in a.p if isinstance(p, T)]
        return out

    def reach(self, x, down, stop=None):
        """the blocks that can be entered after x, or from which x's block can be entered, without passing stop in between"""
        fn = self.fn
        nxt = (lambda b: fn.succ[b]) if down else (lambda b: fn.pred[b])
        stop = x if down else stop
        seen, work = {x.bb}, [x.bb]
        while work:
            b = work.pop()
            for s in nxt(b):
                if s in seen or s in fn.dead or s not in fn.rpon:
                    continue
                seen.add(s)
                if s != stop.bb:
                    work.append(s)
        return seen

    def between(self, c, x, i):
        at = {y.id: k for b in {i.bb, c.bb, x.bb} for k, y in enumerate(self.fn.blocks[b])}
        if c.bb == x.bb and at[c.id] < at[x.id]:
            return i.bb == c.bb and at[c.id] < at[i.id] < at[x.id]
        if i.bb == c.bb:
            return at[i.id] > at[c.id]
        if i.bb == x.bb:
            return at[i.id] < at[x.id]
        return True

    def isbuffer(self, obj):
        if not hasattr(self, "_bufs"):
            self._bufs = {a[0] for y, q, a in self.root.calls(lambda q: q.startswith("nudb::detail::buffer::"))}
        return obj in self._bufs

    def buffer_size(self, a):
        b = self.buffer(a)
        if b is None or any(len(c) < 2 for c in b[1]):
            return None
        n = {self.canon(c[1]) for c in b[1]}
        lay = self.L.layout_buffer if hasattr(self.L, "layout_buffer") else None
        if b[0] == bufmember(self.L, "size_") and len(n) == 1:
            return next(iter(n))
        return None

    def region(self, base, off):
        """(what, [possible sizes], offset in it), or None where the size is not known"""
        fn = self.fn
        if base.k == "alloca":
            x = fn.ins.get(base.p[-1])
            return ("a local", [const(x.j["size"])], off) if x is not None and "size" in x.j else None
        if base.k in ("call", "ev"):
            i = base.p[-1]
            if base.k == "ev":
                c = base.p[0].atom() if isinstance(base.p[0], T) else None
                if c is None or base.p[1] != (0,):
                    return None
                i = c.p[-1]
            x = fn.ins.get(i) if isinstance(i, int) else None
            if x is None:
                return None
            q = x.j.get("qn") or x.j.get("callee") or ""
            a = self.vn.callargs.get(x.id)
            if q in ("operator new[]", "operator new"):
                return "allocated memory", [a[0]], off
            if short(q) == "prepare" and base.k == "ev":
                return "bytes of a file" if "reader" in q else "bytes of a writer's buffer", [a[1]], off
            if short(q) == "alloc" and "arena" in q:
                return "arena memory", [a[1]], off
            return None
        if base.k == "ld":
            b = self.buffer(base)
            if b is not None and b[0] == bufmember(self.L, "buf_"):
                return "a buffer", [c[1] if len(c) > 1 else ZERO for c in b[1]], off
            return None
        if base.k == "arg":
            return self.member(base, off)
        return None

    def member(self, base, off):
        """an array in the caller's object: element accesses with a variable index"""
        if off.is_const:
            return None
        k = off.m.get((), 0)
        t = self.argtype(base)
        if t is None:
            return None
        best = None
        for o, s, p, ty in self.L.mod.fields(t):
            if o <= k < o + s and (best is None or s < best[1]) and s > 8:
                best = o, s
        return ("an array member", [const(best[1])], tm.sub(off, const(best[0]))) if best else None

    def argtype(self, base):
        if self.root.name == "verify" and base.p[0] == 0:
            return self.L.mod.type("verify_info", "nudb")
        return None

    # -- accesses
    def accesses(self):
        fn, vn = self.fn, self.vn
        for b in fn.rpo:
            if b in fn.dead:
                continue
            for x in fn.blocks[b]:
                if x.op in ("load", "store"):
                    p = vn.memat.get(x.id)
                    if p is None:
                        p = vn.op(x.j["a"][0 if x.op == "load" else 1])
                    n = self.sizeof(x) if x.op == "load" else x.j.get("size", 8)
                    yield x, p, const(n), "read" if x.op == "load" else "written"
                elif x.op in ("call", "invoke"):
                    q = x.j.get("qn") or x.j.get("callee") or ""
                    a = vn.callargs.get(x.id)
                    if a is None:
                        continue
                    if q.startswith(("llvm.memcpy", "llvm.memmove")) or q in ("memcpy", "memmove"):
                        yield x, a[0], a[2], "copied to"
                        yield x, a[1], a[2], "copied from"
                    elif q.startswith("llvm.memset"):
                        yield x, a[0], a[2], "filled"
                    elif q.endswith("file::read"):
                        yield x, a[2], a[3], "read into from a file"
                    elif q.endswith("file::write"):
                        yield x, a[2], a[3], "written to a file"
                    elif q.startswith("nudb::detail::bucket_t") and short(q) == "bucket_t" and len(a) >= 3:
                        yield x, a[2], a[1], "used for a bucket"
                    elif q == "vp::hasher::operator()":
                        yield x, a[1], a[2], "hashed"
                    elif q == "vp::fetch_cb::operator()":
                        yield x, a[1], a[2], "given to a callback"
                    elif q == "vp::visit_cb::operator()":
                        yield x, a[1], a[2], "given to a callback"
                        yield x, a[3], a[4], "given to a callback"

    # -- what is known at a place
    def known(self, bb):
        """the conditions that dominate a block, as facts"""
        if bb in self.fmemo:
            return self.fmemo[bb]
        fn, vn = self.fn, self.vn
        st, d = set(), bb
        while fn.idom.get(d) is not None and fn.idom[d] != d:
            i = fn.idom[d]
            t = fn.blocks[i][-1]
            if t.op == "br" and "cond" in t.j:
                for k, s in enumerate(t.j["succ"]):
                    if s == d and [p for p in fn.pred[d] if p not in fn.dead] == [i]:
                        l = vn.lit(t.j["cond"])
                        if l not in (True, False):
                            self.learn(st, l[0].atom(), l[1] == (k == 0))
            d = i
        for h, body in fn.loops.items():
            if bb in body:
                for x in fn.blocks[h]:
                    if x.op == "phi" and x.id in vn.t:
                        a = vn.t[x.id].atom()
                        r = self.loop(h).aff.get(a) if a is not None else None
                        if r is not None and r[1].is_const:
                            d = self.canon(tm.sub(vn.t[x.id], r[0]))
                            st.add(("ge", d if 0 < r[1].const < 1 << 63 else tm.scale(d, -1)))
        self.fmemo[bb] = frozenset(st)
        return self.fmemo[bb]

    def learn(self, st, a, val):
        if a.k in ("band", "not"):
            if a.k == "not" or val:
                for p in a.p:
                    l = tm.term_lit(p) if isinstance(p, T) else p
                    if isinstance(l[0], T):
                        self.learn(st, l[0].atom(), (l[1] == val) if a.k == "band" else (l[1] != val))
            return
        if a.k not in ("eq", "ult", "slt"):
            return
        ps = [self.canon(p) for p in a.p if isinstance(p, T)]
        l = tm.eq(ps[0], ZERO) if a.k == "eq" else tm.ult(*ps) if a.k == "ult" else tm.slt(*ps)
        if l in (True, False):
            return
        b, v = l[0].atom(), val == l[1]
        st.add(("p", b, v))
        if b.k == "ult" and v and not pos(b.p[0]):
            st.add(("ge", b.p[0]))          # a difference that went below zero would be larger than anything
        self.came(st, b, v)
        if b.k == "eq" and not v:
            # counting up or down in steps of one to something other than it: not beyond it
            for z in atoms(b.p[0]):
                x = self.fn.ins.get(z.p[-1]) if z.k == "phi" and isinstance(z.p[-1], int) else None
                if x is not None and x.bb in self.fn.loops:
                    r = self.loop(x.bb).aff.get(z)
                    if r is not None and r[1].is_const and abs(sgn(r[1].const)) == 1:
                        c = sgn(b.p[0].m[(z,)]) if (z,) in b.p[0].m else 0
                        if abs(c) == 1:
                            d = b.p[0] if c == -1 else tm.scale(b.p[0], -1)     # bound - z
                            st.add(("ge", d if sgn(r[1].const) == 1 else tm.scale(d, -1)))

    def came(self, st, b, v):
        """what holds on all the ways a merged value can have come to satisfy this"""
        fn = self.fn
        for z in {z for p in b.p if isinstance(p, T) for z in atoms(p)}:
            x = fn.ins.get(z.p[-1]) if z.k == "phi" and isinstance(z.p[-1], int) else None
            if x is None or x.bb in fn.loops or z in self.busy:
                continue
            self.busy.add(z)
            out = None
            for q, o in x.j["in"]:
                if q in fn.dead:
                    continue
                t = self.vn.op(o)
                if t.is_const:
                    w = rebuild(b, [replace(p, z, t) if isinstance(p, T) else p for p in b.p])
                    if isinstance(w, T) and w.is_const and bool(w.const & 1) != v:
                        continue
                k = set(self.known(q)) | self.taken(q, x.bb)
                out = k if out is None else out & k
            self.busy.discard(z)
            st |= out or set()

    def taken(self, i, d):
        st = set()
        t = self.fn.blocks[i][-1]
        if t.op == "br" and "cond" in t.j and t.j["succ"].count(d) == 1:
            l = self.vn.lit(t.j["cond"])
            if l not in (True, False):
                self.learn(st, l[0].atom(), l[1] == (t.j["succ"].index(d) == 0))
        return st

    def loop(self, h):
        if h not in self.loops:
            self.loops[h] = Loop(self.root, h)
        return self.loops[h]

    def holds(self, x, g):
        """g >= 0 at x, where g is possibly a * q + r: it is enough that q >= 0 and r >= 0"""
        if pos(g) or self.nonneg(g, self.known(x.bb)):
            return True
        for a in dict.fromkeys(a for m, c in g.m.items() if sgn(c) < 0 for a in m):
            q, r = {}, {}
            for m, c in g.m.items():
                if a in m:
                    m = list(m)
                    m.remove(a)
                    q[tuple(m)] = c
                else:
                    r[m] = c
            if len(q) > 1 and self.holds(x, tm.mk(q)) and self.holds(x, tm.mk(r)):
                return True
        return False


def bufmember(lib, name):
    key = ("bufmember",)
    if key not in lib.cache:
        t = lib.mod.type("buffer", "nudb::detail")
        lib.cache[key] = {p.split(".")[0]: o for o, s, p, ty in reversed(lib.mod.fields(t))}
    return lib.cache[key].get(name)


@rule("C21")
def accesses(res, L):
    lib = L["bnd"]
    for n in ROOTS:
        root = lib.root(n)
        b = Bounds(root)
        seen = {}
        for x, p, ln, what in b.accesses():
            bs, off = split_ptr(p)
            if bs is None:
                continue
            r = b.region(bs, off)
            if r is None:
                continue
            name, sizes, off = r
            ok = b.holds(x, b.canon(off))
            for z in sizes:
                g = b.canon(tm.sub(tm.sub(z, off), ln))
                if not b.holds(x, g):
                    ok = False
            res.oblige(f"{name} {what} within its size", root.fn.where(x) or n)
            if not ok:
                res.at("accesses", root.fn, x, f"{name} may be {what} beyond its size")
        res.funcs.add(root.fn.dem.split("(")[0][:160])


# -- the memory of a bucket

def touched(s, tr, P):
    """(what, offset, length) of each access to the memory at P, in order"""
    B = s.split(P)[0]
    for e in tr:
        if e[0] in ("load", "store"):
            xs = [(e[0], e[1], const(e[2]))]
        elif e[0] == "copy":
            xs = [("copy to", e[1], e[3]), ("copy from", e[2], e[3])]
        elif e[0] == "fill":
            xs = [("fill", e[1], e[2])]
        elif e[0] == "call" and e[1] in ("vp::file::read", "vp::file::write"):
            xs = [(e[1], e[2][2], e[2][3])]
        else:
            xs = []
        for n, p, ln in xs:
            if s.split(p)[0] is B:
                yield n, tm.sub(p, P), ln


def inside(s, ev, st, tr, P, size, what):
    for n, o, ln in touched(s, tr, P):
        ok = s.nonneg(o, st) and s.le(tm.add(o, ln), size, st)
        s.expect(ev, ok, "within its block", f"{what} accesses memory beyond the bucket's block")


def assume(s, st, t, val):
    """the state where the boolean t has this value; None if it cannot have it"""
    if t is None:
        return st
    if t.is_const:
        return st if bool(t.const & 1) == val else None
    a = t.atom()
    if a is None:
        return st
    if a.k == "not":
        return assume(s, st, a.p[0], not val)
    if a.k == "band" and val:
        for p in a.p:
            st = assume(s, st, p, True) if st is not None else None
        return st
    a, v = s.cond(a, val, st)
    if a in (True, False):
        return st if a == v else None
    return st | {("p", a, v)}


@rule("C21")
def block_bounds(res, L):
    """what each operation of a bucket touches lies within its block, given what its callers must see to"""
    m = shape(res, L)
    b = Bucket(m)
    used = lambda n: tm.add(const(HEAD), tm.scale(n, STRIDE))
    fits = tm.sub(b.block, used(b.size))
    more = tm.sub(b.block, used(tm.add(b.size, const(1))))
    exists = tm.sub(tm.sub(b.size, A[1]), const(1))
    full = tm.sub(b.block, const(HEAD))
    for n, given, what in (("bucket_at", [fits, exists], "reading an entry"), ("bucket_index", [fits, exists], "reading an entry"),
                           ("bucket_insert", [more], "inserting an entry"), ("bucket_erase", [fits, exists], "erasing an entry"),
                           ("bucket_setspill", [full], "setting the spill offset"), ("bucket_clear", [full], "clearing"),
                           ("bucket_write", [fits], "writing"), ("bucket_writec", [fits], "writing")):
        for s, ev, st, tr, r, err in ends(res, rec(L, n), f"bounds: {n}", given=given):
            st = st | {("ge", tm.sub(b.size, s.result(e))) for e in s.calls(tr, ("lower_bound",))}
            inside(s, ev, st, tr, b.P, b.block, what)
    for n in ("bucket", "bucket_new"):
        for s, ev, st, tr, r, err in ends(res, rec(L, n), f"bounds: {n}", given=[tm.sub(A[1], const(HEAD))]):
            inside(s, ev, st, tr, A[2], A[1], "making a bucket")
    for n in ("bucket_read", "bucket_readc"):
        for s, ev, st, tr, r, err in ends(res, rec(L, n), f"bounds: {n}", given=[full]):
            inside(s, ev, st, tr, b.P, b.block, "reading a bucket")
            for e in s.calls(tr, ("prepare",), "nudb::detail::bulk_reader<"):
                inside(s, ev, st, tr, atom("ev", s.result(e), (0,)), e[2][1], "reading a bucket")
            if not err:
                size = b.now(s, st, "size")
                s.expect(ev, size is not None and s.le(used(size), b.block, st), "the count fits the block",
                         "reading a bucket succeeds although its count of entries is more than its block holds")
    for s, ev, st, tr, r, err in ends(res, rec(L, "bucket_full"), "bounds: full", given=[fits]):
        st = assume(s, st, r, False)
        if st is None:
            continue
        s.expect(ev, r is not None and s.nonneg(more, st), "not full: room for an entry", "a bucket that is not full has no room for another entry")
    for s, ev, st, tr, r, err in ends(res, rec(L, "maybe_spill"), "bounds: maybe_spill", given=[fits, tm.sub(b.block, const(MINBLOCK))]):
        if not err:
            size = b.now(s, st, "size")
            s.expect(ev, size is not None and s.le(used(tm.add(size, const(1))), b.block, st), "room after maybe_spill",
                     "a bucket may be full after maybe_spill()")


# -- what the callers of a bucket must see to

class Callers(Bounds):
    """buckets are objects; which instructions may change the number of entries of one"""

    def changes(self, B):
        if B not in self.cmemo:
            out = set()
            for y in self.fn.ins.values():
                if y.op in ("call", "invoke"):
                    q = y.j.get("qn") or y.j.get("callee") or ""
                    n = short(q)
                    if n in ("at", "operator[]", "write", "lower_bound", "spill") and "bucket_t" in q or q.startswith("llvm.lifetime.end") or q.startswith("llvm.dbg"):
                        continue
                    a = self.vn.callargs.get(y.id, ())
                    if q.startswith(("llvm.memcpy", "llvm.memmove")):
                        a = a[:1]
                    if any(split_ptr(p)[0] is B for p in a):
                        out.add(y.id)
                elif y.op == "store":
                    p = self.vn.memat.get(y.id)
                    p = self.vn.op(y.j["a"][1]) if p is None else p
                    if split_ptr(p)[0] is B:
                        out.add(y.id)
            self.cmemo[B] = out
        return self.cmemo[B]

    def steady(self, c, x, B):
        """nothing changes the bucket between c and x"""
        fn = self.fn
        if c.id == x.id:
            return True
        fwd, bwd = self.reach(c, True), self.reach(x, False, c)
        return not any(i != x.id and i != c.id and fn.ins[i].bb in fwd and fn.ins[i].bb in bwd and self.between(c, x, fn.ins[i]) for i in self.changes(B))

    def exists(self, x, bp, i, off):
        """entry i of the bucket at bp exists at x"""
        B = split_ptr(bp)[0]
        want = tm.add(bp, const(off))
        for f in self.known(x.bb):
            t = f[1].p if f[0] == "p" else f[1:2]
            for a in {a for p in t if isinstance(p, T) for a in self.every(p)}:
                if a.k == "ld" and a.p[0] is want and isinstance(a.p[-1], int) and a.p[-1] in self.fn.ins:
                    if self.nonneg(self.canon(tm.sub(tm.sub(tm.mk({(a,): 1}), i), const(1))), self.known(x.bb)) \
                            and self.steady(self.fn.ins[a.p[-1]], x, B):
                        return True
        return False

    def room(self, x, bp):
        """there is room in the bucket at bp before x"""
        B = split_ptr(bp)[0]
        ch = self.changes(B)
        last = self.last(x, lambda y: y.id in ch)
        if not last:
            return False
        if all(short(y.j.get("qn") or "") == "maybe_spill" for y in last):
            return True
        return any(x.bb in body and self.moved(x, B, h, body) for h, body in self.fn.loops.items())

    def moved(self, x, B, h, body):
        """the bucket was empty before the loop, and for each entry it gets in the loop another bucket loses one"""
        fn = self.fn
        ch = self.changes(B)
        if {i for i in ch if fn.ins[i].bb in body} != {x.id}:
            return False
        pre = [fn.blocks[p][-1] for p in fn.pred[h] if p not in body and p not in fn.dead]
        for t in pre:
            last = self.last(t, lambda y: y.id in ch)
            if not last or not all(short(y.j.get("qn") or "") in ("create", "clear") for y in last):
                return False
        for y in fn.ins.values():
            if y.op in ("call", "invoke") and y.bb in body and short(y.j.get("qn") or "") == "erase" and "bucket_t" in y.j["qn"]:
                C = split_ptr(self.vn.callargs[y.id][0])[0]
                if C is not B and {i for i in self.changes(C) if fn.ins[i].bb in body} == {y.id} and (self.then(x, y) or self.then(y, x)):
                    return True
        return False

    def then(self, x, y):
        """y follows x whatever happens"""
        b = x.bb
        for _ in range(20):
            if b == y.bb:
                at = {z.id: k for k, z in enumerate(self.fn.blocks[b])}
                return b != x.bb or at[x.id] < at[y.id]
            s = [z for z in self.fn.succ[b] if z not in self.fn.dead]
            if len(s) != 1 or [z for z in self.fn.pred[s[0]] if z not in self.fn.dead] != [b]:
                return False
            b = s[0]
        return False


@rule("C21")
def callers(res, L):
    lib = L["bnd"]
    off = lib.offset("bucket_t", "size_") if hasattr(lib, "offset") else None
    if off is None:
        t = [f for f in lib.mod.fields(lib.mod.type("bucket_t<void>", "nudb::detail")) if f[2] == "size_"]
        off = t[0][0]
    for n in ROOTS:
        root = lib.root(n)
        b = Callers(root)
        for blk in root.fn.rpo:
            if blk in root.fn.dead:
                continue
            for x in root.fn.blocks[blk]:
                q = (x.j.get("qn") or "") if x.op in ("call", "invoke") else ""
                if not q.startswith("nudb::detail::bucket_t"):
                    continue
                a = b.vn.callargs.get(x.id)
                k = short(q)
                if k in ("at", "operator[]"):
                    res.oblige("the entry read exists", root.fn.where(x))
                    if not b.exists(x, a[1], a[2], off):
                        res.at("callers", root.fn, x, "an entry of a bucket may be read that the bucket does not have")
                elif k == "erase":
                    res.oblige("the entry erased exists", root.fn.where(x))
                    if not b.exists(x, a[0], a[1], off):
                        res.at("callers", root.fn, x, "an entry of a bucket may be erased that the bucket does not have")
                elif k == "insert":
                    res.oblige("room for the entry", root.fn.where(x))
                    if not b.room(x, a[0]):
                        res.at("callers", root.fn, x, "an entry is inserted into a bucket that may be full")


@rule("C21")
def records(res, L):
    """a compact bucket is written into memory made for it; recover puts buckets back within the key file"""
    lib = L["bnd"]
    f = {p: o for o, s, p, ty in lib.mod.fields(lib.mod.type("bucket_t<void>", "nudb::detail"))}
    for n in ("flush", "close", "recover", "rekey"):
        root = lib.root(n)
        b = Callers(root)
        for blk in root.fn.rpo:
            for x in root.fn.blocks[blk] if blk not in root.fn.dead else ():
                q = (x.j.get("qn") or "") if x.op in ("call", "invoke") else ""
                if not q.startswith("nudb::detail::bucket_t") or short(q) != "write":
                    continue
                a = b.vn.callargs[x.id]
                if len(a) == 2:
                    res.oblige("a compact bucket fits the memory made for it", root.fn.where(x))
                    v = b.vn.load(b.vn.mem_at(x), a[1], 8, 64, x)
                    base, off = split_ptr(v)
                    c = base.p[0].atom() if base is not None and base.k == "ev" and isinstance(base.p[0], T) else None
                    c = root.fn.ins.get(c.p[-1]) if c is not None else None
                    r = b.region(base, off) if c is not None else None
                    ok = False
                    if r is not None:
                        k = b.vn.load(b.vn.mem_at(c), tm.add(a[0], const(f["size_"])), 8, 64, c)
                        need = tm.add(const(HEAD), tm.scale(k, STRIDE))
                        ok = b.steady(c, x, split_ptr(a[0])[0]) and all(b.holds(x, b.canon(tm.sub(tm.sub(z, off), need))) for z in r[1])
                    if not ok:
                        res.at("records", root.fn, x, "a bucket may be written to memory that is too small for it")
                elif n == "recover":
                    res.oblige("buckets are put back within the key file", root.fn.where(x))
                    bs, nb = atom("hdr", "kh", "block_size"), atom("hdr", "kh", "buckets")
                    if not b.holds(x, b.canon(tm.sub(tm.mul(nb, bs), a[2]))):
                        res.at("records", root.fn, x, "recovery may write a bucket beyond the end of the key file")
                    if not b.holds(x, b.canon(tm.sub(a[2], bs))):
                        res.at("records", root.fn, x, "recovery may write a bucket over the header of the key file")


@rule("C21")
def recovered(res, L):
    """a log record with an index or a spill offset out of range is not applied (the rest of what recovery needs is C15)"""
    root = L["mid"].root("recover")
    aut = Evidence()
    fl = root.run(aut, "ok")
    aut.viol = {k: v for k, v in aut.viol.items() if "without checking" in v["rule"]}
    aut.ob = {k: v for k, v in aut.ob.items() if k[0] == "log record applied only if complete and in range"}
    res.absorb("recovered", root, aut, fl)
