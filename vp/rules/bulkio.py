"""C34: the buffered reader and writer deliver and write exactly the bytes they are asked for (component module)."""
from .. import terms as tm
from ..terms import T, atom, const, ZERO
from ..ir import AnchorError
from .common import *
from .cells import Cells, component, sgn

A = [atom("arg", k) for k in range(6)]


class Ctor(Cells):
    """which member holds what after construction"""

    def setup(self):
        super().setup()
        self.out = []

    def opaque(self, ev, st, q, a):
        if q in ("operator new[]", "operator new") or (ev.ins.j.get("callee") or "") == "_Znam":
            return st | {("new", self.vn.t[ev.ins.id], a[0])}
        return None

    def on_ret(self, ev, st):
        self.out.append({sgn(f[2].const): f[4] for f in st if f[0] == "c" and f[1] is A[0].atom() and f[2].is_const})
        self.news = getattr(self, "news", set()) | {f for f in st if f[0] == "new"}


class Value(Cells):
    """the terms a method returns"""

    def setup(self):
        super().setup()
        self.out = []

    def on_ret(self, ev, st):
        self.out.append((self.pathval(self.vn.op(ev.ins.j["a"][0]), st), st, ev))


def members(res, L, kind):
    """offsets of the members of a reader or writer by the role they play"""
    key = ("bulkio", kind)
    lib = L["comp"]
    if key in lib.cache:
        return lib.cache[key]
    c = Ctor()
    run(res, f"{kind} construction", component(L, kind), c)
    m = {}
    last, size = (A[3], A[4]) if kind == "reader" else (None, A[3])
    for cells in c.out:
        for off, v in cells.items():
            if v is A[1]:
                m.setdefault("f", off)
            elif v is A[2]:
                m.setdefault("O", off)
            elif last is not None and v is last:
                m.setdefault("L", off)
            elif v is size:
                m.setdefault("S", off)
            elif any(v is n[1] for n in c.news):
                m.setdefault("P", off)
    v = Value()
    run(res, f"{kind} offset", component(L, kind + "_offset"), v)
    for t, st, ev in v.out:
        for mono, k in t.m.items():
            if len(mono) == 1 and mono[0].k == "init":
                b, o = v.split(mono[0].p[0])
                if b is A[0].atom() and o.is_const and sgn(o.const) != m.get("O"):
                    m.setdefault("A" if sgn(k) < 0 else "U", sgn(o.const))
    zero = [o for cells in c.out for o, x in cells.items() if x is ZERO and o not in m.values()]
    if kind == "reader":
        for o in zero:
            m.setdefault("U", o)
    need = ("f", "O", "L", "S", "P", "A", "U") if kind == "reader" else ("f", "O", "S", "P", "U")
    for n in need:
        if n not in m:
            raise AnchorError(f"the member of bulk_{kind} that plays the role {n} cannot be identified")
    if kind == "reader":
        t = v.out[0][0]
        want = tm.sub(init(m["O"]), init(m["A"]))
    else:
        t = v.out[0][0]
        want = tm.add(init(m["O"]), init(m["U"]))
    res.oblige(f"offset() of bulk_{kind}", "")
    if t is not want:
        res.at("offset", v.fn, v.out[0][2].ins, f"offset() of bulk_{kind} is not the position of the next byte")
    for cells in c.out:
        res.oblige(f"initial state of bulk_{kind}", "")
        if not (cells.get(m["O"]) is A[2] and cells.get(m["A" if kind == "reader" else "U"]) is ZERO and cells.get(m["f"]) is A[1]):
            res.fail("construction", c.fn.dem.split("(")[0], "", f"a new bulk_{kind} is not empty and positioned where it was told")
    lib.cache[key] = m
    return m


def at(off):
    return tm.add(A[0], const(off))


def init(off, n=8):
    return atom("init", at(off), n)


class Writer(Cells):
    """facts: ("w", file, offset, pointer, length, call) writes in order, ("done", call), ("failed", call), ("dead", base), ("new", pointer, size)"""

    def __init__(self, m, needed):
        super().__init__()
        self.m, self.needed = m, needed

    def opaque(self, ev, st, q, a):
        if q == "vp::file::write":
            n = len([f for f in st if f[0] == "w"])
            return st | {("w", n, a[0], a[1], a[2], a[3], ev.ins.id)}
        if q.startswith("vp::file::"):
            self.report(ev, f"a buffered writer calls {short(q)}")
        if q == "operator new[]":
            return frozenset(f for f in st if f[:2] != ("new", self.vn.t[ev.ins.id])) | {("new", self.vn.t[ev.ins.id], a[0])}
        if q == "operator delete[]":
            return st | {("dead", a[0])}
        return None

    def on_ok(self, ev, st):
        return st | {("done", ev.ins.id)} if ev.qn == "vp::file::write" else None

    def on_fail(self, ev, st):
        return st | {("failed", ev.ins.id)} if ev.qn == "vp::file::write" else None

    def g(self, st, n):
        return self.cur(st, at(self.m[n]))

    def on_ret(self, ev, st):
        i = {n: init(o) for n, o in self.m.items()}
        ws = sorted((f for f in st if f[0] == "w"), key=lambda f: f[1])
        bad = [f for f in ws if ("failed", f[6]) in st]
        open_ = [f for f in ws if ("failed", f[6]) not in st and ("done", f[6]) not in st]
        O, U, P, S = (self.g(st, n) for n in "OUPS")
        self.oblige("buffered bytes are written once, in order, where they belong", ev)
        # what was written: the buffered bytes from the front
        total = ZERO
        for f in ws:
            if f[2] is not i["f"]:
                self.report(ev, "the buffer is written to another file")
            if not self.same(f[3], tm.add(i["O"], total), st) or not self.same(f[4], tm.add(i["P"], total), st):
                self.report(ev, "buffered bytes are written at a place other than the one they were prepared for")
                return None
            total = tm.add(total, f[5])
        if ws and not self.same(total, i["U"], st):
            self.report(ev, "not exactly the buffered bytes are written")
            return None
        if bad or open_ and self.needed is None:
            # the error is reported; what is left must not be written somewhere else later
            if bad:
                keep = self.same(U, i["U"], st) and self.same(O, i["O"], st)
                gone = self.same(U, ZERO, st)
                if not keep and not gone:
                    self.report(ev, "after a failed write the buffered bytes would be written at another place")
                return None
        if open_ and self.needed is not None:
            self.report(ev, "goes on without examining whether the buffer was written")
            return None
        wrote = ws != []
        X = ZERO if wrote else i["U"]
        O2 = tm.add(i["O"], i["U"]) if wrote else i["O"]
        if not self.same(O, O2, st):
            # an empty buffer may count as flushed
            if not (not wrote and self.same(i["U"], ZERO, st) and self.same(O, i["O"], st)):
                self.report(ev, "the file position does not move by what was written")
                return None
        if self.needed is None:
            if not wrote and not self.same(i["U"], ZERO, st):
                self.report(ev, "returns without having written the buffered bytes")
            elif not self.same(U, ZERO, st):
                self.report(ev, "bytes that were written stay in the buffer")
            return None
        # prepare
        self.oblige("prepared space lies behind the buffered bytes and inside the buffer", ev)
        p, n = self.cur(st, A[2]), self.cur(st, tm.add(A[2], const(8)))
        if not self.same(U, tm.add(X, self.needed), st):
            self.report(ev, "the prepared bytes are not counted as buffered")
            return None
        if P is None or p is None or not self.same(p, tm.add(P, X), st):
            self.report(ev, "the prepared space does not start behind the buffered bytes")
        elif P is not i["P"] and not self.same(X, ZERO, st):
            self.report(ev, "buffered bytes are left behind in the old buffer")
        elif ("dead", P) in st:
            self.report(ev, "the prepared space lies in freed memory")
        elif not self.le(tm.add(X, self.needed), S, st):
            self.report(ev, "the prepared space is larger than the buffer")
        elif n is None or not self.same(n, ZERO, st):
            self.report(ev, "the prepared stream does not start empty")
        new = [f for f in st if f[0] == "new" and f[1] is P]
        if P is not i["P"] and not new:
            self.report(ev, "the buffer is not memory of its own")
        elif new and not self.le(S, new[0][2], st):
            self.report(ev, "the buffer is smaller than its recorded size")
        elif P is i["P"] and not self.le(S, i["S"], st):
            self.report(ev, "the buffer is smaller than its recorded size")
        return None


class Reader(Writer):
    """facts: ("seg", pointer, length, position): these bytes of memory hold the file's bytes from position"""

    def on(self, ev, st):
        if not any(f[0] == "seg" for f in st) and ("begun",) not in st:
            i = {n: init(o) for n, o in self.m.items()}
            st = st | {("begun",), ("seg", tm.add(i["P"], i["U"]), i["A"], tm.sub(i["O"], i["A"])),
                       ("ge", tm.sub(i["S"], tm.add(i["U"], i["A"]))), ("ge", tm.sub(i["O"], i["A"])), ("ge", tm.sub(i["L"], i["O"]))}
            r = super().on(ev, st)
            return st if r is None else r
        return super().on(ev, st)

    def copied(self, ev, st, dst, src, n):
        st = super().copied(ev, st, dst, src, n)
        new = set()
        for f in list(st):
            if f[0] == "seg" and f[1] is src and self.same(f[2], n, st):
                new.add(("seg", dst, n, f[3]))
        st = self.clobber(st, dst)
        return st | new

    def clobber(self, st, dst):
        b, _ = self.split(dst)
        return frozenset(f for f in st if not (f[0] == "seg" and self.split(f[1])[0] == b))

    def opaque(self, ev, st, q, a):
        if q == "vp::file::read":
            b, o = self.split(a[2])
            i = {n: init(o) for n, o in self.m.items()}
            keep = set()
            for f in st:
                if f[0] == "seg" and self.split(f[1])[0] == b and not (self.same(tm.add(f[1], f[2]), a[2], st)):
                    continue
                keep.add(f)
            self.oblige("reads stay inside the buffer and the range", ev)
            P, S = self.g(st, "P"), self.g(st, "S")
            if a[0] is not i["f"]:
                self.report(ev, "reads from another file")
            elif not self.le(P, a[2], st) or not self.le(tm.add(a[2], a[3]), tm.add(P, S), st):
                self.report(ev, "reads more than the buffer holds")
            elif not self.le(tm.add(a[1], a[3]), i["L"], st):
                self.report(ev, "reads behind the end of the range")
            return frozenset(keep) | {("seg", a[2], a[3], a[1]), ("w", 0, a[0], a[1], a[2], a[3], ev.ins.id)}
        if q == "operator delete[]":
            return self.clobber(st, a[0]) | {("dead", a[0])}
        return super().opaque(ev, st, q, a) if q != "vp::file::write" else self.report(ev, "a reader writes")

    def on_ok(self, ev, st):
        return st | {("done", ev.ins.id)} if ev.qn == "vp::file::read" else None

    def on_fail(self, ev, st):
        return st | {("failed", ev.ins.id)} if ev.qn == "vp::file::read" else None

    def on_setec(self, ev, st):
        v = ev.args[1]
        if v == "err" or isinstance(v, tuple) and v[0] == "E":
            i = {n: init(o) for n, o in self.m.items()}
            self.oblige("short read only at the end", ev)
            rest = tm.add(tm.sub(i["L"], i["O"]), i["A"])
            if not self.le(tm.add(rest, const(1)), self.needed, st):
                self.report(ev, "reports a short read although the range has enough bytes left")
            return st | {("short",)}
        return None

    def on_ret(self, ev, st):
        if any(f[0] == "failed" for f in st) or ("short",) in st:
            return None
        if any(f[0] == "w" and ("done", f[6]) not in st for f in st):
            self.report(ev, "goes on without examining whether the buffer was filled")
            return None
        i = {n: init(o) for n, o in self.m.items()}
        O, U, P, S, Av = (self.g(st, n) for n in "OUPSA")
        p, n = self.cur(st, A[2]), self.cur(st, tm.add(A[2], const(8)))
        self.oblige("the stream holds the next bytes of the file", ev)
        if n is None or p is None or not self.same(n, self.needed, st):
            self.report(ev, "the stream does not have the requested length")
            return None
        # the bytes at p are those at the old position
        where, want, total = p, tm.sub(i["O"], i["A"]), ZERO
        segs = [f for f in st if f[0] == "seg"]
        for _ in range(3):
            nxt = [f for f in segs if self.same(f[1], where, st) and self.same(f[3], want, st)]
            if not nxt:
                break
            f = nxt[0]
            segs.remove(f)
            where, want, total = tm.add(where, f[2]), tm.add(want, f[2]), tm.add(total, f[2])
        if total is ZERO and not self.same(self.needed, ZERO, st):
            self.report(ev, "the stream does not hold the bytes at the current position")
            return None
        if not self.le(self.needed, total, st):
            self.report(ev, "the stream is longer than what was read")
            return None
        self.oblige("the buffer's bookkeeping matches its content", ev)
        if not self.same(tm.add(Av, self.needed), total, st):
            self.report(ev, "the number of buffered bytes does not match the buffer's content")
        elif not self.same(tm.sub(O, Av), tm.add(tm.sub(i["O"], i["A"]), self.needed), st):
            self.report(ev, "the position does not move by what was delivered")
        elif not self.same(tm.add(P, U), tm.add(p, self.needed), st):
            self.report(ev, "the next bytes are not the ones behind the delivered ones")
        new = [f for f in st if f[0] == "new" and f[1] is P]
        if P is not i["P"] and not new:
            self.report(ev, "the buffer is not memory of its own")
        elif new and not self.le(S, new[0][2], st) or P is i["P"] and not self.le(S, i["S"], st):
            self.report(ev, "the buffer is smaller than its recorded size")
        return None


@rule("C34")
def bulk_writer(res, L):
    m = members(res, L, "writer")
    run(res, "writer prepare", component(L, "writer_prepare"), Writer(m, A[1]))
    run(res, "writer flush", component(L, "writer_flush"), Writer(m, None))


@rule("C34")
def bulk_reader(res, L):
    m = members(res, L, "reader")
    run(res, "reader prepare", component(L, "reader_prepare"), Reader(m, A[1]))
    v = Value()
    run(res, "reader eof", component(L, "reader_eof"), v)
    gap = tm.sub(init(m["L"]), tm.sub(init(m["O"]), init(m["A"])))
    for t, st, ev in v.out:
        res.oblige("eof() of bulk_reader", "")
        l = tm.term_lit(t)
        a = None if l in (True, False) else l[0].atom() if isinstance(l[0], T) else l[0]
        if a is None or a.k != "ult" or not (not l[1] and tm.sub(a.p[1], a.p[0]) is gap or
                                             l[1] and tm.sub(a.p[0], a.p[1]) is tm.sub(gap, const(1))):
            res.at("eof", v.fn, ev.ins, "eof() is not whether the position has reached the end of the range")
