"""C19, C20, C21: the records on disk: each encoder and decoder against the documented byte layout (record module)."""
import itertools
from .. import terms as tm
from ..terms import T, atom, const, ZERO
from ..ir import AnchorError
from .errors import out_keys
from .common import *
from .cells import Cells, component, sgn, pos, replace, atoms, T_of
from .memory import Trace, Seen, base, offset
from .headers import FILE, SIZE, LITERAL, TYPENAME

A = [atom("arg", k) for k in range(6)]

# documented layout of a bucket: count, spill, then entries of offset, size, hash
COUNT, SPILL, HEAD = (0, 2), (2, 6), 8
ENTRY = {"offset": (0, 6), "size": (6, 6), "hash": (12, 6)}
STRIDE = 18
ZEROSIZE = (6, 2)       # of a spill record: zero, bucket size


def at(off, k=0):
    return tm.add(A[k], const(off))


def init(off, k=0, n=8):
    return atom("init", at(off, k), n)


def entry_at(p, i, off=0):
    """address of entry i of the bucket at p"""
    return tm.add(tm.add(p, const(HEAD + off)), tm.scale(i, STRIDE))


class Codec(Trace):
    """also records where the code stores to and loads from memory other than its own locals and its object;
    LIMIT of the trace is generous, there are no long loops"""

    def setup(self):
        super().setup()
        self.outs = out_keys(self.root)
        self.ends = []
        self.nodes = []

    def push(self, st, e):
        tr = self.trace(st)
        if len(tr) > 400:
            raise AnchorError(f"{self.fn.dem}: too many steps to follow")
        return frozenset(f for f in st if f[0] != "tr") | {("tr", tr + (e,))}

    def opaque(self, ev, st, q, a):
        st = super().opaque(ev, st, q, a)
        if q == "vp::file::read":
            b, o = self.split(a[2])
            st = self.drop(st, b, o, a[3])
        if q == "vp::file::write":
            b, o = self.split(a[2])
            st = self.push(st, ("cells", frozenset(f for f in st if f[0] == "c" and f[1] == b)))
        return st

    def stored(self, ev, st, p, v):
        b, o = self.split(p)
        if isinstance(b, tm.Atom) and (b.k == "alloca" or b.k == "arg"):
            return st
        return self.push(st, ("store", p, self.sizeof(ev.ins)))

    def on_load(self, ev, st):
        st2 = super().on_load(ev, st)
        p = self.pathval(ev.args[0], st)
        b, o = self.split(p)
        if isinstance(b, tm.Atom) and b.k == "arg":
            return st2
        return self.push(st2 if st2 is not None else st, ("load", p, self.sizeof(ev.ins)))

    def failed(self, ev):
        """an error is reported"""
        return any(ev.flow.ecstate(ev.ecs, o) != "ok" for o in self.outs)

    def check(self, ev, st, tr, r):
        self.ends.append((ev, st, tr, r, self.failed(ev)))
        self.nodes.append(ev.flow.node)

    def covers(self, n, d):
        return pos(tm.sub(n, tm.add(d, const(1)))) or not n.is_const and self.le(tm.add(d, const(1)), n, self.ctx)

    # -- memory images
    def cell_byte(self, cells, p, k):
        """the byte k behind p: (term,) where a cell covers it"""
        b, o = self.split(p)
        o = tm.add(o, const(k))
        for f in cells:
            if f[0] == "c" and f[1] == b:
                d = tm.sub(o, f[2])
                if d.is_const and 0 <= sgn(d.const) < f[3]:
                    if f[3] == 1:
                        return f[4]
                    if f[4] is ZERO:
                        return ZERO
                    if f[4].is_const:
                        return const(f[4].const >> (8 * sgn(d.const)) & 255)
                    a = f[4].atom()
                    if a is not None and a.k == "init" and a.p[1] == f[3]:
                        return atom("init", tm.add(a.p[0], const(sgn(d.const))), 1)
                    bp = tm.bytes_poly(f[4])
                    if bp and len(bp) == f[3] and sgn(d.const) in bp and not (a is not None and a.k == "byte"):
                        return tm.mk({(bp[sgn(d.const)],): 1})
                    return atom("byte", f[4], sgn(d.const), w=8)
        return None

    def image(self, tr, cells, p, k, depth=4):
        """the byte k behind p after the steps tr: a term, or None"""
        t = self.cell_byte(cells, p, k)
        if t is not None or not depth:
            return t
        for i in range(len(tr) - 1, -1, -1):
            e = tr[i]
            if e[0] == "fill":
                d = tm.sub(tm.add(p, const(k)), e[1])
                if d.is_const and sgn(d.const) >= 0 and self.covers(e[2], d):
                    return e[3]
            if e[0] == "copy":
                d = tm.sub(tm.add(p, const(k)), e[1])
                if d.is_const and sgn(d.const) >= 0 and self.covers(e[3], d):
                    a = e[2].atom()
                    if a is not None and a.k == "g":
                        return self.vn.gbyte(a, d)
                    s = self.image(tr[:i], (), e[2], sgn(d.const), depth - 1)
                    return s if s is not None else atom("init", tm.add(e[2], d), 1)
        return None

    def number(self, tr, cells, p, off, n):
        """the big-endian value of n bytes behind p"""
        return be([self.image(tr, cells, p, off + k) for k in range(n)])


def plain(p, off, n, keep=None):
    """the value of n big-endian bytes at p+off as memory was (the low `keep` bytes)"""
    out = ZERO
    for k in range(n):
        sh = n - 1 - k
        if keep is None or sh < keep:
            out = tm.add(out, tm.scale(atom("init", tm.add(p, const(off + k)), 1), 1 << (8 * sh)))
    return out


def ends(res, root, what, least=(), given=()):
    """the ends of a method's paths; least: terms that are at least a bucket's header, because block sizes are; given: terms that
    the method's callers guarantee are >= 0"""
    s = Codec()
    s.given = tuple(given)
    fl = root.run(s, "ok")
    if not s.ends:
        raise AnchorError(f"{root.name} never returns")
    for o, n in zip(s.ends, s.nodes):
        fl.node = n
        st = o[1] | {("ge", tm.sub(t, const(HEAD))) for t in least}
        if s.nonneg(const((1 << 64) - 1), st):
            continue
        s.ctx = st
        yield (s, o[0], st) + o[2:]
    res.absorb(what, root, s, fl)


def rec(L, name):
    return component(L, name, "rec")


def returned(res, L, name, what):
    """the one value an accessor returns"""
    v = {(r, s) for s, ev, st, tr, r, err in ends(res, rec(L, name), what)}
    if len({r for r, s in v}) != 1:
        return None
    return next(iter(v))[0]


def shape(res, L):
    """offsets of the members of a bucket and of an entry"""
    lib = L["rec"]
    key = ("codec", "shape")
    if key in lib.cache:
        return lib.cache[key]
    m = {}
    for n in ("block", "size", "spill"):
        m[n] = offset(returned(res, L, "bucket_" + n, f"bucket: {n}"))
    for s, ev, st, tr, r, err in ends(res, rec(L, "bucket_new"), "bucket: construction"):
        for f in st:
            if f[0] == "c" and f[1] is A[0].atom() and f[4] is A[2] and f[2].is_const:
                m["p"] = sgn(f[2].const)
    for n in ENTRY:
        m["e" + n] = offset(returned(res, L, "entry_" + n, f"bucket entry: {n}"))
    for n in ("block", "size", "spill", "p", "eoffset", "esize", "ehash"):
        if m.get(n) is None:
            raise AnchorError(f"the member of a bucket for its {n} cannot be identified")
    lib.cache[key] = m
    return m


class Bucket:
    """terms for the bucket given as argument 0 (or k)"""

    def __init__(self, m, k=0):
        self.m, self.k = m, k
        self.P = init(m["p"], k)
        self.size, self.spill, self.block = init(m["size"], k), init(m["spill"], k), init(m["block"], k)
        self.bytes = tm.add(const(HEAD), tm.scale(self.size, STRIDE))

    def now(self, s, st, n):
        return s.cur(st, at(self.m[n], self.k))

    def header(self, s, ev, st, tr, size, spill, what, P=None, fresh=False):
        """the bucket has this size and spill, in its members and in its memory"""
        P = P if P is not None else self.P
        s.expect(ev, self.now(s, st, "size") is size and self.now(s, st, "spill") is spill, f"{what}: members",
                 f"{what} leaves a wrong number of entries or spill offset in the bucket")
        cells = [f for f in st if f[0] == "c"]
        for f, want, old, n in ((COUNT, size, self.size, "number of entries"), (SPILL, spill, self.spill, "spill offset")):
            bs = [s.image(tr, cells, P, f[0] + k) for k in range(f[1])]
            ok = want is old or want is plain(P, *f) or fresh if all(b is None for b in bs) else whole(bs) is want      # untouched: as it was
            s.expect(ev, ok, f"{what}: {n} in memory",
                     f"{what} does not leave the {n} in the bucket's memory, big-endian where it belongs")
        if not fresh:
            for n in ("block", "p"):
                s.expect(ev, self.now(s, st, n) is init(self.m[n], self.k), f"{what}: same memory",
                         f"{what} changes which memory the bucket uses")


def whole(bs):
    """the big-endian value of bytes"""
    v = be(bs)
    if v is None and all(b is not None for b in bs):
        v = ZERO
        for k, b in enumerate(bs):
            v = tm.add(v, tm.scale(b, 1 << (8 * (len(bs) - 1 - k))))
    return v


def touches(s, e, P):
    """a step that changes memory of the bucket"""
    return e[0] in ("store", "copy", "fill") and s.split(e[1])[0] is s.split(P)[0]


def offs(s, e, P):
    return tm.sub(e[1], P)


@rule("C20")
def bucket_decode(res, L):
    m = shape(res, L)
    b = Bucket(m)
    for n in ("bucket_at", "bucket_index"):
        for s, ev, st, tr, r, err in ends(res, rec(L, n), "bucket: entry"):
            for f, (o, w) in ENTRY.items():
                v = s.cur(st, at(m["e" + f], 2))
                want = [plain(entry_at(b.P, A[1]), o, w)] + ([plain(entry_at(b.P, A[1]), o, w, 4)] if f == "size" else [])
                s.expect(ev, v in want, f"entry {f} decoded", f"the {f} of a bucket entry is not decoded from its documented bytes")
            s.expect(ev, not any(touches(s, e, b.P) for e in tr), "decoding changes nothing", "decoding an entry changes the bucket")
    for s, ev, st, tr, r, err in ends(res, rec(L, "bucket"), "bucket: decode"):
        for n, want in (("block", A[1]), ("p", A[2]), ("size", plain(A[2], *COUNT)), ("spill", plain(A[2], *SPILL))):
            s.expect(ev, s.cur(st, at(m[n])) is want, f"bucket {n} decoded", f"a bucket's {n} is not decoded from its documented bytes")
        s.expect(ev, not any(touches(s, e, A[2]) for e in tr), "decoding changes nothing", "decoding a bucket changes its memory")
    for n, want, what in (("bucket_actual", b.bytes, "the compact size of a bucket"), ("bsize", tm.add(const(HEAD), tm.scale(A[0], STRIDE)), "bucket_size"),
                          ("vsize", tm.add(tm.add(const(6), A[0]), A[1]), "value_size")):
        for s, ev, st, tr, r, err in ends(res, rec(L, n), what):
            s.expect(ev, r is want, what, f"{what} is not that of the documented record")
    for s, ev, st, tr, r, err in ends(res, rec(L, "bucket_empty"), "bucket: empty"):
        s.expect(ev, r is tm.lit_term(tm.eq(b.size, ZERO)), "empty()", "empty() is not whether the bucket has no entries")
    for s, ev, st, tr, r, err in ends(res, rec(L, "bcap"), "bucket: capacity"):
        if s.le(A[0], const(SIZE["kh"] - 1), st):
            s.expect(ev, r is ZERO, "capacity of a small block", "a block smaller than the key file header has a capacity")
            continue
        used = tm.add(const(HEAD), tm.scale(r, STRIDE))
        s.expect(ev, s.le(used, A[0], st), "entries fit the block", "more entries are taken to fit a block than do")
        s.expect(ev, s.le(tm.sub(A[0], const(STRIDE - 1)), used, st), "the block is used", "fewer entries are taken to fit a block than do")


@rule("C20")
def bucket_encode(res, L):
    m = shape(res, L)
    b = Bucket(m)
    one = const(1)
    for s, ev, st, tr, r, err in ends(res, rec(L, "bucket_insert"), "bucket: insert"):
        lb = s.calls(tr, ("lower_bound",))
        s.expect(ev, len(lb) == 1 and lb[0][2][1] is A[3], "insert position", "the position of a new entry is not that of its hash")
        if len(lb) != 1:
            continue
        i = s.result(lb[0])
        mv = [e for e in tr if e[0] == "copy"]
        tail = tm.scale(tm.sub(b.size, i), STRIDE)
        ok = len(mv) == 1 and mv[0][1] is entry_at(b.P, tm.add(i, one)) and mv[0][2] is entry_at(b.P, i) and mv[0][3] is tail
        s.expect(ev, ok or not mv and s.le(b.size, i, st), "the entries behind move up", "inserting an entry does not move the entries behind it up by one")
        if ok:
            k = tr.index(mv[0])
            early = [e for e in tr[:k] if touches(s, e, b.P) and not s.le(tm.add(offs(s, e, b.P), const(1)), const(HEAD), st)]
            s.expect(ev, not early, "moved before overwritten", "an entry is overwritten before it is moved")
        cells = [f for f in st if f[0] == "c"]
        for f, (o, w), v in (("offset", ENTRY["offset"], A[1]), ("size", ENTRY["size"], A[2]), ("hash", ENTRY["hash"], A[3])):
            bs = [s.cell_byte(cells, entry_at(b.P, i), o + k) for k in range(w)]
            s.expect(ev, be(bs) is v, f"entry {f} encoded", f"the {f} of a new entry is not encoded in its documented bytes")
        b.header(s, ev, st, tr, tm.add(b.size, one), b.spill, "insert")
    for s, ev, st, tr, r, err in ends(res, rec(L, "bucket_erase"), "bucket: erase",
                                     given=[tm.sub(tm.sub(b.size, one), A[1])]):
        left = tm.sub(b.size, one)
        mv = [e for e in tr if e[0] == "copy"]
        n = tm.scale(tm.sub(left, A[1]), STRIDE)
        ok = len(mv) == 1 and mv[0][1] is entry_at(b.P, A[1]) and mv[0][2] is entry_at(b.P, tm.add(A[1], one)) and mv[0][3] is n
        s.expect(ev, ok or not mv and s.le(left, A[1], st), "the entries behind move down",
                 "erasing an entry does not move the entries behind it down by one")
        k = tr.index(mv[0]) if mv else 0
        for j, e in enumerate(tr):
            if touches(s, e, b.P) and e not in mv:
                o = offs(s, e, b.P)
                free = s.le(tm.add(const(HEAD), tm.scale(left, STRIDE)), o, st)
                s.expect(ev, s.le(tm.add(o, const(1)), const(HEAD), st) or free and j >= k, "only unused entries are cleared",
                         "erasing an entry overwrites another one")
        b.header(s, ev, st, tr, left, b.spill, "erase")
    for s, ev, st, tr, r, err in ends(res, rec(L, "bucket_setspill"), "bucket: spill"):
        b.header(s, ev, st, tr, b.size, A[1], "spill()")
        untouched(s, ev, st, tr, b.P, "setting the spill offset")
    for s, ev, st, tr, r, err in ends(res, rec(L, "bucket_clear"), "bucket: clear", [b.block]):
        b.header(s, ev, st, tr, ZERO, ZERO, "clear()")
        within(s, ev, st, tr, b.P, b.block, "clear()")
    for s, ev, st, tr, r, err in ends(res, rec(L, "bucket_new"), "bucket: empty bucket", [A[1]]):
        b.header(s, ev, st, tr, ZERO, ZERO, "an empty bucket", A[2], True)
        s.expect(ev, s.cur(st, at(m["block"])) is A[1] and s.cur(st, at(m["p"])) is A[2], "members", "a new bucket does not use the memory it was given")
        within(s, ev, st, tr, A[2], A[1], "a new bucket")


def untouched(s, ev, st, tr, P, what):
    """entries are not changed"""
    bad = [e for e in tr if touches(s, e, P) and not s.le(tm.add(offs(s, e, P), length(e)), const(HEAD), st)]
    s.expect(ev, not bad, "the entries stay", f"{what} changes the entries of the bucket")


def length(e):
    return const(e[2]) if e[0] == "store" else e[3] if e[0] == "copy" else e[2]


def within(s, ev, st, tr, P, size, what):
    """memory of the bucket is changed within its block only"""
    for e in tr:
        if touches(s, e, P):
            o = offs(s, e, P)
            s.expect(ev, s.le(tm.add(o, length(e)), size, st), "writes within the block",
                     f"{what} writes beyond the bucket's block")


@rule("C20")
def bucket_io(res, L):
    m = shape(res, L)
    b = Bucket(m)
    for s, ev, st, tr, r, err in ends(res, rec(L, "bucket_read"), "bucket: read", [b.block]):
        rd = s.calls(tr, ("read",), "vp::file::")
        s.expect(ev, len(rd) == 1 and rd[0][2][0] is A[1] and rd[0][2][1] is A[2] and rd[0][2][2] is b.P, "read where the bucket is",
                 "a bucket is not read from the offset it was given into its memory")
        if len(rd) != 1 or err:
            continue
        k = tr.index(rd[0])
        early = [e for e in tr[:k] if e[0] == "load" and s.split(e[1])[0] is s.split(b.P)[0]]
        s.expect(ev, not early, "decoded after it is read", "a bucket is decoded before it is read")
        b.header(s, ev, st, tr, plain(b.P, *COUNT), plain(b.P, *SPILL), "read()")
        untouched(s, ev, st, tr[k + 1:], b.P, "reading")
        s.expect(ev, s.le(tm.add(const(HEAD), tm.scale(b.now(s, st, "size"), STRIDE)), rd[0][2][3], st), "all entries are read",
                 "fewer bytes than a bucket may have are read")
    for s, ev, st, tr, r, err in ends(res, rec(L, "bucket_readc"), "bucket: read compact", [b.block]):
        if err:
            continue
        pr = s.calls(tr, ("prepare",), "nudb::detail::bulk_reader<")
        s.expect(ev, len(pr) == 2 and all(e[2][0] is A[1] for e in pr) and pr[0][2][1] is const(HEAD), "header, then entries",
                 "a compact bucket is not read as its header and then its entries")
        if len(pr) != 2:
            continue
        d = [atom("ev", s.result(e), (0,)) for e in pr]
        size, spill = plain(d[0], *COUNT), plain(d[0], *SPILL)
        s.expect(ev, pr[1][2][1] is tm.scale(size, STRIDE), "as many entries as counted", "the bytes read for a compact bucket's entries are not those of its count")
        b.header(s, ev, st, tr, size, spill, "read()")
        k = tr.index(pr[1])
        s.expect(ev, not any(e[0] == "load" and s.split(e[1])[0] is s.split(d[0])[0] for e in tr[k + 1:]), "used while it is there",
                 "a compact bucket's header is decoded after the reader has moved on")
        cp = [e for e in tr if e[0] == "copy" and e[1] is tm.add(b.P, const(HEAD)) and e[2] is d[1] and e[3] is tm.scale(size, STRIDE)]
        s.expect(ev, len(cp) == 1, "the entries are kept", "the entries of a compact bucket are not copied to their place")
    for s, ev, st, tr, r, err in ends(res, rec(L, "bucket_writec"), "bucket: write compact"):
        D = init(0, 1)
        cp = [e for e in tr if e[0] == "copy"]
        s.expect(ev, len(cp) == 1 and cp[0][1] is D and cp[0][2] is b.P and cp[0][3] is b.bytes, "header and entries are written",
                 "a compact bucket is not written as its header and entries")
        s.expect(ev, not any(touches(s, e, b.P) for e in tr), "writing changes nothing", "writing a compact bucket changes it")
    for s, ev, st, tr, r, err in ends(res, rec(L, "bucket_write"), "bucket: write", [b.block]):
        wr = s.calls(tr, ("write",), "vp::file::")
        s.expect(ev, len(wr) == 1 and wr[0][2][:4] == (A[1], A[2], b.P, b.block), "the whole block is written",
                 "a bucket is not written as one block at the offset it was given")
        for e in tr:
            if touches(s, e, b.P):
                s.expect(ev, s.le(b.bytes, offs(s, e, b.P), st) and s.le(tm.add(offs(s, e, b.P), length(e)), b.block, st), "padding behind the entries",
                         "writing a bucket changes its entries or memory beyond its block")
        pad = [e for e in tr if e[0] == "fill" and offs(s, e, b.P) is b.bytes and e[3] is ZERO and e[2] is tm.sub(b.block, b.bytes)]
        s.expect(ev, s.le(b.block, b.bytes, st) or len(pad) == 1 and (not wr or tr.index(pad[0]) < tr.index(wr[0])), "zero padding", "the unused part of a written bucket is not zeroed")


@rule("C20")
def spill(res, L):
    m = shape(res, L)
    b = Bucket(m)
    for s, ev, st, tr, r, err in ends(res, rec(L, "maybe_spill"), "spill record", [b.block]):
        pr = s.calls(tr, ("prepare",), "nudb::detail::bulk_writer<")
        other = [e for e in tr if e[0] == "call" and base(e[1]) not in ("prepare", "offset", "size")]
        s.expect(ev, not other, "one record", "spilling does something other than appending one record")
        if err or not pr:
            s.expect(ev, not [e for e in tr if e[0] in ("store", "copy", "fill")] and
                     all(b.now(s, st, n) is init(m[n]) for n in ("size", "spill", "block", "p")), "nothing spilled",
                     "a bucket that is not spilled is changed")
            if not err:
                room = s.le(tm.add(b.bytes, const(STRIDE)), b.block, st)
                s.expect(ev, room, "a full bucket is spilled", "a bucket without room for another entry is not spilled")
            continue
        s.expect(ev, len(pr) == 1 and pr[0][2][0] is A[1] and pr[0][2][1] is tm.add(const(8), b.bytes), "size of a spill record",
                 "the spill record's size is not that of its header and bucket")
        if len(pr) != 1:
            continue
        call = s.result(pr[0])
        D, n0 = atom("ev", call, (0,)), atom("ev", call, (1,))
        k = tr.index(pr[0])
        # the record: zero, bucket size, bucket as it was
        cells = [f for f in st if f[0] == "c"]
        z = whole([s.image(tr, cells, D, i) for i in range(6)])
        n = be([s.image(tr, cells, D, 6 + i) for i in range(2)])
        s.expect(ev, z is ZERO, "spill mark", "a spill record does not start with a zero size")
        s.expect(ev, n is b.bytes, "size of the spilled bucket", "a spill record does not hold the size of its bucket")
        cp = [e for e in tr if e[0] == "copy" and e[1] is tm.add(D, const(8)) and e[2] is b.P and e[3] is b.bytes]
        s.expect(ev, len(cp) == 1, "the bucket is spilled", "a spill record does not hold the bucket's header and entries")
        if cp:
            early = [e for e in tr[:tr.index(cp[0])] if touches(s, e, b.P)]
            s.expect(ev, not early, "spilled before it is cleared", "a bucket is changed before it is spilled")
        # what the bucket refers to: the record behind its size
        off = [e for e in s.calls(tr, ("offset",), "nudb::detail::bulk_writer<") if e[2][0] is A[1]]
        v = b.now(s, st, "spill")
        want = []
        for e in off:
            o = s.result(e)
            if tr.index(e) > k:
                o = tm.sub(o, tm.add(const(8), b.bytes))
            want += [tm.add(o, const(8)), tm.add(tm.add(o, const(8)), n0)]
        s.expect(ev, v in want, "the bucket refers to the record", "a spilled bucket does not refer to the bucket in its spill record")
        b.header(s, ev, st, tr, ZERO, v, "spilling")


class Search(Seen):
    """records what a search does: the values of the loop's variables at entry, along each way round, and what is returned"""

    def setup(self):
        super().setup()
        self.steps, self.exits, self.nodes = [], [], []

    def head(self, b, d, st):
        now = {}
        for i in self.fn.blocks[d]:
            if i.op == "phi":
                v = self.incoming(i, b, st)
                if v is not None:
                    now[self.vn.t[i.id]] = v
        inside = b in self.fn.loops[d]
        self.steps.append((d, inside, now, frozenset(st)))
        return super().head(b, d, st)

    def on_ret(self, ev, st):
        self.exits.append((ev, st, self.pathval(self.vn.op(ev.ins.j["a"][0]), st)))
        self.nodes.append(ev.flow.node)


def resolve(t, a, val, s, st):
    """t with the selections decided by condition a having this value"""
    for z in list(atoms(t)):
        if z.k == "sel":
            l = tm.term_lit(z.p[0])
            c, p = s.cond(l[0].atom(), l[1], st) if isinstance(l[0], T) else (None, None)
            if c is a:
                return resolve(replace(t, z, z.p[1] if p == val else z.p[2]), a, val, s, st)
    return t


@rule("C20")
def search(res, L):
    """lower_bound: with the entries sorted by hash, the result is the first entry whose hash is not less"""
    m = shape(res, L)
    b = Bucket(m)
    root = component(L, "bucket_lower")
    s = Search()
    fl = root.run(s, "ok")
    heads = {d for d, inside, now, st in s.steps}
    if len(heads) != 1:
        raise AnchorError(f"the search for a hash in {root.name} is not one loop")
    vs = sorted({v for d, i, now, st in s.steps for v in now}, key=repr)
    order = set()       # comparisons of an entry's hash with the one looked for: (condition, entry, true means less)
    pool = [f[1] for d, i, now, st in s.steps for f in st if f[0] == "p"] + [f[1] for e, st, r in s.exits for f in st if f[0] == "p"]
    for d, i, now, st in s.steps:
        for v in now.values():
            for z in tm.walk(v, set()):
                if z.k == "sel":
                    l = tm.term_lit(z.p[0])
                    if isinstance(l[0], T):
                        pool.append(s.cond(l[0].atom(), l[1], st)[0])
    for e, st, r in s.exits:
        for z in tm.walk(r, set()):
            if z.k == "sel":
                l = tm.term_lit(z.p[0])
                if isinstance(l[0], T):
                    pool.append(s.cond(l[0].atom(), l[1], st)[0])
    for a in pool:
        if getattr(a, "k", None) == "ult":
            x, y = a.p[:2]
            if y is A[1]:
                i = entry_of(b.P, x)
                if i is not None:
                    order.add((a, i))
    if not order:
        raise AnchorError("no comparison of an entry's hash with the one looked for can be identified")
    best = None
    for lo in vs:
        for hi in vs + [tm.add(x, y) for x, y in itertools.combinations(vs, 2)] + [b.size]:
            if lo is not hi:
                obs = bounds(s, b, lo, hi, order, s.steps, s.exits)
                bad = sum(not ok for ok, w, msg in obs)
                if best is None or bad < best[0]:
                    best = bad, obs
    ev, st, r = s.exits[0]
    fl.node = s.nodes[0]
    for ok, what, msg in best[1]:
        s.expect(ev, ok, what, msg)
    res.absorb("search for a hash", root, s, fl)


def entry_of(P, x):
    """x is the hash of entry i of the bucket at P: i"""
    for m, c in x.m.items():
        if c == 1 and len(m) == 1 and m[0].k == "init":
            d = tm.sub(m[0].p[0], tm.add(P, const(HEAD + sum(ENTRY["hash"]) - 1)))
            if all(sgn(k) % STRIDE == 0 for k in d.m.values()):
                i = T_of({n: sgn(k) // STRIDE for n, k in d.m.items()})
                return i if x is plain(entry_at(P, i), *ENTRY["hash"]) else None
    return None


def bounds(s, b, lo, hi, order, steps, exits):
    """lo and hi bracket the result: entries before lo are less, entries from hi on are not"""
    out = []

    def sub(t, now):
        """t, of the loop's variables, with their new values"""
        for v, x in now.items():
            t = replace(t, v.atom(), atom("new", v.id))
        for v, x in now.items():
            t = replace(t, atom("new", v.id).atom(), x)
        return t

    def step(st, nlo, nhi, inv):
        """each of the cases of the comparison"""
        known = [(a, i) for a, i in order if ("p", a, True) in st or ("p", a, False) in st]
        used = {z for t in (nlo, nhi) for z in tm.walk(t, set())}
        open_ = [(a, i) for a, i in order if (a, i) not in known and any(
            z.k == "sel" and isinstance(tm.term_lit(z.p[0])[0], T) and s.cond(tm.term_lit(z.p[0])[0].atom(), True, st)[0] is a for z in used)]
        if len(open_) > 1:
            return [(False, "one comparison", "the search mixes several comparisons")]
        alts = [st | {("p", a, v)} for a, i in open_ for v in (True, False)] or [st]
        got = []
        for x in alts:
            l, h = nlo, nhi
            for a, i in open_:
                l, h = (resolve(t, a, ("p", a, True) in x, s, st) for t in (l, h))
            x = x | {("ge", g) for g in inv}
            if s.nonneg(const((1 << 64) - 1), x):
                continue
            less = [i for a, i in order if ("p", a, True) in x]
            more = [i for a, i in order if ("p", a, False) in x]
            okl = l is lo or any(s.le(lo, i, x) and s.le(lo, l, x) and s.le(l, tm.add(i, const(1)), x) for i in less)
            okh = h is hi or s.same(h, hi, x) or any(s.le(i, hi, x) and s.le(i, h, x) and s.le(h, hi, x) for i in more)
            got.append((okl, "entries skipped are less", "the search skips entries whose hash it has not found to be less"))
            got.append((okh, "entries cut off are not less", "the search gives up entries whose hash it has not found to be at least the one looked for"))
            for i in less + more:
                got.append((s.le(lo, i, x) and s.le(tm.add(i, const(1)), hi, x), "only entries in question are looked at",
                            "the search looks at an entry outside the range in question"))
            got.append((s.le(l, h, x), "a range remains", "the search may leave the range of entries"))
            got.append((s.le(tm.add(tm.sub(h, l), const(1)), tm.sub(hi, lo), x) or l is h, "the range shrinks", "the search may not come to an end"))
        return got
    inv = [tm.sub(hi, lo), lo, tm.sub(b.size, hi)]
    for d, inside, now, st in steps:
        nlo, nhi = sub(lo, now), sub(hi, now)
        if not inside:
            out.append((nlo is ZERO and nhi is b.size, "starts with all entries", "the search does not start with all entries of the bucket"))
        else:
            out += step(st, nlo, nhi, inv)
    for ev, st, r in exits:
        x = st | {("ge", g) for g in inv}
        if r is ZERO and s.le(b.size, ZERO, st):
            continue
        if s.same(r, lo, x) and s.le(hi, lo, x):
            out.append((True, "the result is where the range ends", ""))
            continue
        less = [i for a, i in order if ("p", a, True) in x]
        more = [i for a, i in order if ("p", a, False) in x]
        okl = s.le(r, lo, x) and s.le(lo, r, x) or any(s.le(lo, r, x) and s.le(r, tm.add(i, const(1)), x) for i in less)
        okh = s.le(hi, r, x) or any(s.le(i, r, x) for i in more)
        out.append((okl and okh and s.le(r, b.size, x), "the result is where the range ends",
                    "the search does not return the first entry whose hash is not less"))
    return out
