"""C19: the file headers: encoders and decoders against the documented bytes, validation against the table of required checks,
and what hash and salt check are computed from (record module)."""
from .. import terms as tm
from ..terms import T, atom, const, ZERO
from ..ir import AnchorError, split_ptr
from .common import *
from .cells import sgn
from .codec import A, at, init, plain, ends, rec, whole
from .headers import FILE, SIZE, LITERAL, TYPENAME

SHORT = {"dh": "dat", "kh": "key", "lh": "log"}
NAME = {"dh": "data file header", "kh": "key file header", "lh": "log file header"}


def fields(L, h):
    """offset and size of the members of a header in memory"""
    lib = L["rec"]
    k = ("headcodec", h)
    if k not in lib.cache:
        t = lib.mod.type(TYPENAME[h], "nudb::detail")
        lib.cache[k] = {p: (o, s) for o, s, p, ty in lib.mod.fields(t)}
        for f in FILE[h]:
            if f not in lib.cache[k]:
                raise AnchorError(f"the {NAME[h]} has no member {f}")
    return lib.cache[k]


def member(off, f, k):
    return init(off[f][0], k, off[f][1])


def same_value(s, v, want, P, call):
    """v is what the bytes at P hold; a buffer just read into is named by the read"""
    o, n = want
    if v is plain(P, o, n):
        return True
    bp = tm.bytes_poly(v) if v is not None else None
    return bool(bp and call is not None and len(bp) == n and all(
        j < n and bp[j].k == "fbyte" and bp[j].p[0] == call and bp[j].p[1] is const(o + n - 1 - j) for j in bp))


def text(s, t, n):
    """n bytes of constant data at t"""
    b, o = split_ptr(t)
    if b is None or b.k != "g" or not o.is_const:
        return None
    bs = [s.vn.gbyte(b, const(o.const + k)) for k in range(n)]
    return None if any(x is None for x in bs) else bytes(x.const & 255 for x in bs)


@rule("C19")
def decode(res, L):
    for h in FILE:
        off = fields(L, h)
        for fromfile in (False, True):
            n = SHORT[h] + ("_readf" if fromfile else "_read")
            k = 1 if fromfile or h != "kh" else 2       # the argument that is the header
            seen = False
            for s, ev, st, tr, r, err in ends(res, rec(L, n), f"{NAME[h]}: decode"):
                P, call, size = init(0), None, A[1] if h == "kh" else None
                if fromfile:
                    rd = s.calls(tr, ("read",), "vp::file::")
                    if err:
                        continue
                    ok = len(rd) == 1 and rd[0][2][:2] == (A[0], ZERO) and rd[0][2][3].is_const and rd[0][2][3].const >= SIZE[h]
                    s.expect(ev, ok, f"{NAME[h]} read from the start of the file", f"the {NAME[h]} is not read whole from the start of its file")
                    if not ok:
                        continue
                    P, call = rd[0][2][2], rd[0][3]
                    i = tr.index(rd[0])
                    b = s.split(P)[0]
                    early = [e for e in tr[:i] if e[0] == "load" and s.split(e[1])[0] is b]
                    s.expect(ev, not early, "decoded after it is read", f"the {NAME[h]} is decoded before it is read")
                    sz = s.calls(tr, ("size",), "vp::file::")
                    size = s.result(sz[-1]) if sz and sz[-1][2][0] is A[0] else None
                seen = True
                cells = [f for f in st if f[0] == "c"]
                for f, w in FILE[h].items():
                    o, m = off[f]
                    if f == "type":
                        bs = [s.image(tr, cells, at(o, k), j) for j in range(8)]
                        ok = all(b is atom("init", tm.add(P, const(w[0] + j)), 1) or
                                 b is not None and b.atom() is not None and b.atom().k == "fbyte" and b.atom().p[0] == call and
                                 b.atom().p[1] is const(w[0] + j) for j, b in enumerate(bs))
                    else:
                        ok = same_value(s, s.cur(st, at(o, k), m), w, P, call)
                    s.expect(ev, ok, f"{NAME[h]}: {f} decoded", f"the {f} of the {NAME[h]} is not decoded from its documented bytes")
                if h == "kh":
                    computed(s, ev, st, tr, off, k, size)
            if not seen:
                raise AnchorError(f"{n} never succeeds")


def computed(s, ev, st, tr, off, k, size):
    """capacity, number of buckets and modulus of a key file header"""
    block, cap, buckets, mod = (s.cur(st, at(off[f][0], k), off[f][1]) for f in ("block_size", "capacity", "buckets", "modulus"))
    if block is None or cap is None or buckets is None or size is None:
        s.expect(ev, False, "computed members", "a member of the key file header computed when it is read is not set")
        return
    used = tm.add(const(8), tm.scale(cap, 18))
    if s.le(block, const(SIZE["kh"] - 1), st):
        ok = cap is ZERO
    else:
        ok = s.le(used, block, st) and s.le(tm.sub(block, const(17)), used, st)
    s.expect(ev, ok, "capacity follows from the block size", "the capacity of a key file header is not that of its block size")
    none = s.le(size, block, st) or s.le(block, ZERO, st)
    want = [ZERO] if none else [udiv(tm.sub(size, block), block), tm.sub(udiv(size, block), const(1))]
    s.expect(ev, buckets in want, "buckets are the whole blocks behind the header",
             "the number of buckets is not the number of whole blocks behind the key file header")
    c = [e for e in s.calls(tr, ("ceil_pow2",)) if e[2][0] is buckets]
    s.expect(ev, bool(c) and mod is s.result(c[-1]), "modulus follows from the buckets", "the modulus of a key file header is not computed from its number of buckets")


def udiv(a, b):
    return atom("op", "udiv", a, b)


@rule("C19")
def encode(res, L):
    for h in FILE:
        off = fields(L, h)
        for tofile in (False, True):
            n = SHORT[h] + ("_writef" if tofile else "_write")
            seen = False
            for s, ev, st, tr, r, err in ends(res, rec(L, n), f"{NAME[h]}: encode"):
                P, cells, steps = init(0), [f for f in st if f[0] == "c"], tr
                if tofile:
                    wr = s.calls(tr, ("write",), "vp::file::")
                    if not wr and err:
                        if h == "kh":
                            s.expect(ev, s.le(member(off, "block_size", 1), const(SIZE["kh"] - 1), st), "written unless the block is too small",
                                     "a key file header with room in its block is not written")
                        else:
                            s.expect(ev, False, "written", f"the {NAME[h]} is not written")
                        continue
                    ok = len(wr) == 1 and wr[0][2][:2] == (A[0], ZERO)
                    s.expect(ev, ok, f"{NAME[h]} written at the start of the file", f"the {NAME[h]} is not written at the start of its file")
                    if not ok:
                        continue
                    P, size = wr[0][2][2], wr[0][2][3]
                    i = tr.index(wr[0])
                    steps, cells = tr[:i], tr[i + 1][1]
                    want = member(off, "block_size", 1) if h == "kh" else const(SIZE[h])
                    s.expect(ev, size is want, f"{NAME[h]}: size written", f"the {NAME[h]} is not written in its documented size")
                    if h == "kh":
                        s.expect(ev, s.le(const(SIZE[h]), want, st), "the header fits its block", "a key file header is written to a block it does not fit")
                        pad = [e for e in steps if e[0] == "fill" and e[3] is ZERO and s.split(e[1])[0] is s.split(P)[0] and
                               s.le(tm.sub(e[1], P), const(SIZE[h]), st) and s.le(want, tm.add(tm.sub(e[1], P), e[2]), st)]
                        s.expect(ev, bool(pad) or s.le(want, const(SIZE[h]), st), "zero padding", "the rest of the key file header's block is not zeroed")
                seen = True
                end = 0
                for f, (o, w) in FILE[h].items():
                    bs = [s.image(steps, cells, P, o + j) for j in range(w)]
                    if f == "type":
                        ok = all(b is not None and b.is_const and b.const & 255 == LITERAL[h][j] for j, b in enumerate(bs))
                    else:
                        ok = whole(bs) is member(off, f, 1) or be(bs) is member(off, f, 1)
                    end = max(end, o + w)
                    s.expect(ev, ok, f"{NAME[h]}: {f} encoded", f"the {f} of the {NAME[h]} is not encoded in its documented bytes")
                rest = [s.image(steps, cells, P, j) for j in range(end, SIZE[h])]
                s.expect(ev, all(b is ZERO for b in rest), f"{NAME[h]}: reserved bytes", f"reserved bytes of the {NAME[h]} are not zero")
            if not seen:
                raise AnchorError(f"{n} writes no header")


class Checks:
    """what a valid header satisfies, and what a path has found out about it"""

    def __init__(self, s, st, tr, L):
        self.s, self.st, self.tr, self.L = s, st, tr, L

    def f(self, h, k, f):
        return member(fields(self.L, h), f, k)

    def eq(self, x, y):
        s = self.s
        if x is None or y is None:
            return None
        if s.same(x, y, self.st):
            return True
        if s.nonneg(const((1 << 64) - 1), self.st | {("ge", tm.sub(x, y)), ("ge", tm.sub(y, x))}):
            return False
        return None

    def some(self, x):
        return True if self.s.le(const(1), x, self.st) else False if self.s.le(x, ZERO, self.st) else None

    def fact(self, c):
        """outcome of a call that yields a bool, or of one that yields 0 for equal"""
        for f in self.st:
            if f[0] == "p" and f[1] is c:
                return f[2]
        return None

    def type(self, h, k):
        s = self.s
        P = at(fields(self.L, h)["type"][0], k)
        v = self.eq(atom("init", P, 8), const(int.from_bytes(LITERAL[h], "little")))
        if v is not None:
            return v
        made = {}
        for e in self.tr:
            if e[0] != "call":
                continue
            q, a = e[1], e[2]
            r = s.result(e)
            if q.startswith("std::__cxx11::basic_string") and short(q) == "basic_string" and len(a) >= 3:
                made[a[0]] = a[1] is P and a[2] is const(8)
            elif ("operator!=" in q or "operator==" in q) and len(a) == 2:
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    if made.get(x) and text(s, y, 9) == LITERAL[h] + b"\0":
                        v = self.fact(r.atom())
                        if v is not None:
                            return v == ("==" in q)
            elif q in ("memcmp", "strncmp", "bcmp") and len(a) == 3 and a[2] is const(8):
                for x, y in ((a[0], a[1]), (a[1], a[0])):
                    if x is P and text(s, y, 8) == LITERAL[h]:
                        return self.zero(r)
            elif q.startswith("std::__cxx11::basic_string") and short(q) == "compare" and len(a) == 2:
                if made.get(a[0]) and text(s, a[1], 9) == LITERAL[h] + b"\0":
                    return self.zero(r)
        return None

    def zero(self, r):
        l = tm.eq(r, ZERO)
        v = self.fact(l[0].atom())
        return None if v is None else v == l[1]

    def pepper(self, h, k):
        s = self.s
        made, out = {}, None
        for i, e in enumerate(self.tr):
            if e[0] != "call":
                continue
            if e[1] == "vp::hasher::hasher":
                made[e[2][0]] = e[2][1]
            if e[1] == "vp::hasher::operator()" and made.get(e[2][0]) is self.f(h, k, "salt") and e[2][2] is const(8):
                c = s.cur(self.st, e[2][1])
                if c is self.f(h, k, "salt"):
                    out = self.eq(self.f(h, k, "pepper"), s.result(e))
        return out


def own(h):
    """the checks of a header by itself: (name, fn(checks, argument))"""
    t = [("type", lambda c, k: c.type(h, k)), ("version", lambda c, k: c.eq(c.f(h, k, "version"), const(2))),
         ("key size", lambda c, k: c.some(c.f(h, k, "key_size")))]
    if h != "dh":
        t.append(("salt and pepper", lambda c, k: c.pepper(h, k)))
    if h == "kh":
        t += [(n, lambda c, k, f=f: c.some(c.f(h, k, f))) for f, n in (("load_factor", "load factor"), ("capacity", "capacity"), ("buckets", "bucket count"))]
    return t


def match(h, g, names):
    """the checks that two headers (arguments 0 and 1) agree"""
    return [(f.replace("_", " ") + " mismatch", lambda c, k, f=f: c.eq(c.f(h, 0, f), c.f(g, 1, f))) for f in names]


TABLE = [
    ("dat_verify", NAME["dh"], lambda: own("dh"), 0),
    ("key_verify", NAME["kh"], lambda: own("kh"), 0),
    ("log_verify", NAME["lh"], lambda: own("lh"), 0),
    ("dk_verify", "data and key file headers", lambda: own("kh") + match("dh", "kh", ("uid", "appnum", "key_size")), 1),
    ("kl_verify", "key and log file headers", lambda: own("lh") + match("kh", "lh", ("uid", "appnum", "key_size", "salt", "pepper", "block_size")), 1),
]


@rule("C19")
def validate(res, L):
    for n, what, checks, k in TABLE:
        good = 0
        for s, ev, st, tr, r, err in ends(res, rec(L, n), f"validation: {what}"):
            c = Checks(s, st, tr, L)
            got = [(m, f(c, k)) for m, f in checks()]
            if not err:
                good += 1
                for m, v in got:
                    s.expect(ev, v is True, f"{what}: {m} checked", f"{what} are accepted without a check of the {m}" if " and " in what else
                             f"a {what} is accepted without a check of its {m}")
            else:
                s.expect(ev, any(v is False for m, v in got), f"{what}: rejected for a reason", f"valid {what}{'' if ' and ' in what else 's'} may be rejected")
        if not good:
            raise AnchorError(f"{n} never succeeds")


@rule("C19")
def hashing(res, L):
    """the hash of a key and the pepper of a salt"""
    def call(s, tr, obj, salt):
        made = {}
        out = []
        for e in tr:
            if e[0] == "call" and e[1] == "vp::hasher::hasher":
                made[e[2][0]] = e[2][1]
            if e[0] == "call" and e[1] == "vp::hasher::operator()" and (e[2][0] is obj if obj is not None else made.get(e[2][0]) is salt):
                out.append(e)
        return out
    for n, obj, salt in (("hash", None, A[2]), ("hash2", A[2], None)):
        for s, ev, st, tr, r, err in ends(res, rec(L, n), "hash of a key"):
            c = call(s, tr, obj, salt)
            ok = len(c) == 1 and c[0][2][1] is A[0] and c[0][2][2] is A[1]
            s.expect(ev, ok, "the hash of the whole key", "a key's hash is not computed from the key's bytes and the salt")
            if ok:
                s.expect(ev, r is tm.lshr(s.result(c[0]), 16), "upper 48 bits", "the stored hash is not the upper 48 bits of the hash function's result")
    for s, ev, st, tr, r, err in ends(res, rec(L, "pepper"), "pepper"):
        c = call(s, tr, None, A[0])
        ok = len(c) == 1 and s.cur(st, c[0][2][1]) is A[0] and c[0][2][2] is const(8) and r is s.result(c[0])
        s.expect(ev, ok, "the hash of the salt", "the pepper is not the hash of the salt's bytes under the salt")
