"""C43: generated uids and salts.  Every bit of the value returned is a set of random bits it is the sum (modulo 2) of, as far as
the operations between the source and the result keep that exact; the values possible are bounded by the rank of those sets and by
the state of the generators the bits come from."""
import math
import re
from .. import ir, model
from .. import terms as tm
from ..ir import split_ptr, AnchorError
from .common import *

DEVICE = "std::random_device::"
DIST = "std::uniform_int_distribution<"
ENGINE = re.compile(r"std::(mersenne_twister|linear_congruential|subtract_with_carry|discard_block|shuffle_order|independent_bits)_engine<")
FIXED = re.compile(r"^(::)?(time|clock|rand|random|drand48|lrand48|getpid|gettimeofday|clock_gettime|std::time|std::clock|std::rand)$|"
                   r"std::chrono::.*::now$|std::this_thread::get_id$|pthread_self$")


class Val:
    """bits: for each bit, the random bits it is the sum of; ptr: base of the object pointed to"""
    __slots__ = ("bits",)

    def __init__(self, bits):
        self.bits = bits


class Entropy:
    def __init__(self, L, fn):
        self.L, self.fn = L, fn
        self.vn = ir.VN(fn, effects=model.effects)
        self.caps = {}          # generator -> bits of its state
        self.memo, self.busy = {}, set()
        self.draws = []
        self.ctor, self.feeds, self.stores = {}, {}, {}
        for b in fn.rpo:
            if b in fn.dead:
                continue
            for x in fn.blocks[b]:
                if x.op in ("call", "invoke"):
                    q = x.j.get("qn") or ""
                    if not x.j.get("a"):
                        continue
                    base = self.base(x.j["a"][0])
                    if base is None:
                        continue
                    if q == DEVICE + "random_device":
                        self.ctor[base] = "device"
                    elif ENGINE.match(q):
                        self.ctor[base] = "engine"
                    if short(q) != "operator()" and (ENGINE.match(q) or q.startswith("std::seed_seq::")):
                        self.feeds.setdefault(base, []).extend(x.j["a"][1:])
                    elif q.startswith("llvm.memcpy") or q.startswith("llvm.memmove"):
                        self.feeds.setdefault(base, []).append(x.j["a"][1])
                elif x.op == "store":
                    base = self.base(x.j["a"][1])
                    if base is not None:
                        self.stores.setdefault(base, []).append(x)

    def base(self, a):
        t = self.vn.op(a)
        if t is None or (t.is_const):
            return None
        b, _ = split_ptr(t)
        return None if b is None or b.k not in ("alloca", "g") else b.id

    @staticmethod
    def rank(rows):
        idx, basis = {}, {}
        for r in rows:
            v = 0
            for s in r:
                v ^= 1 << idx.setdefault(s, len(idx))
            while v:
                h = v.bit_length()
                if h not in basis:
                    basis[h] = v
                    break
                v ^= basis[h]
        return len(basis)

    def entropy(self, bits):
        """an upper bound of log2 of the number of values"""
        used = {}
        for r in bits:
            for s in r:
                used.setdefault(s[0], set()).add(s)
        return min(self.rank(bits), sum(min(len(v), self.caps.get(g, len(v))) for g, v in used.items()))

    def fresh(self, g, w, cap):
        """w bits of generator g"""
        self.caps[g] = min(self.caps.get(g, cap), cap) if g in self.caps else cap
        return [frozenset({(g, len(self.caps), len(self.memo), i)}) for i in range(w)]

    def width(self, x):
        m = re.match(r"i(\d+)$", str(x.ty))
        return int(m.group(1)) if m else 64

    def mixed(self, key, w, rows):
        return [frozenset({(("mix", key), i)}) for i in range(w)] if self.setcap(("mix", key), self.entropy(rows)) else None

    def setcap(self, g, c):
        self.caps[g] = c
        return True

    def val(self, a, w=None):
        if a.get("k") == "c":
            return [frozenset()] * (a.get("w") or w or 64)
        if a.get("k") != "v" or a["v"] not in self.fn.ins:
            return [frozenset()] * (w or 64)
        return self.ins(self.fn.ins[a["v"]])

    def ins(self, x):
        if x.id in self.memo:
            return self.memo[x.id]
        if x.id in self.busy:
            return None
        self.busy.add(x.id)
        r = self.eval(x)
        self.busy.discard(x.id)
        self.memo[x.id] = r
        return r

    def operands(self, x):
        return x.j.get("a") or []

    def eval(self, x):
        w = self.width(x)
        A = self.operands(x)
        if x.op in ("zext", "sext", "trunc", "freeze"):
            v = self.val(A[0])
            return (list(v) + [frozenset()] * w)[:w] if v is not None else None
        if x.op in ("shl", "lshr") and A[1].get("k") == "c":
            v, s = self.val(A[0], w), A[1]["v"]
            if v is None:
                return None
            return ([frozenset()] * s + list(v))[:w] if x.op == "shl" else (list(v) + [frozenset()] * 64)[s:s + w]
        if x.op == "and" and any(a.get("k") == "c" for a in A):
            c = next(a["v"] for a in A if a.get("k") == "c")
            v = self.val(next(a for a in A if a.get("k") != "c"), w)
            return [b if c >> i & 1 else frozenset() for i, b in enumerate(v)] if v is not None else None
        if x.op in ("or", "xor", "add"):
            u, v = self.val(A[0], w), self.val(A[1], w)
            if u is None or v is None:
                return None
            if x.op != "add" or all(not p or not q for p, q in zip(u, v)):
                if any(a.get("k") == "c" for a in A) and x.op == "add":
                    return self.mixed(x.id, w, list(u) + list(v))
                if x.op == "or" and any(a.get("k") == "c" for a in A):
                    c = next(a["v"] for a in A if a.get("k") == "c")
                    o = next(z for z, a in zip((u, v), A) if a.get("k") != "c")
                    return [frozenset() if c >> i & 1 else b for i, b in enumerate(o)]
                return [p ^ q for p, q in zip(u, v)]
            return self.mixed(x.id, w, list(u) + list(v))
        if x.op in ("phi", "select"):
            V = [v for p, v in x.j["in"]] if x.op == "phi" else A[1:]
            rows = [self.val(v, w) for v in V if not (v.get("k") == "c")]
            if not rows:
                return [frozenset()] * w
            if any(r is None for r in rows):
                rows = [r for r in rows if r is not None]
                # a loop: what is drawn in it is drawn again
                return self.free(x.id, w) if any(any(b for b in r) for r in rows) else [frozenset()] * w
            return min(rows, key=self.entropy)
        if x.op == "load":
            b = self.base(A[0])
            if b is None:
                return self.free(x.id, w)
            S = [s for s in self.stores.get(b, []) if self.vn.memat.get(s.id) is not None]
            here = self.vn.op(A[0])
            at = [s for s in S if self.vn.memat[s.id] is here]
            rows = [self.val(s.j["a"][0], w) for s in at]
            if len(rows) == 1 and rows[0] is not None and len(rows[0]) == w:
                return rows[0]
            return self.mixed(x.id, w, self.content(b))
        if x.op in ("call", "invoke"):
            return self.call(x, w, A)
        rows = []
        for a in A:
            v = self.val(a, 64) if a.get("k") in ("v", "c") else []
            if v is None:
                return None
            rows += v
        return self.mixed(x.id, w, rows)

    def free(self, key, w):
        self.caps[("?", key)] = w
        return [frozenset({(("?", key), i)}) for i in range(w)]

    def content(self, base, seen=None):
        """every value that went into an object"""
        seen = set() if seen is None else seen
        if base in seen:
            return []
        seen.add(base)
        rows = []
        for s in self.stores.get(base, []):
            a = s.j["a"][0]
            b = self.base(a) if a.get("k") == "v" else None
            rows += self.content(b, seen) if b is not None else (self.val(a) or [])
        for a in self.feeds.get(base, []):
            b = self.base(a)
            rows += self.content(b, seen) if b is not None else (self.val(a) or [])
        return rows

    def generator(self, a):
        """(group, bits of state) of the generator an operand refers to"""
        b = self.base(a)
        if b is None or b not in self.ctor:
            return ("?", b), 64 * 1024
        if self.ctor[b] == "device":
            return ("device", b), 64 * 1024
        return ("engine", b), self.entropy(self.content(b))

    def call(self, x, w, A):
        q = x.j.get("qn") or ""
        if q == DEVICE + "operator()":
            self.draws.append(x)
            self.caps[("draw", x.id)] = 32
            return [frozenset({(("draw", x.id), i)}) if i < 32 else frozenset() for i in range(w)]
        if q.startswith(DIST) and short(q) == "operator()":
            self.draws.append(x)
            n = self.range(A[0] if len(A) < 3 else A[2])
            g, cap = self.generator(A[1])
            if g[0] == "engine":
                self.caps[g] = cap
            else:
                g = ("draw", x.id)
                self.caps[g] = n
            return [frozenset({(g, x.id, i)}) if i < n else frozenset() for i in range(w)]
        if ENGINE.match(q) and short(q) == "operator()":
            self.draws.append(x)
            g, cap = self.generator(A[0])
            if g[0] == "engine":
                self.caps[g] = cap
            m = re.match(r"std::\w+_engine<[\w ]+, (\d+)ul", q)
            n = int(m.group(1)) if m and "mersenne" in q else w
            return [frozenset({(g, x.id, i)}) if i < n else frozenset() for i in range(w)]
        if FIXED.search(q):
            return [frozenset()] * w
        return self.free(x.id, w)

    def range(self, a):
        """log2 of the number of values of a distribution's range"""
        b = self.base(a)
        lo = hi = None
        for s in self.stores.get(b, []):
            t = self.vn.memat.get(s.id)
            v = self.vn.op(s.j["a"][0])
            if t is None or not v.is_const:
                return 64
            _, o = split_ptr(t)
            if not o.is_const:
                return 64
            if o.const == 0:
                lo = v.const
            else:
                hi = v.const
                off = o.const
        if lo is None or hi is None:
            return 64
        w = off * 8
        return int(math.log2(((hi - lo) % (1 << w)) + 1))


@rule("C43")
def generated_values(res, L):
    for name in ("make_uid", "make_salt"):
        fn = L["rnd"].fn(rf"vp::m_{name}\(")
        res.funcs.add(f"nudb::{name}")
        e = Entropy(L, fn)
        for b in fn.rpo:
            if b in fn.dead:
                continue
            for x in fn.blocks[b]:
                if x.op != "ret" or not x.j.get("a"):
                    continue
                res.states += len(fn.ins)
                res.oblige("generated value", f"{name}: every value of 64 bits is possible")
                v = e.val(x.j["a"][0], 64)
                n = 64 if v is None else e.entropy(v)
                if n < 64:
                    at = e.draws[-1] if e.draws else x
                    res.at("generated value", fn, at, f"{name}() gives one of at most 2^{n} values, not any value of 64 bits", key=name)



def sources(fn, t, seen):
    """the calls a value was computed from"""
    out = []
    for mono in t.m:
        for a in mono:
            if a.id in seen:
                continue
            seen.add(a.id)
            if a.k == "call" and a.p[-1] in fn.ins:
                out.append(fn.ins[a.p[-1]])
            for p in a.p:
                if isinstance(p, tm.T):
                    out += sources(fn, p, seen)
    return out


@rule("C43")
def rekeyed_salt(res, L):
    root = L["mid"].root("rekey")
    fn, vn = root.fn, root.vn
    res.funcs.add("nudb::rekey")
    n = 0
    for o in classify(root).values():
        if o.k == "write" and o.role == "kf" and o.a[1].is_const and o.a[1].const == 0:
            s = be(bytes_of(vn, o.x, o.a[2], 56)[28:36])
            if s is None:
                continue
            n += 1
            res.states += len(fn.ins)
            res.oblige("new salt", "the key file header written by rekey")
            calls = [x for x in sources(fn, s, set()) if not FIXED.search(x.j.get("qn") or "")]
            phi = any(a.k in ("phi", "sel", "ev") for mono in s.m for a in mono)
            if not calls and not phi:
                res.at("new salt", fn, o.x, "the salt of the new key file is not a generated value", key="rekey")
    if not n:
        raise AnchorError("rekey does not write a key file header with a known salt")
