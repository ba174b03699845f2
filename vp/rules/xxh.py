"""C40: the default hash function is XXH64.  The input is consumed by an automaton that knows the published algorithm (stripes of 32 bytes
while 32 are left, then words of 8, one of 4, single bytes); for each piece consumed, the values the function carries must be the
published round applied to the values it carried before, as normal forms of arithmetic modulo 2^64."""
from .. import ir, model
from .. import terms as tm
from ..ir import AnchorError, split_ptr
from .common import *
from .hashing import Reads, Address, incoming, DATA, LEN

W = 1 << 64
P1, P2, P3, P4, P5 = (11400714785074694791, 14029467366897019727, 1609587929392839161, 9650029242287828579, 2870177450012600261)


# ---------------------------------------------------------------- values: sums of atoms modulo 2^64; None is a constant's atom
class V:
    __slots__ = ("m", "h")
    made = {}

    def __new__(cls, m):
        k = frozenset((a, c % W) for a, c in m.items() if c % W)
        v = cls.made.get(k)
        if v is None:
            v = super().__new__(cls)
            v.m, v.h = dict(k), k
            cls.made[k] = v
        return v

    def max(self):
        s = 0
        for a, c in self.m.items():
            if c >= W // 2:
                return W - 1
            s += c * (1 if a is None else amax(a))
        return min(s, W - 1)

    def bits(self):
        """bits that may be set; sums whose parts do not overlap keep them apart"""
        r = 0
        for a, c in self.m.items():
            if a is None:
                b = c
            elif c & (c - 1) == 0:
                b = (amax_bits(a) * c) % W
            else:
                return span(self.max())
            if r & b:
                return span(self.max())
            r |= b
        return r


def span(n):
    return (1 << n.bit_length()) - 1


def amax(a):
    return amax_bits(a)


def amax_bits(a):
    if a[0] == "byte":
        return 255
    if a[0] == "shr":
        return span(a[1].max()) >> a[2]
    return W - 1


def K(c):
    return V({None: c})


def A(*a):
    return V({a: 1})


def add(*vs):
    m = {}
    for v in vs:
        for a, c in v.m.items():
            m[a] = m.get(a, 0) + c
    v = V(m)
    # (x << k) + (x >> 64 - k) is a rotation
    for a in v.m:
        if a is not None and a[0] == "shr" and v.m[a] == 1:
            k = 64 - a[2]
            if V({b: c for b, c in v.m.items() if b != a}) is mulc(a[1], 1 << k):
                return rot(a[1], k)
    return v


def mulc(v, c):
    return V({a: k * c for a, k in v.m.items()})


def mul(x, y):
    for p, q in ((x, y), (y, x)):
        if not q.m:
            return q
        if set(q.m) == {None}:
            return mulc(p, q.m[None])
    return A("mul", *sorted((x, y), key=id))


def shr(v, k):
    if k == 0:
        return v
    if set(v.m) <= {None}:
        return K(v.m.get(None, 0) >> k)
    if len(v.m) == 1:
        (a, c), = v.m.items()
        if c == 1 and a[0] == "and" and (a[2] | span((1 << k) - 1)) == W - 1:
            return shr(a[1], k)
        if c == 1 and a[0] == "shr":
            return shr(a[1], a[2] + k) if a[2] + k < 64 else K(0)
    return A("shr", v, k)


def rot(v, k):
    return v if k % 64 == 0 else A("rot", v, k % 64)


def xor(x, y):
    r = turned(x, y)
    if r is not None:
        return r
    s = set()
    c = 0
    for v in (x, y):
        parts = [v]
        if len(v.m) == 1:
            (a, k), = v.m.items()
            if a is not None and k == 1 and a[0] == "xor":
                parts = list(a[1])
        for p in parts:
            if set(p.m) <= {None}:
                c ^= p.m.get(None, 0)
            else:
                s ^= {p}
    if c:
        s.add(K(c))
    if not s:
        return K(0)
    if len(s) == 1:
        return next(iter(s))
    if x.bits() & y.bits() == 0:
        return add(x, y)
    return A("xor", frozenset(s))


def turned(x, y):
    """x << k and x >> 64 - k"""
    for p, q in ((x, y), (y, x)):
        if len(q.m) == 1:
            (a, c), = q.m.items()
            if a is not None and c == 1 and a[0] == "shr" and p is mulc(a[1], 1 << (64 - a[2])):
                return rot(a[1], 64 - a[2])
    return None


def or_(x, y):
    r = turned(x, y)
    if r is not None:
        return r
    if x.bits() & y.bits() == 0:
        return add(x, y)
    return A("or", *sorted((x, y), key=id))


def and_(x, y):
    for p, q in ((x, y), (y, x)):
        if set(q.m) == {None}:
            c = q.m[None]
            if p.bits() & ~c == 0:
                return p
            r = {}
            for a, k in p.m.items():          # disjoint parts are kept or dropped as a whole
                b = V({a: k}).bits()
                if b & ~c == 0:
                    r[a] = k
                elif b & c:
                    return A("and", p, c)
            if p.bits() != span(p.max()) or len(p.m) == 1:
                return V(r)
            return A("and", p, c)
    return A("and2", *sorted((x, y), key=id))


def byte(n):
    return A("byte", n)


def word(n, w):
    return add(*[mulc(byte(n + i), 1 << (8 * i)) for i in range(w)])


# ---------------------------------------------------------------- the published algorithm
def rnd(acc, x):
    return mulc(rot(add(acc, mulc(x, P2)), 31), P1)


def start(seed):
    return {"v1": add(seed, K(P1), K(P2)), "v2": add(seed, K(P2)), "v3": seed, "v4": add(seed, K(-P1))}


def stripe(s, n):
    return {f"v{i}": rnd(s[f"v{i}"], word(n + 8 * (i - 1), 8)) for i in (1, 2, 3, 4)}


def merged(s, n):
    h = add(rot(s["v1"], 1), rot(s["v2"], 7), rot(s["v3"], 12), rot(s["v4"], 18))
    for i in (1, 2, 3, 4):
        h = add(mulc(xor(h, rnd(K(0), s[f"v{i}"])), P1), K(P4))
    return {"h": add(h, n)}


def tail(s, n, w):
    h = s["h"]
    if w == 8:
        h = add(mulc(rot(xor(h, rnd(K(0), word(n, 8))), 27), P1), K(P4))
    elif w == 4:
        h = add(mulc(rot(xor(h, mulc(word(n, 4), P1)), 23), P2), K(P3))
    else:
        h = mulc(rot(xor(h, mulc(byte(n), P5)), 11), P1)
    return {"h": h}


def final(s):
    h = s["h"]
    h = mulc(xor(h, shr(h, 33)), P2)
    h = mulc(xor(h, shr(h, 29)), P3)
    return xor(h, shr(h, 32))


class Quiet:
    """C32 reports what it finds about the cursor; here it only means that the reads cannot be followed"""

    def __init__(self):
        self.states = 0
        self.msg = None

    def oblige(self, *a):
        pass

    def at(self, rule, fn, x, msg, **k):
        self.msg = self.msg or msg


class Walk(Reads):
    def __init__(self, res, fn, vn, adr):
        self.out = res
        super().__init__(Quiet(), fn, vn, adr)
        self.heads = {}

    def tell(self, x, msg):
        self.bad = True
        self.out.at("xxh64", self.fn, x, msg, key="xxh64 " + msg)

    def run(self):
        fn = self.fn
        seed = A("seed")
        for mode, lo, hi in (("s", 32, 1 << 63), ("t", 0, 31)):
            s0 = (frozenset({DATA}), frozenset(), lo, False, 0, 1, lo, hi)
            spec = start(seed) if mode == "s" else {"h": add(seed, K(P5), A("len"))}
            self.work = [(fn.rpo[0], s0, {}, (mode, spec, hi, 0, 0, 0, 0), {})]
            self.hdr = {"s": {}, "t": {}}
            self.heads = {}
            n = 0
            while self.work:
                n += 1
                if n > 3000:
                    raise AnchorError("the hash function has too many paths to follow")
                self.step(*self.work.pop())
                if self.bad:
                    return

    # state of the automaton: mode, values, most bytes left, next byte's number, bytes not yet consumed by it, least and most left before those
    def step(self, b, s, env, q, vals):
        fn, vn = self.fn, self.vn
        mode, spec, ub, num, pend, plo, phi_ = q
        vals = dict(vals)
        for x in fn.blocks[b]:
            if x.op != "phi":
                v = self.value(x, s, env, num, vals)
                if v is not None:
                    vals[x.id] = v
        avail, cur0 = s[2], s[0]
        s2 = self.block(b, s, env)
        if s2 is None:
            self.bad = True
            return
        # how far the cursor moved
        n = 0
        if s2[0] != cur0:
            ds = {tm.sub(c, d).const for c in s2[0] for d in cur0 if tm.sub(c, d).is_const}
            ns = [k for k in ds if all(tm.add(d, const(k)) in s2[0] for d in cur0)]
            if len(ns) != 1:
                raise AnchorError("cursor")
            n = ns[0]
        if n:
            if not pend:
                plo, phi_ = avail, ub
            num, pend, ub = num + n, pend + n, max(ub - n, 0)
        s = s2
        t = fn.blocks[b][-1]
        q = self.fire((mode, spec, ub, num, pend, plo, phi_), s)
        if t.op == "ret":
            mode, spec, ub, num, pend, plo, phi_ = q
            self.out.oblige("the value returned is the published one", fn.where(t) + " " + mode)
            if pend:
                self.tell(t, "bytes are taken in pieces of another size than XXH64's")
                return
            if mode != "t":
                self.tell(t, "the hash of a long input is returned without merging its lanes")
                return
            want, have = final(spec), self.get(t.j["a"][0], vals)
            if want is not have:
                self.tell(t, "the value returned is not XXH64's final mix of the state")
            return
        if t.op == "unreachable":
            return
        if t.op != "br":
            raise AnchorError(f"the hash function ends a block with {t.op}")
        l = vn.lit(t.j["cond"]) if "cond" in t.j else None
        for i, d in enumerate(t.j["succ"]):
            s3, q3 = s, q
            if l is not None and len(t.j["succ"]) == 2:
                if l in (True, False):
                    if l != (i == 0):
                        continue
                else:
                    s3 = self.cond(l, i == 0, s, env)
                    if s3 is None:
                        continue
                    u = self.upper(l, i == 0, s, env)
                    if u is not None:
                        if u < s3[2]:
                            continue
                        q3 = q[:2] + (min(q[2], u),) + q[3:]
            if s3[3]:
                q3 = q3[:2] + (0,) + q3[3:]
            if s3[2] > q3[2]:
                continue
            self.go(b, d, s3, env, self.fire(q3, s3), vals, t)
            if self.bad:
                return

    def upper(self, l, val, s, env):
        """most bytes left, if the condition says"""
        a, pos = l
        a = a.atom() if isinstance(a, tm.T) else a
        if a is None or a.k not in ("ult", "slt", "eq"):
            return None
        val = val == pos
        best = None
        if a.k == "eq":
            if not val:
                return None
            t = self.env(a.p[0] if len(a.p) < 2 or not isinstance(a.p[1], tm.T) else tm.sub(a.p[0], a.p[1]), env)
            for c in s[0]:
                d = tm.sub(self.end, c)
                for sg in (1, -1):
                    k = tm.sub(tm.scale(t, sg), d)
                    if k.is_const:
                        best = self.sgn(-k.const)
            return best
        x, y = self.env(a.p[0], env), self.env(a.p[1], env)
        x, y, strict = (x, y, 1) if val else (y, x, 0)
        for c in s[0]:
            d = tm.sub(self.end, c)
            k = tm.sub(tm.sub(x, y), d)
            if k.is_const:
                u = -strict - self.sgn(k.const)
                best = u if best is None else min(best, u)
        return best

    def fire(self, q, s):
        mode, spec, ub, num, pend, plo, phi_ = q
        while pend:
            at = num - pend
            if mode == "s":
                if plo >= 32 and pend >= 32:
                    spec, w = stripe(spec, at), 32
                elif phi_ < 32:
                    mode, spec = "t", merged(spec, A("len"))
                    continue
                else:
                    break
            elif plo >= 8 and pend >= 8:
                spec, w = tail(spec, at, 8), 8
            elif phi_ < 8 and plo >= 4 and pend >= 4:
                spec, w = tail(spec, at, 4), 4
            elif phi_ < 4:
                spec, w = tail(spec, at, 1), 1
            else:
                break
            pend, plo, phi_ = pend - w, max(plo - w, 0), max(phi_ - w, 0)
        if mode == "s" and not pend and ub < 32:
            mode, spec = "t", merged(spec, A("len"))
        return mode, spec, ub, num, pend, plo, phi_

    def go(self, b, d, s, env, q, vals, x):
        fn, vn = self.fn, self.vn
        mode, spec, ub, num, pend, plo, phi_ = q
        inc = {}
        for i in fn.blocks[d]:
            if i.op == "phi":
                for p, o in [(p, o) for p, o in i.j["in"]]:
                    if p == b:
                        inc[i.id] = self.get(o, vals)
        tmp = []
        hdr = self.hdr.setdefault(mode, {})
        before = dict(hdr)
        self.edge(b, d, s, env, hdr, tmp, x)
        if self.bad:
            return
        if d not in fn.loops:
            (d_, s_, env_), = tmp
            v2 = dict(vals)
            v2.update(inc)
            self.work.append((d, s_, env_, q, v2))
            return
        if pend:
            self.tell(x, "bytes are taken in pieces of another size than XXH64's")
            return
        # the state kept at the head of a loop
        body = fn.loops[d]
        if tmp:
            d_, s_, env_ = tmp[0]
            key = (d, tuple(sorted((a.id, t.id) for a, t in env_.items())))
        else:
            cands = [k for k in hdr if k[0] == d]
            e2 = [k for k in cands if k in before and self.same_env(k, b, d, env)]
            if len(e2) != 1:
                raise AnchorError("head")
            key = e2[0]
            s_, env_ = hdr[key], self.heads[(mode, key)][4]
        have = {i: v for i, v in vals.items() if i in fn.args_ids or (i in fn.ins and fn.ins[i].bb not in body)}
        have.update(inc)
        roles = {n: frozenset(i for i, v in have.items() if v is t) for n, t in spec.items()}
        old = self.heads.get((mode, key))
        self.out.oblige("the values carried around a loop are the published ones", fn.where(fn.blocks[d][0]) + " " + mode)
        if old is not None:
            r0, v0, u0 = old[:3]
            roles = {n: r0[n] & roles[n] for n in roles}
            ub = max(ub, u0)
            have = {i: v for i, v in have.items() if i in v0 and (v0[i] is v)}
        if any(not r for r in roles.values()):
            n = sorted(n for n, r in roles.items() if not r)[0]
            self.tell(x, "after a piece of the input, the hash state carried on is not XXH64's")
            return
        st = (roles, {i: v for i, v in have.items() if i not in inc}, ub, s_, env_)
        if old is not None and old[0] == roles and old[1] == st[1] and old[2] == ub and not tmp:
            return
        self.heads[(mode, key)] = st
        v2 = dict(st[1])
        sp = {}
        for n, r in roles.items():
            sp[n] = A("sym", d, n, mode)
            for i in r:
                v2[i] = sp[n]
        for i in inc:
            if i not in v2:
                v2[i] = A("opq", i)
        self.work.append((d, s_, env_, (mode, sp, ub, 0, 0, 0, 0), v2))

    def same_env(self, k, b, d, env):
        fn, vn = self.fn, self.vn
        body = fn.loops[d]
        e = {a: t for a, t in env.items() if not (a.p and isinstance(a.p[-1], int) and a.p[-1] in fn.ins and fn.ins[a.p[-1]].bb in body)}
        return k[1] == tuple(sorted((a.id, t.id) for a, t in e.items()))

    # ------------------------------------------------------------ values of instructions
    def get(self, o, vals):
        if o.get("k") == "c" or "v" not in o:
            t = self.vn.op(o)
            return K(t.const) if t.is_const else A("opq", str(o))
        if o["v"] in vals:
            return vals[o["v"]]
        t = self.vn.op(o)
        if t is not None and t.is_const:
            return K(t.const)
        return A("opq", o["v"])

    def value(self, x, s, env, num, vals):
        vn = self.vn
        if x.op == "store" or x.op == "br" or x.op == "ret" or x.op == "getelementptr":
            return None
        t = vn.t.get(x.id)
        if t is not None and t.is_const:
            return K(t.const)
        w = x.j.get("bits") or width(x)
        if x.op == "load":
            p = vn.op(x.j["a"][0])
            if self.adr.of(p) != 1:
                return A("opq", x.id)
            p = self.env(p, env)
            off = [tm.sub(p, c).const for c in s[0] if tm.sub(p, c).is_const]
            if not off:
                return A("opq", x.id)
            return word(num + off[0], x.j["size"])
        a = [self.get(o, vals) for o in x.j.get("a") or []]
        full = w == 64

        def cut(v):
            return v if w is not None and v.max() < 1 << w else A("opq", x.id)
        if x.op == "add":
            return cut(add(*a))
        if x.op == "sub":
            return add(a[0], mulc(a[1], -1)) if full else A("opq", x.id)
        if x.op == "mul":
            return cut(mul(*a))
        if x.op == "shl" and set(a[1].m) <= {None}:
            return cut(mulc(a[0], 1 << a[1].m.get(None, 0)))
        if x.op == "lshr" and set(a[1].m) <= {None}:
            return shr(a[0], a[1].m.get(None, 0))
        if x.op == "udiv" and set(a[1].m) == {None} and a[1].m[None] & (a[1].m[None] - 1) == 0:
            return shr(a[0], a[1].m[None].bit_length() - 1)
        if x.op == "or":
            return or_(*a)
        if x.op == "xor":
            return xor(*a)
        if x.op == "and":
            return and_(*a)
        if x.op in ("zext", "freeze"):
            return a[0]
        if x.op == "trunc" and w:
            return a[0] if a[0].max() < 1 << w else A("opq", x.id)
        if x.op in ("call", "invoke"):
            q = x.j.get("qn") or ""
            c = a[2].m.get(None, 0) if len(a) > 2 and set(a[2].m) <= {None} else None
            if q.startswith("llvm.fshl.i64") and a[0] is a[1] and c is not None:
                return rot(a[0], c)
            if q.startswith("llvm.fshr.i64") and a[0] is a[1] and c is not None:
                return rot(a[0], 64 - c)
        return A("opq", x.id)


def width(x):
    ty = str(x.ty or "")
    return int(ty[1:]) if ty[:1] == "i" and ty[1:].isdigit() else None


@rule("C40", "default hash is XXH64")
def xxh64(res, L):
    fn = L["hash"].fn(r"vp::m_hash\(")
    vn = ir.VN(fn, effects=model.effects)
    res.funcs.add("nudb::xxhasher::operator()")
    fn.args_ids = {a["id"] for a in fn.args}
    w = Walk(res, fn, vn, Address(fn, vn))
    seed, length = fn.args[0]["id"], fn.args[2]["id"]
    base = {seed: A("seed"), length: A("len")}
    get0 = w.get

    def get(o, vals):
        if o.get("v") in base and o.get("v") not in vals:
            return base[o["v"]]
        return get0(o, vals)
    w.get = get
    try:
        w.run()
    except AnchorError as e:
        res.notes.append(f"the hash function cannot be followed: {e}")
        return
    if w.bad and w.res.msg and not res.violations:
        res.notes.append(f"the reads of the hash function cannot be followed: {w.res.msg}")


@rule("C40", "hash stored for a key")
def stored(res, L):
    h = L["hash"]
    for name in ("m_key_salt", "m_key_hasher"):
        fn = h.fn(rf"vp::{name}\(")
        vn = ir.VN(fn, effects=model.effects)
        res.funcs.add("nudb::detail::hash")
        ops = [x for b in fn.rpo for x in fn.blocks[b] if x.op in ("call", "invoke") and (x.j.get("qn") or "") == "vp::hasher::operator()"]
        if len(ops) != 1:
            res.notes.append(f"{name[2:]} does not apply the hash function once")
            continue
        w = Walk(res, fn, vn, None)
        vals = {ops[0].id: A("H")}
        for b in fn.rpo:
            for x in fn.blocks[b]:
                if x.op == "ret":
                    res.oblige("upper 48 bits of the hash function's value", fn.where(x))
                    if w.get(x.j["a"][0], vals) is not shr(A("H"), 16):
                        res.at("stored hash", fn, x, "the hash stored for a key is not the upper 48 bits of the hash function's value")
                elif x.op not in ("phi", "load") and x.id not in vals:
                    v = w.value(x, None, {}, 0, vals)
                    if v is not None:
                        vals[x.id] = v
