"""C32: the default hash function reads every byte of its input once and nothing else, lets every byte and the salt take part in
the result, and does not depend on where the input lies; keys and salts are hashed in one way only."""
import re
from .. import ir, model
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import AnchorError, split_ptr
from .common import *

DATA, LEN = atom("arg", 1), atom("arg", 2)
DEEP = 200
COMM = {"or", "xor", "and", "min", "max", "eq", "or_", "and_", "xor_"}


class Mixed(Exception):
    pass


def ins_of(fn, a):
    return fn.ins.get(a.p[-1]) if a.p and isinstance(a.p[-1], int) else None


def incoming(fn, vn, x):
    return [(p, vn.op(v)) for p, v in x.j["in"] if p in fn.rpon and p not in fn.dead]


class Address:
    """how values depend on the address of the input: degree 1 = address plus something, 0 = not at all, None = in another way"""

    def __init__(self, fn, vn):
        self.fn, self.vn = fn, vn
        self.phi = {}
        phis = [x for b in fn.rpo for x in fn.blocks[b] if x.op == "phi" and x.id in vn.t]
        for _ in range(len(phis) + 2):
            ch = False
            for x in phis:
                ds = [self.of(t) for p, t in incoming(fn, vn, x)]
                known = [d for d in ds if d != "?"]
                d = "?" if not known else known[0] if all(k == known[0] for k in known) else None
                a = vn.t[x.id].atom()
                if a is not None and self.phi.get(a, "?") != d:
                    self.phi[a] = d
                    ch = True
            if not ch:
                break

    def of(self, t):
        s = 0
        for m, c in t.m.items():
            ds = [self.atom(a) for a in m]
            if "?" in ds:
                return "?"
            if any(d is None for d in ds):
                return None
            if len(m) > 1 and any(ds):
                return None
            s += c * sum(ds)
        return s if s in (0, 1) else None

    def atom(self, a):
        if a.k == "arg":
            return 1 if a.p[0] == 1 else 0
        if a.k == "phi":
            return self.phi.get(a, "?")
        if a.k in ("ld", "call", "k", "undef", "alloca"):
            return 0
        r = 0
        for q in a.p:
            if isinstance(q, T):
                d = self.of(q)
                if d == "?":
                    return "?"
                if d != 0:
                    r = None
        return r

    def lit(self, a):
        """whether a condition is independent of the address"""
        if a.k in ("eq", "ult", "slt") and len(a.p) >= 2 and all(isinstance(q, T) for q in a.p[:2]):
            x, y = self.of(a.p[0]), self.of(a.p[1])
            return x is not None and x == y
        if a.k == "eq":
            return self.of(a.p[0]) == 0
        return all(self.of(q) == 0 for q in a.p if isinstance(q, T))


class Same:
    """two pieces of a function compute the same: block by block, under a renaming of their loop and merge variables"""

    def __init__(self, fn, vn):
        self.fn, self.vn = fn, vn
        self.phi = {}           # variable of the first piece -> variable of the second
        self.ids = {}
        self.why = None

    def key(self, t, first):
        if not isinstance(t, T):
            return ("x", str(t))
        k = ("t", frozenset((tuple(sorted(self.akey(a, first) for a in m)), c) for m, c in t.m.items()))
        return self.ids.setdefault(k, len(self.ids))

    def akey(self, a, first):
        if a.k == "phi":
            b = self.phi.get(a) if first else None
            k = ("phi", (b or a).id)
        elif a.k == "ld":
            k = ("ld", self.key(a.p[0], first), a.w)
        else:
            sub = [self.key(q, first) for q in a.p]
            if a.k in COMM:
                sub = sorted(sub, key=str)
            k = (a.k, tuple(sub), a.w)
        return self.ids.setdefault(k, len(self.ids))

    def lit(self, l, first):
        if l in (True, False):
            return l
        a, v = l
        a = a.atom() if isinstance(a, T) else a
        return self.akey(a, first), v

    def run(self, frm, x, y):
        fn, vn = self.fn, self.vn
        work, done = [(frm, frm, x, y)], set()
        while work:
            pa, pb, a, b = work.pop(0)
            ax = [i for i in fn.blocks[a] if i.op == "phi"]
            bx = [i for i in fn.blocks[b] if i.op == "phi"]
            va = {i: t for i in ax for p, t in incoming(fn, vn, i) if p == pa}
            vb = {i: t for i in bx for p, t in incoming(fn, vn, i) if p == pb}
            if a == b:
                for i in ax:
                    if self.key(va[i], True) != self.key(vb[i], False):
                        self.why = fn.where(i)
                        return False
                continue
            if len(ax) != len(bx):
                self.why = fn.where(fn.blocks[a][0])
                return False
            if (a, b) in done:
                for i in ax:
                    j = self.vn_phi(i)
                    k = [q for q in bx if vn.t[q.id].atom() is j]
                    if not k or self.key(va[i], True) != self.key(vb[k[0]], False):
                        self.why = fn.where(i)
                        return False
                continue
            if any(p[0] == a or p[1] == b for p in done):
                self.why = fn.where(fn.blocks[a][-1])
                return False
            done.add((a, b))
            free = list(bx)
            for i in ax:
                k = [q for q in free if self.key(va[i], True) == self.key(vb[q], False) and q.ty == i.ty]
                if not k:
                    self.why = fn.where(i)
                    return False
                free.remove(k[0])
                self.phi[vn.t[i.id].atom()] = vn.t[k[0].id].atom()
            s, t = fn.blocks[a][-1], fn.blocks[b][-1]
            if s.op != t.op:
                self.why = fn.where(s)
                return False
            if s.op == "ret":
                if self.key(vn.op(s.j["a"][0]), True) != self.key(vn.op(t.j["a"][0]), False):
                    self.why = fn.where(s)
                    return False
                continue
            if s.op != "br" or ("cond" in s.j) != ("cond" in t.j):
                self.why = fn.where(s)
                return False
            sa, sb = s.j["succ"], t.j["succ"]
            if "cond" in s.j:
                l, r = self.lit(vn.lit(s.j["cond"]), True), self.lit(vn.lit(t.j["cond"]), False)
                if l != r:
                    if l in (True, False) or r in (True, False) or l[0] != r[0]:
                        self.why = fn.where(s)
                        return False
                    sb = sb[::-1]
            for p, q in zip(sa, sb):
                work.append((a, b, p, q))
        return True

    def vn_phi(self, i):
        return self.phi.get(self.vn.t[i.id].atom())


class Reads:
    """cursor analysis: the bytes are read in order, each once, none beyond the end, and all of them before the return"""

    def __init__(self, res, fn, vn, adr):
        self.res, self.fn, self.vn, self.adr = res, fn, vn, adr
        self.end = tm.add(DATA, LEN)
        self.bad = False

    def fail(self, x, msg):
        self.bad = True
        self.res.at("hash reads", self.fn, x, msg)

    def env(self, t, env):
        out = t
        for a in list(t.atoms()):
            if a in env:
                lin = all(m.count(a) <= 1 and (a not in m or len(m) == 1) for m in t.m)
                if not lin:
                    continue
                c = out.m.get((a,), 0)
                if c:
                    out = tm.add(tm.sub(out, tm.mk({(a,): c})), tm.scale(env[a], c))
        return out

    def run(self, start=None):
        fn = self.fn
        hdr = {}
        # state: (cursor terms, read ahead, avail, done, residue, aligned, least and greatest length)
        s0 = (frozenset({DATA}), frozenset(), 0, False, 0, 1, 0, 1 << 63)
        work = [(fn.rpo[0], s0, {})]
        seen = set()
        n = 0
        while work:
            b, s, env = work.pop()
            n += 1
            if n > 4000:
                raise AnchorError("the hash function has too many paths to follow")
            k = (b, s, tuple(sorted((a.id, t.id) for a, t in env.items())))
            if k in seen:
                continue
            seen.add(k)
            s = self.block(b, s, env)
            if s is None:
                continue
            t = fn.blocks[b][-1]
            if t.op == "ret":
                self.res.oblige("every byte has been read at the return", fn.where(t))
                if not s[3] or s[1]:
                    self.fail(t, "the hash is returned before every byte of the input was read")
                continue
            if t.op == "br":
                l = self.vn.lit(t.j["cond"]) if "cond" in t.j else None
                succ = t.j["succ"]
                for i, d in enumerate(succ):
                    s2 = s
                    if l is not None and len(succ) == 2:
                        if l in (True, False):
                            if l != (i == 0):
                                continue
                        else:
                            s2 = self.cond(l, i == 0, s, env)
                            if s2 is None:
                                continue
                    self.edge(b, d, s2, env, hdr, work, t)
            elif t.op == "unreachable":
                continue
            else:
                raise AnchorError(f"the hash function ends a block with {t.op}")
        self.res.states += len(seen)

    def block(self, b, s, env):
        cur, ahead, avail, done, res_, al, lo, hi = s
        fn, vn = self.fn, self.vn
        for x in fn.blocks[b]:
            if x.op == "load":
                p = vn.op(x.j["a"][0])
                d = self.adr.of(p)
                base, o = split_ptr(p)
                if d == 0 and base is not None and base.k == "alloca":
                    continue
                if d == 0 and base is not None and base.k == "g" and fn.mod.globals.get(base.p[0], {}).get("const"):
                    continue
                if d != 1:
                    self.fail(x, "the hash depends on memory outside the input")
                    return None
                p = self.env(p, env)
                off = [tm.sub(p, c).const for c in cur if tm.sub(p, c).is_const]
                self.res.oblige("bytes read in order and within the input", fn.where(x))
                if not off:
                    self.fail(x, "bytes of the input are skipped or read twice")
                    return None
                off, w = off[0], x.j["size"]
                if off < 0 or any(off < hi and lo < off + w for lo, hi in ahead):
                    self.fail(x, "bytes of the input are read twice")
                    return None
                if off + w > avail:
                    self.fail(x, "bytes beyond the end of the input are read")
                    return None
                a = x.j.get("align", 1)
                if a > 1 and not (al >= a and res_ is not None and (res_ + off) % a == 0):
                    self.fail(x, "an aligned load is made from an address that may not be aligned")
                    return None
                ahead = ahead | {(off, off + w)}
            elif x.op in ("call", "invoke"):
                q = x.j.get("qn") or ""
                if not re.match(r"llvm\.(lifetime|dbg|fsh|bswap|memcpy|assume|experimental\.noalias)", q):
                    self.fail(x, "the hash depends on something else than its arguments")
                    return None
                if q.startswith("llvm.memcpy"):
                    self.fail(x, "bytes of the input are copied to where they cannot be followed")
                    return None
            elif x.op == "store":
                base, o = split_ptr(vn.op(x.j["a"][1]))
                if base is None or base.k != "alloca":
                    self.fail(x, "the hash function writes to memory")
                    return None
        # move the cursor over what was read
        n = 0
        while True:
            k = [q for q in ahead if q[0] == n]
            if not k:
                break
            ahead = ahead - {k[0]}
            n = k[0][1]
        if n:
            cur = frozenset(tm.add(c, const(n)) for c in cur)
            ahead = frozenset((lo - n, hi - n) for lo, hi in ahead)
            avail -= n
            done = False
            res_ = None if res_ is None else (res_ + n) % 64
        return cur, ahead, avail, done, res_, al, lo, hi

    def cond(self, l, val, s, env):
        cur, ahead, avail, done, res_, al, lo, hi = s
        a, pos = l
        a = a.atom() if isinstance(a, T) else a
        if a is None:
            return s
        val = val == pos
        if a.k == "eq":
            t = self.env(a.p[0] if len(a.p) < 2 or not isinstance(a.p[1], T) else tm.sub(a.p[0], a.p[1]), env)
            q = t.atom()
            if q is not None and q.k == "trunc" and q.p[0] is DATA and val:
                return cur, ahead, avail, done, res_, max(al, 1 << q.p[1]), lo, hi
            for sg in (1, -1):
                k = tm.sub(tm.scale(t, sg), LEN)
                if k.is_const and val:
                    k = self.sgn(-k.const)
                    if not lo <= k <= hi:
                        return None
                    lo = hi = k
            for c in cur:
                d = tm.sub(self.end, c)
                for sg in (1, -1):
                    k = tm.sub(tm.scale(t, sg), d)
                    if k.is_const:
                        k = self.sgn(-k.const)          # d == k
                        if val:
                            if k < avail:
                                return None
                            return cur, ahead, max(avail, k), k <= 0, res_, al, lo, hi
                        if k == avail:
                            return cur, ahead, avail + 1, False, res_, al, lo, hi
            return s
        if a.k in ("ult", "slt"):
            x, y = self.env(a.p[0], env), self.env(a.p[1], env)
            if not val:
                x, y, strict = y, x, 0
            else:
                strict = 1
            # x + strict <= y
            k = tm.sub(tm.sub(y, x), LEN)
            if k.is_const:
                lo = max(lo, strict - self.sgn(k.const))
            k = tm.sub(tm.sub(x, y), LEN)
            if k.is_const:
                hi = min(hi, -strict - self.sgn(k.const))
            if lo > hi:
                return None
            for c in cur:
                d = tm.sub(self.end, c)
                k = tm.sub(tm.sub(y, x), d)
                if k.is_const:                            # y - x = d + k  =>  d >= strict - k
                    avail = max(avail, strict - self.sgn(k.const))
                k = tm.sub(tm.sub(x, y), d)
                if k.is_const:                            # x - y = d + k  =>  d <= -strict - k
                    u = -strict - self.sgn(k.const)
                    if u < avail:
                        return None
                    done = done or u <= 0
            return cur, ahead, avail, done, res_, al, lo, hi
        return s

    @staticmethod
    def sgn(c):
        c %= 1 << 64
        return c - (1 << 64) if c >> 63 else c

    def edge(self, b, d, s, env, hdr, work, x):
        fn, vn = self.fn, self.vn
        cur, ahead, avail, done, res_, al, lo, hi = s
        env2 = dict(env)
        ph = [i for i in fn.blocks[d] if i.op == "phi" and i.id in vn.t]
        vals = {}
        for i in ph:
            for p, t in incoming(fn, vn, i):
                if p == b:
                    vals[vn.t[i.id].atom()] = self.env(t, env)
        if d not in fn.loops:
            for a, t in vals.items():
                env2[a] = t
            work.append((d, s, env2))
            return
        if ahead:
            self.fail(x, "bytes of the input are skipped")
            return
        mine = set(vals)
        body = fn.loops[d]
        # values of the previous iteration no longer mean anything
        for a in list(env2):
            i = ins_of(fn, a)
            if i is not None and i.bb in body:
                del env2[a]

        def stable(t):
            for q in tm.walk(t, set()):
                if q in mine:
                    return False
                i = ins_of(fn, q) if q.k in ("phi", "ld", "call") else None
                if i is not None and i.bb in body:
                    return False
            return True
        new = {c for c in cur if stable(c)}
        for c in cur:
            for a, v in vals.items():
                me = tm.mk({(a,): 1})
                for t in (tm.add(me, tm.sub(c, v)), tm.sub(tm.add(c, v), me)):
                    r = tm.sub(t, me) if t.m.get((a,)) == 1 else tm.add(t, me)
                    if stable(r):
                        new.add(t)
        env2k = tuple(sorted((a.id, t.id) for a, t in env2.items()))
        k = (d, env2k)
        prev = hdr.get(k)
        st = (frozenset(new), frozenset(), avail, done, None if res_ is None else res_ % 8, al, lo, hi)
        if prev is not None:
            j = prev[0] & st[0]
            st = (frozenset(j), frozenset(), min(prev[2], st[2]), prev[3] and st[3], prev[4] if prev[4] == st[4] else None, min(prev[5], st[5]),
                  min(prev[6], st[6]), max(prev[7], st[7]))
            if st == prev:
                return
        if not st[0] or st[2] < 0:
            self.fail(x, "bytes of the input are skipped or read twice")
            return
        hdr[k] = st
        work.append((d, st, env2))


class Part:
    """whether a value definitely keeps its influence until the function returns, through operations that lose nothing of it"""

    def __init__(self, fn, vn):
        self.fn, self.vn = fn, vn

    def carries(self, x, have):
        """the instruction's result is changed by every change of a value in have (the others kept)"""
        a = x.j.get("a") or []
        ids = [o["v"] if o["k"] == "v" else None for o in a]
        fn = self.fn
        if x.op in ("add", "sub", "xor"):
            return any(i in have for i in ids)
        if x.op == "mul":
            return any(i in have for i in ids) and any(o["k"] == "c" and o["v"] % 2 for o in a)
        if x.op in ("zext", "sext", "bitcast", "freeze"):
            return ids[0] in have
        if x.op == "or":
            d = [fn.ins.get(i) for i in ids]
            if all(q is not None for q in d) and {q.op for q in d} == {"shl", "lshr"}:
                s = [q.j["a"] for q in d]
                if s[0][0] == s[1][0] and all(q[1]["k"] == "c" for q in s) and s[0][1]["v"] + s[1][1]["v"] == s[0][1]["w"]:
                    return s[0][0]["k"] == "v" and s[0][0]["v"] in have
            return False
        if x.op in ("call", "invoke"):
            q = x.j.get("qn") or ""
            if re.match(r"llvm\.fsh[lr]", q):
                return ids[0] in have and a[0] == a[1]
            return q.startswith("llvm.bswap") and ids[0] in have
        if x.op == "select":
            return ids[1] in have and ids[2] in have
        return False

    def lost(self, load):
        """the return reached without the influence of the load (or of the argument), or None"""
        fn = self.fn
        inn = {}
        work = []

        def through(b, have, i0):
            for x in fn.blocks[b][i0:]:
                if x.op == "phi":
                    continue
                if x is load:
                    have.discard(x.id)
                elif self.carries(x, have):
                    have.add(x.id)
                else:
                    have.discard(x.id)
            return have
        bad = []

        def out(b, have):
            t = fn.blocks[b][-1]
            if t.op == "ret":
                o = t.j["a"][0]
                if o["k"] != "v" or o["v"] not in have:
                    bad.append(t)
                return
            for d in t.j.get("succ", ()):
                if d not in fn.rpon or d in fn.dead:
                    continue
                h = {i for i in have}
                for x in fn.blocks[d]:
                    if x.op == "phi":
                        h.discard(x.id)
                for x in fn.blocks[d]:
                    if x.op == "phi":
                        for p, v in x.j["in"]:
                            if p == b and v["k"] == "v" and v["v"] in have:
                                h.add(x.id)
                n = frozenset(h) if d not in inn else inn[d] & h
                if inn.get(d) != n:
                    inn[d] = n
                    work.append(d)
        if isinstance(load, int):
            out(fn.rpo[0], through(fn.rpo[0], {load}, 0))
        else:
            b = load.bb
            out(b, through(b, {load.id}, fn.blocks[b].index(load) + 1))
        while work:
            b = work.pop()
            out(b, through(b, set(inn[b]), 0))
        # the meet over all paths: only the last word on each block counts
        final = []
        for b in fn.rpo:
            t = fn.blocks[b][-1]
            if t.op == "ret" and (b in inn):
                h = through(b, set(inn[b]), 0)
                o = t.j["a"][0]
                if o["k"] != "v" or o["v"] not in h:
                    final.append(t)
        if not inn and bad:
            final = bad
        return final[0] if final else None


@rule("C32", "default hash function")
def default_hash(res, L):
    h = L["hash"]
    fn = h.fn(r"vp::m_hash\(")
    vn = ir.VN(fn, effects=model.effects)
    res.funcs.add("nudb::xxhasher::operator()")
    adr = Address(fn, vn)
    # decisions that depend on the address
    for b in fn.rpo:
        if b in fn.dead:
            continue
        t = fn.blocks[b][-1]
        if t.op == "ret":
            if adr.of(vn.op(t.j["a"][0])) != 0:
                res.at("address independence", fn, t, "the hash depends on the address of the input")
        if t.op not in ("br", "switch") or "cond" not in t.j:
            continue
        l = vn.lit(t.j["cond"]) if t.op == "br" else None
        if l in (True, False):
            continue
        a = (l[0].atom() if isinstance(l[0], T) else l[0]) if l is not None else None
        res.oblige("decision independent of the address", fn.where(t))
        if a is None or adr.lit(a):
            continue
        s = Same(fn, vn)
        res.oblige("both sides of a decision on the address compute the same", fn.where(t))
        if not s.run(b, *t.j["succ"]):
            res.at("address independence", fn, t, "the hash depends on the address of the input: the two ways it is computed differ at "
                   + str(s.why), key="address " + fn.where(t))
    for b in fn.rpo:
        for x in fn.blocks[b]:
            if x.op == "select":
                l = vn.lit(x.j["a"][0])
                a = l[0] if l not in (True, False) else None
                if a is not None and not adr.lit(a.atom() if isinstance(a, T) else a):
                    res.at("address independence", fn, x, "the hash depends on the address of the input")
    r = Reads(res, fn, vn, adr)
    r.run()
    part = Part(fn, vn)
    for b in fn.rpo:
        if b in fn.dead:
            continue
        for x in fn.blocks[b]:
            if x.op == "load" and adr.of(vn.op(x.j["a"][0])) == 1:
                res.oblige("bytes read take part in the result", fn.where(x))
                t = part.lost(x)
                if t is not None:
                    res.at("hash input", fn, x, "bytes that are read do not fully take part in the hash")
    res.oblige("the salt takes part in the result")
    if part.lost(fn.args[0]["id"]) is not None:
        res.at("hash input", fn, fn.blocks[fn.rpo[0]][-1], "the salt does not take part in the hash")


@rule("C32", "hash of keys and salts")
def keys(res, L):
    h = L["hash"]
    made = {}
    for name in ("m_key_salt", "m_key_hasher", "m_pepper"):
        fn = h.fn(rf"vp::{name}\(")
        vn = ir.VN(fn, effects=model.effects)
        res.funcs.add({"m_pepper": "nudb::detail::pepper"}.get(name, "nudb::detail::hash"))
        ret = [x for b in fn.rpo for x in fn.blocks[b] if x.op == "ret"]
        cs = [x for b in fn.rpo for x in fn.blocks[b] if x.op in ("call", "invoke") and (x.j.get("qn") or "").startswith("vp::hasher::")]
        ops = [x for x in cs if x.j["qn"] == "vp::hasher::operator()"]
        ctor = [x for x in cs if x.j["qn"] == "vp::hasher::hasher"]
        res.oblige("hash function applied once to the whole input", name)
        if len(ops) != 1 or len(ret) != 1 or len(fn.rpo) != 1:
            raise AnchorError(f"{name[2:]} does not apply the hash function exactly once")
        a = vn.callargs[ops[0].id]
        salt = {"m_key_salt": atom("arg", 2), "m_pepper": atom("arg", 0)}.get(name)
        if salt is None:
            if ctor or a[0] is not atom("arg", 2):
                res.at("hash of keys", fn, ops[0], "a key is not hashed with the hash object given")
        elif len(ctor) != 1 or vn.callargs[ctor[0].id][1] is not salt or vn.callargs[ctor[0].id][0] is not a[0]:
            res.at("hash of keys", fn, ops[0], "the hash object is not made from the salt")
        if name == "m_pepper":
            mem = vn.mem_at(ops[0])
            if a[2] is not const(8) or any(vn.byte_at(mem, a[1], k) is not tm.byte(salt, k) for k in range(8)):
                res.at("pepper", fn, ops[0], "the pepper is not the hash of the eight bytes of the salt")
            if vn.op(ret[0].j["a"][0]) is not vn.t[ops[0].id]:
                res.at("pepper", fn, ret[0], "the pepper is not the hash of the salt")
            continue
        if a[1] is not atom("arg", 0) or a[2] is not atom("arg", 1):
            res.at("hash of keys", fn, ops[0], "not the whole key is hashed")
        t = vn.op(ret[0].j["a"][0])
        c = vn.t[ops[0].id].atom()
        made[name] = (tm.show(t).replace(tm.show(vn.t[ops[0].id]), "H"), fn, ret[0])
        if not tm.contains(t, lambda q: q is c):
            res.at("hash of keys", fn, ret[0], "the hash of a key is not the value of the hash function")
    if len({v[0] for v in made.values()}) > 1:
        fn, x = made["m_key_hasher"][1:]
        res.at("hash of keys", fn, x, "the two ways to hash a key take different bits of the hash function's value")
