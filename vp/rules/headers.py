"""Names for values that come from the file headers, and what a path has established about them.

A value is (header, field) with header in dh, kh, lh: either decoded big-endian from a read of that file's
first bytes at the documented offset, or loaded from a place in memory only such values are stored to."""
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import split_ptr, AnchorError
from .common import *

# documented file layout: field -> (offset, bytes)
FILE = {
    "dh": {"type": (0, 8), "version": (8, 2), "uid": (10, 8), "appnum": (18, 8), "key_size": (26, 2)},
    "kh": {"type": (0, 8), "version": (8, 2), "uid": (10, 8), "appnum": (18, 8), "key_size": (26, 2), "salt": (28, 8),
           "pepper": (36, 8), "block_size": (44, 2), "load_factor": (46, 2)},
    "lh": {"type": (0, 8), "version": (8, 2), "uid": (10, 8), "appnum": (18, 8), "key_size": (26, 2), "salt": (28, 8),
           "pepper": (36, 8), "block_size": (44, 2), "key_file_size": (46, 8), "dat_file_size": (54, 8)},
}
SIZE = {"dh": 92, "kh": 104, "lh": 62}
LITERAL = {"dh": b"nudb.dat", "kh": b"nudb.key", "lh": b"nudb.log"}
ROLE = {"df": "dh", "kf": "kh", "lf": "lh"}
TYPENAME = {"dh": "dat_file_header", "kh": "key_file_header", "lh": "log_file_header"}


class Names:
    def __init__(self, root):
        self.root, self.fn, self.vn, self.L = root, root.fn, root.vn, root.lib
        self.ops = classify(root)
        self.reads = {}                 # id of a header read -> header
        for i, o in self.ops.items():
            if o.k == "read" and o.a[1].is_const and o.a[1].const == 0 and o.role in ROLE:
                self.reads[i] = ROLE[o.role]
        self.st = {}                    # base atom -> [(offset, size, ins, value term | (source term, length))]
        for b in self.fn.rpo:
            if b in self.fn.dead:
                continue
            for x in self.fn.blocks[b]:
                if x.op == "store" and x.id in self.vn.memat:
                    bs, o = split_ptr(self.vn.memat[x.id])
                    if bs is not None and o.is_const:
                        self.st.setdefault(bs, []).append((o.const, x.j["size"], x, self.vn.op(x.j["a"][0])))
                elif x.op in ("call", "invoke"):
                    q = x.j.get("qn") or x.j.get("callee") or ""
                    a = self.vn.callargs.get(x.id)
                    if a and (q.startswith("llvm.memcpy") or q.startswith("llvm.memmove") or q in ("memcpy", "memmove")) \
                            and a[2].is_const:
                        bs, o = split_ptr(a[0])
                        if bs is not None and o.is_const:
                            self.st.setdefault(bs, []).append((o.const, a[2].const, x, (a[1],)))
        self.memo = {}
        self.ldmemo = None
        self.loc = {}
        self.off = {}
        for h, n in TYPENAME.items():
            t = self.L.mod.type(n, "nudb::detail")
            self.off[h] = {p: (o, s) for o, s, p, ty in self.L.mod.fields(t)}
        self.objs = {}                  # (base atom, offset) of a header object -> header
        for bs, l in self.st.items():
            for o, s, x, v in l:
                for h in FILE:
                    k = o - self.off[h]["uid"][0]
                    if not isinstance(v, tuple) and self.name(v) == (h, "uid"):
                        self.objs[(bs, k)] = h
        ch = True
        while ch:
            ch = False
            for bs, l in self.st.items():
                for o, s, x, v in l:
                    if isinstance(v, tuple):
                        sb, so = split_ptr(v[0])
                        if sb is None or not so.is_const:
                            continue
                        for (b2, k), h in list(self.objs.items()):
                            if b2 is sb and so.const <= k < so.const + s and (bs, o + k - so.const) not in self.objs:
                                self.objs[(bs, o + k - so.const)] = h
                                ch = True
        self.memo.clear()
        self.loc.clear()

    def byte(self, call, k, n=1):
        """(header, field) whose big-endian bytes are file bytes k.. of a header read"""
        h = self.reads.get(call)
        if h is None:
            return None
        for f, (o, w) in FILE[h].items():
            if o == k and w == n:
                return (h, f)
        return None

    def name(self, t):
        """('dh'|'kh'|'lh', field), ('size', role) or None"""
        if t is None:
            return None
        if t.id in self.memo:
            return self.memo[t.id]
        self.memo[t.id] = None
        r = self._name(t)
        self.memo[t.id] = r
        return r

    def _name(self, t):
        bp = tm.bytes_poly(t)
        if bp:
            n = max(bp) + 1
            if len(bp) == n and all(a.k == "fbyte" for a in bp.values()):
                a = bp[n - 1]
                k0 = a.p[1]
                if k0.is_const and all(bp[j].p[0] == a.p[0] and bp[j].p[1] is const(k0.const + n - 1 - j) for j in bp):
                    return self.byte(a.p[0], k0.const, n)
                a = bp[0]
                k0 = a.p[1]
                if k0.is_const and all(bp[j].p[0] == a.p[0] and bp[j].p[1] is const(k0.const + j) for j in bp):
                    r = self.byte(a.p[0], k0.const, n)
                    if r is not None and r[1] == "type":
                        return r            # copied as it is
        a = t.atom()
        if a is None:
            return None
        if a.k == "call":
            o = self.ops.get(a.p[-1])
            if o is not None and o.k == "size":
                return ("size", o.role)
            return None
        if a.k == "trunc":
            # a 16-bit field kept in a wider variable
            n = self.name(a.p[0])
            if n is not None and n[0] in FILE and n[1] in FILE[n[0]] and 8 * FILE[n[0]][n[1]][1] <= a.p[1]:
                return n
            return None
        if a.k == "ld":
            bs, o = split_ptr(a.p[0])
            if bs is None or not o.is_const:
                return None
            return self.place(bs, o.const, (a.w + 7) // 8)
        return None

    def place(self, bs, off, size):
        """the name of everything that is stored to a place in memory"""
        k = (bs, off)
        if k in self.loc:
            return self.loc[k]
        self.loc[k] = None
        r = self._place(bs, off, size)
        self.loc[k] = r
        return r

    def _place(self, bs, off, size):
        for (b2, k), h in self.objs.items():
            if b2 is bs:
                for f, (o, s) in self.off[h].items():
                    if k + o == off and f not in FILE[h]:
                        return (h, f)           # computed from the header when it was read (see C19)
        names = set()
        for o, s, x, v in self.st.get(bs, ()):
            if o + s <= off or off + size <= o or self.overwritten(bs, off, size, x):
                continue
            if isinstance(v, tuple):
                src = tm.add(v[0], const(off - o))
                if off < o or o + s < off + size:
                    return None
                sb, so = split_ptr(src)
                vn = self.vn
                bts = [vn.byte_at(vn.mem_at(x), src, j) for j in range(size)] if size <= 8 else [None]
                if all(y is not None and y.atom() is not None and y.atom().k == "fbyte" for y in bts):
                    a0 = bts[0].atom()
                    if a0.p[1].is_const and all(y.atom().p[0] == a0.p[0] and y.atom().p[1] is const(a0.p[1].const + j)
                                                for j, y in enumerate(bts)):
                        n = self.byte(a0.p[0], a0.p[1].const, size)
                        # bytes copied as they are: only the type string
                        names.add(n if n is not None and n[1] == "type" else None)
                        continue
                w = vn.load_at(x, src, size)
                n = self.name(w) if w is not None else None
                if n is None and sb is not None and so.is_const:
                    n = self.place(sb, so.const, size)
                names.add(n)
            elif o == off:
                if v.is_const and v.const == 0:
                    continue                    # initialisation
                names.add(self.name(v))
            else:
                names.add(None)
        return next(iter(names)) if len(names) == 1 else None

    def overwritten(self, bs, off, size, x):
        """every load of the place comes after another store to all of it, which comes after this one"""
        fn = self.fn
        if any(x.bb in body for body in fn.loops.values()):
            return False
        for o, s, y, v in self.st[bs]:
            if y is not x and not isinstance(v, tuple) and (o, s) == (off, size) and fn.ins_dominates(x, y) and \
                    all(fn.ins_dominates(y, z) for z in self.loads_of(bs, off, size)):
                return True
        return False

    def loads_of(self, bs, off, size):
        if self.ldmemo is None:
            self.ldmemo = {}
            for b in self.fn.rpo:
                if b in self.fn.dead:
                    continue
                for z in self.fn.blocks[b]:
                    if z.op == "load":
                        c, k = split_ptr(self.vn.memat[z.id])
                        if c is not None:
                            self.ldmemo.setdefault(c, []).append((k.const if k.is_const else None, z))
        return [z for k, z in self.ldmemo.get(bs, ()) if k is None or k < off + size and off < k + 8]

    def text(self, t, n=8):
        """n bytes of constant data at t"""
        bs, o = split_ptr(t)
        if bs is None or bs.k != "g" or not o.is_const:
            return None
        out = b""
        for k in range(n):
            c = self.vn.gbyte(bs, const(o.const + k))
            if c is None:
                return None
            out += bytes([c.const & 0xff])
        return out

    def typeplace(self, t):
        """header whose type string is at address t"""
        bs, o = split_ptr(t)
        if bs is None or not o.is_const:
            return None
        n = self.place(bs, o.const, 8)
        return n[0] if n is not None and n[1] == "type" else None

    def string(self, t):
        """header whose type string a std::string at t was made of"""
        hs = set()
        for y, q, a in self.root.calls(lambda q: q.startswith("std::__cxx11::basic_string") and short(q) == "basic_string"):
            if a[0] is t:
                hs.add(self.typeplace(a[1]) if len(a) > 2 and a[2].is_const and a[2].const == 8 else None)
        return next(iter(hs)) if len(hs) == 1 else None

    def pepper_call(self, t):
        """header whose salt the hash call t is the pepper of"""
        a = t.atom() if t is not None else None
        if a is None or a.k != "call":
            return None
        x = self.fn.ins.get(a.p[-1])
        if x is None or (x.j.get("qn") or "") != "vp::hasher::operator()":
            return None
        ca = self.vn.callargs[x.id]
        if not (ca[2].is_const and ca[2].const == 8):
            return None
        n = self.name(self.vn.load_at(x, ca[1], 8))
        if n is None or n[1] != "salt":
            return None
        for y, q, b in self.root.calls(lambda q: q == "vp::hasher::hasher"):
            if b[0] is ca[0] and self.fn.ins_dominates(y, x) and self.name(b[1]) == n:
                return n[0]
        return None

    def split(self, d):
        """names of the two sides of d == 0: (name or const T, name or const T)"""
        pos, neg = {}, {}
        for m, c in d.m.items():
            (pos if c > 0 else neg)[m] = abs(c)
        p, n = tm.mk(pos), tm.mk(neg)
        out = []
        for t in (p, n):
            if t.is_const:
                out.append(t)
            else:
                nm = self.name(t)
                if nm is None:
                    pc = self.pepper_call(t)
                    nm = ("hash", pc) if pc is not None else None
                out.append(nm)
        return out

    def facts(self, a, val):
        """what a branch condition establishes about the headers"""
        out = []
        if not isinstance(a, tm.Atom):
            return out
        if a.k == "eq":
            d = a.p[0]
            c = d.atom()
            if c is not None and c.k == "call":
                f = self._compare(c, val)       # memcmp(..) == 0
                if f is not None:
                    return [f]
            x, y = self.split(d)
            if isinstance(x, T):
                x, y = y, x
            if x is None or y is None or isinstance(x, T):
                return out
            if isinstance(y, T):
                if val:
                    out.append(("c", x, y.const))
                    if y.const != 0:
                        out.append(("nz", x))
                elif y.const == 0:
                    out.append(("nz", x))
                if x[1] == "type" and val:
                    out.append(("type", x[0], (y.const % tm.M64).to_bytes(8, "little")))
                return out
            if val:
                for p, q in ((x, y), (y, x)):
                    if p[0] == "hash":
                        if q == (p[1], "pepper"):
                            out.append(("pep", p[1]))
                        elif q[1] == "pepper":
                            out.append(("pepof", q[0], p[1]))
                if "hash" not in (x[0], y[0]):
                    out.append(("eq",) + tuple(sorted((x, y))))
        elif a.k == "ult":
            x = self.name(a.p[0])
            if x is not None and a.p[1].is_const and not val and a.p[1].const != 0:
                out.append(("nz", x))
                out.append(("ge", x, a.p[1].const))
            if x is not None and a.p[1].is_const and val and a.p[1].const > 0:
                out.append(("lt", x, a.p[1].const))
            y = self.name(a.p[1])
            if y is not None and val:
                out.append(("nz", y))
        elif a.k == "call":
            f = self._compare(a, val)
            if f is not None:
                out.append(f)
        return out

    def _compare(self, c, val):
        x = self.fn.ins.get(c.p[-1])
        if x is None:
            return None
        q = x.j.get("qn") or x.j.get("callee") or ""
        a = self.vn.callargs[x.id]
        m = short(q)
        if q in ("std::operator!=", "std::operator=="):
            eq = val == (m == "operator==")
            if not eq:
                return None
            for s, l in ((a[0], a[1]), (a[1], a[0])):
                h, t = self.string(s), self.text(l, 9)
                if h is not None and t is not None and t[8] == 0:
                    return ("type", h, t[:8])
        elif m in ("memcmp", "bcmp", "strncmp") and len(a) == 3 and val and a[2].is_const and a[2].const == 8:
            for s, l in ((a[0], a[1]), (a[1], a[0])):
                h, t = self.typeplace(s), self.text(l)
                if h is not None and t is not None:
                    return ("type", h, t)
        return None


class Known:
    """closure of a set of header facts"""

    def __init__(self, facts):
        self.f = facts
        self.p = {}
        for f in facts:
            if isinstance(f, tuple) and f[0] == "eq":
                self.join(f[1], f[2])

    def find(self, x):
        while self.p.get(x, x) != x:
            x = self.p[x]
        return x

    def join(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.p[a] = b

    def eq(self, a, b):
        return self.find(a) == self.find(b)

    def const(self, n, c):
        r = self.find(n)
        return any(isinstance(f, tuple) and f[0] == "c" and f[2] == c and self.find(f[1]) == r for f in self.f)

    def nz(self, n):
        r = self.find(n)
        return any(isinstance(f, tuple) and f[0] == "nz" and self.find(f[1]) == r for f in self.f)

    def type(self, h):
        return ("type", h, LITERAL[h]) in self.f

    def pepper(self, h):
        if ("pep", h) in self.f:
            return True
        for g in FILE:
            if (g == h or self.eq((g, "salt"), (h, "salt"))):
                for f in self.f:
                    if isinstance(f, tuple) and (f == ("pep", g) and self.eq((g, "pepper"), (h, "pepper")) or
                                                 f[0] == "pepof" and f[2] == g and self.eq((f[1], "pepper"), (h, "pepper"))):
                        return True
        return False

    def valid(self, h, version=2):
        """names of the checks of header h's own validity that are missing"""
        bad = []
        if not self.type(h):
            bad.append("file type")
        if not self.const((h, "version"), version):
            bad.append("version")
        if not self.nz((h, "key_size")):
            bad.append("key size")
        if h in ("kh", "lh") and not self.pepper(h):
            bad.append("salt and pepper")
        if h == "kh":
            for f, n in (("load_factor", "load factor"), ("capacity", "bucket capacity"), ("buckets", "bucket count")):
                if not self.nz((h, f)):
                    bad.append(n)
        return bad

    def match(self, h, g, fields):
        return [f.replace("_", " ") for f in fields if not self.eq((h, f), (g, f))]
