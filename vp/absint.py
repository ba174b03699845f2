"""Abstract interpretation of small arithmetic functions: every value is an interval together with the bits that are known."""
from .ir import AnchorError, width


class V:
    """a w-bit value in lo..hi whose bits in z are clear and in o are set"""
    __slots__ = ("w", "lo", "hi", "z", "o")

    def __init__(self, w, lo, hi, z=0, o=0):
        m = (1 << w) - 1
        self.w = w
        for _ in range(3):
            # bits above the first that differs between the bounds are those of both
            n = (lo ^ hi).bit_length()
            top = m & ~((1 << n) - 1)
            o |= lo & top
            z |= ~lo & top & m
            lo2, hi2 = max(lo, o), min(hi, m & ~z)
            if (lo2, hi2) == (lo, hi):
                break
            lo, hi = lo2, hi2
            if lo > hi:
                break
        self.lo, self.hi, self.z, self.o = lo, hi, z, o

    @property
    def empty(self):
        return self.lo > self.hi or bool(self.z & self.o)

    @property
    def const(self):
        return self.lo if self.lo == self.hi else None

    def __repr__(self):
        return f"{self.lo}" if self.lo == self.hi else f"[{self.lo}..{self.hi}]"


def const(w, c):
    c &= (1 << w) - 1
    return V(w, c, c)


def top(w):
    return V(w, 0, (1 << w) - 1)


def join(a, b):
    return V(a.w, min(a.lo, b.lo), max(a.hi, b.hi), a.z & b.z, a.o & b.o)


def binary(op, a, b):
    w = a.w
    m = (1 << w) - 1
    if a.const is not None and b.const is not None:
        x, y = a.const, b.const
        sx, sy = (v - (1 << w) if v >> (w - 1) else v for v in (x, y))
        if op in ("shl", "lshr", "ashr") and y >= w:
            return top(w)
        if op in ("udiv", "urem", "sdiv", "srem") and y == 0:
            return top(w)
        r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y,
             "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: x >> y, "ashr": lambda: sx >> y,
             "udiv": lambda: x // y, "urem": lambda: x % y, "umin": lambda: min(x, y), "umax": lambda: max(x, y)}.get(op)
        if r is not None:
            return const(w, r())
    if op == "add":
        if a.hi + b.hi <= m:
            return V(w, a.lo + b.lo, a.hi + b.hi)
        if a.lo + b.lo > m:
            return V(w, a.lo + b.lo - m - 1, a.hi + b.hi - m - 1)
    elif op == "sub":
        if a.lo >= b.hi:
            return V(w, a.lo - b.hi, a.hi - b.lo)
        if a.hi < b.lo:
            return V(w, a.lo - b.hi + m + 1, a.hi - b.lo + m + 1)
    elif op == "mul":
        if a.hi * b.hi <= m:
            return V(w, a.lo * b.lo, a.hi * b.hi)
    elif op == "and":
        return V(w, 0, min(a.hi, b.hi), a.z | b.z, a.o & b.o)
    elif op == "or":
        return V(w, max(a.lo, b.lo), m, a.z & b.z, a.o | b.o)
    elif op == "xor":
        return V(w, 0, m, (a.z & b.z) | (a.o & b.o), (a.z & b.o) | (a.o & b.z))
    elif op in ("shl", "lshr") and b.hi < w and b.hi - b.lo < 64:
        r = None
        for n in range(b.lo, b.hi + 1):
            if n & b.z or ~n & b.o:
                continue
            if op == "shl":
                v = V(w, a.lo << n, a.hi << n) if a.hi << n <= m else V(w, 0, m)
                v = V(w, v.lo, v.hi, v.z | ((a.z << n) & m) | ((1 << n) - 1), v.o | ((a.o << n) & m))
            else:
                v = V(w, a.lo >> n, a.hi >> n, (a.z >> n) | (m & ~(m >> n)), a.o >> n)
            r = v if r is None else join(r, v)
        return r if r is not None else top(w)
    elif op == "udiv" and b.lo > 0:
        return V(w, a.lo // b.hi, a.hi // b.lo)
    elif op == "urem" and b.lo > 0:
        return a if a.hi < b.lo else V(w, 0, min(a.hi, b.hi - 1))
    elif op == "umin":
        return V(w, min(a.lo, b.lo), min(a.hi, b.hi))
    elif op == "umax":
        return V(w, max(a.lo, b.lo), max(a.hi, b.hi))
    return top(w)


def compare(pred, a, b):
    """True, False or None (open)"""
    if pred in ("eq", "ne"):
        if a.const is not None and b.const is not None:
            r = a.const == b.const
        elif a.hi < b.lo or b.hi < a.lo or a.o & b.z or a.z & b.o:
            r = False
        else:
            return None
        return r if pred == "eq" else not r
    if pred[0] == "s":
        h = 1 << (a.w - 1)
        # the order is the unsigned one when the signs are known
        if (a.hi < h or a.lo >= h) and (b.hi < h or b.lo >= h):
            if (a.hi < h) == (b.hi < h):
                return compare("u" + pred[1:], a, b)
            return (b.hi < h) == (pred[1] == "l")
        return None
    if pred in ("ugt", "uge"):
        a, b = b, a
        pred = {"ugt": "ult", "uge": "ule"}[pred]
    if pred == "ult":
        return True if a.hi < b.lo else False if a.lo >= b.hi else None
    return True if a.hi <= b.lo else False if a.lo > b.hi else None


def clz(a):
    """leading zeros, from the bounds"""
    return V(a.w, a.w - a.hi.bit_length(), a.w - a.lo.bit_length())


def ctz(a):
    known = (a.o & -a.o).bit_length() - 1 if a.o else a.w
    lo = 0
    while lo < a.w and a.z >> lo & 1:
        lo += 1
    return V(a.w, lo, known)


class Interp:
    """follows a function for the given values of its arguments, through every branch that may be taken"""

    def __init__(self, fn, args, budget=20000):
        self.fn = fn
        self.budget = budget
        self.ret = None
        self.at = None
        self.steps = 0
        env = {a["id"]: v for a, v in zip(fn.args, args)}
        self.go(env)

    def op(self, o, env):
        if o["k"] == "c":
            return const(o["w"], o["v"])
        if o["k"] == "v":
            return env.get(o["v"])
        return None

    def go(self, env):
        fn = self.fn
        work = [(fn.rpo[0], None, env, {})]
        while work:
            b, frm, env, mem = work.pop()
            new = {}
            for x in fn.blocks[b]:
                if x.op != "phi":
                    break
                for p, v in x.j["in"]:
                    if p == frm:
                        new[x.id] = self.op(v, env)
            env = dict(env)
            env.update(new)
            mem = dict(mem)
            for x in fn.blocks[b]:
                self.steps += 1
                if self.steps > self.budget:
                    raise AnchorError(f"{fn.dem} does not come to an end within the abstraction")
                if x.op == "ret" and not x.j.get("a"):
                    self.at = x
                elif x.op == "ret":
                    v = self.op(x.j["a"][0], env)
                    if v is None:
                        raise AnchorError(f"{fn.dem} returns a value that cannot be followed")
                    self.ret = v if self.ret is None else join(self.ret, v)
                    self.at = x
                elif x.op == "br":
                    s = x.j["succ"]
                    if "cond" not in x.j:
                        work.append((s[0], b, env, mem))
                        continue
                    c = self.op(x.j["cond"], env)
                    for i, d in enumerate(s):
                        if c is not None and c.const is not None and bool(c.const) != (i == 0):
                            continue
                        work.append((d, b, env, mem))
                elif x.op == "switch":
                    c = self.op(x.j["cond"] if "cond" in x.j else x.j["a"][0], env)
                    hit = [k for k in x.j["cases"] if c is not None and c.const == k[0]]
                    ds = [hit[0][1]] if hit else [x.j["def"]] if c is not None and c.const is not None else fn.succ[b]
                    for d in ds:
                        work.append((d, b, env, mem))
                elif x.op == "unreachable":
                    pass
                elif x.op == "invoke":
                    v = self.ins(x, env, mem)
                    if v is not None:
                        env[x.id] = v
                    work.append((x.j["normal"], b, env, mem))
                elif x.op == "store":
                    p = self.ptr(x.j["a"][1], env)
                    if p is None or p[0] != "a" or p[2] != 0:
                        raise AnchorError(f"{fn.dem} writes to memory")
                    mem[p] = (x.j["size"], self.op(x.j["a"][0], env))
                elif x.op == "phi":
                    pass
                else:
                    v = self.ins(x, env, mem)
                    if v is not None:
                        env[x.id] = v

    def ptr(self, o, env):
        if o["k"] == "g":
            return ("g", o["v"], o["off"])
        if o["k"] == "v":
            v = env.get(o["v"])
            if isinstance(v, tuple):
                return v
        return None

    def ins(self, x, env, mem):
        a = x.j.get("a") or []
        if x.op == "alloca":
            return ("a", x.id, 0)
        if x.op in ("load", "getelementptr"):
            return self.mem(x, env, mem)
        w = width(x.ty)
        vs = [self.op(o, env) for o in a]
        if x.op == "icmp":
            if any(not isinstance(v, V) for v in vs):
                return top(1)
            r = compare(x.j["pred"], *vs)
            return top(1) if r is None else const(1, int(r))
        if x.op == "select":
            c = vs[0]
            if isinstance(c, V) and c.const is not None:
                return vs[1] if c.const else vs[2]
            if isinstance(vs[1], V) and isinstance(vs[2], V):
                return join(vs[1], vs[2])
            return None
        if x.op in ("zext", "trunc", "sext", "freeze", "bitcast"):
            v = vs[0]
            if not isinstance(v, V):
                return top(w) if w else None
            if x.op == "zext":
                return V(w, v.lo, v.hi, v.z | (((1 << w) - 1) & ~((1 << v.w) - 1)), v.o)
            if x.op == "trunc":
                m = (1 << w) - 1
                if v.hi <= m:
                    return V(w, v.lo, v.hi, v.z & m, v.o & m)
                return V(w, 0, m, v.z & m, v.o & m)
            if x.op == "sext":
                h = 1 << (v.w - 1)
                up = ((1 << w) - 1) & ~((1 << v.w) - 1)
                if v.hi < h:
                    return V(w, v.lo, v.hi)
                if v.lo >= h:
                    return V(w, v.lo | up, v.hi | up)
                return top(w)
            return v
        if x.op in ("call", "invoke"):
            q = x.j.get("callee") or ""
            m = q.split(".")[1] if q.startswith("llvm.") else None
            if m in ("lifetime", "dbg", "assume", "experimental"):
                return None
            if m in ("umin", "umax"):
                return binary(m, vs[0], vs[1])
            if m == "ctlz":
                return clz(vs[0])
            if m == "cttz":
                return ctz(vs[0])
            if m == "ctpop":
                n = bin(vs[0].o).count("1")
                lo = max(n, 1 if vs[0].lo else 0)
                # two values that are not powers of two have more than one bit
                k = vs[0].lo.bit_length()
                if vs[0].lo and vs[0].hi.bit_length() == k and vs[0].lo > 1 << (k - 1):
                    lo = max(lo, 2)
                return V(vs[0].w, lo, vs[0].w - bin(vs[0].z).count("1"))
            if m in ("fshl", "fshr") and vs[2].const is not None:
                n = vs[2].const % w
                n = n if m == "fshl" else (w - n) % w
                if n == 0:
                    return vs[0] if m == "fshl" else vs[1]
                return binary("or", binary("shl", vs[0], const(w, n)), binary("lshr", vs[1], const(w, w - n)))
            if m in ("usub", "uadd") and "sat" in q:
                if m == "usub":
                    return V(w, max(0, vs[0].lo - vs[1].hi), max(0, vs[0].hi - vs[1].lo))
            if q == "__assert_fail":
                return None
            raise AnchorError(f"{self.fn.dem} calls {x.j.get('qn') or q} that cannot be followed")
        if w and all(isinstance(v, V) for v in vs) and len(vs) == 2:
            return binary(x.op, *vs)
        return top(w) if w else None

    def mem(self, x, env, mem):
        j = x.j
        if x.op == "getelementptr":
            p = self.ptr(j["base"], env)
            if p is None or not j["ok"]:
                raise AnchorError(f"{self.fn.dem} reads memory")
            off = const(64, j["off"])
            for v, s in j["var"]:
                i = self.op(v, env)
                if not isinstance(i, V):
                    i = top(64)
                if i.w < 64:
                    h = 1 << (i.w - 1)
                    i = V(64, i.lo, i.hi) if i.hi < h else top(64)
                off = binary("add", off, binary("mul", i, const(64, s)))
            o = p[2] if isinstance(p[2], V) else const(64, p[2])
            return (p[0], p[1], binary("add", o, off))
        p = self.ptr(j["a"][0], env)
        if p is None:
            raise AnchorError(f"{self.fn.dem} reads memory")
        o = p[2] if isinstance(p[2], V) else const(64, p[2])
        w, n = width(x.ty), j["size"]
        if p[0] == "a":
            v = mem.get((p[0], p[1], 0)) if o.const == 0 else None
            if v is None or v[0] != n:
                raise AnchorError(f"{self.fn.dem} reads memory that cannot be followed")
            return v[1]
        d = self.fn.mod.globals.get(p[1], {}).get("data")
        if d is None or o.hi + n > len(d):
            raise AnchorError(f"{self.fn.dem} reads memory")
        r = None
        for k in range(o.lo, o.hi + 1):
            if k & o.z or ~k & o.o:
                continue
            v = const(w, int.from_bytes(bytes(c & 255 for c in d[k:k + n]), "little"))
            r = v if r is None else join(r, v)
        return r
