"""Loader for irx output, CFG utilities, and the memory-aware value numbering."""
import json
import re
from . import terms as tm
from .terms import T, atom, const, ZERO, ONE


def width(ty):
    m = re.match(r"i(\d+)$", ty)
    return int(m.group(1)) if m else 64


class Ins:
    __slots__ = ("id", "op", "ty", "j", "bb", "idx", "fn")

    def __repr__(self):
        return f"<%{self.id} {self.op}>"


class Fn:
    def __init__(self, mod, j, uid):
        self.mod, self.j, self.uid = mod, j, uid
        self.name, self.dem, self.qn = j["name"], j["dem"], j["qn"]
        self.args = j["args"]
        self.nargs = len(self.args)
        self.blocks = []
        self.ins = {}
        self.succ, self.pred = {}, {}
        for b in j["blocks"]:
            L = []
            for k, i in enumerate(b["i"]):
                x = Ins()
                x.id, x.op, x.ty, x.j, x.bb, x.idx, x.fn = i["id"], i["op"], i["ty"], i, b["id"], k, self
                L.append(x)
                self.ins[x.id] = x
            self.blocks.append(L)
        n = len(self.blocks)
        for b in range(n):
            self.succ[b] = self._succ(self.blocks[b][-1])
            self.pred.setdefault(b, [])
        for b in range(n):
            for s in dict.fromkeys(self.succ[b]):
                self.pred[s].append(b)
        self._rpo()
        self._dom()
        self._noreturn()

    def _succ(self, t):
        if t.op == "br":
            return list(t.j["succ"])
        if t.op == "switch":
            return [t.j["def"]] + [c[1] for c in t.j["cases"]]
        if t.op == "invoke":
            return [t.j["normal"], t.j["unwind"]]
        return []

    def _rpo(self):
        seen, post = set(), []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        self.rpon = {b: i for i, b in enumerate(self.rpo)}

    def _dom(self):
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        new = p if new is None else self._inter(idom, new, p)
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if s in self.rpon and self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in self.pred[x] if p in self.rpon)

    def _inter(self, idom, a, b):
        while a != b:
            while self.rpon[a] > self.rpon[b]:
                a = idom[a]
            while self.rpon[b] > self.rpon[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def ins_dominates(self, x, y):
        if x.bb == y.bb:
            return x.idx < y.idx
        return self.dominates(x.bb, y.bb)

    def _noreturn(self):
        """blocks from which every path ends in unreachable (throws)"""
        n = set()
        changed = True
        order = self.rpo[::-1]
        while changed:
            changed = False
            for b in order:
                if b in n:
                    continue
                t = self.blocks[b][-1]
                if t.op == "unreachable" or (self.succ[b] and all(s in n for s in self.succ[b])):
                    n.add(b)
                    changed = True
        self.dead = n

    def loc(self, ins):
        l = ins.j.get("loc")
        return self.mod.locs[l] if l is not None else []

    def where(self, ins):
        """human readable source position: innermost nudb frame, then the chain"""
        ch = self.loc(ins)
        if not ch:
            return self.dem
        for e in ch:
            if "/nudb/" in e:
                f, _, fn = e.partition("|")
                return f"{f.split('/include/')[-1]} ({short(fn)})"
        f, _, fn = ch[0].partition("|")
        return f"{f} ({short(fn)})"

    def chain(self, ins):
        return [e.split("/include/")[-1].replace("|", " in ") for e in self.loc(ins)]


def short(d):
    """drop template arguments and parameter lists for display"""
    out, depth = [], 0
    for c in d:
        if c in "<":
            depth += 1
        elif c == ">" and depth:
            depth -= 1
        elif depth == 0:
            out.append(c)
    s = "".join(out)
    s = s.split("(")[0] if "(" in s else s
    return s.split(" ")[-1]


class Module:
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.j = j
        self.locs = j["locs"]
        self.globals = j["globals"]
        self.stats = j["stats"]
        self.fns = [Fn(self, f, k) for k, f in enumerate(j["functions"])]
        self.types = {}
        for t in j["types"]:
            self.types.setdefault(t["name"], t)
        self.by_short = {}
        for t in j["types"]:
            self.by_short.setdefault((t["scope"], t["short"]), t)

    def find(self, regex):
        r = re.compile(regex)
        return [f for f in self.fns if r.search(f.dem)]

    def one(self, regex):
        v = self.find(regex)
        if len(v) != 1:
            raise AnchorError(f"expected exactly one function matching /{regex}/, found {len(v)}")
        return v[0]

    def enum(self, short_, scope="nudb"):
        t = self.by_short.get((scope, short_))
        if not t:
            for (sc, sh), x in self.by_short.items():
                if sh == short_ and sc.startswith(scope):
                    t = x
        if not t:
            raise AnchorError(f"enum {scope}::{short_} not found")
        return {m["v"]: m["enum"] for m in t["m"] if "enum" in m}

    def type(self, short_, scope):
        t = self.by_short.get((scope, short_))
        if not t:
            raise AnchorError(f"type {scope}::{short_} not found")
        return t

    def fields(self, t, base=0, path="", depth=0):
        """flatten a type into (offset, size, path, typename)"""
        out = []
        if depth > 8:
            return out
        for m in t["m"]:
            if "off" not in m:
                continue
            p = path if m.get("base") else (path + "." + m["n"] if path else m["n"])
            out.append((base + m["off"], m["size"], p, m["t"]))
            sub = self.types.get(m["t"])
            if sub and not m["t"].startswith("*"):
                out.extend(self.fields(sub, base + m["off"], p, depth + 1))
        return out


class AnchorError(Exception):
    """the code no longer has the construct an analysis is anchored to"""


class MemState:
    __slots__ = ("v", "r")

    def __init__(self, v=None, r=None):
        self.v = v if v is not None else {}
        self.r = r if r is not None else []

    def copy(self):
        return MemState(dict(self.v), list(self.r))

    def same(self, o):
        return self.v == o.v and self.r == o.r


def split_ptr(t):
    """pointer term -> (base atom, offset term)"""
    cand = [mono[0] for mono, c in t.m.items()
            if len(mono) == 1 and c == 1 and mono[0].k in
            ("arg", "alloca", "g", "call", "ld", "phi", "sel", "ev", "v")]
    if not cand:
        return None, t
    if len(cand) > 1:
        for k in ("alloca", "arg", "g", "call"):
            c2 = [a for a in cand if a.k == k]
            if len(c2) == 1:
                cand = c2
                break
        else:
            ptr = [a for a in cand if a.k in ("ld", "phi", "sel", "ev", "v", "call") and getattr(a, "w", 64) == 64]
            cand = sorted(ptr or cand, key=lambda a: (not (a.k == "call"), a.id))
    b = cand[0]
    return b, tm.sub(t, tm.mk({(b,): 1}))


ALLOCATORS = ("operator new", "operator new[]")


class VN:
    """Value numbering of one function: terms for SSA values, literals for i1 values,
    and load resolution through a flow-sensitive (joined) memory map."""

    def __init__(self, fn, effects=None, immutable=None):
        self.fn = fn
        self.effects = effects or default_effects
        self.immutable = immutable or (lambda base, off, size: False)
        self.t = {}
        self.l = {}
        self.agg = {}
        self.callargs = {}
        self.memat = {}
        self._memat_cache = {}
        self.holds = {}
        for k, a in enumerate(fn.args):
            self.t[a["id"]] = atom("arg", k)
            if a["ty"] == "i1":
                self.l[a["id"]] = (atom("arg", k), True)
        self._run()

    # -- operands
    def op(self, o):
        k = o["k"]
        if k == "v":
            i = o["v"]
            if i in self.t:
                return self.t[i]
            if i in self.l:
                return tm.lit_term(self.l[i])
            return atom("v", self.fn.uid, i)
        if k == "c":
            return const(o["v"] if o["w"] == 64 else self._sx(o))
        if k == "zero":
            return ZERO
        if k == "g":
            return tm.add(atom("g", o["v"]), const(o["off"]))
        if k == "fp":
            return atom("fp", o["v"])
        if k == "fn":
            return atom("fn", o["v"])
        if k == "undef":
            return atom("undef", self.fn.uid)
        return atom("k", json.dumps(o, sort_keys=True))

    def _sx(self, o):
        w, v = o["w"], o["v"]
        if w == 1 or w == 8:
            return v
        if v >= 1 << (w - 1):
            return v - (1 << w)
        return v

    def lit(self, o):
        if o["k"] == "c":
            return bool(o["v"] & 1)
        if o["k"] == "v":
            i = o["v"]
            if i in self.l:
                return self.l[i]
            return tm.term_lit(self.op(o))
        if o["k"] == "undef":
            return (atom("undef", self.fn.uid, w=1), True)
        return tm.term_lit(self.op(o))

    # -- memory
    def load(self, mem, ptr, size, w, ins):
        base, off = split_ptr(ptr)
        v = self._lookup(mem, base, off, size)
        if v is None and 1 < size <= 8 and base is not None and base.k in ("alloca", "call"):
            parts = []
            for k in range(size):
                b = self._lookup(mem, base, tm.add(off, const(k)), 1)
                if b is None:
                    parts = None
                    break
                parts.append(b)
            if parts:
                v = ZERO
                for k, b in enumerate(parts):
                    v = tm.add(v, tm.shl(b, 8 * k))
        if v is not None:
            return v
        imm = base is not None and self.immutable(base, off, size)
        return atom("ld", ptr, None if imm else ins.id, w=w)

    def _lookup(self, mem, base, off, size):
        e = mem.v.get((base, off))
        if e is not None:
            if e[1] is None or e[0] == size:
                return e[1]             # None: unknown contents, hiding what lies below
            if size < e[0]:
                return tm.trunc(e[1], 8 * size)
            return None
        # inside a wider stored value
        for (b, o), (s, val) in mem.v.items():
            if b is base:
                d = tm.sub(off, o)
                if d.is_const and 0 <= d.const and d.const + size <= s:
                    if val is None:
                        return None
                    return tm.trunc(tm.lshr(val, 8 * d.const), 8 * size)
                if val is None and not (d.is_const and (d.const >= s or d.const + size <= 0)):
                    return None
        if size == 1:
            for (b, o, n, kind, payload) in reversed(mem.r):
                if b is not base:
                    continue
                d = tm.sub(off, o)
                if not d.is_const:
                    return None
                nn = n.const if n is not None and n.is_const else None
                if d.const < 0 or (nn is not None and d.const >= nn):
                    continue
                if nn is None and d.const < 0:
                    return None
                if kind == "fread":
                    return atom("fbyte", payload, d, w=8)
                if kind == "copy":
                    src = tm.add(payload[0], d)
                    return atom("mbyte", src, payload[1], w=8)
                if kind == "set":
                    return tm.trunc(payload, 8)
                return None
        return None

    def _kill(self, mem, base, off, n):
        """forget [off, off+n) of base; n is a term or None (unknown)"""
        nn = n.const if n is not None and n.is_const else None
        for key in list(mem.v):
            b, o = key
            if b is not base:
                continue
            d = tm.sub(o, off)
            s = mem.v[key][0]
            if d.is_const and off is not None:
                if d.const + s <= 0:
                    continue
                if nn is not None and d.const >= nn:
                    continue
                if (nn is None or d.const < 0 or d.const + s > nn) and any(r[0] is base for r in mem.r):
                    mem.v[key] = (s, None)
                    continue
            del mem.v[key]

    def _kill_regions(self, mem, base, off, n):
        nn = n.const if n is not None and n.is_const else None
        out = []
        for r in mem.r:
            if r[0] is base:
                d = tm.sub(r[1], off)
                rn = r[2].const if r[2] is not None and r[2].is_const else None
                disj = d.is_const and ((rn is not None and d.const + rn <= 0) or
                                       (nn is not None and d.const >= nn))
                contained = d.is_const and rn is not None and nn is not None and d.const <= 0 and -d.const + nn <= rn
                if not disj and not contained and not (d.is_const and d.const >= 0 and nn is not None and False):
                    continue
            out.append(r)
        mem.r[:] = out

    def store(self, mem, ptr, size, val):
        base, off = split_ptr(ptr)
        if base is None:
            return
        self._kill(mem, base, off, const(size))
        self._kill_regions(mem, base, off, const(size))
        mem.v[(base, off)] = (size, val)
        if size == 8:
            self.hold(base, val)

    def hold(self, base, val):
        """the object base may hold a pointer to the object val points into"""
        b, _ = split_ptr(val)
        for a in ([b] if b is None or b.k != "sel" else tm.walk(val, set())):
            if a is not None and a.k in ("alloca", "call") and a is not base:
                self.holds.setdefault(base, set()).add(a)

    def reach(self, base):
        """base and the objects its pointers may lead to"""
        out, work = {base}, [base]
        while work:
            for a in self.holds.get(work.pop(), ()):
                if a not in out:
                    out.add(a)
                    work.append(a)
        return out

    def write_region(self, mem, ptr, n, kind, payload):
        base, off = split_ptr(ptr)
        if base is None:
            return
        self._kill(mem, base, off, n)
        nn = n.const if n is not None and n.is_const else None
        keep = []
        for r in mem.r:
            if r[0] is base:
                d = tm.sub(r[1], off)
                rn = r[2].const if r[2] is not None and r[2].is_const else None
                if d.is_const and nn is not None and rn is not None:
                    if d.const >= 0 and d.const + rn <= nn:
                        continue            # fully overwritten
                elif not (d.is_const and ((rn is not None and d.const + rn <= 0) or (nn is not None and d.const >= nn))):
                    continue
            keep.append(r)
        mem.r[:] = keep
        if kind is not None:
            mem.r.append((base, off, n, kind, payload))

    def memcpy(self, mem, dst, src, n, ins):
        sb, so = split_ptr(src)
        db, do = split_ptr(dst)
        if db is None:
            return
        copied = []
        nn = n.const if n.is_const else None
        if sb is not None and nn is not None:
            for (b, o), (s, val) in mem.v.items():
                if b is sb:
                    d = tm.sub(o, so)
                    if d.is_const and 0 <= d.const and d.const + s <= nn:
                        copied.append((tm.add(do, d), s, val))
        # the underlying region, if any, is a byte copy of the source
        payload = (src, ins.id)
        kind = "copy"
        for r in reversed(mem.r):
            if r[0] is sb and sb is not None:
                d = tm.sub(so, r[1])
                if d.is_const and d.const == 0 and r[3] in ("fread", "copy", "set"):
                    kind, payload = r[3], r[4]
                    break
                if d.is_const and d.const > 0 and r[3] == "set":
                    kind, payload = r[3], r[4]
                    break
                break
        self.write_region(mem, dst, n, kind, payload)
        for o, s, val in copied:
            mem.v[(db, o)] = (s, val)
        if sb is not None and sb in self.holds:
            self.holds.setdefault(db, set()).update(self.holds[sb])

    def kill_base(self, mem, pred):
        for key in list(mem.v):
            if pred(key[0]):
                del mem.v[key]
        mem.r[:] = [r for r in mem.r if not pred(r[0])]

    def mem_at(self, ins):
        """memory state just before an instruction"""
        m = self._memat_cache.get(ins.id)
        if m is None:
            m = self.memin[ins.bb].copy() if ins.bb in self.memin else MemState()
            for y in self.fn.blocks[ins.bb]:
                if y is ins:
                    break
                self._ins(y, m)
            self._memat_cache[ins.id] = m
        return m

    def byte_at(self, mem, ptr, k):
        """the byte term at ptr+k, or None"""
        base, off = split_ptr(tm.add(ptr, const(k)))
        v = self._lookup(mem, base, off, 1)
        if v is None and base is not None and base.k == "g":
            v = self.gbyte(base, off)
        if v is not None:
            a = v.atom()
            if a is not None and a.k == "mbyte":
                b2, o2 = split_ptr(a.p[0])
                if b2 is not None and b2.k == "g":
                    w = self.gbyte(b2, o2)
                    if w is not None:
                        return w
        return v

    def gbyte(self, base, off):
        g = self.fn.mod.globals.get(base.p[0])
        d = g.get("data") if g is not None else None
        if d is not None and off.is_const and 0 <= off.const < len(d):
            return const(d[off.const])
        return None

    def load_at(self, ins, ptr, size=8):
        """value stored at ptr just before ins, or None when memory there is not known"""
        base, off = split_ptr(ptr)
        return self._lookup(self.mem_at(ins), base, off, size)

    # -- driver
    def _run(self):
        fn = self.fn
        for it in range(12):
            self.changed = False
            out = {}
            inn = {}
            prev = getattr(self, "_out", {})
            for b in fn.rpo:
                ms = None
                for p in fn.pred[b]:
                    if p not in fn.rpon or p in fn.dead:
                        continue
                    m = out.get(p) or prev.get(p)
                    if m is None:
                        continue
                    if ms is None:
                        ms = m.copy()
                    else:
                        mr = set(m.r)
                        ms.r = [r for r in ms.r if r in mr]
                        rb = {r[0] for r in ms.r}
                        for k in set(ms.v) | set(m.v):
                            x, y = ms.v.get(k), m.v.get(k)
                            if x != y:
                                if k[0] in rb:
                                    ms.v[k] = (max(z[0] for z in (x, y) if z is not None), None)
                                else:
                                    ms.v.pop(k, None)
                if ms is None:
                    ms = MemState()
                inn[b] = ms.copy()
                self._block(b, ms)
                out[b] = ms
            stable = it > 0 and not self.changed and all(out[b].same(prev[b]) for b in out if b in prev)
            self._out = out
            self.memin = inn
            if stable:
                break

    def _set(self, i, t):
        if self.t.get(i) is not t:
            self.changed = True
            self.t[i] = t

    def _setl(self, i, l):
        if self.l.get(i) != l:
            self.changed = True
            self.l[i] = l

    def _block(self, b, mem):
        for x in self.fn.blocks[b]:
            self._ins(x, mem)

    def _ins(self, x, mem):
        j, op = x.j, x.op
        ty = x.ty
        if op == "phi":
            if ty == "i1":
                vals = [self.lit(v) for p, v in j["in"] if p in self.fn.rpon]
                me = (atom("phi", self.fn.uid, x.id, w=1), True)
                s = [v for v in vals if v != me]
                known = all(v["k"] != "v" or v["v"] in self.l or v["v"] in self.t for p, v in j["in"])
                if s and known and all(v == s[0] for v in s):
                    self._setl(x.id, s[0])
                else:
                    self._setl(x.id, me)
                return
            me = atom("phi", self.fn.uid, x.id, w=width(ty))
            known = all(v["k"] != "v" or v["v"] in self.t for p, v in j["in"] if p in self.fn.rpon)
            vals = [self.op(v) for p, v in j["in"] if p in self.fn.rpon]
            s = [v for v in vals if v is not me]
            if known and s and all(v is s[0] for v in s):
                self._set(x.id, s[0])
            else:
                self._set(x.id, me)
            return
        if op == "alloca":
            self._set(x.id, atom("alloca", self.fn.uid, x.id))
            return
        if op == "getelementptr":
            t = self.op(j["base"])
            if j["ok"]:
                t = tm.add(t, const(j["off"]))
                for v, s in j["var"]:
                    t = tm.add(t, tm.scale(self.op(v), s))
            else:
                t = atom("v", self.fn.uid, x.id)
            self._set(x.id, t)
            return
        if op == "load":
            ptr = self.op(j["a"][0])
            w = width(ty)
            self.memat[x.id] = ptr
            t = self.load(mem, ptr, j["size"], w, x)
            if ty == "i1":
                self._setl(x.id, tm.term_lit(t))
            self._set(x.id, t)
            return
        if op == "store":
            ptr = self.op(j["a"][1])
            self.memat[x.id] = ptr
            val = self.op(j["a"][0])
            w = width(j["vty"])
            if w < 64 and w % 8 == 0:
                val = tm.trunc(val, w)
            self.store(mem, ptr, j["size"], val)
            return
        if op in ("call", "invoke"):
            self._call(x, mem)
            return
        a = [self.op(o) for o in j.get("a", [])]
        if op == "icmp":
            pred = j["pred"]
            o0 = j["a"][0]
            # comparisons of i1 values
            self._setl(x.id, tm.icmp(pred, a[0], a[1]))
            return
        if ty == "i1" and op in ("xor", "and", "or"):
            la, lb = self.lit(j["a"][0]), self.lit(j["a"][1])
            self._setl(x.id, lit_op(op, la, lb))
            return
        if op == "select":
            c = self.lit(j["a"][0])
            if ty == "i1":
                p, q = self.lit(j["a"][1]), self.lit(j["a"][2])
                if c is True:
                    r = p
                elif c is False:
                    r = q
                elif p == q:
                    r = p
                elif p is True:
                    r = lit_op("or", c, q)
                elif q is False:
                    r = lit_op("and", c, p)
                elif p is False:
                    r = lit_op("and", tm.neg(c), q)
                elif q is True:
                    r = lit_op("or", tm.neg(c), p)
                else:
                    r = (atom("sel", c[0], c[1], tm.lit_term(p), tm.lit_term(q), w=1), True)
                self._setl(x.id, r)
                return
            self._set(x.id, select(c, a[1], a[2], width(ty)))
            return
        if op in ("add",):
            t = self._narrow(tm.add(a[0], a[1]), ty)
        elif op == "sub":
            t = self._narrow(tm.sub(a[0], a[1]), ty)
        elif op == "mul":
            t = self._narrow(tm.mul(a[0], a[1]), ty)
        elif op == "shl" and a[1].is_const:
            t = tm.shl(a[0], a[1].const)
            if width(ty) < 64 and tm.maxbits(a[0]) + a[1].const > width(ty):
                t = tm.trunc(t, width(ty))
        elif op == "lshr" and a[1].is_const:
            t = tm.lshr(a[0], a[1].const)
        elif op == "and":
            t = tm.and_(a[0], a[1])
        elif op == "or":
            t = tm.or_(a[0], a[1])
        elif op == "xor":
            t = tm.xor_(a[0], a[1])
        elif op == "trunc":
            if ty == "i1":
                self._setl(x.id, tm.term_lit(a[0]) if tm.maxbits(a[0]) <= 1 else
                           (atom("bit", a[0], w=1), True))
                return
            t = tm.trunc(a[0], width(ty))
        elif op in ("zext", "sext", "bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            t = a[0]
            if op == "freeze" and ty == "i1":
                self._setl(x.id, self.lit(j["a"][0]))
                return
        elif op == "extractvalue":
            src = j["a"][0]
            idx = tuple(j["idx"])
            t = None
            if src["k"] == "v" and src["v"] in self.agg:
                t = self.agg[src["v"]].get(idx)
            if t is None:
                t = atom("ev", a[0], idx, w=width(ty))
            if ty == "i1":
                self._setl(x.id, tm.term_lit(t))
                self.t[x.id] = t
                return
        elif op == "insertvalue":
            src = j["a"][0]
            d = dict(self.agg.get(src["v"], {})) if src["k"] == "v" else {}
            d[tuple(j["idx"])] = a[1]
            if self.agg.get(x.id) != d:
                self.changed = True
                self.agg[x.id] = d
            t = atom("v", self.fn.uid, x.id)
        elif op == "fcmp":
            self._setl(x.id, (atom("fcmp", j["pred"], a[0], a[1], w=1), True))
            return
        elif op in ("br", "switch", "ret", "unreachable", "resume", "landingpad", "fence"):
            if op == "landingpad":
                self._set(x.id, atom("v", self.fn.uid, x.id))
            return
        elif op in ("atomicrmw", "cmpxchg"):
            t = atom("v", self.fn.uid, x.id, w=width(ty))
        else:
            if op in ("udiv", "urem") and a[1].is_const and a[1].const > 0:
                c = a[1].const
                if c & (c - 1) == 0:
                    if op == "udiv":
                        t = tm.lshr(a[0], c.bit_length() - 1)
                    else:
                        t = tm.trunc(a[0], c.bit_length() - 1)
                    self._set(x.id, t)
                    return
            t = atom("op", op, *a, w=width(ty))
        self._set(x.id, t)

    def _narrow(self, t, ty):
        # arithmetic narrower than 64 bits: keep the polynomial (documented assumption:
        # no wrap in narrow arithmetic) except for i8/i16, which the format code wraps
        w = width(ty)
        if w in (8, 16):
            return tm.trunc(t, w)
        return t

    def _call(self, x, mem):
        j = x.j
        args = [self.op(o) for o in j["a"]]
        self.callargs[x.id] = args
        if x.ty == "i1":
            self._setl(x.id, (atom("call", self.fn.uid, x.id, w=1), True))
        if x.ty != "void":
            self._set(x.id, atom("call", self.fn.uid, x.id, w=width(x.ty)))
        r = self.effects(self, x, args, mem)
        if r is not None:
            if x.ty == "i1":
                self._setl(x.id, tm.term_lit(r))
            self._set(x.id, r)


def lit_op(op, a, b):
    if op == "xor":
        if b is True:
            return tm.neg(a)
        if b is False:
            return a
        if a is True:
            return tm.neg(b)
        if a is False:
            return b
        x, y = sorted((tm.lit_term(a), tm.lit_term(b)), key=lambda t: t.id)
        return (atom("bxor", x, y, w=1), True)
    if op == "and":
        if a is False or b is False:
            return False
        if a is True:
            return b
        if b is True:
            return a
    if op == "or":
        if a is True or b is True:
            return True
        if a is False:
            return b
        if b is False:
            return a
    if a == b:
        return a
    x, y = sorted((tm.lit_term(a), tm.lit_term(b)), key=lambda t: t.id)
    if op == "or":
        # de Morgan: keep only conjunctions
        na, nb = tm.lit_term(tm.neg(a)), tm.lit_term(tm.neg(b))
        x, y = sorted((na, nb), key=lambda t: t.id)
        return (atom("band", x, y, w=1), False)
    return (atom("band", x, y, w=1), True)


def select(c, a, b, w=64):
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    ct, pol = c
    if not pol:
        a, b = b, a
    at = ct.atom()
    if at is not None and at.k == "ult":
        p, q = at.p
        if (a is p and b is q):
            return minmax("min", a, b)
        if (a is q and b is p):
            return minmax("max", a, b)
        if q.is_const:
            if a is p and b.is_const and b.const == q.const - 1:
                return minmax("min", a, b)
            if b is p and a.is_const and a.const == q.const - 1:
                return minmax("max", a, b)
    return atom("sel", ct, a, b, w=max(w if w < 64 else 0, 0) or 64)


def minmax(k, a, b):
    x, y = sorted((a, b), key=lambda t: t.id)
    return atom(k, x, y)


def default_effects(vn, x, args, mem):
    j = x.j
    name = j.get("callee") or ""
    if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
        vn.memcpy(mem, args[0], args[1], args[2], x)
        return None
    if name.startswith("llvm.memset"):
        vn.write_region(mem, args[0], args[2], "set", args[1])
        return None
    if name.startswith("llvm.lifetime"):
        base, off = split_ptr(args[1])
        if base is not None:
            vn._kill(mem, base, off, args[0])
            vn._kill_regions(mem, base, off, args[0])
        return None
    if name.startswith("llvm."):
        return atom("intr", name, *args, w=width(x.ty)) if x.ty != "void" else None
    return None
