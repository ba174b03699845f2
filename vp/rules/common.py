"""Shared vocabulary of the rules: what a call in an inlined root means for the store."""
import re
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import split_ptr, AnchorError
from ..flow import Automaton

RULES = {}          # property -> [(rule name, function)]


def rule(*props):
    def deco(f):
        for p in props:
            RULES.setdefault(p, []).append((f.__name__, f))
        return f
    return deco


class Result:
    """what the rules of one property found and covered"""

    def __init__(self):
        self.violations = {}
        self.ob = {}
        self.funcs = set()
        self.states = 0
        self.notes = []

    def oblige(self, name, site="", n=1):
        self.ob[(name, site)] = self.ob.get((name, site), 0) + n

    def fail(self, rulename, function, site, msg, chain=(), path=(), key=None):
        k = (key or msg, site)
        if k not in self.violations:
            self.violations[k] = {"rule": msg, "check": rulename, "function": function, "site": site, "chain": list(chain),
                                  "path": list(path)}

    def absorb(self, name, root, aut, flow=None):
        self.funcs.add(root.fn.dem.split("(")[0][:160])
        if flow is not None:
            self.states += len(flow.seen)
        for (m, site), n in aut.ob.items():
            self.oblige(m, site, n)
        for (k, w), v in aut.viol.items():
            self.fail(name, v["function"], v["site"], v["rule"], v["chain"], v["path"], key=k)

    def at(self, rulename, fn, ins, msg, key=None):
        self.fail(rulename, fn.dem.split("(")[0][:120], fn.where(ins), msg, fn.chain(ins)[:8], key=key)


def run(res, name, root, aut, ec_entry="ok", ec_init=None, cells=None):
    fl = root.run(aut, ec_entry, ec_init=ec_init, cells=cells)
    res.absorb(name, root, aut, fl)
    return fl


def short(q):
    return q.split("::")[-1]


def calls_in(root, pred):
    return list(root.calls(pred))


# ---------------------------------------------------------------- vocabulary
BW = "nudb::detail::bulk_writer<"
BR = "nudb::detail::bulk_reader<"
BK = "nudb::detail::bucket_t<"
CA = "nudb::detail::cache_t<"
PO = "nudb::detail::pool_t<"


class Op:
    """one classified operation: kind, file role, operand terms"""
    __slots__ = ("k", "role", "a", "x", "q")

    def __init__(self, k, role, a, x, q):
        self.k, self.role, self.a, self.x, self.q = k, role, a, x, q

    def __repr__(self):
        return f"<{self.k} {self.role} {self.a}>"

    @property
    def mutates(self):
        """role of the file whose content this may change, else None"""
        if self.k in ("write", "trunc", "create", "erase", "wprepare", "wflush", "spillout", "bwrite"):
            return self.role
        return None


def classify_call(root, x, q, a):
    """the Op a call stands for, given its argument terms; None if it is of no interest"""
    writers, readers = root.writers, root.readers
    f = root.fop(x, a)
    m = short(q)
    if f is not None:
        return Op(f[0], f[1], a, x, q)
    elif q.startswith(BW):
        k = {"bulk_writer": "wctor", "prepare": "wprepare", "flush": "wflush"}.get(m)
        if k:
            return Op(k, writers.get(a[0].id, "?"), a, x, q)
    elif q.startswith(BR):
        k = {"bulk_reader": "rctor", "prepare": "rprepare", "eof": "reof", "offset": "roffset"}.get(m)
        if k:
            return Op(k, readers.get(a[0].id, "?"), a, x, q)
    elif m == "maybe_spill" and q.startswith("nudb::detail::"):
        return Op("spillout", writers.get(a[1].id, "?"), a, x, q)
    elif q.startswith(BK):
        if m == "read":
            if len(a) == 4:
                return Op("bread", root.file_role(a[1]), a, x, q)
            else:
                return Op("breadbulk", readers.get(a[1].id, "?"), a, x, q)
        elif m == "write":
            if len(a) == 4:
                return Op("bwrite", root.file_role(a[1]), a, x, q)
            else:
                return Op("bencode", None, a, x, q)
        elif m == "bucket_t":
            return Op("bctor", None, a, x, q)
        elif m in ("insert", "erase", "clear", "spill", "at", "lower_bound"):
            return Op("b" + m, None, a, x, q)
    elif q.startswith(CA):
        return Op("c" + m, None, a, x, q)
    elif q.startswith(PO):
        return Op("p" + m, None, a, x, q)
    elif q == "nudb::detail::swap":
        return Op("swap", None, a, x, q)
    elif q.startswith("nudb::detail::gentex_t"):
        return Op("g" + m, None, a, x, q)
    elif q.startswith("boost::shared_mutex::") or q.startswith("std::mutex::"):
        return Op(m, None, a, x, q)
    elif q.startswith("std::map<") or q.startswith("std::unordered_map<"):
        return Op("m:" + m, None, a, x, q)
    return None


def classify(root):
    """ins id -> Op for every call of a mid- or main-level root"""
    if hasattr(root, "ops"):
        return root.ops
    ops = {}
    writers, readers = {}, {}
    for x, q, a in root.calls():
        if q.startswith(BW) and short(q) == "bulk_writer":
            writers.setdefault(a[0].id, root.file_role(a[1]))
        elif q.startswith(BR) and short(q) == "bulk_reader":
            readers.setdefault(a[0].id, root.file_role(a[1]))
    root.writers, root.readers = writers, readers
    for x, q, a in root.calls():
        op = classify_call(root, x, q, a)
        if op is not None:
            ops[x.id] = op
    root.ops = ops
    return ops


class MidAut(Automaton):
    """automaton over classified operations; the state is a frozenset of facts"""
    wants_ptrs = True

    def start(self):
        return frozenset()

    def setup(self):
        pass

    def _init(self):
        self.ops = classify(self.root)
        self.L = self.root.lib
        self.fn, self.vn = self.root.fn, self.root.vn
        self.setup()
        self._ready = True

    def on(self, ev, st):
        if not getattr(self, "_ready", False):
            self._init()
        if ev.k in ("call", "ok", "fail", "drop"):
            op = self.ops.get(ev.ins.id)
            if op is not None and ev.k != "drop" and ev.args is not op.a and any(
                    y is not z for y, z in zip(ev.args, op.a)):
                # a pointer argument was resolved along this path
                op = classify_call(self.root, op.x, op.q, list(ev.args))
            m = getattr(self, "on_" + ev.k, None)
            if m is not None:
                return m(ev, op, st)
            return None
        m = getattr(self, "on_" + ev.k, None)
        return m(ev, st) if m is not None else None


def has(st, *facts):
    return all(f in st for f in facts)


# ---------------------------------------------------------------- loops over containers
class Foreach:
    """which loops of a root visit every element of which container.

    A loop qualifies when a pointer phi at its header starts at begin(C), is advanced only by
    the container's own successor operation, and leaves through comparison with end(C)."""

    def __init__(self, root):
        self.root = root
        fn, vn = root.fn, root.vn
        begins, ends = {}, {}
        for x, q, a in root.calls():
            if (q.startswith("std::map<") or q.startswith("std::unordered_map<")) and a:
                m = short(q)
                t = vn.t.get(x.id)
                if t is None:
                    continue
                if m in ("begin", "cbegin"):
                    begins[t.id] = a[0]
                elif m in ("end", "cend"):
                    ends[t.id] = a[0]
        self.begins, self.ends = begins, ends
        self.loops = {}      # phi atom id -> (container term, phi term, header)
        for h, body in fn.loops.items():
            for x in fn.blocks[h]:
                if x.op != "phi":
                    break
                t = vn.t.get(x.id)
                pa = t.atom() if t is not None else None
                if pa is None or pa.k != "phi":
                    continue
                cont = None
                good = True
                for p, v in x.j["in"]:
                    vt = vn.op(v)
                    if p in body:
                        if not self._succ(vt, t):
                            good = False
                    else:
                        c = begins.get(vt.id)
                        if c is None:
                            good = False
                        else:
                            cont = c
                if good and cont is not None:
                    self.loops[pa.id] = (cont, t, h)

    def _succ(self, v, phi):
        a = v.atom()
        if a is None:
            return False
        if a.k == "ld" and a.p[0] is phi:
            return True
        if a.k == "call":
            x = self.root.fn.ins.get(a.p[-1])
            if x is not None and (x.j.get("qn") or "").endswith("_Rb_tree_increment"):
                return self.root.vn.callargs[x.id][0] is phi
        return False

    def test(self, a, val):
        """is `assume a == val` the end test of a container loop?  -> (container, phi term, done) or None"""
        if not isinstance(a, tm.Atom) or a.k != "eq":
            return None
        d = a.p[0]
        if len(d.m) != 2:
            return None
        phi = end = None
        for mono, c in d.m.items():
            if len(mono) != 1 or c not in (1, -1):
                return None
            t = tm.mk({mono: 1})
            if mono[0].id in self.loops:
                phi = mono[0]
            elif t.id in self.ends:
                end = self.ends[t.id]
        if phi is None or end is None:
            return None
        cont, t, h = self.loops[phi.id]
        if cont is not end:
            return None
        return cont, t, val


def ld(ptr):
    """matcher: term is a load from ptr"""
    def f(t):
        a = t.atom()
        return a is not None and a.k == "ld" and a.p[0] is ptr
    return f


def is_ld(t, ptr):
    a = t.atom() if t is not None else None
    return a is not None and a.k == "ld" and a.p[0] is ptr


def bytes_of(vn, ins, ptr, n):
    """the n bytes at ptr just before ins (terms, None where unknown)"""
    mem = vn.mem_at(ins)
    return [vn.byte_at(mem, ptr, k) for k in range(n)]


def content(vn, ev, i, n):
    """the n bytes behind pointer argument i of a call event (as written in the code, or as resolved on the path)"""
    bs = bytes_of(vn, ev.ins, vn.callargs[ev.ins.id][i], n)
    if any(b is None for b in bs) and i < len(ev.args) and ev.args[i] is not vn.callargs[ev.ins.id][i]:
        r = bytes_of(vn, ev.ins, ev.args[i], n)
        bs = [b if b is not None else c for b, c in zip(bs, r)]
    return bs


def be(bs, src=None):
    """if the byte terms are the big-endian encoding of one value, that value's defining term; else None.
    src: predicate on the term"""
    n = len(bs)
    t0 = None
    if any(b is None for b in bs):
        return None
    if all(b.is_const for b in bs):
        v = 0
        for b in bs:
            v = v * 256 + b.const
        return const(v)
    for k, b in enumerate(bs):
        sh = n - 1 - k
        a = b.atom()
        if a is None:
            return None
        if a.k == "byte":
            if a.p[1] != sh:
                return None
            t = a.p[0]
        elif n == 1 or a.w <= 8:
            t = b
            if n > 1:
                return None
        else:
            return None
        if t0 is None:
            t0 = t
        elif t0 is not t:
            # the loads may differ in identity only
            return None
    return t0


def empty_test(root, a, val, cont):
    """does `assume a == val` establish that the container is empty (True) / not empty (False)?  else None"""
    if not isinstance(a, tm.Atom):
        return None
    ops = classify(root)

    def op(t):
        x = t.atom() if isinstance(t, T) else t
        if x is not None and x.k == "call":
            o = ops.get(x.p[-1])
            if o is not None and o.a and o.a[0] is cont:
                return o.k
        return None
    if a.k == "call":
        o = op(a)
        return val if o in ("m:empty", "pempty") else None
    if a.k == "eq":
        d = a.p[0]
        k = op(d) or op(tm.sub(const(0), d))
        if k == "m:size":
            return val
        if len(d.m) == 2 and all(len(m) == 1 and c in (1, -1) for m, c in d.m.items()):
            ks = {op(tm.mk({m: 1})) for m, c in d.m.items()}
            if ks == {"m:begin", "m:end"} or ks == {"m:cbegin", "m:cend"}:
                return val
    if a.k == "ult" and isinstance(a.p[0], T) and a.p[0].is_const:
        if op(a.p[1]) == "m:size" and a.p[0].const == 0:
            return not val
    return None
