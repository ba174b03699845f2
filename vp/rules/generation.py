"""C08: the generation counting mutex and the lock object that holds a generation.  Each method is short; every way through it
(up to where a loop repeats) is summarised by what it decides, what it leaves in the fields and whom it notifies, and the
summaries are compared with what the barrier of the commit protocol needs."""
from .. import ir, model
from .. import terms as tm
from ..terms import T, atom, const, ZERO
from ..ir import AnchorError, split_ptr
from .common import *

THIS = atom("arg", 0)
WAITS = ("std::condition_variable::wait",)


def effects(vn, x, args, mem):
    q = x.j.get("qn") or ""
    if q.startswith("std::condition_variable::"):
        if q.split("::")[-1].startswith("wait"):
            vn.kill_base(mem, lambda b: b.k == "arg")
        return None
    if q.startswith("vp::gmutex::"):
        return None
    return model.effects(vn, x, args, mem)


class Way:
    """one way through a method"""

    def __init__(self):
        self.cur = {}           # field offset -> value left in it
        self.width = {}
        self.lits = []          # decisions
        self.held = None        # mutex
        self.locks = 0
        self.epoch = 0
        self.calls = []         # (name, arguments, held, stores so far)
        self.end = None
        self.ret = None
        self.outside = []       # accesses made without the mutex
        self.last = None
        self.env = {}
        self.ins = None

    def fork(self):
        w = Way()
        w.__dict__.update(self.__dict__)
        for k in ("cur", "width", "env"):
            w.__dict__[k] = dict(self.__dict__[k])
        for k in ("lits", "calls", "outside"):
            w.__dict__[k] = list(self.__dict__[k])
        return w


class Ways:
    def __init__(self, fn, pure=None):
        self.fn = fn
        self.pure = pure        # calls that change nothing that is followed here
        self.vn = ir.VN(fn, effects=effects)
        self.out = []
        # the arguments that are objects are not null
        self.objects = [n for n, a in enumerate(fn.args) if a.get("ty") == "ptr"]
        self.go(fn.rpo[0], None, Way(), ())

    # -- terms along a way
    def sub(self, t, w):
        r = ZERO
        for m, c in t.m.items():
            p = const(c)
            for a in m:
                p = tm.mul(p, self.asub(a, w))
            r = tm.add(r, p)
        return r

    def asub(self, a, w):
        if a in w.env:
            return w.env[a]
        if a.k in ("arg", "fld", "alloca", "g", "call", "undef"):
            return tm.mk({(a,): 1})
        ps = [self.sub(q, w) if isinstance(q, T) else q for q in a.p]
        if a.k == "eq":
            return tm.lit_term(tm.eq(ps[0], ZERO))
        if a.k in ("ult", "slt"):
            return tm.lit_term(getattr(tm, a.k)(ps[0], ps[1]))
        if a.k == "not":
            return tm.lit_term(tm.neg(tm.term_lit(ps[0])))
        if a.k == "band":
            return tm.lit_term(ir.lit_op("and", *(self.known(tm.term_lit(q), w) for q in ps)))
        if a.k == "bxor":
            return tm.lit_term(ir.lit_op("xor", *(self.known(tm.term_lit(q), w) for q in ps)))
        if a.k == "sel":
            return ir.select(self.known(tm.term_lit(ps[0]), w), ps[1], ps[2])
        if all(p is q for p, q in zip(ps, a.p)):
            return tm.mk({(a,): 1})
        if a.k == "bit" and ps[0].is_const:
            return const(ps[0].const & 1)
        if a.k == "trunc":
            return tm.trunc(ps[0], a.p[1])
        return atom(a.k, *ps, w=a.w)

    def lit(self, l, w):
        if l in (True, False):
            return l
        return self.known(tm.term_lit(self.sub(tm.lit_term(l), w)), w)

    @staticmethod
    def known(r, w):
        if r in (True, False):
            return r
        for k, v in w.lits:
            if k is r[0]:
                return v == r[1]
        return r

    # -- walking
    def field(self, ptr):
        b, o = split_ptr(ptr)
        if b is not None and b.k == "arg" and o.is_const:
            return (b.p[0], o.const)
        return None

    def choose(self, ptr, w):
        """the condition of a choice between two objects in a pointer"""
        for a in ptr.atoms():
            if a.k == "sel":
                return tm.term_lit(a.p[0])
        return None

    def go(self, b, frm, w, seen, at=0):
        fn, vn = self.fn, self.vn
        if b in fn.dead:
            return
        if b in seen and not at:
            w.end = "again"
            self.out.append(w)
            return
        if len(self.out) > 400:
            raise AnchorError(f"too many ways through {fn.dem}")
        if b not in fn.loops and not at:
            new = {}
            for x in fn.blocks[b]:
                if x.op == "phi" and x.id in vn.l and vn.l[x.id] not in (True, False):
                    a = vn.l[x.id][0].atom()
                    for p, v in x.j["in"]:
                        if p == frm and a is not None and a.k == "phi":
                            new[a] = tm.lit_term(self.lit(vn.lit(v), w))
                elif x.op == "phi" and x.id in vn.t:
                    a = vn.t[x.id].atom()
                    if a is None or a.k != "phi":
                        continue
                    for p, v in x.j["in"]:
                        if p == frm:
                            new[a] = self.sub(vn.op(v), w)
            w.env.update(new)
        for n, x in enumerate(fn.blocks[b]):
            if n < at:
                continue
            if x.op in ("load", "store"):
                l = self.choose(self.sub(vn.op(x.j["a"][x.op == "store"]), w), w)
                if l is not None and l not in (True, False):
                    for k in (l, tm.neg(l)):
                        v = w.fork()
                        if not self.learn(v, k):
                            continue
                        # values that depend on the choice are now decided
                        v.env = {a: self.sub(t, v) for a, t in v.env.items()}
                        v.cur = {f: self.sub(t, v) for f, t in v.cur.items()}
                        self.go(b, frm, v, seen, n)
                    return
            if x.op == "load":
                f = self.field(self.sub(vn.op(x.j["a"][0]), w))
                if f is not None:
                    t = vn.t.get(x.id)
                    a = t.atom() if t is not None else None
                    w.width[f] = x.j["size"]
                    if a is not None and a.k == "ld" and a.p[1] == x.id:
                        w.env[a] = w.cur.get(f, atom("fld", f[0], f[1], w.epoch, w=a.w))
                    w.outside += [(x, f, w.held)]
            elif x.op == "store":
                f = self.field(self.sub(vn.op(x.j["a"][1]), w))
                if f is not None:
                    w.cur[f] = self.sub(vn.op(x.j["a"][0]), w)
                    w.width[f] = x.j["size"]
                    w.outside += [(x, f, w.held)]
                    w.last = x
                else:
                    base, o = split_ptr(self.sub(vn.op(x.j["a"][1]), w))
                    if base is None or base.k != "alloca":
                        raise AnchorError(f"{fn.dem} writes where it cannot be followed")
            elif x.op in ("call", "invoke"):
                q = x.j.get("qn") or ""
                a = [self.sub(t, w) for t in vn.callargs.get(x.id, [])]
                if q.startswith("llvm.mem"):
                    f = self.field(a[0])
                    if f is not None:
                        if q.startswith("llvm.memset") and a[2].is_const and a[1].is_const and a[1].const == 0:
                            for k in range(0, a[2].const, 8):
                                w.cur[(f[0], f[1] + k)] = ZERO
                        elif q.startswith("llvm.memcpy") and a[2].is_const and self.field(a[1]) is not None:
                            s = self.field(a[1])
                            for k in range(0, a[2].const, 8):
                                g = (s[0], s[1] + k)
                                w.cur[(f[0], f[1] + k)] = w.cur.get(g, atom("fld", g[0], g[1], w.epoch))
                        else:
                            raise AnchorError(f"{fn.dem} writes where it cannot be followed")
                    continue
                if q.startswith("llvm."):
                    continue
                m = q.split("::")[-1]
                if q == "std::mutex::lock":
                    w.held = a[0]
                    w.locks += 1
                    self.forget(w)
                elif q == "std::mutex::unlock":
                    w.held = None
                elif q.startswith("std::condition_variable::wait"):
                    w.calls.append(("wait", a, w.held, x, dict(w.cur)))
                    self.forget(w)
                elif q.startswith("std::condition_variable::notify"):
                    w.calls.append(("notify", a, w.locks, x, dict(w.cur)))
                elif q.startswith("vp::gmutex::"):
                    w.calls.append((m, a, w.held, x, dict(w.cur)))
                elif q in ("std::condition_variable::condition_variable", "std::condition_variable::~condition_variable",
                           "std::mutex::mutex", "std::__throw_system_error"):
                    pass
                elif q == "__assert_fail":
                    return
                elif self.pure is not None and self.pure(x):
                    w.calls.append((m, a, w.held, x, dict(w.cur)))
                else:
                    raise AnchorError(f"{fn.dem} calls {q or 'something'} that cannot be followed")
            w.ins = x
        t = fn.blocks[b][-1]
        seen = seen if b in seen else seen + (b,)
        if t.op == "ret":
            w.end = "ret"
            if t.j.get("a"):
                w.ret = self.sub(self.vn.op(t.j["a"][0]), w)
                w.retlit = self.lit(self.vn.lit(t.j["a"][0]), w)
            self.out.append(w)
        elif t.op == "br" and "cond" in t.j:
            l = self.lit(vn.lit(t.j["cond"]), w)
            for i, d in enumerate(t.j["succ"]):
                if l in (True, False):
                    if l == (i == 0):
                        self.go(d, b, w.fork(), seen)
                    continue
                v = w.fork()
                k = l if i == 0 else tm.neg(l)
                if any(k == tm.eq(atom("arg", n), ZERO) for n in self.objects):
                    continue
                if self.learn(v, k):
                    self.go(d, b, v, seen)
        elif t.op == "unreachable":
            return
        else:
            for d in self.fn.succ[b][:1] if t.op == "invoke" else self.fn.succ[b]:
                self.go(d, b, w.fork(), seen)

    def learn(self, w, l):
        a = l[0].atom() if isinstance(l[0], T) else None
        if a is not None and a.k == "band" and l[1]:
            for q in a.p:
                k = self.known(tm.term_lit(q), w)
                if k is False:
                    return False
                if k is not True and not self.learn(w, k):
                    return False
            return True
        w.lits.append((l[0], l[1]))
        return True

    def forget(self, w):
        w.epoch += 1
        for f in list(w.cur):
            if f[0] == 0:
                w.late = True
        w.env = {a: t for a, t in w.env.items() if not tm.contains(t, lambda q: q.k == "fld" and q.p[0] == 0)
                 or a.k != "ld"}


def fld(w, off, base=0, at=None):
    return atom("fld", base, off, w.epoch if at is None else at)


def implied(w, cond):
    """whether the decisions of a way entail a literal (True if it holds by itself)"""
    if cond is True:
        return True
    if cond is False:
        return False
    return any(k is cond[0] and v == cond[1] for k, v in w.lits)


def excluded(w, ways, env):
    """whether the decisions of a way cannot all hold when the given values are taken"""
    v = Way()
    v.env = env
    for k, p in w.lits:
        r = ways.lit((k, p), v)
        if r is False:
            return True
    return False


class Gentex:
    def __init__(self, res, L):
        self.res, self.L = res, L["gen"]
        self.mutex = None
        self.G = self.C = self.P = self.cond = None

    def bad(self, m, w, msg, x=None):
        self.res.at("generation counting", m.fn, x or w.last or w.ins, msg)

    def method(self, name, label):
        m = Ways(self.L.fn(rf"vp::m_{name}\("))
        self.res.funcs.add(f"nudb::detail::gentex_t::{label}")
        m.ways = [w for w in m.out]
        for w in m.ways:
            self.res.oblige(f"{label}: way through the method", m.fn.where(w.ins))
        return m

    def guarded(self, m, label):
        for w in m.ways:
            for x, f, held in w.outside:
                if self.mutex is not None and self.L and f[1] == self.mutex:
                    continue
                self.res.oblige("counter accessed under the mutex", m.fn.where(x))
                if held is None:
                    self.bad(m, w, f"{label}() accesses a counter without holding the mutex", x)
                    continue
                k = m.field(held)
                if k is None or k[0] != 0:
                    self.bad(m, w, f"{label}() holds another mutex", x)
                elif self.mutex is None:
                    self.mutex = k[1]
                elif self.mutex != k[1]:
                    self.bad(m, w, f"{label}() does not hold the mutex of the other methods", x)
            if w.end == "ret" and w.held is not None:
                self.bad(m, w, f"{label}() returns holding the mutex", w.ins)
            if label != "finish" and w.locks > 1:
                raise AnchorError(f"gentex::{label} takes its mutex more than once")

    def left(self, w):
        """what a way changes: field -> new value"""
        return {f[1]: t for f, t in w.cur.items() if f[0] == 0 and t is not fld(w, f[1])}

    def run(self):
        lock = self.method("lock", "lock_gen")
        self.guarded(lock, "lock_gen")
        rets = [w for w in lock.ways if w.end == "ret"]
        if not rets or len(rets) != len(lock.ways):
            raise AnchorError("gentex::lock_gen is not a straight critical section")
        for w in rets:
            a = w.ret.atom() if w.ret is not None else None
            ch = self.left(w)
            inc = [f for f, t in ch.items() if t is tm.add(fld(w, f), const(1))]
            if len(inc) != 1 or len(ch) != 1:
                self.bad(lock, w, "lock_gen() does not count the new holder exactly once")
                return
            if a is None or a.k != "fld" or a.p[0] != 0 or a.p[1] == inc[0]:
                self.bad(lock, w, "lock_gen() does not return the current generation")
                return
            if self.C not in (None, inc[0]) or self.G not in (None, a.p[1]):
                raise AnchorError("gentex::lock_gen keeps its counters in different places")
            self.C, self.G = inc[0], a.p[1]
        start = self.method("start", "start")
        self.guarded(start, "start")
        for w in start.ways:
            ch = self.left(w)
            c, g = fld(w, self.C), fld(w, self.G)
            if w.end != "ret":
                raise AnchorError("gentex::start loops")
            ps = [f for f in ch if f not in (self.C, self.G)]
            none = excluded(w, start, {c.atom(): const(1)}) and excluded(w, start, {c.atom(): const(2)})
            d = tm.sub(ch.get(self.G, g), g)
            if not d.is_const or d.const == 0:
                self.bad(start, w, "start() does not begin a new generation")
            if none and not ps and self.C not in ch:
                continue
            if len(ps) != 1 or ch[ps[0]] is not tm.add(fld(w, ps[0]), c):
                self.bad(start, w, "start() does not add the current holders to those of previous generations")
                continue
            if ch.get(self.C) is not ZERO:
                self.bad(start, w, "start() does not begin the new generation without holders")
            if self.P not in (None, ps[0]):
                raise AnchorError("gentex::start keeps its counters in different places")
            self.P = ps[0]
        if self.P is None:
            return
        un = self.method("unlock", "unlock_gen")
        self.guarded(un, "unlock_gen")
        for w in un.ways:
            if w.end != "ret":
                raise AnchorError("gentex::unlock_gen loops")
            same = tm.eq(atom("arg", 1), fld(w, self.G))
            ch = self.left(w)
            c, p = fld(w, self.C), fld(w, self.P)
            notes = [k for k in w.calls if k[0] == "notify"]
            for k in notes:
                f = un.field(k[1][0])
                if self.cond not in (None, f):
                    raise AnchorError("gentex notifies more than one condition")
                self.cond = f
                if not k[2]:
                    self.bad(un, w, "unlock_gen() notifies before it has counted the holder out", k[3])
            if implied(w, same):
                if ch != {self.C: tm.sub(c, const(1))}:
                    self.bad(un, w, "unlock_gen() does not take a holder of the current generation off its count")
            elif implied(w, tm.neg(same)):
                if ch != {self.P: tm.sub(p, const(1))}:
                    self.bad(un, w, "unlock_gen() does not take a holder of a previous generation off their count")
                self.res.oblige("the last holder of a previous generation notifies", un.fn.where(w.ins))
                if not notes and not excluded(w, un, {p.atom(): const(1)}):
                    self.bad(un, w, "unlock_gen() may let the last holder of a previous generation go without notifying", w.ins)
            else:
                self.bad(un, w, "unlock_gen() does not distinguish holders of the current generation from others", w.ins)
        fin = self.method("finish", "finish")
        self.guarded(fin, "finish")
        for w in fin.ways:
            if any(f[0] == 0 for f in w.cur):
                self.bad(fin, w, "finish() changes a counter")
            for k in w.calls:
                if k[0] == "notify":
                    continue
                self.res.oblige("waits on the condition that is notified", fin.fn.where(k[3]))
                if k[2] is None or fin.field(k[2]) != (0, self.mutex):
                    self.bad(fin, w, "finish() waits without holding the mutex", k[3])
                if self.cond is not None and fin.field(k[1][0]) != self.cond:
                    self.bad(fin, w, "finish() waits for another condition than the one notified", k[3])
            if w.end == "again":
                if w.held is None:
                    self.bad(fin, w, "finish() tests the holders without holding the mutex", w.ins)
                continue
            self.res.oblige("no holder of a previous generation when finish() returns", fin.fn.where(w.ins))
            p = fld(w, self.P)
            if not implied(w, tm.eq(p, ZERO)):
                self.bad(fin, w, "finish() may return while a previous generation has holders", w.ins)
        made = self.method("gen", "gentex_t")
        for w in made.ways:
            for f in (self.C, self.P):
                self.res.oblige("no holders at first", str(f))
                if w.cur.get((0, f)) is not ZERO:
                    self.bad(made, w, "a new gentex does not start without holders", w.ins)
            if (0, self.G) not in w.cur:
                self.bad(made, w, "a new gentex does not start at a definite generation", w.ins)


@rule("C08", "generation counting mutex")
def gentex(res, L):
    Gentex(res, L).run()


class Genlock:
    """the lock object: field g (the mutex), gen (the generation it holds) and the mark that it holds one"""

    def __init__(self, res, L):
        self.res, self.L = res, L["gen"]

    def method(self, name, label):
        m = self.m = Ways(self.L.fn(rf"vp::m_{name}\("))
        self.label = label
        self.res.funcs.add(f"nudb::detail::genlock::{label}")
        for w in m.out:
            self.res.oblige(f"genlock {label}: way through the method", m.fn.where(w.ins))
            if w.end != "ret":
                raise AnchorError(f"genlock::{label} loops")
        return m

    def bad(self, m, w, msg, x=None):
        self.res.at("generation lock object", m.fn, x or w.last or w.ins, msg)

    def holds(self, w, base, before):
        """whether the object at an argument owns, at the beginning or the end of a way: True, False, None = open"""
        out = []
        for f, want in ((self.g, None), (self.own, 1)):
            t = atom("fld", base, f, 0, w=8 if want else 64)
            if not before:
                t = w.cur.get((base, f), t)
            if want is None:
                l = tm.neg(tm.eq(t, ZERO))
                if t.is_const:
                    l = t.const != 0
                elif t.atom() is not None and t.atom().k == "arg":
                    l = True
            else:
                if t.is_const:
                    l = bool(t.const & 1)
                else:
                    l = None
                    for k, v in w.lits:
                        if self.isbit(k, t):
                            l = v
                    out.append(l)
                    continue
            if l in (True, False):
                out.append(l)
                continue
            out.append(True if implied(w, l) else False if implied(w, tm.neg(l)) else None)
        if False in out:
            return False
        if None in out:
            # a compound decision may rule out that it does
            t, g = (atom("fld", base, self.own, 0, w=8), atom("fld", base, self.g, 0))
            if not before:
                t, g = w.cur.get((base, self.own), t), w.cur.get((base, self.g), g)
            env = {tm.eq(g, ZERO)[0].atom(): ZERO}
            if t.atom() is not None:
                env[t.atom()] = const(1)
            return False if excluded(w, self.m, env) else None
        return True

    @staticmethod
    def isbit(k, t):
        """k says that the low bit of t is set"""
        a = k.atom() if isinstance(k, T) else None
        if k is t:
            return True
        return a is not None and a.k in ("bit", "trunc") and a.p and a.p[0] is t

    def run(self):
        owns = self.method("glock_owns", "owns_lock")
        fs = set()
        for w in owns.out:
            fs |= {(f[1], w.width[f]) for x, f, h in w.outside}
        g = [f for f, n in fs if n == 8]
        o = [f for f, n in fs if n == 1]
        if len(g) != 1 or len(o) != 1:
            raise AnchorError("genlock::owns_lock does not use one pointer and one flag")
        self.g, self.own = g[0], o[0]
        # how the generation is stored
        lk = self.method("glock_lock", "lock")
        self.gen = None
        for w in lk.out:
            self.takes(lk, w, atom("fld", 0, self.g, 0))
        if self.gen is None:
            return
        for n, label in (("glock", "genlock(g)"),):
            m = self.method(n, label)
            for w in m.out:
                self.takes(m, w, atom("arg", 1))
                if w.cur.get((0, self.g)) is not atom("arg", 1):
                    self.bad(m, w, f"{label} does not keep the mutex it was given")
        m = self.method("glock_defer", "genlock(g, defer_lock)")
        for w in m.out:
            if w.calls or w.cur.get((0, self.own)) is not ZERO or w.cur.get((0, self.g)) is not atom("arg", 1):
                self.bad(m, w, "a deferred lock does not start out as one that holds nothing")
        m = self.method("glock_unlock", "unlock")
        for w in m.out:
            self.releases(m, w, True)
            if self.holds(w, 0, False) is not False:
                self.bad(m, w, "unlock() leaves a lock that still counts as held", w.ins)
        m = self.method("glock_dtor", "~genlock")
        for w in m.out:
            self.releases(m, w, self.holds(w, 0, True))
        m = self.method("glock_move", "genlock(genlock&&)")
        for w in m.out:
            if w.calls:
                self.bad(m, w, "moving a lock takes or releases a generation", w.calls[0][3])
            self.moved(m, w)
        m = self.method("glock_assign", "operator=(genlock&&)")
        for w in m.out:
            self.releases(m, w, self.holds(w, 0, True))
            self.moved(m, w)

    def takes(self, m, w, g):
        self.res.oblige("takes one generation and remembers it", m.fn.where(w.ins))
        ls = [k for k in w.calls if k[0] == "lock_gen"]
        if len(ls) != 1 or len(w.calls) != 1 or ls[0][1][0] is not g:
            self.bad(m, w, f"{self.label} does not take exactly one generation of its mutex", ls[0][3] if ls else w.ins)
            return
        t = m.vn.t[ls[0][3].id]
        fs = [f[1] for f, v in w.cur.items() if f[0] == 0 and v is t]
        if len(fs) != 1 or self.gen not in (None, fs[0]):
            self.bad(m, w, f"{self.label} does not remember the generation it took", ls[0][3])
            return
        self.gen = fs[0]
        own = w.cur.get((0, self.own))
        if own is None or not own.is_const or not own.const & 1:
            self.bad(m, w, f"{self.label} does not leave a lock that counts as held", ls[0][3])

    def releases(self, m, w, held):
        """the generation held on entry, if any, is released, once"""
        self.res.oblige("releases the generation it holds, once", m.fn.where(w.ins))
        us = [k for k in w.calls if k[0] == "unlock_gen"]
        if len(us) != len(w.calls):
            self.bad(m, w, f"{self.label} takes a generation", w.calls[0][3])
        if held is None:
            # whether it holds one was not asked
            self.bad(m, w, f"{self.label} releases or keeps a generation without asking whether it holds one",
                     us[0][3] if us else w.ins)
            return
        if len(us) != (1 if held else 0):
            self.bad(m, w, f"{self.label} {'does not release the generation it holds exactly once' if held else 'releases a generation it does not hold'}",
                     us[0][3] if us else w.ins)
            return
        for k in us:
            if k[1][0] is not atom("fld", 0, self.g, 0) or k[1][1] is not atom("fld", 0, self.gen, 0):
                self.bad(m, w, f"{self.label} releases another generation than the one it holds", k[3])

    def moved(self, m, w):
        self.res.oblige("the generation moves to the new lock and to it only", m.fn.where(w.ins))
        if w.cur.get((0, self.g)) is not atom("fld", 1, self.g, 0):
            self.bad(m, w, f"{self.label} does not take over the mutex")
        t = w.cur.get((0, self.own))
        o = atom("fld", 1, self.own, 0, w=8)
        same = t is not None and (t is o or (t.atom() is not None and self.isbit(t, o)))
        if t is not None and t.is_const:
            k = [v for q, v in w.lits if self.isbit(q, o)]
            same = bool(k) and k[0] == bool(t.const & 1)
        if not same:
            self.bad(m, w, f"{self.label} does not take over whether the lock is held")
        if w.cur.get((0, self.gen)) is not atom("fld", 1, self.gen, 0):
            # harmless when nothing is held
            if self.holds(w, 1, True) is not False:
                self.bad(m, w, f"{self.label} does not take over the generation")
        if self.holds(w, 1, False) is not False:
            self.bad(m, w, f"{self.label} leaves the lock that was moved from holding its generation", w.ins)


@rule("C08", "generation lock object")
def genlock(res, L):
    Genlock(res, L).run()
