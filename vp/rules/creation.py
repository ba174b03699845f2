"""Creation of database files (mid-level module): exclusiveness, parameter checks, clean-up, completeness (C17)."""
from .. import terms as tm
from ..terms import atom
from ..ir import AnchorError
from ..flow import ec_params
from .common import *
from .commit import need, check_header, hdr_len
from .headers import LITERAL
from .regen import Rekey

FLIP = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}
NOT = {"lt": "ge", "gt": "le", "le": "gt", "ge": "lt", "eq": "ne", "ne": "eq"}


def fpc(t):
    a = t.atom() if isinstance(t, tm.T) else None
    if a is not None and a.k == "fp":
        try:
            return float(a.p[0])
        except ValueError:
            return None
    return None


def float_facts(a, val, arg):
    """what a floating-point comparison of the argument with a constant says: ('gt0', 'lt1', 'num')"""
    if a.k == "call":
        return set()
    if a.k != "fcmp":
        return set()
    pred, x, y = a.p
    if x is arg and y is arg:
        if pred in ("une", "uno") and not val or pred in ("oeq", "ord") and val:
            return {"num"}
        return set()
    c = fpc(y)
    rel = pred[1:]
    if x is not arg or c is None:
        c = fpc(x)
        if y is not arg or c is None:
            if pred == "uno" and (x is arg or y is arg):
                return set() if val else {"num"}
            if pred == "ord" and (x is arg or y is arg):
                return {"num"} if val else set()
            return set()
        rel = FLIP.get(rel, rel)
    if pred in ("uno", "ord"):
        return {"num"} if (pred == "ord") == val else set()
    out = set()
    if (pred[0] == "o") == val:
        out.add("num")
    if rel not in NOT:
        return out
    r = rel if val else NOT[rel]
    if r == "gt" and c >= 0 or r == "ge" and c > 0:
        out.add("gt0")
    if r == "lt" and c <= 1 or r == "le" and c < 1:
        out.add("lt1")
    return out


def edge_facts(fn, vn, p, b, depth=12):
    """[(atom, value)] that hold on the edge p -> b"""
    out = []
    while depth:
        depth -= 1
        t = fn.blocks[p][-1]
        if t.op == "br" and "cond" in t.j and t.j["succ"][0] != t.j["succ"][1]:
            l = vn.lit(t.j["cond"])
            if l not in (True, False):
                a = l[0].atom()
                if a is not None:
                    out.append((a, (t.j["succ"][0] == b) == l[1]))
        ps = fn.pred[p]
        if len(set(ps)) != 1:
            break
        b, p = p, next(iter(ps))
    return out


def interval(fn, vn, t, facts=(), seen=()):
    """(lo, hi) of an unsigned term built from constants, min, max and merges; hi None where unknown"""
    if t.is_const:
        return t.const, t.const
    lo, hi = 0, None
    a = t.atom()
    if a is not None and a.k in ("min", "max"):
        iv = [interval(fn, vn, p, facts, seen) for p in a.p if isinstance(p, tm.T)]
        los, his = [i[0] for i in iv], [i[1] for i in iv]
        if a.k == "max":
            lo = max(los)
            hi = max(his) if None not in his else None
        else:
            hi = min([z for z in his if z is not None], default=None)
            lo = min(los)
    elif a is not None and a.k == "sel":
        c = tm.term_lit(a.p[0])
        ca = c[0].atom() if c not in (True, False) else None
        iv = [interval(fn, vn, p, tuple(facts) + (((ca, pos == c[1]),) if ca is not None else ()), seen)
              for p, pos in ((a.p[1], True), (a.p[2], False))]
        lo = min(i[0] for i in iv)
        hi = max(i[1] for i in iv) if all(i[1] is not None for i in iv) else None
    elif a is not None and a.k == "phi" and a.p[-1] in fn.ins and fn.ins[a.p[-1]].bb not in fn.loops and a.p[-1] not in seen:
        x = fn.ins[a.p[-1]]
        iv = [interval(fn, vn, vn.op(v), edge_facts(fn, vn, p, x.bb), seen + (x.id,)) for p, v in x.j["in"]
              if p in fn.rpon and p not in fn.dead and v["k"] != "undef"]
        if iv:
            lo = min(i[0] for i in iv)
            hi = max(i[1] for i in iv) if all(i[1] is not None for i in iv) else None
    for f, val in facts:
        if f.k == "ult" and f.p[0] is t and f.p[1].is_const:
            c = f.p[1].const
            if val:
                hi = c - 1 if hi is None else min(hi, c - 1)
            else:
                lo = max(lo, c)
        if f.k == "eq" and f.p[0] is t and not val:
            lo = max(lo, 1)
    return lo, hi


class Params(Rekey):
    """shared: which parameters have been found valid"""

    def param_facts(self, a, val, st):
        if not isinstance(a, tm.Atom):
            return st
        out = set(float_facts(a, val, self.lf))
        if a.k == "eq" and not val and a.p[0] is self.ks:
            out.add("ks>0")
        if a.k == "ult":
            x, y = a.p
            if y.is_const:
                if x is self.ks:
                    if val and y.const <= 65536:
                        out.add("ks<")
                    if not val and y.const >= 1:
                        out.add("ks>0")
                if x is self.bs:
                    if val and y.const <= 65536:
                        out.add("bs<")
                    if not val and y.const >= self.minbs:
                        out.add("bs>")
        return st | out if out - st else st

    def check_params(self, ev, st):
        self.oblige("parameters valid before a file is created", ev)
        for f, m in (("ks>0", "a zero key size"), ("ks<", "a key size the headers cannot hold"),
                     ("bs<", "a block size the headers cannot hold"),
                     ("bs>", "a block size with no room for the key file header or an entry"),
                     ("gt0", "a load factor of zero or less"), ("lt1", "a load factor of one or more"), ("num", "a load factor that is not a number")):
            if f not in st and (self.ks is not None or not f.startswith("ks")):
                self.report(ev, f"a file is created although {m} has not been excluded")

    def lfspec(self):
        def p(t):
            if t is None or not tm.contains(t, lambda a: a is self.lf.atom()):
                return False
            lo, hi = interval(self.fn, self.vn, t)
            return lo >= 1 and hi is not None and hi <= 65535
        return ("load factor", 2, p)


class Create(Params):
    """create()"""
    pos = dict(appnum=3, uid=4, salt=5, ks=6, bs=7, lf=8)

    def setup(self):
        self.out = atom("arg", ec_params(self.fn)[0])
        p = self.pos
        self.salt, self.ks, self.bs, self.lf = (atom("arg", p[k]) for k in ("salt", "ks", "bs", "lf"))
        self.appnum = atom("arg", p["appnum"])
        self.uid = atom("arg", p["uid"]) if p["uid"] is not None else None
        self.minbs = 104

    def spec(self, h):
        def is_(v):
            return lambda t: t is v
        def lit(b):
            return lambda t: t is not None and t.is_const and t.const == int.from_bytes(b, "big")
        s = [("type", 8, lit(LITERAL[h])), ("version", 2, lit(b"\2")), ("uid", 8, self.isuid), ("appnum", 8, is_(self.appnum)),
             ("key size", 2, is_(self.ks))]
        if h == "kh":
            s += [("salt", 8, is_(self.salt)), ("pepper", 8, self.pepper), ("block size", 2, is_(self.bs)), self.lfspec()]
        return s

    def isuid(self, t):
        if self.uid is not None:
            return t is self.uid
        # the same generated value in both headers
        if t is None or t.is_const or t in (self.appnum, self.salt):
            return False
        if not hasattr(self, "_uid"):
            self._uid = t
        return self._uid is t

    def on_assume(self, ev, st):
        return self.param_facts(*ev.args, st)

    def on_call(self, ev, op, st):
        if op is None:
            return None
        k, r, a = op.k, op.role, ev.args
        if k == "open":
            self.report(ev, f"opens the {r} instead of creating it")
            return None
        if k == "create":
            if r not in ("df", "kf", "lf"):
                self.report(ev, "creates an unknown file")
            self.check_params(ev, st)
            return None
        if k == "erase":
            self.oblige("only created files are removed", ev)
            if ("created", r) not in st:
                self.report(ev, f"removes the {r}, which it did not create")
            return st | {("gone", r)}
        if k == "bctor":
            if "empty_t" in (op.x.j.get("dem") or "") and a[1] is self.bs:
                return st | {("empty", a[0].id)}
            return frozenset(f for f in st if f != ("empty", a[0].id))
        if k in ("binsert", "berase", "bspill", "breadbulk", "bread"):
            return frozenset(f for f in st if f != ("empty", a[0].id))
        if op.mutates is None:
            return None
        if k in ("write", "bwrite"):
            at = a[1] if k == "write" else a[2]
            if k == "write" and at.is_const and at.const == 0 and r in ("df", "kf"):
                h = {"df": "dh", "kf": "kh"}[r]
                self.oblige(f"{r} header content", ev)
                sp = self.spec(h)
                n = hdr_len(sp)
                if a[3].is_const and a[3].const < n:
                    self.report(ev, f"the {r} header is not written completely")
                for b in check_header(content(self.vn, ev, 2, n), sp):
                    self.report(ev, f"the {r} header's {b} is not what the caller asked for")
            elif r == "lf":
                self.report(ev, "writes into the new log file")
            elif not (r == "kf" and at is self.bs):
                self.report(ev, f"writes the {r} at an unexpected place")
            elif k == "bwrite" and ("empty", a[0].id) not in st:
                self.report(ev, "the first bucket is not empty")
            return st | {("dirty", r)}
        self.report(ev, f"changes the {r} by {k}")
        return None

    def on_ok(self, ev, op, st):
        if op is None:
            return None
        k, r, a = op.k, op.role, ev.args
        if k == "create":
            return st | {("created", r), ("dirty", r)}
        if k == "sync":
            return st - {("dirty", r)}
        if k in ("write", "bwrite"):
            at = a[1] if k == "write" else a[2]
            if at.is_const and at.const == 0:
                return st | {("header", r)}
            if at is self.bs:
                return st | {"bucket"}
        return None

    def on_ret(self, ev, st):
        e = self.ecv(ev, self.out)
        made = {f[1] for f in st if isinstance(f, tuple) and f[0] == "created"}
        gone = {f[1] for f in st if isinstance(f, tuple) and f[0] == "gone"}
        if e == "ok":
            self.oblige("success only when complete and durable", ev)
            for r in ("df", "kf", "lf"):
                if r not in made:
                    self.report(ev, f"succeeds without creating the {r}")
                if r in gone:
                    self.report(ev, f"succeeds after removing the {r}")
                if ("dirty", r) in st:
                    self.report(ev, f"succeeds before the {r} is durable")
            for r in ("df", "kf"):
                if ("header", r) not in st:
                    self.report(ev, f"succeeds without writing the {r}'s header")
            if "bucket" not in st:
                self.report(ev, "succeeds without writing the first bucket")
        else:
            if made:
                self.oblige("failure removes what was created", ev)
            for r in sorted(made - gone):
                self.report(ev, f"fails but leaves the {r} it created")
        return None


class Forward(MidAut):
    """the overload of create that generates the uid forwards everything else"""

    def setup(self):
        self.out = atom("arg", ec_params(self.fn)[0])

    def on_call(self, ev, op, st):
        if ev.qn != "nudb::create":
            return None
        self.oblige("parameters forwarded", ev)
        want = [0, 1, 2, 3, None, 4, 5, 6, 7, 8]
        a = ev.args
        for i, w in enumerate(want):
            if w is not None and (i >= len(a) or a[i] is not atom("arg", w)):
                self.report(ev, f"argument {i} of create is not forwarded")
        if a[4].is_const or a[4].atom() is not None and a[4].atom().k == "arg":
            self.report(ev, "the database's uid is not a generated value")
        return st | {"done"}

    def on_ret(self, ev, st):
        if "done" not in st:
            self.report(ev, "returns without creating a database")
        return None


class RekeyParams(Params):
    """rekey()"""

    def setup(self):
        super().setup()
        self.ks = None
        self.lf = atom("arg", self.lfarg())
        self.minbs = 104
        # the block size and load factor are the caller's
        if self.bs.atom() is None or self.bs.atom().k != "arg":
            raise AnchorError("rekey does not use the caller's block size")

    def on_assume(self, ev, st):
        return self.param_facts(*ev.args, st)

    def on_call(self, ev, op, st):
        if op is None:
            return None
        k, r, a = op.k, op.role, ev.args
        if k == "create":
            self.check_params(ev, st)
            if r == "df":
                self.report(ev, "creates the data file")
            return None
        if k == "open":
            self.oblige("files opened, not overwritten", ev)
            if r == "kf" or r == "lf" and not (a[1].is_const and a[1].const in (0, 1)):
                self.report(ev, f"opens an existing {r} for writing")
            return None
        if k == "write" and r == "kf" and a[1].is_const and a[1].const == 0:
            self.oblige("load factor stored", ev)
            sp = self.spec("kh")[:-1] + [self.lfspec()]
            bad = check_header(content(self.vn, ev, 2, hdr_len(sp)), sp)
            for b in bad:
                if b in ("load factor", "block size"):
                    self.report(ev, f"the key file header's {b} is not what the caller asked for")
        return None


@rule("C17")
def create_exclusive_and_clean(res, L):
    root = L["mid"].root("create")
    aut = Create()
    run(res, "create_exclusive_and_clean", root, aut)
    for ob in ("parameters valid before a file is created", "success only when complete and durable", "failure removes what was created",
               "only created files are removed", "df header content", "kf header content"):
        need(res, "create_exclusive_and_clean", root, aut, ob, f"not found in create: {ob}")
    root = L["mid"].root("create2")
    aut = Forward()
    run(res, "create_forwards", root, aut)
    need(res, "create_forwards", root, aut, "parameters forwarded", "the overload of create without a uid does not create a database")


@rule("C17")
def rekey_exclusive(res, L):
    root = L["mid"].root("rekey")
    aut = RekeyParams()
    run(res, "rekey_exclusive", root, aut)
    for ob in ("parameters valid before a file is created", "load factor stored"):
        need(res, "rekey_exclusive", root, aut, ob, f"not found in rekey: {ob}")
