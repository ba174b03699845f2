"""C35: the arena hands out disjoint blocks, the pool and the cache keep their elements (component and container modules)."""
from .. import terms as tm
from ..terms import T, atom, const, ZERO
from ..ir import AnchorError
from .common import *
from .cells import Cells, component, sgn
from .posix import callee

A = [atom("arg", k) for k in range(6)]
MAPS = ("std::map<", "std::unordered_map<", "std::_Rb_tree<", "std::_Hashtable<")


def at(off, k=0):
    return tm.add(A[k], const(off))


def init(off, k=0, n=8):
    return atom("init", at(off, k), n)


class Trace(Cells):
    """calls, copies and fills in order; check(ev, st, trace) judges each return"""

    def opaque(self, ev, st, q, a):
        return self.push(st, ("call", q, tuple(a), ev.ins.id, frozenset(f for f in st if f[0] == "c")))

    def copied(self, ev, st, dst, src, n):
        return self.push(super().copied(ev, st, dst, src, n), ("copy", dst, src, n))

    def filled(self, ev, st, dst, n, v):
        return self.push(st, ("fill", dst, n, v))

    def push(self, st, e):
        tr = self.trace(st)
        if len(tr) > 40:
            raise AnchorError(f"{self.fn.dem}: too many calls to follow")
        return frozenset(f for f in st if f[0] != "tr") | {("tr", tr + (e,))}

    def trace(self, st):
        f = self.get(st, "tr")
        return f[1] if f else ()

    def result(self, e):
        return self.vn.t.get(e[3])

    def calls(self, tr, pat, *bases):
        out = []
        for e in tr:
            if e[0] == "call" and (e[1].startswith(bases) if bases else True) and base(e[1]) in pat:
                out.append(e)
        return out

    def expect(self, ev, ok, what, msg):
        self.oblige(what, ev)
        if not ok:
            self.report(ev, msg)

    def on_ret(self, ev, st):
        a = ev.ins.j["a"]
        self.check(ev, st, self.trace(st), self.pathval(self.vn.op(a[0]), st) if a else None)


def base(q):
    """the last component of a qualified name"""
    d, out = 0, ""
    for c in reversed(q):
        if c == ">":
            d += 1
        elif c == "<":
            d -= 1
        elif d == 0:
            if c == ":":
                break
            out = c + out
    return out


class Seen(Trace):
    """collects the final states"""

    def setup(self):
        super().setup()
        self.out = []

    def check(self, ev, st, tr, r):
        self.out.append((ev, st, tr, r))
        self.nodes = getattr(self, "nodes", []) + [ev.flow.node]


def each(res, root, what):
    """the final states of a method, judged by the caller's expect()"""
    s = Seen()
    fl = root.run(s, "ok")
    if not s.out:
        raise AnchorError(f"{root.name} never returns")
    for o, n in zip(s.out, s.nodes):
        fl.node = n
        yield (s,) + o
    res.absorb(what, root, s, fl)


# -- arena

class Alloc(Cells):
    """facts: ("new", pointer, size)"""

    def setup(self):
        super().setup()
        self.out = []

    def opaque(self, ev, st, q, a):
        if q in ("operator new", "operator new[]"):
            t = self.vn.t[ev.ins.id]
            return frozenset(f for f in st if f[:2] != ("new", t)) | {("new", t, a[0])}
        if q in ("operator delete", "operator delete[]"):
            self.report(ev, "allocating from an arena frees memory")
        return None

    def on_ret(self, ev, st):
        self.out.append((ev, st, self.pathval(self.vn.op(ev.ins.j["a"][0]), st)))


def multiple8(t):
    for m, c in t.m.items():
        if c % 8 and not any(a.k == "and" and any(isinstance(z, T) and z.is_const and z.const % 8 == 0 for z in a.p) for a in m):
            return False
    return True


def roles(res, L):
    """offsets: list (in the arena), next, used, capacity, header (of a block)"""
    lib = L["comp"]
    key = ("memory", "arena")
    if key in lib.cache:
        return lib.cache[key]
    p = Alloc()
    run(res, "arena allocation", component(L, "arena_alloc"), p)
    m = {}
    for ev, st, r in p.out:
        news = [f for f in st if f[0] == "new"]
        for f in news:
            nb = f[1].atom()
            if nb is None:
                continue
            # a new block: what of the arena points to it, and what it holds
            for c in st:
                if c[0] == "c" and c[1] is A[0].atom() and c[4] is f[1] and c[2].is_const:
                    m["list"] = sgn(c[2].const)
        if not news:
            for c in st:
                if c[0] == "c" and isinstance(c[1], tm.Atom) and c[1].k == "init" and c[2].is_const:
                    m["used"] = sgn(c[2].const)
    if "list" not in m or "used" not in m:
        raise AnchorError("how the arena reuses its newest block cannot be identified")
    old = init(m["list"])
    for ev, st, r in p.out:
        for f in [f for f in st if f[0] == "new"]:
            for c in st:
                if c[0] == "c" and tm.mk({(c[1],): 1}) is f[1] and c[2].is_const if isinstance(c[1] if c[0] == "c" else None, tm.Atom) else False:
                    o = sgn(c[2].const)
                    if o == m["used"]:
                        continue
                    if c[4] is old:
                        m["next"] = o
                    elif c[4] is not ZERO or "next" in m:
                        m.setdefault("cap", o)
            if tm.sub(r, f[1]).is_const:
                m["hdr"] = sgn(tm.sub(r, f[1]).const)
    for n in ("next", "cap", "hdr"):
        if n not in m:
            raise AnchorError(f"the {n} of an arena's blocks cannot be identified")
    lib.cache[key] = m
    return m


@rule("C35")
def arena_alloc(res, L):
    m = roles(res, L)
    root, p = component(L, "arena_alloc"), Alloc()
    fl = root.run(p, "ok")
    old = init(m["list"])
    cell = lambda b, n: atom("init", tm.add(b, const(m[n])), 8)
    room = tm.sub(cell(old, "cap"), cell(old, "used"))           # invariant: used <= capacity
    for ev, st, r in p.out:
        st = st | {("ge", room)}
        # a case that cannot happen (a non-null block at the null address)
        if p.nonneg(const(-1 & ((1 << 64) - 1)), st):
            continue

        def need(ok, what, msg):
            p.oblige(what, ev)
            if not ok:
                p.report(ev, msg)
        news = [f for f in st if f[0] == "new"]
        for f in st:
            if f[0] == "c" and isinstance(f[1], tm.Atom) and tm.mk({(f[1],): 1}) is old:
                need(f[2] is const(m["used"]) and f[3] == 8 or f[2] is const(m["next"]), "only the fill of the newest block changes",
                     "the header of a block other than its fill is changed")
        head = p.cur(st, at(m["list"]))
        if any(tm.sub(r, f[1]) is const(m["hdr"]) for f in news):
            f = next(f for f in news if tm.sub(r, f[1]) is const(m["hdr"]))
            b = f[1]
            cap, used, nxt = (p.cur(st, tm.add(b, const(m[n]))) for n in ("cap", "used", "next"))
            need(p.le(tm.add(cap, const(m["hdr"])), f[2], st), "a block is as large as its capacity",
                 "the capacity recorded for a new block exceeds the memory allocated for it")
            need(all(m[n] + 8 <= m["hdr"] for n in ("cap", "used", "next")), "a block's header is not handed out",
                 "the memory returned overlaps the header of its block")
            need(p.le(A[1], used, st), "as many bytes as asked for", "the arena returns fewer bytes than were asked for")
            need(p.le(used, cap, st), "as many bytes as the block has", "a new block is smaller than what is allocated from it")
            need(multiple8(used) and m["hdr"] % 8 == 0, "aligned", "the next allocation from a block would not be aligned")
            need(head is b and nxt is old, "every block stays on the list",
                 "a new block does not become the head of the list with the older blocks behind it")
        elif r is tm.add(tm.add(old, const(m["hdr"])), cell(old, "used")):
            k = tm.sub(p.cur(st, tm.add(old, const(m["used"]))), cell(old, "used"))
            need(not news, "no block is lost", "a new block is allocated and not used")
            need(p.le(A[1], k, st), "as many bytes as asked for", "the arena returns fewer bytes than were asked for")
            need(p.le(k, room, st), "as many bytes as the block has", "more bytes are taken from a block than are left in it")
            need(multiple8(k) and m["hdr"] % 8 == 0, "aligned", "the next allocation from a block would not be aligned")
            need(head is old, "every block stays on the list", "the list of blocks is changed without a new block")
        else:
            need(False, "unused memory", "the memory returned is not the unused part of the newest block")
    res.absorb("arena: disjoint, aligned, sufficient blocks", root, p, fl)


class Free(Alloc):
    """facts: ("chain", pointer): the blocks still to be freed start here; ("freed", pointer)"""

    def __init__(self, m, keep):
        super().__init__()
        self.m, self.keep = m, keep

    def start(self):
        return frozenset([("chain", init(self.m["list"]))])

    def opaque(self, ev, st, q, a):
        if q in ("operator delete", "operator delete[]"):
            self.oblige("blocks are freed once, front to back", ev)
            if ("chain", a[0]) not in st:
                if ("p", tm.eq(a[0], ZERO)[0].atom(), True) in st if a[0].m else True:
                    return None
                self.report(ev, "something is freed that is not the next block of the arena")
            nxt = self.cur(st, tm.add(a[0], const(self.m["next"])))
            return frozenset(f for f in st if f[0] != "chain") | {("chain", nxt), ("freed", a[0])}
        if q in ("operator new", "operator new[]"):
            self.report(ev, "clearing an arena allocates memory")
        return None

    def touched(self, ev, st, p):
        b, o = self.split(p)
        if isinstance(b, tm.Atom) and ("freed", tm.mk({(b,): 1})) in st:
            self.report(ev, "a block of the arena is used after it was freed")

    def stored(self, ev, st, p, v):
        self.touched(ev, st, p)
        return st

    def on_load(self, ev, st):
        self.touched(ev, st, self.pathval(ev.args[0], st))
        return super().on_load(ev, st)

    def head(self, b, d, st):
        chain = {f[1] for f in st if f[0] == "chain"}
        was = self.cur(st, at(self.m["list"]))
        new = super().head(b, d, st)
        out = set()
        for x in self.fn.blocks[d]:
            if x.op == "phi":
                v = self.incoming(x, b, st)
                if v is not None and v in chain:
                    out.add(("chain", tm.mk({(self.vn.t[x.id].atom(),): 1}) if self.vn.t[x.id].atom() else self.vn.t[x.id]))
        if was in chain:
            out.add(("chain", self.cur(new, at(self.m["list"]))))
        if not out:
            out = {("chain", c) for c in chain}
        return frozenset(f for f in new if f[0] not in ("chain", "freed")) | out

    def on_ret(self, ev, st):
        chain = [f[1] for f in st if f[0] == "chain"]

        def null(t):
            return t is ZERO or t.m and ("p", tm.eq(t, ZERO)[0].atom(), True) in st
        self.oblige("every block is freed", ev)
        if not any(null(c) for c in chain):
            self.report(ev, "blocks of the arena are left unfreed")
        self.oblige("no freed block stays on the list", ev)
        l = self.cur(st, at(self.m["list"]))
        if not self.keep and not null(l) and not (l in chain and any(null(c) for c in chain)):
            self.report(ev, "the arena still lists blocks that were freed")


class Quiet(Alloc):
    def __init__(self, m, what):
        super().__init__()
        self.m, self.what = m, what

    def on_ret(self, ev, st):
        self.oblige("blocks untouched", ev)
        if self.cur(st, at(self.m["list"])) is not init(self.m["list"]) or \
                any(f[0] == "c" and f[1] is not A[0].atom() and not (isinstance(f[1], tm.Atom) and f[1].k == "alloca") for f in st):
            self.report(ev, f"{self.what} changes the blocks of the arena")

    def opaque(self, ev, st, q, a):
        if q.startswith("operator"):
            self.report(ev, f"{self.what} allocates or frees memory")
        return None


@rule("C35")
def arena(res, L):
    m = roles(res, L)
    for s, ev, st, tr, r in each(res, component(L, "arena"), "arena construction"):
        s.expect(ev, s.cur(st, at(m["list"])) is ZERO, "a new arena is empty", "a new arena starts with blocks it does not have")
    for n, keep in (("arena_clear", False), ("arena_destroy", True)):
        run(res, "arena: blocks freed once", component(L, n), Free(m, keep))
    for n, w in (("arena_hint", "hint()"), ("arena_activity", "periodic_activity()")):
        run(res, "arena: bookkeeping only", component(L, n), Quiet(m, w))
    l = m["list"]
    for s, ev, st, tr, r in each(res, component(L, "arena_swap"), "arena: swap"):
        s.expect(ev, s.cur(st, at(l, 0)) is init(l, 1) and s.cur(st, at(l, 1)) is init(l, 0), "swap exchanges the blocks",
                 "swapping two arenas does not exchange their blocks")
    for s, ev, st, tr, r in each(res, component(L, "arena_move"), "arena: move"):
        s.expect(ev, s.cur(st, at(l, 0)) is init(l, 1) and s.cur(st, at(l, 1)) is ZERO, "a move leaves one owner",
                 "moving an arena loses its blocks or leaves them with two owners")


# -- pool

def offset(t, k=0, n=8):
    """t is the member of argument k at this offset"""
    a = t.atom() if t is not None else None
    if a is not None and a.k == "init" and a.p[1] == n:
        d = tm.sub(a.p[0], A[k])
        if d.is_const:
            return sgn(d.const)
    return None


def only(res, L, name, what, f):
    v = {f(*o[1:]) for o in each(res, component(L, name, "pool"), what)}
    if len(v) != 1 or None in v:
        raise AnchorError(f"{what} cannot be identified")
    return v.pop()


def is_arena(q):
    return q.startswith("nudb::detail::arena_t<")


def layout(res, L, kind):
    """offsets of the members of the pool or cache"""
    lib = L["pool"]
    key = ("memory", kind)
    if key in lib.cache:
        return lib.cache[key]
    m = {}

    def sub(tr, pred):
        v = {tm.sub(e[2][0], A[0]) for e in tr if e[0] == "call" and pred(e[1])}
        return sgn(next(iter(v)).const) if len(v) == 1 and next(iter(v)).is_const else None
    m["arena"] = only(res, L, kind + "_move", f"the arena of the {kind}", lambda ev, st, tr, r: sub(tr, is_arena))
    m["map"] = only(res, L, kind + "_move", f"the map of the {kind}", lambda ev, st, tr, r: sub(tr, lambda q: q.startswith(MAPS)))
    for c, ev, st, tr, r in each(res, component(L, kind, "pool"), f"{kind}: construction"):
        for f in st:
            if f[0] == "c" and f[1] is A[0].atom() and f[2].is_const:
                for k, n in ((1, "key"), (2, "block")) if kind == "cache" else ((1, "key"),):
                    if f[4] is A[k]:
                        m[n] = sgn(f[2].const)
    if kind == "pool":
        m["data"] = only(res, L, "pool_data_size", "the size of the pool's data", lambda ev, st, tr, r: offset(r))
        m["value"] = {n: only(res, L, "value_" + n, f"the {n} of an element", lambda ev, st, tr, r: offset(r))
                      for n in ("hash", "size", "key", "data")}
    for n in ("key",) if kind == "pool" else ("block",):
        if n not in m:
            raise AnchorError(f"the {n} size of the {kind} cannot be identified")
    lib.cache[key] = m
    return m


class Insert(Trace):
    def __init__(self, m):
        super().__init__()
        self.m = m

    def check(self, ev, st, tr, r):
        m, v = self.m, self.m["value"]
        ks = init(m["key"])
        if any(("p", tm.eq(self.result(e), ZERO)[0].atom(), True) in st for e in self.calls(tr, ("operator new",))):
            return          # operator new does not return null
        put = self.calls(tr, ("_M_insert_node", "_M_insert_", "emplace", "insert"), *MAPS)
        drop = self.calls(tr, ("_M_drop_node",), *MAPS)
        self.expect(ev, len(put) + len(drop) == 1 and all(e[2][0] is at(m["map"]) for e in put + drop), "one element is added",
                    "insert does not add exactly one element to the pool's map")
        for e in put + drop:
            cells = e[4]
            vals = [(f[1], f[2]) for f in cells if f[0] == "c" and f[4] is A[1]]

            def val(b, o, n):
                return next((f[4] for f in cells if f[0] == "c" and f[1] == b and f[2] is tm.add(o, const(v[n] - v["hash"]))), None)
            good = None
            for b, o in vals:
                if val(b, o, "size") is A[4] and val(b, o, "key") is not None and val(b, o, "data") is not None:
                    good = (val(b, o, "key"), val(b, o, "data"))
                    if not (isinstance(b, tm.Atom) and b.k == "alloca"):
                        break
            self.expect(ev, good is not None, "the element holds hash, size, key and data",
                        "the element added to the pool does not hold the hash and the size it was given")
            if good is None:
                continue
            k, d = good
            i = tr.index(e)
            cmp_ = [tr.index(x) for x in self.calls(tr, ("_M_get_insert_unique_pos", "_M_get_insert_hint_unique_pos", "emplace", "insert"), *MAPS)]
            for p, src, n, what, lim in ((k, A[2], ks, "key", min(cmp_ + [i])), (d, A[3], A[4], "value", len(tr))):
                al = [x for x in self.calls(tr, ("alloc",), "nudb::detail::arena_t<") if self.result(x) is p]
                self.expect(ev, len(al) == 1 and al[0][2][0] is at(m["arena"]) and self.le(n, al[0][2][1], st), f"room for the {what}",
                            f"the pool does not allocate room for the {what} from its arena")
                cp = [x for x in tr[:lim] if x[0] == "copy" and x[1] is p and x[2] is src and self.same(x[3], n, st)]
                self.expect(ev, len(cp) == 1, f"the {what} is copied",
                            f"the pool does not keep a complete copy of the {what}" + (" before it compares it" if what == "key" else ""))
                wr = [x for x in tr if x[0] in ("copy", "fill") and x[1] is p and x not in cp]
                self.expect(ev, not wr, f"the {what} is not overwritten", f"the pool overwrites the {what} it keeps")
            self.expect(ev, k is not d, "key and value are apart", "key and value share memory")
        if put:
            self.expect(ev, self.cur(st, at(m["data"])) is tm.add(init(m["data"]), A[4]), "the data size grows by the value's size",
                        "the pool's data size does not grow by the size of the value")
            for n in ("key",):
                self.expect(ev, self.cur(st, at(m[n])) is init(m[n]), "the key size stays", "inserting changes the pool's key size")


def passes(s, ev, tr, pat, what, args, bases=MAPS):
    e = s.calls(tr, pat, *bases)
    s.expect(ev, len(e) == 1 and all(e[0][2][i] is x for i, x in enumerate(args)), what, f"not so: {what}")
    return e[0] if e else None


@rule("C35")
def pool(res, L):
    m = layout(res, L, "pool")
    run(res, "pool: insert keeps a copy", component(L, "pool_insert", "pool"), Insert(m))
    v = m["value"]
    # construction: the key size reaches the comparison
    ko = set()
    for cmp_, ev, st, tr, r in each(res, component(L, "pool_compare", "pool"), "pool: exact key comparison"):
        cs = [e for e in tr if e[0] == "call"]
        ok = len(cs) == 1 and base(cs[0][1]) == "memcmp"
        if ok:
            a, res_ = cs[0][2], cmp_.result(cs[0])
            ok = {offset(a[0], 1), offset(a[1], 2)} == {v["key"]} or {offset(a[0], 2), offset(a[1], 1)} == {v["key"]}
            o = offset(a[2], 0)
            ok = ok and o is not None
            ko.add(o)
            l = tm.term_lit(r) if r is not None and not r.is_const else None
            ok = ok and l is not None and l[1] and isinstance(l[0], T) and l[0].atom() is not None and l[0].atom().k == "slt" and \
                {x for x in l[0].atom().p if isinstance(x, T)} == {res_, ZERO}
        cmp_.expect(ev, ok, "elements are ordered by all bytes of the key", "elements of the pool are not ordered by all key_size bytes of their keys")
    for c, ev, st, tr, r in each(res, component(L, "pool", "pool"), "pool: construction"):
        mk = [e for e in tr if e[0] == "call" and e[1].startswith(MAPS) and e[2][0] is at(m["map"])]
        ok = len(mk) == 1 and len(mk[0][2]) > 1 and len(ko) == 1
        if ok:
            b, o = c.split(mk[0][2][1])
            o = tm.add(o, const(next(iter(ko)) or 0)) if None not in ko else o
            ok = any(f[1] == b and f[2] is o and f[4] is A[1] for f in mk[0][4])
        c.expect(ev, ok, "the comparison uses the pool's key size", "the pool's map does not compare keys of the key size it was given")
        c.expect(ev, c.cur(st, at(m["data"])) is ZERO and c.cur(st, at(m["key"])) is A[1], "a new pool is empty",
                 "a new pool does not start empty with the key size it was given")
    for s, ev, st, tr, r in each(res, component(L, "pool_find", "pool"), "pool: find by key"):
        e = s.calls(tr, ("find",), *MAPS)
        ok = len(e) == 1 and e[0][2][0] is at(m["map"])
        if ok:
            b, o = s.split(e[0][2][1])
            ok = any(f[1] == b and f[2] is tm.add(o, const(v["key"])) and f[4] is A[1] for f in e[0][4]) and \
                s.cur(st, A[2]) is s.result(e[0])
        s.expect(ev, ok, "find looks the key up", "find does not return what the pool's map holds for the key")
    simple(res, L, "pool", m)
    for n in ("swap", "move"):
        for s, ev, st, tr, r in each(res, component(L, "pool_" + n, "pool"), f"pool: {n}"):
            exchange(s, ev, st, tr, m, n, ("key", "data"), "pool")


def simple(res, L, kind, m):
    for n, pats in (("size", ("size",)), ("begin", ("begin",)), ("end", ("end",)), ("empty", ("empty", "size"))):
        for s, ev, st, tr, r in each(res, component(L, f"{kind}_{n}", "pool"), f"{kind}: {n}"):
            e = s.calls(tr, pats, *MAPS)
            ok = len(e) == 1 and e[0][2][0] is at(m["map"])
            if ok:
                x = s.result(e[0])
                if n in ("begin", "end"):
                    ok = s.cur(st, A[1]) is x
                elif n == "empty":
                    got = r if r is not None else s.cur(st, A[1], 1)
                    ok = got is x if base(e[0][1]) == "empty" else got is tm.lit_term(tm.eq(x, ZERO))
                else:
                    ok = r is x
            s.expect(ev, ok, f"{n}() is that of the elements", f"{n}() of the {kind} is not that of its elements")
    for s, ev, st, tr, r in each(res, component(L, f"{kind}_clear", "pool"), f"{kind}: clear"):
        passes(s, ev, tr, ("clear",), f"clearing the {kind} clears its arena", [at(m["arena"])], ("nudb::detail::arena_t<",))
        passes(s, ev, tr, ("clear",), f"clearing the {kind} clears its map", [at(m["map"])])
        if "data" in m:
            s.expect(ev, s.cur(st, at(m["data"])) is ZERO, "a cleared pool has no data", "the data size of a cleared pool is not zero")
        for n in ("key", "block"):
            if n in m:
                s.expect(ev, s.cur(st, at(m[n])) is init(m[n]), "the parameters stay", f"clearing the {kind} changes its {n} size")
    for s, ev, st, tr, r in each(res, component(L, f"{kind}_activity", "pool"), f"{kind}: periodic activity"):
        bad = [e for e in tr if e[0] != "call" or not (is_arena(e[1]) and base(e[1]) == "periodic_activity")]
        s.expect(ev, not bad and not [f for f in st if f[0] == "c" and f[1] is A[0].atom()], "periodic activity keeps the elements",
                 f"periodic activity changes the {kind}")


def exchange(s, ev, st, tr, m, n, members, kind):
    for x in members:
        if x not in m:
            continue
        ok = s.cur(st, at(m[x], 0)) is init(m[x], 1) and (n == "move" or s.cur(st, at(m[x], 1)) is init(m[x], 0))
        s.expect(ev, ok, f"{n} takes everything along", f"{n} of a {kind} leaves its {x} size behind")
    for part, bases in (("arena", ("nudb::detail::",)), ("map", MAPS)):
        if n == "swap":
            e = [x for x in tr if x[0] == "call" and x[1].startswith(bases) and base(x[1]).split("<")[0] == "swap" and
                 {x[2][0], x[2][1]} == {at(m[part], 0), at(m[part], 1)}]
        else:
            e = [x for x in tr if x[0] == "call" and x[1].startswith(bases) and x[2][:2] == (at(m[part], 0), at(m[part], 1))]
        s.expect(ev, len(e) == 1, f"{n} takes everything along", f"{n} of a {kind} does not take its {part} along")


# -- cache

class CacheInsert(Trace):
    def __init__(self, m, create):
        super().__init__()
        self.m, self.create = m, create

    def check(self, ev, st, tr, r):
        m = self.m
        al = self.calls(tr, ("alloc",), "nudb::detail::arena_t<")
        put = self.calls(tr, ("emplace", "insert", "try_emplace", "insert_or_assign", "operator[]"), *MAPS)
        self.expect(ev, len(put) == 1 and put[0][2][0] is at(m["map"]), "one entry is added", "the cache does not add exactly one entry to its map")
        if len(put) != 1:
            return
        e = put[0]
        key, p = self.entry(e, st)
        self.expect(ev, key is A[1], "the entry's index", "the cache does not enter the bucket under its index")
        own = [x for x in al if self.result(x) is p]
        self.expect(ev, len(own) == 1 and own[0][2][0] is at(m["arena"]), "a private copy", "the cache's entry is not memory of its own arena")
        if len(own) != 1:
            return
        writes = [x for x in tr if x[0] in ("copy", "fill") and tm.sub(x[1], p).is_const]
        if self.create:
            bs = init(m["block"])
            self.expect(ev, self.le(bs, own[0][2][1], st), "room for the bucket", "less memory than a block is allocated for a bucket")
            ok = any(x[0] == "fill" and x[1] is p and x[3] is ZERO and (self.same(x[2], bs, st) or self.le(const(8), x[2], st) and self.le(x[2], bs, st))
                     for x in writes) or all(self.byte(st, p, i) for i in range(8))
            self.expect(ev, ok, "an empty bucket", "a bucket created in the cache does not start empty in memory")
            o = A[2].atom()
            got = [f[4] for f in st if f[0] == "c" and f[1] is o]
            self.expect(ev, p in got and any(x is bs for x in got), "the bucket refers to the cached memory",
                        "the bucket returned by create does not refer to the cached memory")
        else:
            src = [x for x in writes if x[0] == "copy" and x[1] is p]
            b = self.m["bucket"]
            full = init(b["block"], 2)
            n = own[0][2][1]
            self.expect(ev, self.le(full, n, st) or self.le(init(m["block"]), n, st), "room for the bucket", "less memory than a block is allocated for a bucket")
            size = tm.add(const(b["a"]), tm.scale(init(b["size"], 2), b["b"]))
            ok = len(src) == 1 and src[0][2] is init(b["p"], 2) and (self.same(src[0][3], size, st) or self.same(src[0][3], full, st))
            self.expect(ev, ok and len(writes) == 1, "all entries of the bucket are copied",
                        "the cache does not copy all entries of the bucket")
            it = self.result(e)
            got = [f[4] for f in st if f[0] == "c" and f[1] is A[3].atom()]
            self.expect(ev, any(g is it or g.atom() is not None and g.atom().k == "ev" and g.atom().p[0] is it for g in got) and A[0] in got,
                        "the new entry is returned", "insert does not return the new entry")

    def byte(self, st, p, i):
        return any(f[0] == "c" and f[4] is ZERO and (lambda d: d.is_const and 0 <= i - sgn(d.const) < f[3])
                   (tm.sub(tm.add(f[2], tm.mk({(f[1],): 1}) if isinstance(f[1], tm.Atom) else ZERO), p)) for f in st)

    def entry(self, e, st):
        def deref(t):
            b, o = self.split(t)
            return b, o

        def cell(b, o, cells=e[4]):
            return next((f[4] for f in cells if f[0] == "c" and f[1] == b and f[2] is o), None)
        a = e[2]
        if base(e[1]).startswith("operator"):
            b, o = deref(a[1])
            rb, ro = self.split(self.result(e))
            return cell(b, o), cell(rb, ro, st)
        if len(a) > 2:
            return cell(*deref(a[1])), cell(*deref(a[2]))
        b, o = deref(a[1])
        return cell(b, o), cell(b, tm.add(o, const(8)))


@rule("C35")
def cache(res, L):
    m = dict(layout(res, L, "cache"))
    mb = {}
    for s, ev, st, tr, r in each(res, component(L, "bucket_members", "pool"), "bucket: members"):
        mb["block"] = offset(s.cur(st, A[1]))
        mb["size"] = offset(s.cur(st, at(8, 1)))
        t = s.cur(st, at(16, 1))
    if None in mb.values():
        raise AnchorError("the members of a bucket cannot be identified")
    n = init(mb["size"])
    rest = {mono: c for mono, c in t.m.items() if mono}
    if list(rest) != [(n.atom(),)]:
        raise AnchorError("the compact size of a bucket cannot be identified")
    mb["a"], mb["b"] = t.m.get((), 0), rest[(n.atom(),)]
    for w, ev, st, tr, r in each(res, component(L, "bucket_data", "pool"), "bucket: data"):
        cp = [e for e in tr if e[0] == "copy"]
        if len(cp) == 1:
            mb["p"] = offset(cp[0][2])
    if mb.get("p") is None:
        raise AnchorError("the data of a bucket cannot be identified")
    m["bucket"] = mb
    run(res, "cache: insert keeps a copy", component(L, "cache_insert", "pool"), CacheInsert(m, False))
    run(res, "cache: create adds an empty bucket", component(L, "cache_create", "pool"), CacheInsert(m, True))
    for s, ev, st, tr, r in each(res, component(L, "cache_find", "pool"), "cache: find by index"):
        e = s.calls(tr, ("find",), *MAPS)
        ok = len(e) == 1 and e[0][2][0] is at(m["map"])
        if ok:
            b, o = s.split(e[0][2][1])
            ok = any(f[1] == b and f[2] is o and f[4] is A[1] for f in e[0][4])
            x, end = s.result(e[0]), [s.result(z) for z in s.calls(tr, ("end", "cend"), *MAPS)]
            got = [f[4] for f in st if f[0] == "c" and f[1] is A[2].atom()]
            miss = any(("p", tm.eq(tm.sub(x, y), ZERO)[0].atom(), True) in st for y in end)
            ok = ok and A[0] in got and (x in got or miss and any(y in got for y in end))
        s.expect(ev, ok, "find looks the index up", "find does not return what the cache's map holds for the index")
    for s, ev, st, tr, r in each(res, component(L, "cache_deref", "pool"), "cache: element"):
        node = [f[4] for f in st if f[0] == "c" and f[1] is A[1].atom()]
        ent = init(0)
        keys = [g for g in node if g.atom() is not None and g.atom().k == "init" and tm.sub(g.atom().p[0], ent) is const(8)]
        ps = [g for g in node if g.atom() is not None and g.atom().k == "init" and tm.sub(g.atom().p[0], ent) is const(16)]
        blk = [g for g in node if g.atom() is not None and g.atom().k == "init" and tm.sub(g.atom().p[0], init(8)) is const(m["block"])]
        s.expect(ev, s.cur(st, A[1]) in keys and ps and blk, "an element is its index and its bucket",
                 "an element of the cache is not its index with the bucket kept for it")
    for c, ev, st, tr, r in each(res, component(L, "cache", "pool"), "cache: construction"):
        c.expect(ev, c.cur(st, at(m["block"])) is A[2], "the block size", "a new cache does not use the block size it was given")
    for s, ev, st, tr, r in each(res, component(L, "cache_reserve", "pool"), "cache: reserve"):
        bad = [e for e in tr if e[0] != "call" or base(e[1]) not in ("hint", "reserve", "rehash", "size", "max_load_factor", "bucket_count")]
        s.expect(ev, not bad and not [f for f in st if f[0] == "c" and f[1] is A[0].atom()], "reserve keeps the elements", "reserve changes the cache")
    simple(res, L, "cache", m)
    for n in ("swap", "move"):
        for s, ev, st, tr, r in each(res, component(L, "cache_" + n, "pool"), f"cache: {n}"):
            exchange(s, ev, st, tr, m, n, ("key", "block"), "cache")


