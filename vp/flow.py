"""Path-sensitive (ESP-style) dataflow over one inlined function.

A state is (automaton state, error-code states, known branch outcomes).  States are never
merged unless equal, so a property automaton sees every feasible combination of
"this operation was confirmed / failed" outcomes; branch outcomes are remembered only for
conditions that are consulted again.

Error codes are tracked as objects:
    'ok'            known clear
    'err'           known set
    ('E', kind)     known set to a specific value
    ('P', ids)      possibly set by the operations ids, not tested yet
    'any'           unknown (a member error code at entry)
An operation is *confirmed* when the error code it was given is found clear afterwards.
"""
from collections import deque
from . import terms as tm
from .terms import T, atom, const
from .ir import split_ptr, lit_op, AnchorError

EC = "boost::system::error_code::"


class Ev:
    __slots__ = ("k", "ins", "args", "qn", "extra", "env", "flow", "ecs")

    def __init__(self, k, ins, args=(), qn="", extra=None):
        self.k, self.ins, self.args, self.qn, self.extra = k, ins, args, qn, extra
        self.env = None
        self.flow = None
        self.ecs = None

    def __repr__(self):
        return f"<{self.k} {self.qn} {self.args}>"


ARGKEY = -(1 << 40)


class Budget(Exception):
    pass


def key_of(t):
    return t.id


def boolterm(t):
    a = t.atom()
    return a is not None and a.w == 1 and a.k in ("eq", "ult", "slt", "not", "band", "bxor", "bit")


def ec_params(fn):
    """indices of the error_code& parameters"""
    d = fn.dem
    e = d.rfind(")")
    depth, i = 0, e
    while i >= 0:
        if d[i] in ")>":
            depth += 1
        elif d[i] in "(<":
            depth -= 1
            if depth == 0:
                break
        i -= 1
    ps, cur, depth = [], "", 0
    for c in d[i + 1:e]:
        if c in "<(":
            depth += 1
        elif c in ">)":
            depth -= 1
        if c == "," and depth == 0:
            ps.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        ps.append(cur.strip())
    skip = fn.nargs - len(ps)
    return [skip + k for k, p in enumerate(ps) if p == "boost::system::error_code&"]


class Flow:
    def __init__(self, fn, vn, aut, ec_entry="ok", limit=400000, correlate=True, ec_init=None, cells=None):
        self.cell_init = cells or {}      # pointer term -> value of a flag byte at entry (None: unknown)
        self.fn, self.vn, self.aut = fn, vn, aut
        self.limit = limit
        self.correlate = correlate
        self.ec_entry = ec_entry
        self.ec_init = {t.id: v for t, v in (ec_init or {}).items()}
        self.ec_init_terms = list(ec_init or ())
        self.steps = 0
        self.selconds = set()
        self.ptratoms = set()
        self.argptr = {}
        self._prep()

    # ---------------------------------------------------------------- preparation
    def _prep(self):
        fn, vn = self.fn, self.vn
        self.keyterm = {}
        fall = set()
        for b in fn.rpo:
            if b in fn.dead:
                continue
            for x in fn.blocks[b]:
                if x.op in ("call", "invoke"):
                    q = x.j.get("qn") or ""
                    if q.startswith(EC + "operator") or q.startswith(EC + "error_code") or q.startswith(EC + "clear") \
                            or q.startswith(EC + "assign") or q.startswith(EC + "failed") or q.startswith(EC + "value"):
                        if vn.callargs[x.id]:
                            self._key(vn.callargs[x.id][0])
                    elif q.startswith("boost::system::operator"):
                        for a in vn.callargs[x.id]:
                            if not a.is_const:
                                self._key(a)
                    elif q.startswith("boost::system::error_condition::error_condition"):
                        self._key(vn.callargs[x.id][0])
        for k in ec_params(fn):
            self._key(atom("arg", k))
        for t in self.ec_init_terms:
            self._key(t)
        # keys found through a test are the error codes; fallible calls take one of them
        self.fallible = {}
        for b in fn.rpo:
            if b in fn.dead:
                continue
            for x in fn.blocks[b]:
                if x.op in ("call", "invoke"):
                    q = x.j.get("qn") or ""
                    if q.startswith("boost::system::") or q.startswith("llvm.") or q.startswith("std::"):
                        continue
                    a = vn.callargs[x.id]
                    if q.startswith("vp::file::") or q.startswith("nudb::posix_file::"):
                        m = q.split("::")[-1]
                        if m in ("read", "write", "sync", "trunc", "size", "open", "create", "erase"):
                            self.fallible[x.id] = self._key(a[-1])
                        continue
                    for t in a[::-1]:
                        if t.id in self.keyterm:
                            self.fallible[x.id] = t.id
                            break
                    else:
                        if q in ("nudb::recover", "nudb::create", "nudb::rekey", "vp::visit_cb::operator()"):
                            for t, o in list(zip(a, x.j["a"]))[::-1]:
                                pass
        # flag bytes of the object itself, followed path-sensitively
        self.cells = {t.id for t in self.cell_init}
        for b in fn.rpo:
            for x in fn.blocks[b]:
                if x.op == "store" and x.j.get("size") == 1:
                    base, off = split_ptr(vn.memat[x.id]) if x.id in vn.memat else (None, None)
                    if base is not None and base.k == "arg" and off.is_const and vn.op(x.j["a"][0]).is_const:
                        self.cells.add(vn.memat[x.id].id)
        # atoms consulted by branches; keep outcomes only for those that recur
        self.defs = {}        # ins id -> atoms (T) depending on it
        uses = {}
        self.litdeps = {}
        for b in fn.rpo:
            if b in fn.dead:
                continue
            t = fn.blocks[b][-1]
            ls = []
            if t.op == "br" and "cond" in t.j:
                ls.append(vn.lit(t.j["cond"]))
            for x in fn.blocks[b]:
                if x.op == "phi":
                    if x.ty == "i1":
                        for p, v in x.j["in"]:
                            ls.append(vn.lit(v))
            for l in ls:
                if l is True or l is False:
                    continue
                for a in self._flat(l[0]):
                    uses.setdefault(a.id, set()).add(b)
        self.uses = uses
        # phis whose incoming values are constants, literals, or such phis
        self.flagphi = set()
        cand = {}
        for b in fn.rpo:
            if b in fn.dead:
                continue
            for x in fn.blocks[b]:
                if x.op == "phi" and (x.ty == "i1" or (x.ty.startswith("i") and x.ty[1:].isdigit())):
                    cand[x.id] = x
        good = dict(cand)
        changed = True
        while changed:
            changed = False
            for i, x in list(good.items()):
                if x.ty == "i1":
                    continue
                if x.bb not in fn.loops and any(v["k"] == "c" for p, v in x.j["in"]):
                    continue          # a constant on some edges only
                for p, v in x.j["in"]:
                    if v["k"] in ("c", "undef"):
                        continue
                    if v["k"] == "v" and v["v"] in good:
                        continue
                    if v["k"] == "v" and v["v"] in vn.t and (self._selconst(vn.t[v["v"]], good) or boolterm(vn.t[v["v"]])):
                        continue
                    del good[i]
                    changed = True
                    break
        self.flagphi = set(good)
        self.phiatom = {}
        for i in good:
            t = vn.t.get(i)
            if good[i].ty == "i1":
                l = vn.l.get(i)
                t = l[0] if l not in (True, False, None) else None
            if t is not None:
                self.phiatom[i] = t
        # pointers merged outside loop headers are followed to the object they stand for
        self.ptrphi = {}
        for b in fn.rpo:
            if b in fn.dead or not getattr(self.aut, "wants_ptrs", False):
                continue
            for x in fn.blocks[b]:
                if x.op != "phi":
                    break
                if (x.ty == "ptr" and b not in fn.loops or x.ty in ("ptr", "i64") and b in fn.loops and self._handed(x)) \
                        and x.id in vn.t:
                    a = vn.t[x.id].atom()
                    if a is not None and a.k == "phi" and a.p[-1] == x.id:
                        self.ptrphi[x.id] = a
                        self.phiatom[x.id] = vn.t[x.id]
                        self.flagphi.add(x.id)
                        self._byid[a.id] = a
        self.ptratoms = {a.id for a in self.ptrphi.values()}
        # use of an atom in block b: terminator literal, phi incoming on edges out of b
        gen = {b: set() for b in fn.rpo}
        cnt = {}
        self.argptr = {}

        def use(b, ids):
            for aid in set(ids):
                gen[b].add(aid)
                cnt[aid] = cnt.get(aid, 0) + 1
        for b in fn.rpo:
            if b in fn.dead:
                continue
            t = fn.blocks[b][-1]
            for x in fn.blocks[b]:
                if x.op in ("call", "invoke") and getattr(self.aut, "wants_ptrs", False):
                    ids = self._ptrs(vn.callargs[x.id])
                    if ids:
                        self.argptr[x.id] = ids
                        use(b, ids)
            if t.op == "br" and "cond" in t.j:
                l = vn.lit(t.j["cond"])
                if l not in (True, False):
                    use(b, (a.id for a in self._flat(l[0])))
            if t.op == "switch":
                use(b, (a.id for a in self._flat(vn.op(t.j["cond"]))))
            for s in set(fn.succ[b]):
                for x in fn.blocks[s]:
                    if x.op != "phi":
                        break
                    if x.id in self.flagphi:
                        for p, v in x.j["in"]:
                            if p == b:
                                tt = None
                                if x.ty == "i1":
                                    l = vn.lit(v)
                                    if l not in (True, False):
                                        tt = l[0]
                                elif x.id in self.ptrphi:
                                    use(b, self._ptrs([vn.op(v)]))
                                else:
                                    tt = vn.op(v)
                                if tt is not None:
                                    use(b, (a.id for a in self._flat(tt)))
        # an atom consulted by a single branch is not worth remembering
        phiids = {t.atom().id for t in self.phiatom.values() if t.atom() is not None}
        keepset = set()
        for aid, n in cnt.items():
            a = self._byid[aid]
            if aid in phiids or aid in self.selconds or a.k == "call" or (a.k == "ld" and a.p[0].id in self.cells) or (n >= 2 and self.correlate):
                keepset.add(aid)
        self.defs, self.atomins = {}, {}
        killn = {b: set() for b in fn.rpo}
        killp = {b: set() for b in fn.rpo}
        defblk = {}
        for b in fn.rpo:
            for x in fn.blocks[b]:
                defblk[x.id] = (b, x.op == "phi")
        for b in fn.rpo:
            gen[b] &= keepset
        for aid in keepset:
            ds = self._insof(self._byid[aid])
            self.atomins[aid] = ds
            for d in ds:
                self.defs.setdefault(d, set()).add(aid)
                if d in defblk:
                    (killp if defblk[d][1] else killn)[defblk[d][0]].add(aid)
        self.keepset = keepset
        live = {b: set() for b in fn.rpo}
        order = fn.rpo[::-1]
        changed = True
        while changed:
            changed = False
            for b in order:
                o = set()
                for s in set(fn.succ[b]):
                    if s in live:
                        o |= live[s] - killp[s]
                n = (gen[b] | o) - killn[b]
                if n != live[b]:
                    live[b] = n
                    changed = True
        self.livein = live
        # phi atoms stay live into their own block (assigned on the edge)
        self.insev = {}
        for b in fn.rpo:
            if b not in fn.dead:
                self.insev[b] = [x for x in fn.blocks[b] if x.op in ("call", "invoke", "store", "load", "ret")
                                 or x.id in self.defs]

    _byid = {}

    def _ptrs(self, args):
        """atoms that decide which object the pointers among the terms denote"""
        out = set()
        seen = set()
        st = list(args)
        while st:
            t = st.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            for mono in t.m:
                for a in mono:
                    if a.id in self.ptratoms:
                        out.add(a.id)
                    elif a.k == "sel" and len(a.p) == 3 and self._ptrlike(a):
                        ids = {z.id for z in self._flat(a.p[0])}
                        self.selconds |= ids
                        out |= ids
                        st.extend(a.p[1:])
                    else:
                        st.extend(p for p in a.p if isinstance(p, T))
        return out

    def _handed(self, x):
        """a loop variable that is handed a new value by every iteration instead of being computed from its old one"""
        vn, fn = self.vn, self.fn
        if x.id not in vn.t:
            return False
        me = vn.t[x.id].atom()
        if me is None or me.k != "phi":
            return False
        seen = set()
        st = [vn.op(v) for p, v in x.j["in"] if p in fn.rpon and p not in fn.dead]
        if not any(z.k == "ld" for t in st for z in t.atoms()):
            return False
        while st:
            t = st.pop()
            for a in tm.walk(t, seen):
                if a is me:
                    return False
                if a.k == "phi" and isinstance(a.p[-1], int):
                    y = fn.ins.get(a.p[-1])
                    if y is not None and ("p", y.id) not in seen:
                        seen.add(("p", y.id))
                        st.extend(vn.op(v) for p, v in y.j["in"] if p in fn.rpon and p not in fn.dead)
                elif a.k == "call" and isinstance(a.p[-1], int) and ("c", a.p[-1]) not in seen:
                    seen.add(("c", a.p[-1]))
                    st.extend(vn.callargs.get(a.p[-1], ()))
        return True

    def _ptrlike(self, a, depth=0):
        """is the value selected a pointer to an object?"""
        for t in a.p[1:]:
            b, o = split_ptr(t)
            if b is not None and (b.k in ("alloca", "arg", "call", "ev") or b.id in self.ptratoms):
                return True
            if b is not None and b.k == "sel" and depth < 4 and self._ptrlike(b, depth + 1):
                return True
        return False

    def resolve(self, t, env, memo=None):
        """the term with merged pointers replaced by the object they denote on this path"""
        memo = {} if memo is None else memo
        r = memo.get(t.id)
        if r is not None:
            return r
        out = tm.ZERO
        ch = False
        for mono, c in t.m.items():
            f = const(c)
            mch = False
            for a in mono:
                n = None
                if a.id in self.ptratoms:
                    v = env.get(a.id)
                    if isinstance(v, T):
                        n = self.resolve(v, env, memo)
                elif a.k == "sel" and self._ptrlike(a):
                    v = self.ev_t(a.p[0], env)
                    if v is True or v is False:
                        n = self.resolve(a.p[1] if v else a.p[2], env, memo)
                if n is None:
                    ps = tuple(self.resolve(p, env, memo) if isinstance(p, T) else p for p in a.p)
                    if any(x is not y for x, y in zip(ps, a.p)):
                        if a.k == "eq":
                            l = tm.eq(ps[0], tm.ZERO)
                            n = tm.lit_term(l)
                        else:
                            n = atom(a.k, *ps, w=a.w)
                if n is not None:
                    mch = True
                    f = tm.mul(f, n)
                else:
                    f = tm.mul(f, tm.mk({(a,): 1}))
            ch = ch or mch
            out = tm.add(out, f if mch else tm.mk({mono: c}))
        r = out if ch else t
        memo[t.id] = r
        return r

    def _selsplit(self, terms, env):
        """decide the conditions selecting among pointers: [(env, assumptions)]"""
        outs = [(env, [])]
        for _ in range(8):
            nxt = []
            again = False
            for e, asm in outs:
                c = self._undecided(terms, e)
                if c is None:
                    nxt.append((e, asm))
                    continue
                again = True
                for v, e2, as2 in self.forks(self._tl(c), e):
                    nxt.append((e2, asm + as2))
            outs = nxt
            if not again:
                break
        return outs

    def _undecided(self, terms, env):
        seen = set()
        st = list(terms)
        while st:
            t = st.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            for mono in t.m:
                for a in mono:
                    if a.k == "sel" and len(a.p) == 3 and self._ptrlike(a):
                        v = self.ev_t(a.p[0], env)
                        if v is True or v is False:
                            st.append(a.p[1] if v else a.p[2])
                            continue
                        if all(z.id in self.keepset for z in self._flat(a.p[0])):
                            return a.p[0]
                    elif a.id in self.ptratoms:
                        v = env.get(a.id)
                        if isinstance(v, T):
                            st.append(v)
                    else:
                        st.extend(p for p in a.p if isinstance(p, T))
        return None

    def _key(self, t):
        self.keyterm[t.id] = t
        return t.id

    def _selconst(self, t, good=None):
        if t.is_const:
            return True
        a = t.atom()
        if a is not None and a.k == "sel":
            return self._selconst(a.p[1], good) and self._selconst(a.p[2], good)
        if a is not None and a.k == "phi":
            return good is None or a.p[-1] in good
        return False

    def _flat(self, t):
        """atoms whose outcome decides literal term t"""
        out = []
        st = [t]
        while st:
            x = st.pop()
            for mono in x.m:
                for a in mono:
                    if a.k in ("band", "not", "bxor"):
                        st.extend(p for p in a.p if isinstance(p, T))
                    elif a.k in ("eq", "ult", "slt", "bit"):
                        self._byid[a.id] = a
                        out.append(a)
                        for p in a.p:
                            if isinstance(p, T):
                                for m2 in p.m:
                                    for q in m2:
                                        if q.k in ("phi", "sel") or (a.k == "bit" and q.k == "ld"):
                                            st.append(tm.mk({(q,): 1}))
                    elif a.k == "sel":
                        st.extend(p for p in a.p if isinstance(p, T))
                        self._byid[a.id] = a
                        out.append(a)
                    else:
                        self._byid[a.id] = a
                        out.append(a)
        return out

    def _insof(self, a):
        """ids of the instructions whose re-execution changes the atom"""
        out = set()
        st = [a]
        seen = set()
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.k in ("call", "phi", "v", "alloca") and isinstance(x.p[-1], int):
                out.add(x.p[-1])
            elif x.k == "ld":
                if isinstance(x.p[1], int):
                    out.add(x.p[1])
            elif x.k == "fbyte" and isinstance(x.p[0], int):
                out.add(x.p[0])
            elif x.k == "mbyte":
                if isinstance(x.p[1], int):
                    out.add(x.p[1])
            for p in x.p:
                if isinstance(p, T):
                    for m in p.m:
                        st.extend(m)
        return out

    # ---------------------------------------------------------------- evaluation
    def ev_lit(self, l, env):
        """-> True/False, or a literal (T, pol) that is not decided"""
        if l is True or l is False:
            return l
        t, pol = l
        r = self.ev_t(t, env)
        if r is True or r is False:
            return r == pol
        return (r[0], r[1] == pol)

    def ev_t(self, t, env):
        """evaluate a 1-bit term; -> bool or a literal"""
        if t.is_const:
            return bool(t.const & 1)
        a = t.atom()
        if a is None:
            return (t, True)
        v = env.get(a.id)
        if v is not None:
            if v is True or v is False:
                return v
            if isinstance(v, tuple):
                return self.ev_lit(v, env)
            return bool(v & 1)
        if a.k == "not":
            r = self.ev_t(a.p[0], env)
            return (not r) if r is True or r is False else (r[0], not r[1])
        if a.k == "band":
            x, y = self.ev_t(a.p[0], env), self.ev_t(a.p[1], env)
            return lit_op("and", x, y)
        if a.k == "eq":
            d = self.subst(a.p[0], env)
            if d is not a.p[0]:
                r = tm.eq(d, tm.ZERO)
                if r is True or r is False:
                    return r
                if r[0] is not t:
                    return self.ev_lit(r, env)
            return (t, True)
        if a.k == "bit":
            d = self.subst(a.p[0], env)
            if d.is_const:
                return bool(d.const & 1)
            return (t, True)
        if a.k in ("ult", "slt"):
            x, y = self.subst(a.p[0], env), self.subst(a.p[1], env)
            if x is not a.p[0] or y is not a.p[1]:
                r = tm.icmp(a.k, x, y)
                if r is True or r is False:
                    return r
                if r[0] is not t:
                    return self.ev_lit(r, env)
            return (t, True)
        return (t, True)

    def subst(self, t, env):
        """replace flag phis with known values and decided selects"""
        rep = {}
        for mono in t.m:
            if len(mono) == 1:
                a = mono[0]
                if a.k in ("phi", "ld"):
                    v = env.get(a.id)
                    if v is not None:
                        if isinstance(v, bool):
                            rep[a] = const(int(v))
                        elif isinstance(v, int):
                            rep[a] = const(v)
                        elif isinstance(v, T):
                            rep[a] = v
                elif a.k == "sel":
                    c = self.ev_t(a.p[0], env)
                    if c is True:
                        rep[a] = self.subst(a.p[1], env)
                    elif c is False:
                        rep[a] = self.subst(a.p[2], env)
        if not rep:
            return t
        r = tm.ZERO
        for mono, c in t.m.items():
            if len(mono) == 1 and mono[0] in rep:
                r = tm.add(r, tm.scale(rep[mono[0]], c))
            else:
                r = tm.add(r, tm.mk({mono: c}))
        return r

    def forks(self, lit, env):
        """all ways lit can be decided: list of (value, env', [(atom, value)])"""
        r = self.ev_lit(lit, env)
        if r is True or r is False:
            return [(r, env, [])]
        t, pol = r
        a = t.atom()
        out = []
        if a is not None and a.k == "band":
            # true: both true; false: first false, or first true and second false
            for v1, e1, as1 in self.forks(self._tl(a.p[0]), env):
                if not v1:
                    out.append((not pol if True else None, e1, as1))
                else:
                    for v2, e2, as2 in self.forks(self._tl(a.p[1]), e1):
                        out.append((pol if v2 else (not pol), e2, as1 + as2))
            return out
        if a is not None and a.k == "eq":
            # eq(sel(c, k1, x) ...) : split on the selector
            for mono in a.p[0].m:
                if len(mono) == 1 and mono[0].k == "sel":
                    c = mono[0].p[0]
                    r0 = self.ev_t(c, env)
                    if r0 is not True and r0 is not False and self._selconst(tm.mk({(mono[0],): 1})):
                        for v1, e1, as1 in self.forks((c, True), env):
                            e1 = dict(e1)
                            ca = c.atom()
                            if ca is not None:
                                e1[ca.id] = v1
                            for v2, e2, as2 in self.forks((t, pol), e1):
                                out.append((v2, e2, as1 + as2))
                        return out
        if a is not None and a.k == "not":
            return [(not v, e, s) for v, e, s in self.forks((a.p[0], not pol), env)]
        for v in (True, False):
            e = env
            if a is not None and a.id in self.keepset:
                e = dict(env)
                e[a.id] = v
            out.append((v == pol, e, [(a if a is not None else t, v)]))
        return out

    @staticmethod
    def _tl(t):
        return tm.term_lit(t)

    # ---------------------------------------------------------------- running
    def run(self):
        fn = self.fn
        ec0 = {}
        st0 = self.aut.start()
        init = (st0, tuple(sorted((-1 - t.id, v) for t, v in self.cell_init.items() if v is not None)), ())
        self.seen = {}
        self.pred = {}
        work = deque()
        self._push(work, 0, init, None)
        while work:
            b, s, node = work.popleft()
            self._block(b, s, node, work)
        return self

    def _push(self, work, b, s, parent):
        k = (b, s)
        if k in self.seen:
            return
        n = len(self.seen)
        if n > self.limit:
            raise Budget(f"{self.fn.dem}: more than {self.limit} states")
        self.seen[k] = n
        self.pred[n] = (parent, b)
        work.append((b, s, n))

    def path(self, node):
        out = []
        while node is not None:
            p, b = self.pred[node]
            out.append(b)
            node = p
        return out[::-1]

    def ecstate(self, ecs, key):
        v = ecs.get(key)
        if v is not None:
            return v
        if key in self.ec_init:
            return self.ec_init[key]
        base, off = split_ptr(self.keyterm[key])
        if base is not None and base.k == "arg":
            if off.is_const and off.const == 0:
                return self.ec_entry
            return "any"
        if base is not None and base.k == "alloca":
            return "any"
        return "any"

    def _block(self, b, s, node, work):
        fn = self.fn
        st, ecs, env = s
        # set of (aut, ecs dict, env dict)
        cur = [(st, dict(ecs), dict(env))]
        for x in self.insev[b]:
            if x.id in self.defs and x.op != "phi":
                ds = self.defs[x.id]
                for c in cur:
                    for d in ds:
                        if d in c[2]:
                            # outcomes of an older execution of this instruction
                            del c[2][d]
                    if self.ptratoms:
                        for k, w in list(c[2].items()):
                            if isinstance(w, T) and any(z.id in ds for z in tm.walk(w)):
                                del c[2][k]
            nxt = []
            for c in cur:
                nxt.extend(self._ins(x, c, node))
            cur = nxt
            if not cur:
                return
        t = fn.blocks[b][-1]
        self.steps += 1
        if t.op == "ret":
            for c in cur:
                for st, e, v in self._settled(t, c, node):
                    ev = Ev("ret", t)
                    ev.ecs, ev.env, ev.flow = e, v, self
                    self._emit(ev, st, node)
            return
        if t.op == "unreachable":
            return
        for st, e, v in cur:
            if t.op == "br":
                if "cond" not in t.j:
                    self._edge(b, t.j["succ"][0], st, e, v, node, work)
                    continue
                lit = self.vn.lit(t.j["cond"])
                for val, v2, asm in self.forks(lit, v):
                    dst = t.j["succ"][0 if val else 1]
                    if dst in fn.dead:
                        continue
                    sts = [st]
                    for a, av in asm:
                        ev = Ev("assume", t, (a, av))
                        ev.env, ev.ecs, ev.flow = v2, e, self
                        sts = [y for z in sts for y in self._emit(ev, z, node)]
                    for z in sts:
                        self._edge(b, dst, z, e, v2, node, work)
            elif t.op == "switch":
                cond = self.subst(self.vn.op(t.j["cond"]), v)
                if cond.is_const:
                    dst = t.j["def"]
                    for cv, cb in t.j["cases"]:
                        if cv == cond.const or cv == cond.const % (1 << 32):
                            dst = cb
                    if dst not in fn.dead:
                        self._edge(b, dst, st, e, v, node, work)
                    continue
                for cv, cb in list(t.j["cases"]) + [(None, t.j["def"])]:
                    if cb in fn.dead:
                        continue
                    sts = [st]
                    v2 = v
                    if cv is not None:
                        l = tm.eq(cond, const(cv))
                        if l is False:
                            continue
                        if l is not True:
                            ev = Ev("assume", t, (l[0].atom(), l[1]))
                            ev.env, ev.ecs, ev.flow = v, e, self
                            sts = self._emit(ev, st, node)
                    else:
                        for cv2, _ in t.j["cases"]:
                            l = tm.eq(cond, const(cv2))
                            if l is True or l is False:
                                continue
                            ev = Ev("assume", t, (l[0].atom(), not l[1]))
                            ev.env, ev.ecs, ev.flow = v, e, self
                            sts = [y for z in sts for y in self._emit(ev, z, node)]
                    for z in sts:
                        self._edge(b, cb, z, e, v2, node, work)

    def _edge(self, b, d, st, ecs, env, node, work):
        fn, vn = self.fn, self.vn
        if d in fn.dead:
            return
        phis = []
        lv = self.livein[d]
        # flag phis take a concrete value on every edge: undecided conditions are split here
        alts = [(env, {}, [])]
        for x in fn.blocks[d]:
            if x.op != "phi":
                break
            phis.append(x)
            if x.id not in self.phiatom:
                continue
            at = self.phiatom[x.id].atom()
            if at is None or at.id not in lv:
                continue
            v = None
            for p, o in x.j["in"]:
                if p == b:
                    v = o
                    break
            if v is None or v["k"] == "undef":
                continue
            nalts = []
            for e, upd, asm in alts:
                if x.id in self.ptrphi:
                    tt = vn.op(v)
                    for e2, as2 in self._selsplit([tt], e):
                        u = dict(upd)
                        u[at.id] = self.resolve(tt, e2)
                        nalts.append((e2, u, asm + as2))
                elif x.ty == "i1":
                    for val, e2, as2 in self.forks(vn.lit(v), e):
                        u = dict(upd)
                        u[at.id] = val
                        nalts.append((e2, u, asm + as2))
                else:
                    tt = self.subst(vn.op(v), e)
                    if tt.is_const:
                        u = dict(upd)
                        u[at.id] = tt.const
                        nalts.append((e, u, asm))
                    elif boolterm(tt):
                        for val, e2, as2 in self.forks(tm.term_lit(tt), e):
                            u = dict(upd)
                            u[at.id] = int(val)
                            nalts.append((e2, u, asm + as2))
                    else:
                        a = tt.atom()
                        if a is not None and a.k == "sel" and self._selconst(tt):
                            for val, e2, as2 in self.forks((a.p[0], True), e):
                                w = self.subst(a.p[1] if val else a.p[2], e2)
                                u = dict(upd)
                                if w.is_const:
                                    u[at.id] = w.const
                                nalts.append((e2, u, asm + as2))
                        else:
                            nalts.append((e, upd, asm))
            alts = nalts
        for env1, upd, asm in alts:
            sts = [st]
            for a, av in asm:
                ev = Ev("assume", fn.blocks[b][-1], (a, av))
                ev.env, ev.ecs, ev.flow = env1, ecs, self
                sts = [y for z in sts for y in self._emit(ev, z, node)]
            if self.aut.wants_edges:
                ev = Ev("edge", fn.blocks[d][0], (b, d))
                ev.env, ev.ecs, ev.flow = env1, ecs, self
                sts = [y for z in sts for y in self._emit(ev, z, node)]
            env2 = dict(env1)
            for x in phis:
                for aid in self.defs.get(x.id, ()):
                    env2.pop(aid, None)
            env2.update(upd)
            ek = tuple(sorted(((k, v) for k, v in env2.items() if k in lv), key=lambda kv: kv[0]))
            cs = tuple(sorted(ecs.items(), key=lambda kv: kv[0]))
            for z in sts:
                self._push(work, d, (z, cs, ek), node)

    def _emit(self, ev, st, node):
        """-> list of successor automaton states"""
        self.node = node
        if ev.k == "assume" and self.ptratoms and isinstance(ev.args[0], tm.Atom):
            t0 = tm.mk({(ev.args[0],): 1})
            if self._ptrs([t0]):
                t = self.resolve(t0, ev.env)
                if t is not t0:
                    l = tm.term_lit(t)
                    if l is True or l is False:
                        return [st]
                    a = l[0].atom()
                    if a is not None:
                        ev.args = (a, ev.args[1] == l[1])
        r = self.aut.on(ev, st)
        if r is None:
            return [st]
        if isinstance(r, list):
            return r
        return [r]

    def _mk(self, k, x, c, args=(), extra=None):
        ev = Ev(k, x, args, (x.j.get("qn") or "") if x is not None else "", extra)
        ev.ecs, ev.env, ev.flow = c[1], c[2], self
        return ev

    def _emits(self, k, x, c, node, args=(), extra=None):
        ev = self._mk(k, x, c, args, extra)
        return [(s, c[1], c[2]) for s in self._emit(ev, c[0], node)]

    def _pend(self, v):
        return v[1] if isinstance(v, tuple) and v[0] == "P" else frozenset()

    def _setec(self, c, key, val):
        e = dict(c[1])
        e[key] = val
        return (c[0], e, c[2])

    def _setenv(self, c, x, val):
        l = self.vn.l.get(x.id)
        if l in (True, False, None):
            return c
        a = l[0].atom()
        if a is None:
            return c
        v = dict(c[2])
        v[a.id] = val if l[1] else (not val)
        return (c[0], c[1], v)

    def _ins(self, x, c, node):
        vn = self.vn
        if x.op == "store":
            ptr = vn.memat[x.id]
            val = vn.op(x.j["a"][0])
            if ptr.id in self.cells:
                e = dict(c[1])
                if val.is_const:
                    e[-1 - ptr.id] = val.const
                else:
                    e.pop(-1 - ptr.id, None)
                c = (c[0], e, c[2])
            return self._emits("store", x, c, node, (ptr, val))
        if x.op == "load":
            ptr = vn.memat[x.id]
            if ptr.id in self.cells:
                t = vn.t.get(x.id)
                a = t.atom() if t is not None else None
                if a is not None and a.id in self.keepset:
                    v = dict(c[2])
                    cv = c[1].get(-1 - ptr.id)
                    if cv is None:
                        v.pop(a.id, None)
                    else:
                        v[a.id] = cv
                    c = (c[0], c[1], v)
            if getattr(self.aut, "wants_loads", False):
                return self._emits("load", x, c, node, (vn.memat[x.id],))
            return [c]
        if x.op not in ("call", "invoke"):
            return [c]
        q = x.j.get("qn") or ""
        args = vn.callargs[x.id]
        if x.id in self.argptr:
            outs = []
            for e2, asm in self._selsplit(args, c[2]):
                cs = [(c[0], c[1], e2)]
                for a, av in asm:
                    cs = [y for z in cs for y in self._assume(x, a, av, z, node)]
                for z in cs:
                    memo = {}
                    ra = [self.resolve(t, e2, memo) for t in args]
                    for y in self._call(x, q, ra, z, node):
                        if x.id in self.fallible:
                            e = dict(y[1])
                            e[ARGKEY - x.id] = tuple(ra)
                            y = (y[0], e, y[2])
                        outs.append(y)
            return outs
        return self._call(x, q, args, c, node)

    def _assume(self, x, a, av, c, node):
        ev = Ev("assume", x, (a, av))
        ev.ecs, ev.env, ev.flow = c[1], c[2], self
        return [(s, c[1], c[2]) for s in self._emit(ev, c[0], node)]

    def _call(self, x, q, args, c, node):
        vn = self.vn
        if q.startswith("llvm."):
            if q.startswith("llvm.memcpy") or q.startswith("llvm.memmove"):
                dk, sk = args[0].id, args[1].id
                if dk in self.keyterm and (sk in self.keyterm or args[2].is_const and args[2].const in (16, 24)):
                    out = []
                    cs = [c]
                    if sk in self.keyterm and self._pend(self.ecstate(c[1], sk)):
                        # an unexamined result is copied: both copies are clear, or both are set
                        cs = [y for r, y in self._split(x, c, sk, node)]
                    for y in cs:
                        v = self.ecstate(y[1], sk) if sk in self.keyterm else "any"
                        old = self.ecstate(y[1], dk)
                        for z in self._emits("setec", x, y, node, (args[0], v, old)):
                            out.append(self._setec(z, dk, v))
                    return out
                return self._emits("copy", x, c, node, args)
            if q.startswith("llvm.memset"):
                return self._emits("copy", x, c, node, args)
            if getattr(self.aut, "wants_life", False) and q.startswith("llvm.lifetime.start"):
                return self._emits("life", x, c, node, args)
            return [c]
        if q.startswith("boost::system::"):
            return self._ecop(x, q, args, c, node)
        if x.id in self.fallible:
            key = self.fallible[x.id]
            old = self.ecstate(c[1], key)
            outs = []
            iserr = old == "err" or (isinstance(old, tuple) and old[0] == "E")
            for z in self._emits("call", x, c, node, args, ("ec", old)):
                if iserr:
                    outs.append(z)      # a set error code stays set
                    continue
                for w in ([z]):
                    p = self._pend(old)
                    if p:
                        for w2 in self._emits("drop", x, w, node, (p,)):
                            outs.append(self._setec(w2, key, ("P", frozenset([x.id]))))
                    else:
                        outs.append(self._setec(w, key, ("P", frozenset([x.id]))))
            return outs
        return self._emits("call", x, c, node, args, ("ec", None))

    def _split(self, x, c, key, node, setenv=True, kind=None):
        """states after finding the error code clear / set"""
        old = self.ecstate(c[1], key)
        p = self._pend(old)
        outs = []
        if old == "ok":
            return [(False, c)]
        if old == "err" or (isinstance(old, tuple) and old[0] == "E"):
            return [(True, c)]
        # clear
        cs = [self._setec(c, key, "ok")]
        for i in sorted(p):
            cs = [self._forget(z, i) for y in cs for z in self._emits("ok", self.fn.ins[i], y, node, self._pargs(y, i))]
        outs += [(False, y) for y in cs]
        cs = [self._setec(c, key, "err")]
        for i in sorted(p):
            cs = [self._forget(z, i) for y in cs for z in self._emits("fail", self.fn.ins[i], y, node, self._pargs(y, i))]
        outs += [(True, y) for y in cs]
        return outs

    def _settled(self, x, c, node):
        """a function that returns leaves its untested result to the caller:
        the caller finds it clear, or set"""
        cs = [c]
        for key in sorted(k for k, v in c[1].items() if self._pend(v)):
            if key not in self.keyterm:
                continue
            base, off = split_ptr(self.keyterm[key])
            if base is None or base.k != "arg":
                continue
            cs = [y for z in cs for _, y in self._split(x, z, key, node)]
        return cs

    def _pargs(self, c, i):
        """the arguments a pending operation was called with"""
        return c[1].get(ARGKEY - i) or vn_args(self.vn, i)

    def _forget(self, c, i):
        k = ARGKEY - i
        if k not in c[1]:
            return c
        e = dict(c[1])
        del e[k]
        return (c[0], e, c[2])

    def kind_of(self, t, ecs):
        """the error value an operand denotes"""
        if t.is_const:
            return ("code", t.const)
        if t.id in self.keyterm:
            v = self.ecstate(ecs, t.id)
            if isinstance(v, tuple) and v[0] == "E":
                return v[1]
        return None

    def _enumcode(self, x, args):
        """the state of an error code made from a constant"""
        if args[1].const == 0:
            return "ok"
        if "nudb::error" not in (x.j.get("dem") or ""):
            return "err"
        return ("E", ("code", args[1].const))

    def _ecop(self, x, q, args, c, node):
        m = q.split("::")[-1]
        if q.startswith(EC):
            key = args[0].id
            if key not in self.keyterm:
                self.keyterm[key] = args[0]
            if m in ("operator bool", "failed", "value"):
                if m == "value":
                    return [c]
                return [self._setenv(y, x, r) for r, y in self._split(x, c, key, node)]
            if m == "operator=":
                if len(args) > 1 and args[1].is_const:
                    v = self._enumcode(x, args)
                else:
                    if len(args) > 1 and args[1].id in self.keyterm and self._pend(self.ecstate(c[1], args[1].id)):
                        return [w for r, y in self._split(x, c, args[1].id, node) for w in self._ecop(x, q, args, y, node)]
                    v = self.ecstate(c[1], args[1].id) if len(args) > 1 and args[1].id in self.keyterm else "err"
                old = self.ecstate(c[1], key)
                return [self._setec(z, key, v) for z in self._emits("setec", x, c, node, (args[0], v, old))]
            if m == "error_code":
                if len(args) == 1:
                    v = "ok"
                elif args[1].is_const:
                    v = self._enumcode(x, args)
                elif args[1].id in self.keyterm:
                    v = self.ecstate(c[1], args[1].id)
                else:
                    v = "err"
                return [self._setec(c, key, v)]
            if m == "assign":
                v = "err"
                if args[1].is_const:
                    v = self._enumcode(x, args)
                old = self.ecstate(c[1], key)
                return [self._setec(z, key, v) for z in self._emits("setec", x, c, node, (args[0], v, old))]
            if m == "clear":
                old = self.ecstate(c[1], key)
                return [self._setec(z, key, "ok") for z in self._emits("setec", x, c, node, (args[0], "ok", old))]
            return [c]
        if q.startswith("boost::system::error_condition::error_condition"):
            if len(args) > 1 and args[1].is_const:
                return [self._setec(c, args[0].id, ("E", ("cond", args[1].const)))]
            return [self._setec(c, args[0].id, "err")]
        if m in ("operator==", "operator!="):
            # which side is the error code under test
            a, b = args[0], args[1] if len(args) > 1 else None
            ka, kb = self.kind_of(a, c[1]), (self.kind_of(b, c[1]) if b is not None else None)
            if a.id in self.keyterm and kb is not None:
                key, kind = a.id, kb
            elif b is not None and b.id in self.keyterm and ka is not None:
                key, kind = b.id, ka
            else:
                return [c]
            pos = m == "operator=="
            old = self.ecstate(c[1], key)
            if old == "ok":
                return [self._setenv(c, x, not pos)]
            if isinstance(old, tuple) and old[0] == "E":
                if old[1] == kind:
                    return [self._setenv(c, x, pos)]
                # NuDB's own error codes are no conditions of another category
                if old[1][0] == kind[0] or (old[1][0], kind[0]) == ("code", "cond"):
                    return [self._setenv(c, x, not pos)]
            outs = []
            y = self._setec(c, key, ("E", kind))
            cs = [y]
            for i in sorted(self._pend(old)):
                cs = [self._forget(z, i) for w in cs
                      for z in self._emits("fail", self.fn.ins[i], w, node, self._pargs(w, i), kind)]
            if old == "err":
                cs = [z for w in cs for z in self._emits("ecis", x, w, node, (self.keyterm[key], kind))]
            outs += [self._setenv(z, x, pos) for z in cs]
            outs += [self._setenv(z, x, not pos) for z in self._emits("ecisnt", x, c, node, (self.keyterm[key], kind))]
            return outs
        return [c]


def vn_args(vn, i):
    return vn.callargs[i]


class Automaton:
    """base class of the property automata"""
    wants_edges = False
    wants_loads = False

    def __init__(self):
        self.viol = {}
        self.ob = {}

    def start(self):
        return ()

    def on(self, ev, st):
        return None

    def report(self, ev, msg, key=None):
        fn = ev.flow.fn
        w = fn.where(ev.ins)
        k = (key or msg, w)
        if k not in self.viol:
            self.viol[k] = {"function": fn.dem.split("(")[0][:120], "site": w, "chain": fn.chain(ev.ins)[:8],
                            "rule": msg,
                            "path": path_locs(fn, ev.flow.path(ev.flow.node))}

    def oblige(self, name, ev=None):
        """count a rule instance"""
        site = ev.flow.fn.where(ev.ins) if ev is not None else ""
        self.ob[(name, site)] = self.ob.get((name, site), 0) + 1


def path_locs(fn, blocks):
    out = []
    for b in blocks:
        for x in fn.blocks[b]:
            if x.j.get("loc") is not None:
                l = fn.where(x)
                if not out or out[-1] != l:
                    out.append(l)
                break
    return out[-40:]
