"""Hash-consed polynomial terms: the value-numbering domain of the analyses.

A term is a polynomial with integer coefficients (mod 2^64) over opaque atoms.
Two SSA values with the same term compute the same value (up to integer widths, which
the normal form forgets for zero/sign extension: documented in DESIGN.md).
"""

M64 = 1 << 64


class Atom:
    __slots__ = ("id", "k", "p", "w")

    def __init__(self, id, k, p, w):
        self.id, self.k, self.p, self.w = id, k, p, w

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


_atoms = {}


def _wrap(c):
    c %= M64
    return c - M64 if c >= (M64 >> 1) else c


class T:
    """A polynomial: dict of monomial (sorted tuple of atoms) -> coefficient."""
    __slots__ = ("m", "id")

    def __repr__(self):
        return show(self)

    @property
    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    @property
    def const(self):
        return self.m.get((), 0)

    def atom(self):
        """the single atom if this term is exactly one atom, else None"""
        if len(self.m) == 1:
            (mono, c), = self.m.items()
            if c == 1 and len(mono) == 1:
                return mono[0]
        return None

    def atoms(self):
        s = set()
        for mono in self.m:
            s.update(mono)
        return s


_terms = {}


def mk(d):
    key = tuple(sorted(((mono, c) for mono, c in d.items() if c), key=lambda x: [a.id for a in x[0]]))
    t = _terms.get(key)
    if t is None:
        t = T()
        t.m = dict(key)
        t.id = len(_terms)
        _terms[key] = t
    return t


def const(c):
    c = _wrap(c)
    return mk({(): c} if c else {})


ZERO = const(0)
ONE = const(1)


def atom(k, *p, w=64):
    key = (k, p, w)
    a = _atoms.get(key)
    if a is None:
        a = Atom(len(_atoms), k, p, w)
        _atoms[key] = a
    return mk({(a,): 1})


def add(a, b, s=1):
    d = dict(a.m)
    for mono, c in b.m.items():
        d[mono] = _wrap(d.get(mono, 0) + s * c)
    return mk(d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    d = {}
    for m1, c1 in a.m.items():
        for m2, c2 in b.m.items():
            mono = tuple(sorted(m1 + m2, key=lambda x: x.id))
            d[mono] = _wrap(d.get(mono, 0) + c1 * c2)
    return mk(d)


def scale(a, c):
    return mk({m: _wrap(x * c) for m, x in a.m.items()})


def is_byte(a):
    return a.w <= 8


def bytes_poly(t):
    """{byte position: atom} if t is a disjoint combination of byte atoms, else None."""
    out = {}
    for mono, c in t.m.items():
        if len(mono) != 1 or not is_byte(mono[0]):
            return None
        cc = c % M64
        if cc & (cc - 1):
            return None
        sh = cc.bit_length() - 1
        if sh % 8:
            return None
        out[sh // 8] = mono[0]
    if len(out) != len(t.m):
        return None
    return out


def maxbits(t):
    if t.is_const:
        return (t.const % M64).bit_length()
    if len(t.m) == 1:
        (mono, c), = t.m.items()
        if c > 0 and len(mono) == 1:
            return min(64, mono[0].w + (c.bit_length() if c != 1 else 0))
    b = bytes_poly(t)
    if b is not None:
        return 8 * (max(b) + 1)
    return 64


def trunc(t, w):
    if w >= 64:
        return t
    if t.is_const:
        return const(t.const & ((1 << w) - 1))
    if maxbits(t) <= w:
        return t
    b = bytes_poly(t)
    if b is not None and w % 8 == 0:
        return mk({(a,): _wrap(1 << (8 * k)) for k, a in b.items() if 8 * k < w})
    if w == 8:
        return byte(t, 0)
    a = t.atom()
    if a is not None and a.k == "trunc" and a.p[1] >= w:
        return trunc(a.p[0], w)
    # drop multiples of 2^w
    d = {m: c for m, c in t.m.items() if c % (1 << w)}
    if len(d) != len(t.m):
        return trunc(mk(d), w)
    return atom("trunc", t, w, w=w)


def byte(t, k):
    if t.is_const:
        return const((t.const >> (8 * k)) & 0xff)
    b = bytes_poly(t)
    if b is not None:
        a = b.get(k)
        return mk({(a,): 1}) if a is not None else ZERO
    a = t.atom()
    if a is not None:
        if a.k == "trunc" and a.p[1] % 8 == 0 and 8 * (k + 1) <= a.p[1]:
            return byte(a.p[0], k)
        if a.k == "lshr" and a.p[1] % 8 == 0:
            return byte(a.p[0], k + a.p[1] // 8)
        if a.w <= 8 * k:
            return ZERO
    return atom("byte", t, k, w=8)


def lshr(t, n):
    if t.is_const:
        return const((t.const % M64) >> n)
    if n == 0:
        return t
    if n % 8 == 0:
        b = bytes_poly(t)
        if b is not None:
            return mk({(a,): _wrap(1 << (8 * k - n)) for k, a in b.items() if 8 * k >= n})
    a = t.atom()
    if a is not None and a.k == "lshr":
        return lshr(a.p[0], a.p[1] + n)
    w = maxbits(t) - n
    if w <= 0:
        return ZERO
    if w <= 8 and n % 8 == 0:
        return byte(t, n // 8)
    return atom("lshr", t, n, w=max(1, maxbits(t) - n))


def shl(t, n):
    return scale(t, 1 << n)


def and_(a, b):
    if a.is_const:
        a, b = b, a
    if b.is_const:
        c = b.const % M64
        if a.is_const:
            return const((a.const % M64) & c)
        if c == 0:
            return ZERO
        if (c & (c + 1)) == 0:
            return trunc(a, c.bit_length())
        # a contiguous byte-aligned mask of a bytes-poly
        bp = bytes_poly(a)
        if bp is not None:
            d = {}
            ok = True
            for k, at in bp.items():
                mk_ = (c >> (8 * k)) & 0xff
                if mk_ == 0xff:
                    d[(at,)] = _wrap(1 << (8 * k))
                elif mk_:
                    ok = False
            if ok:
                return mk(d)
    if a is b:
        return a
    x, y = sorted((a, b), key=lambda t: t.id)
    return atom("and", x, y, w=max(1, min(maxbits(a), maxbits(b))))


def or_(a, b):
    if a.is_const and a.const == 0:
        return b
    if b.is_const and b.const == 0:
        return a
    if a.is_const and b.is_const:
        return const((a.const % M64) | (b.const % M64))
    if a is b:
        return a
    pa, pb = bytes_poly(a), bytes_poly(b)
    if pa is not None and pb is not None and not (set(pa) & set(pb)):
        return add(a, b)
    x, y = sorted((a, b), key=lambda t: t.id)
    return atom("or", x, y, w=max(maxbits(a), maxbits(b), 1))


def xor_(a, b):
    if a.is_const and b.is_const:
        return const((a.const % M64) ^ (b.const % M64))
    if a is b:
        return ZERO
    if a.is_const and a.const == 0:
        return b
    if b.is_const and b.const == 0:
        return a
    x, y = sorted((a, b), key=lambda t: t.id)
    return atom("xor", x, y, w=max(maxbits(a), maxbits(b), 1))


# -- booleans: a literal is (T of an i1 atom, polarity); constants are True/False -----

def neg(l):
    if l is True or l is False:
        return not l
    return (l[0], not l[1])


def eq(a, b):
    d = sub(a, b)
    if d.is_const:
        return d.const == 0
    # sign normalisation: first monomial positive
    first = next(iter(d.m.items()))
    if first[1] < 0:
        d = scale(d, -1)
    return (atom("eq", d, w=1), True)


def nonneg(t):
    return True


def ult(a, b):
    if a is b:
        return False
    if b.is_const:
        c = b.const % M64
        if c == 0:
            return False
        if a.is_const:
            return (a.const % M64) < c
        if c == 1:
            return eq(a, ZERO)
        if maxbits(a) < c.bit_length() and (1 << maxbits(a)) <= c:
            return True
        return (atom("ult", a, b, w=1), True)
    if a.is_const:
        c = a.const % M64
        if c == M64 - 1:
            return False
        # c < b  ==  !(b < c+1)
        return neg(ult(b, const(c + 1)))
    return (atom("ult", a, b, w=1), True)


def slt(a, b):
    if a is b:
        return False
    if a.is_const and b.is_const:
        return a.const < b.const
    if a.is_const:
        return neg(slt(b, const(a.const + 1)))
    return (atom("slt", a, b, w=1), True)


def icmp(pred, a, b):
    if pred == "eq":
        return eq(a, b)
    if pred == "ne":
        return neg(eq(a, b))
    if pred == "ult":
        return ult(a, b)
    if pred == "uge":
        return neg(ult(a, b))
    if pred == "ugt":
        return ult(b, a)
    if pred == "ule":
        return neg(ult(b, a))
    if pred == "slt":
        return slt(a, b)
    if pred == "sge":
        return neg(slt(a, b))
    if pred == "sgt":
        return slt(b, a)
    if pred == "sle":
        return neg(slt(b, a))
    return (atom("icmp", pred, a, b, w=1), True)


def lit_term(l):
    """a literal as a term (for storing booleans as values)"""
    if l is True:
        return ONE
    if l is False:
        return ZERO
    if l[1]:
        return l[0]
    return atom("not", l[0], w=1)


def term_lit(t):
    if t.is_const:
        return bool(t.const & 1)
    a = t.atom()
    if a is not None and a.k == "not":
        return (a.p[0], False)
    return (t, True)


def show_atom(a):
    def s(x):
        return repr(x)
    if a.k in ("arg", "alloca", "phi", "v", "call"):
        return f"{a.k}{a.p[-1]}"
    if a.k == "ld":
        return f"[{a.p[0]!r}]{a.p[1] if a.p[1] is not None else ''}" + (f"'{a.w}" if a.w != 64 else "")
    if a.k == "g":
        return f"@{a.p[0]}"
    return f"{a.k}(" + ",".join(s(x) for x in a.p) + ")"


def show(t):
    if not t.m:
        return "0"
    out = []
    for mono, c in t.m.items():
        if not mono:
            out.append(str(c))
        else:
            ms = "*".join(show_atom(a) for a in mono)
            out.append(ms if c == 1 else f"{c}*{ms}")
    return "+".join(out).replace("+-", "-")


def contains(t, pred, seen=None):
    """does any atom, recursively through payloads, satisfy pred?"""
    seen = set() if seen is None else seen
    if t.id in seen:
        return False
    seen.add(t.id)
    for mono in t.m:
        for a in mono:
            if pred(a):
                return True
            for x in a.p:
                if isinstance(x, T) and contains(x, pred, seen):
                    return True
    return False


def walk(t, seen=None):
    """all atoms reachable through payloads"""
    seen = set() if seen is None else seen
    if t.id in seen:
        return
    seen.add(t.id)
    for mono in t.m:
        for a in mono:
            yield a
            for x in a.p:
                if isinstance(x, T):
                    yield from walk(x, seen)
