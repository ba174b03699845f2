"""C06: the modulus of a table is the smallest power of two that is not below its number of buckets.  Decided by abstract
interpretation, one abstract value for each power of two and one for everything between two of them."""
from .common import *
from ..absint import Interp, V, const
from ..ir import AnchorError


@rule("C06", "closest power of two")
def ceil_pow2(res, L):
    fn = L["num"].fn(r"vp::m_ceil_pow2\(")
    res.funcs.add("nudb::detail::ceil_pow2")
    w = 64

    def check(v, want, what):
        r = Interp(fn, [v])
        res.states += r.steps
        res.oblige("modulus of a range of bucket counts", what)
        if r.ret is None:
            raise AnchorError("ceil_pow2 does not return")
        if r.ret.const != want:
            x = r.at
            # name the instruction of the library, not that of the driver
            for b in fn.rpo:
                for y in fn.blocks[b]:
                    if "ceil_pow2" in " ".join(str(c) for c in fn.chain(y)):
                        x = y
            res.at("closest power of two", fn, x, "ceil_pow2() does not give the smallest power of two that is not less than its argument: "
                   f"for {what} it gives {r.ret}", key="ceil_pow2")
    for k in range(w - 1):
        check(const(w, 1 << k), 1 << k, f"2^{k}")
        if 1 <= k:
            check(V(w, (1 << k) + 1, (1 << (k + 1)) - 1), 1 << (k + 1), f"2^{k} < n < 2^{k + 1}")
