"""C39: error codes tell failures apart and compare as what they are."""
from .common import *
from .generation import Ways
from .. import terms as tm
from ..terms import T, atom, const
from ..ir import AnchorError, split_ptr
from ..absint import Interp
from .. import absint


class Message(Interp):
    """which text message() makes for a value"""

    def __init__(self, fn, v):
        self.texts = []
        super().__init__(fn, [None, None, absint.const(32, v)])

    def ins(self, x, env, mem):
        if x.op in ("call", "invoke"):
            q = x.j.get("qn") or ""
            if q.startswith("llvm."):
                return None
            if "basic_string" in q:
                gs = [(o["v"], o["off"]) for o in x.j.get("a") or [] if o.get("k") == "g"]
                gs += [(p[1], p[2]) for p in (self.ptr(o, env) for o in x.j.get("a") or [] if o.get("k") == "v") if p is not None and p[0] == "g"]
                self.texts += [(g, x) for g in gs]
                return None
            if "allocator" in q:
                return None
            raise AnchorError(f"message() calls {q}")
        return super().ins(x, env, mem)

    def mem(self, x, env, mem):
        p = self.ptr(x.j["base"], env) if x.op == "getelementptr" else None
        if x.op == "getelementptr" and p is None:
            return None
        return super().mem(x, env, mem)


def text(fn, g):
    d = fn.mod.globals.get(g[0], {}).get("data")
    if d is None:
        return None
    off = g[1] if isinstance(g[1], int) else g[1].const
    b = bytes(c & 255 for c in d[off or 0:])
    return b.split(b"\0")[0].decode("latin1")


@rule("C39", "error messages")
def messages(res, L):
    lib = L["err"]
    fn = lib.fn(r"nudb_category\(\)::.*::message")
    res.funcs.add("nudb::nudb_category()::message")
    codes = lib.mod.enum("error")
    seen = {}
    for v, name in sorted(codes.items()):
        if v == 0:
            continue
        m = None
        try:
            m = Message(fn, v)
        except AnchorError as e:
            res.notes.append(f"message of {name} not followed: {e}")
            continue
        if len(m.texts) != 1 or text(fn, m.texts[0][0]) is None:
            res.notes.append(f"message of {name} not followed")
            continue
        t, x = text(fn, m.texts[0][0]), m.texts[0][1]
        res.oblige("every error has a message of its own", name)
        if not t:
            res.at("error messages", fn, x, f"error::{name} has no message")
        elif t in seen:
            res.at("error messages", fn, x, f"error::{name} has the message of error::{seen[t]}")
        else:
            seen[t] = name


@rule("C39", "no error is the value of success")
def values(res, L):
    codes = L["err"].mod.enum("error")
    res.oblige("zero means success", "error")
    if codes.get(0) != "success":
        fn = L["err"].fn(r"vp::m_make\(")
        res.at("error values", fn, fn.blocks[fn.rpo[0]][-1], f"error::{codes.get(0)} has the value of success")


@rule("C39", "comparison")
def comparison(res, L):
    lib = L["err"]
    for rx, what, obj, ev in ((r"equivalent\(int, boost::system::error_condition", "condition", 2, 1),
                              (r"equivalent\(boost::system::error_code const&, int\)", "code", 1, 2)):
        fn = lib.fn(rx)
        res.funcs.add(f"nudb::nudb_category()::equivalent ({what})")
        ws = Ways(fn, pure=lambda x: (x.j.get("qn") or "").startswith("boost::system::"))
        value = cat = same = None
        for w in ws.out:
            for m, a, h, x, c in w.calls:
                if m == "value" and a[0] is atom("arg", obj):
                    value = ws.vn.t[x.id]
                elif m == "category" and a[0] is atom("arg", obj):
                    cat = ws.vn.t[x.id]
                elif m in ("operator==", "operator!=") and len(a) == 2:
                    same = (x, m)
        if value is None or cat is None:
            first = fn.blocks[fn.rpo[0]][-1]
            res.at("comparison of error codes", fn, first, f"an error {what} is compared without regard to its {'value' if value is None else 'category'}")
            continue
        num = tm.eq(value, atom("arg", ev))
        own = tm.eq(cat, atom("arg", 0))
        if same is not None:
            own = tm.term_lit(ws.vn.t[same[0].id])
            if same[1] == "operator!=":
                own = tm.neg(own)
        for w in ws.out:
            r = w.retlit
            cases = [(r, [])] if r in (True, False) else [(True, [r]), (False, [tm.neg(r)])]
            for val, more in cases:
                v = w.fork()
                if not all(ws.learn(v, k) for k in more):
                    continue
                res.oblige("equal exactly when value and category are", fn.where(w.ins))
                has = lambda l: any(k is l[0] and p == l[1] for k, p in v.lits)
                if val and not (has(num) and has(own)):
                    res.at("comparison of error codes", fn, w.ins, f"errors of another value or category may compare equal ({what})")
                if not val and not (has(tm.neg(num)) or has(tm.neg(own)) or compound(v, num, own)):
                    res.at("comparison of error codes", fn, w.ins, f"an error may compare unequal to itself ({what})")


def compound(w, a, b):
    """some decision says that not both hold"""
    for k, p in w.lits:
        t = k.atom() if isinstance(k, T) else None
        if t is not None and t.k == "band" and not p:
            ls = [tm.term_lit(q) for q in t.p]
            if all(any(l == y for y in (a, b)) for l in ls):
                return True
    return False


@rule("C39", "codes are made from their enumerators")
def made(res, L):
    lib = L["err"]
    fn = lib.fn(r"vp::m_make\(")
    vn = ir_vn(fn)
    res.funcs.add("nudb::make_error_code")
    cs = [x for b in fn.rpo for x in fn.blocks[b] if x.op in ("call", "invoke")]
    cat = [x for x in cs if (x.j.get("qn") or "") == "nudb::nudb_category"]
    con = [x for x in cs if (x.j.get("qn") or "").endswith("error_code::error_code")]
    res.oblige("value and category of a code", "make_error_code")
    if len(con) != 1:
        raise AnchorError("make_error_code does not make one error code")
    a = vn.callargs[con[0].id]
    if len(a) < 3 or a[1] is not atom("arg", 1):
        res.at("error codes", fn, con[0], "an error code is not made with the value of its enumerator")
    elif not cat or a[2] is not vn.t[cat[0].id]:
        res.at("error codes", fn, con[0], "an error code is not made with the category of this library")
    fn = lib.fn(r"default_error_condition\(int\)")
    vn = ir_vn(fn)
    con = [x for b in fn.rpo for x in fn.blocks[b] if x.op in ("call", "invoke") and (x.j.get("qn") or "").endswith("error_condition::error_condition")]
    res.oblige("value and category of a condition", "default_error_condition")
    res.funcs.add("nudb::nudb_category()::default_error_condition")
    if len(con) != 1:
        raise AnchorError("default_error_condition does not make one condition")
    a = vn.callargs[con[0].id]
    if a[1] is not atom("arg", 1) or a[2] is not atom("arg", 0):
        res.at("error codes", fn, con[0], "the condition of an error code is not its own value and category")
    fn = lib.fn(r"^nudb::nudb_category\(\)$")
    vn = ir_vn(fn)
    res.funcs.add("nudb::nudb_category")
    for b in fn.rpo:
        x = fn.blocks[b][-1]
        if b not in fn.dead and x.op == "ret":
            res.oblige("one category object", fn.where(x))
            base, o = split_ptr(vn.op(x.j["a"][0]))
            if base is None or base.k != "g":
                res.at("error codes", fn, x, "the category is not one object for the whole program")


def ir_vn(fn):
    from .. import ir, model
    return ir.VN(fn, effects=model.effects)
