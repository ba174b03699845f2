"""What the opaque primitives do to memory, and the roles of the library's objects."""
from . import terms as tm
from .terms import T, atom, const, ZERO
from .ir import VN, default_effects, split_ptr, width, AnchorError

FILE_OPS = ("read", "write", "sync", "trunc", "size", "open", "create", "erase", "close", "is_open")
MUT_CONTAINER = ("emplace", "insert", "erase", "clear", "swap", "operator[]", "operator=", "reserve", "emplace_back",
                 "push_back")


def is_file(qn):
    return qn.startswith("vp::file::") or qn.startswith("nudb::posix_file::")


def effects(vn, x, args, mem):
    q = x.j.get("qn") or ""
    name = x.j.get("callee") or ""
    if name.startswith("llvm."):
        return default_effects(vn, x, args, mem)
    if is_file(q):
        m = q.split("::")[-1]
        if m == "read":
            vn.write_region(mem, args[2], args[3], "fread", x.id)
        return None
    if q.startswith("boost::system::"):
        m = q.split("::")[-1]
        if m in ("operator=", "error_code", "clear", "assign", "error_condition"):
            vn.write_region(mem, args[0], const(24), None, None)
        return None
    if q in ("memcmp", "operator delete", "operator delete[]", "operator new", "operator new[]", "__errno_location",
             "nudb::block_size", "nudb::make_uid", "nudb::make_salt", "nanosleep"):
        return None
    if q in ("memcpy", "memmove"):
        vn.memcpy(mem, args[0], args[1], args[2], x)
        return None
    if q in ("vp::hasher::operator()", "vp::progress::operator()", "vp::fetch_cb::operator()", "vp::visit_cb::operator()"):
        return None
    if q in ("boost::shared_mutex::lock", "boost::shared_mutex::lock_shared", "std::mutex::lock"):
        b, _ = split_ptr(args[0])
        if b is not None and b.k == "arg":
            vn.kill_base(mem, lambda y: y is b)
        return None
    if q.startswith("boost::shared_mutex::") or q.startswith("std::mutex::") or q.startswith("nudb::detail::gentex_t"):
        return None
    m = q.split("::")[-1]
    if (q.startswith("std::map") or q.startswith("std::unordered_map")) and m not in ("map", "unordered_map"):
        if m == "swap" or (m == "operator=" and len(args) > 1):
            for a in args[:2]:
                b, _ = split_ptr(a)
                if b is not None and b.k == "alloca":
                    vn.kill_base(mem, lambda y: y is b)
        return None
    if q.startswith("nudb::detail::arena_t"):
        return None
    if q.startswith("std::__cxx11::basic_string") or q in ("std::operator!=", "std::operator==", "std::operator<"):
        # strings copy what they are given; only the string object itself changes
        if m in ("basic_string", "~basic_string", "operator=", "assign", "append", "operator+=", "swap") and args:
            b, o = split_ptr(args[0])
            if b is not None and b.k in ("alloca", "call"):
                vn.kill_base(mem, lambda y: y is b)
        return None
    # anything else may write through the pointers it is given
    for a in args:
        b, o = split_ptr(a)
        if b is not None and b.k in ("alloca", "call"):
            r = vn.reach(b)
            vn.kill_base(mem, lambda y: y in r)
    return None


class Roles:
    """objects of basic_store located by how open() sets them up"""
    pass


def file_objects(fn, vn, path_args):
    """pointer term id of every File object -> index of the path it was opened with.

    path_args: {argument index: role}.  Files are followed through move construction."""
    role = {}
    moves = []
    for b in fn.rpo:
        if b in fn.dead:
            continue
        for x in fn.blocks[b]:
            if x.op not in ("call", "invoke"):
                continue
            q = x.j.get("qn") or ""
            if not is_file(q):
                continue
            a = vn.callargs[x.id]
            m = q.split("::")[-1]
            if m in ("open", "create"):
                p = a[2].atom()
                if p is not None and p.k == "arg" and p.p[0] in path_args:
                    r = path_args[p.p[0]]
                    role.setdefault(a[0].id, set()).add(r)
            elif m in ("file", "posix_file", "operator=") and len(a) == 2:
                moves.append((a[0].id, a[1].id, a[0]))
    changed = True
    terms = {}
    while changed:
        changed = False
        for d, s, dt in moves:
            terms[d] = dt
            if s in role:
                n = role.setdefault(d, set())
                if not role[s] <= n:
                    n |= role[s]
                    changed = True
    return role, terms
