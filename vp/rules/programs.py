"""C36: what an instantiation with custom File and Hasher types touches (main module).

The driver instantiates every entry point with probe types whose members have no body.  Whatever the library does with
a file or a hash then shows as a call of the probe, and anything else that reaches a file or hashes is a call, in the
inlined body of the entry point, of the native file class, of the default hasher or of the C library."""
import re
from ..terms import atom
from ..ir import AnchorError
from .. import build
from .common import *

CUSTOM = ("open", "close", "insert", "fetch", "flush", "set_burst", "dtor", "recover", "rekey", "create", "create2")
NATIVE = ("visit", "verify")          # take no File: they read with the native one
NATIVE_FILE = re.compile(r"^nudb::(posix_file|win32_file)::")
SYSTEM = re.compile(r"^(open|openat|creat|unlink|unlinkat|remove|rename|renameat|truncate|ftruncate|fopen|freopen|p?write|"
                    r"p?read|p?writev|p?readv|fsync|fdatasync|lseek|mmap|close|stat|fstat|lstat|access|mkstemp|link|symlink)(64|_chk)?$")
STREAMS = re.compile(r"^(std|boost)::(__fs::)?filesystem::|^std::basic_[io]?f(stream|ilebuf)")
HASHERS = re.compile(r"^nudb::(xxhasher|detail::XXH64)|::XXH64|^XXH\d+")
FORWARD = {"open": r"^nudb::(recover)$", "create2": r"^nudb::(create)$"}


def arg_index(fn):
    """the position of the constructor argument among the parameters, or None"""
    d = fn.dem
    ps = d[d.rindex("(") + 1:]
    if "vp::arg const&" not in ps:
        return None
    return max(k for k, a in enumerate(fn.args))


@rule("C36")
def custom_types(res, L):
    try:
        lib = L["main"]
    except build.BuildError as e:
        # rejected with custom types only: the types are not honoured somewhere
        if not build.well_formed("native"):
            raise
        m = re.search(r"^(\S*include/nudb/\S+:\d+):\d+: (?:error|note): (.*)$", str(e), re.M)
        res.fail("custom types", m.group(2)[:200] if m else "", m.group(1) if m else "",
                 "the library does not compile with custom File and Hasher types although it does with its own")
        return
    for name in CUSTOM + NATIVE:
        r = lib.root(name)
        fn = r.fn
        res.funcs.add(fn.dem.split("(")[0][:160])
        arg = arg_index(fn)
        arg = atom("arg", arg) if arg is not None else None
        if name in ("open", "recover", "rekey", "create") and arg is None:
            raise AnchorError(f"{name} takes no constructor arguments for the File")
        files = 0
        for x, q, a in r.calls():
            names = [q] + [c.split(" in ")[-1] for c in fn.chain(x)]
            if q.startswith("vp::file::"):
                m = short(q)
                if m != "file":
                    res.oblige("file effects go to the custom File", fn.where(x))
                    continue
                if len(a) == 1:
                    files += 1
                    res.oblige("Files are constructed with the caller's arguments", fn.where(x))
                    if arg is not None or name in NATIVE:
                        res.at("custom File", fn, x, "a File is constructed without the arguments given for it")
                elif "vp::arg" in (x.j.get("callee") or "") or re.search(r"vp4?file.*C[12]E.*3arg", x.j.get("callee") or ""):
                    files += 1
                    res.oblige("Files are constructed with the caller's arguments", fn.where(x))
                    if a[1] is not arg:
                        res.at("custom File", fn, x, "a File is constructed with something else than the arguments given for it")
            elif NATIVE_FILE.match(q):
                res.oblige("native file used only where no File is named", fn.where(x))
                if name in CUSTOM:
                    res.at("custom File", fn, x, f"{q.split('::')[1]} is used although the caller names another File type")
            elif SYSTEM.match(q) or STREAMS.match(q):
                if not any("block_size" in n for n in names):
                    res.at("custom File", fn, x, f"{q} is called although files are to be reached through the File type")
            elif q in ("nudb::recover", "nudb::create", "nudb::rekey"):
                res.oblige("nested operations get the caller's types and arguments", fn.where(x))
                files += 1
                c = x.j.get("callee") or ""
                if "2vp6hasher" not in c or "4file" not in c:
                    res.at("custom File", fn, x, f"{q.split('::')[-1]} is called for other File and Hasher types")
                if a and arg is not None and a[-1] is not arg:
                    res.at("custom File", fn, x, f"{q.split('::')[-1]} is not given the caller's File arguments")
            hit = next((n for n in names if HASHERS.search(n)), None)
            if hit:
                res.at("custom Hasher", fn, x, "the default hasher is used although the caller names another Hasher",
                       key=f"default hasher {name}")
            if q.startswith("vp::hasher::"):
                res.oblige("hashes are computed with the custom Hasher", fn.where(x))
        if name in ("open", "recover", "rekey", "create", "create2") and not files:
            res.fail("custom File", fn.dem.split("(")[0], "", f"{name} constructs no File of the caller's type")
        # an inlined default hasher leaves no call: look at where the instructions come from
        for b in fn.rpo:
            for x in fn.blocks[b] if b not in fn.dead else ():
                if x.op in ("mul", "load") and any(HASHERS.search(c.split(" in ")[-1]) for c in fn.chain(x)):
                    res.at("custom Hasher", fn, x, "the default hasher is used although the caller names another Hasher",
                           key=f"default hasher {name}")
