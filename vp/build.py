"""Builds the IR extractor and the analysed modules from /repo's working tree."""
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NUDB_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "clang++"


class BuildError(Exception):
    pass


def _run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(f"{what} failed ({' '.join(cmd)[:200]}):\n{p.stdout[-3000:]}")
    return p.stdout


def _hash_files(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_sources():
    out = []
    for d in ("include", "tools"):
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                out.append(os.path.join(r, f))
    return out


def extractor():
    src = os.path.join(VERIF, "tool", "irx.cpp")
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "irx-" + _hash_files([src]))
    if not os.path.exists(out):
        tmp = out + f".{os.getpid()}"
        _run([CLANG, "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp,
              "-L/usr/lib/llvm-18/lib", "-lLLVM-18"], "building the IR extractor")
        os.rename(tmp, out)
    return out


def module(name, std="c++14", defs=("NDEBUG",), driver=None, flags=(), irx=()):
    """compile drivers/<name>.cpp against the repository and extract its IR; cached by content"""
    d = os.path.join(VERIF, "drivers")
    cpp = driver or os.path.join(d, name + ".cpp")
    prim, roots = os.path.join(d, name + ".prim"), os.path.join(d, name + ".roots")
    tool = extractor()
    key = hashlib.sha256(repr((2, _hash_files([cpp, prim, roots] + repo_sources()), tool, std, tuple(defs), tuple(flags),
                               tuple(irx))).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, f"{name}-{key}.json")
    if not os.path.exists(out):
        bc = out[:-5] + f".{os.getpid()}.bc"
        tmp = out + f".{os.getpid()}"
        try:
            _run([CLANG, f"-std={std}", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fstandalone-debug", "-include", "stdexcept",
                  "-I" + os.path.join(REPO, "include"), "-I" + REPO] + [f"-D{x}" for x in defs] + list(flags) +
                 ["-emit-llvm", "-c", cpp, "-o", bc], f"compiling {name}")
            _run([tool, bc, tmp, "--prim", prim, "--roots", roots] + list(irx), f"extracting {name}")
            os.rename(tmp, out)
        finally:
            for f in (bc, tmp):
                if os.path.exists(f):
                    os.unlink(f)
        # keep the cache small
        mine = sorted((os.path.join(BUILD, f) for f in os.listdir(BUILD) if f.startswith(name + "-") and f.endswith(".json")),
                      key=os.path.getmtime)
        for f in mine[:-24]:
            os.unlink(f)
    return out


def well_formed(name, std="c++14"):
    """whether drivers/<name>.cpp compiles against the repository"""
    p = subprocess.run([CLANG, f"-std={std}", "-fsyntax-only", "-include", "stdexcept", "-I" + os.path.join(REPO, "include"),
                        "-I" + REPO, "-DNDEBUG", os.path.join(VERIF, "drivers", name + ".cpp")],
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return p.returncode == 0
