"""Builds the harness and the code under test from the current working tree of /repo.

Objects are cached under /verif/build by a hash over everything that goes into them, so that a check
always sees the current tree.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

COMMON = ["-std=gnu++17", "-pthread", "-g1", "-fno-omit-frame-pointer"]
VARIANTS = {
    # asserts stay on in all variants
    "plain": dict(cxx="g++", repo=["-O1", "-D_GLIBCXX_ASSERTIONS"], link=[]),
    "san": dict(cxx="clang++",
                repo=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
                      "-fno-sanitize=vptr,function"],
                link=["-fsanitize=address,undefined"]),
    "fuzz": dict(cxx="clang++",
                 repo=["-O1", "-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=undefined",
                       "-fno-sanitize=vptr,function"],
                 link=["-fsanitize=address,undefined,fuzzer"]),
    "tsan": dict(cxx="clang++", repo=["-O1", "-fsanitize=thread"], link=["-fsanitize=thread"]),
}
ENV = dict(os.environ, LC_ALL="C.UTF-8")
for k in ("CXXFLAGS", "CFLAGS", "LDFLAGS", "CPATH", "LD_LIBRARY_PATH"):
    ENV.pop(k, None)


# flags for the binding of the Python module
PYTHON = ["-O1", "-fPIC", "-w", "-D_CFFI_NO_LIMITED_API", "-I/usr/include/python3.12"]


class BuildError(Exception):
    pass


def _files(root, pats):
    res = []
    for p in pats:
        res += glob.glob(os.path.join(root, p), recursive=True)
    return sorted(set(res))


def _digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def repo_sources():
    return (_files(REPO, ["libclingo-dl/src/**/*.cc", "app/lib/src/**/*.cc"]),
            _files(REPO, ["app/src/**/*.cc"]))


def repo_headers():
    return _files(REPO, ["libclingo-dl/**/*.h", "libclingo-dl/**/*.hh", "libclingo-dl/src/**/*", "app/**/*.hh",
                         "app/**/*.h"])


def includes():
    return ["-I" + os.path.join(REPO, "libclingo-dl"), "-I" + os.path.join(REPO, "app/lib"),
            "-I" + os.path.join(VERIF, "harness")]


def _compile(cxx, flags, src, hdr_digest):
    common = COMMON if cxx != "gcc" else [f for f in COMMON if not f.startswith("-std=")]
    cmd = [cxx] + common + flags + includes() + ["-c", src]
    h = hashlib.sha256()
    h.update(" ".join(cmd).encode())
    h.update(hdr_digest.encode())
    with open(src, "rb") as f:
        h.update(f.read())
    obj = os.path.join(BUILD, "obj", h.hexdigest()[:32] + ".o")
    if not os.path.exists(obj):
        fd, tmp = tempfile.mkstemp(dir=os.path.dirname(obj), suffix=".tmp")
        os.close(fd)
        r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
        if r.returncode != 0:
            os.unlink(tmp)
            raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
        os.replace(tmp, obj)
    return obj


def _link(cxx, flags, objs, name):
    h = hashlib.sha256((" ".join([cxx] + flags + objs)).encode()).hexdigest()[:16]
    d = os.path.join(BUILD, "bin", h)
    exe = os.path.join(d, name)
    if not os.path.exists(exe):
        os.makedirs(d, exist_ok=True)
        tmp = exe + ".tmp%d" % os.getpid()
        r = subprocess.run([cxx, "-pthread"] + flags + objs + ["-lclingo", "-ldl", "-o", tmp],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
        if r.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
        os.replace(tmp, exe)
    return exe


def build(variants=("plain",), tool=False, units=None, python=False):
    """Build the worker for the given variants. Returns {variant: path} (and "tool", "python": path)."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    lib, app = repo_sources()
    if not lib:
        raise BuildError("no sources found in " + REPO)
    harness = _files(VERIF, ["harness/*.cc"])
    hh = _files(VERIF, ["harness/*.hh"])
    public = [os.path.join(REPO, "libclingo-dl/clingo-dl.h")] + _files(REPO, ["app/lib/**/*.hh"])
    rd = _digest(repo_headers())
    hd = _digest(hh + [p for p in public if os.path.exists(p)])
    if units is not None:
        harness = [h for h in harness
                   if not os.path.basename(h).startswith("p_") or os.path.basename(h)[:-3] in units]
    harness_main = [h for h in harness if not os.path.basename(h).startswith("fuzz_")]
    res = {}
    with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        jobs = {}
        for v in variants:
            var = VARIANTS[v]
            jobs[v] = [ex.submit(_compile, var["cxx"], var["repo"], s, rd) for s in lib]
        if tool:
            # the command line tool comes with the flavour of the plain variant
            var = VARIANTS["plain"]
            jobs["tool"] = [ex.submit(_compile, var["cxx"], var["repo"], s, rd) for s in lib + app]
        if python:
            # the compiled part of the Python module
            jobs["binding"] = [ex.submit(_compile, "gcc", PYTHON, s, rd)
                               for s in _files(REPO, ["libpyclingo-dl/*.c"])]
            jobs["shared"] = [ex.submit(_compile, "g++", VARIANTS["plain"]["repo"] + ["-fPIC"], s, rd) for s in lib]
        # harness objects are not instrumented and shared between the variants
        hj = [ex.submit(_compile, "g++", ["-O1"], s, hd) for s in harness_main]
        fj = []
        if "fuzz" in variants:
            fj = [ex.submit(_compile, "g++", ["-O1"], s, hd) for s in harness
                  if os.path.basename(s).startswith("fuzz_")]
        hobjs = [j.result() for j in hj]
        for v in variants:
            var = VARIANTS[v]
            objs = [j.result() for j in jobs[v]]
            if v == "fuzz":
                mains = [o for o, s in zip(hobjs, harness_main) if os.path.basename(s) != "main.cc"]
                res[v] = _link(var["cxx"], var["link"], objs + mains + [j.result() for j in fj], "fuzz")
            else:
                res[v] = _link(var["cxx"], var["link"], objs + hobjs, "harness")
        if tool:
            res["tool"] = _link("g++", [], [j.result() for j in jobs["tool"]], "clingo-dl")
        if python:
            res["python"] = _link("g++", ["-shared"], [j.result() for j in jobs["shared"] + jobs["binding"]],
                                  "_clingodl.so")
    return res


if __name__ == "__main__":
    print(build(tuple(sys.argv[1:]) or ("plain",), tool=True, python=True))
