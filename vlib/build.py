"""Builds the engines, /repo's library and the harnesses from the current tree.

Objects are cached under /verif/build by a hash of everything that determines
them, so a change of /repo is always seen.
"""
import concurrent.futures
import glob
import hashlib
import os
import shutil
import subprocess
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "/usr/bin/clang++"
JOBS = os.cpu_count() or 8

JSON = {
    "nlohmann": (["-DCPPDAP_JSON_NLOHMANN=1"], []),
    "rapid": (["-DCPPDAP_JSON_RAPID=1"], []),
    # all three back ends in one program; the aliases of json_serializer.h are nlohmann's
    "all": (["-DCPPDAP_JSON_NLOHMANN=1", "-I/usr/include/jsoncpp"], ["-ljsoncpp"]),
    "jsoncpp": (["-DCPPDAP_JSON_JSONCPP=1", "-I/usr/include/jsoncpp"], ["-ljsoncpp"]),
}
STD = "-std=gnu++14"
# What was left uninitialised on the stack has the same (odd) value in every run.
AUTO_INIT = "-ftrivial-auto-var-init=pattern"
MC_FLAGS = [STD, "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread", AUTO_INIT,
            "-mllvm", "-tsan-instrument-func-entry-exit=0", "-D_GLIBCXX_ASSERTIONS",
            "-include", f"{VERIF}/mc/pre.h", "-w"]
SEQ_FLAGS = [STD, "-O1", "-g1", "-fno-omit-frame-pointer", AUTO_INIT,
             "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
             "-fno-sanitize=vptr,pointer-overflow", "-D_GLIBCXX_ASSERTIONS", "-w"]
PLAIN_FLAGS = [STD, "-O1", "-g1", "-w"]
RT_FLAGS = ["-std=gnu++17", "-O2", "-g1", "-fPIC", "-fno-omit-frame-pointer",
            "-fvisibility=hidden", "-w"]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


_hdr = {}


def _headers(kind):
    """Digest of all headers a compilation may include."""
    if kind not in _hdr:
        pats = {
            "repo": [f"{REPO}/include/**/*.h", f"{REPO}/src/*.h"],
            "verif": [f"{VERIF}/mc/*.h", f"{VERIF}/harness/*.h", f"{VERIF}/harness/*.inc"],
        }[kind]
        h = hashlib.sha256()
        for pat in pats:
            for p in sorted(glob.glob(pat, recursive=True)):
                h.update(p.encode())
                h.update(_read(p))
        _hdr[kind] = h.hexdigest()
    return _hdr[kind]


_slots = threading.Semaphore(JOBS)


def _run(cmd):
    with _slots:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), "\n".join(l for l in p.stdout.splitlines() if "error:" in l)[:3000] or p.stdout[-2000:]))


def _obj(src, flags):
    h = hashlib.sha256()
    h.update(repr((src, flags, CXX)).encode())
    h.update(_read(src))
    h.update(_headers("repo").encode())
    h.update(_headers("verif").encode())
    out = os.path.join(BUILD, "obj", h.hexdigest()[:32] + ".o")
    return out, [CXX] + flags + ["-c", src, "-o", out + ".tmp%d_%d.o" % (os.getpid(), threading.get_ident())]


def _compile_all(jobs):
    """jobs: list of (src, flags).  Returns the object paths."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    outs, todo = [], {}
    for src, flags in jobs:
        out, cmd = _obj(src, flags)
        outs.append(out)
        if not os.path.exists(out):
            todo[out] = cmd

    def one(item):
        out, cmd = item
        _run(cmd)
        os.rename(cmd[-1], out)

    # biggest translation units first
    items = sorted(todo.items(), key=lambda kv: -os.path.getsize(kv[1][-3]))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for _ in ex.map(one, items):
            pass
    return outs


def lib_sources(backend, libset):
    srcs = []
    for p in sorted(glob.glob(f"{REPO}/src/*.cpp")):
        b = os.path.basename(p)
        if b.endswith("_test.cpp"):
            continue
        if isinstance(libset, (list, tuple)):
            if b in libset:
                srcs.append(p)
            continue
        if backend != "all" and b.endswith("_json_serializer.cpp") and b not in ("null_json_serializer.cpp", f"{backend}_json_serializer.cpp"):
            continue
        if libset == "core" and (b.startswith("protocol_")):
            continue
        srcs.append(p)
    return srcs


def runtime():
    srcs = ["rt.cpp", "explore.cpp", "simnet.cpp"]
    return [(f"{VERIF}/mc/{s}", RT_FLAGS) for s in srcs]


def build(name, engine, sources, backend="nlohmann", libset="full", extra=(), ldflags=()):
    """Builds harness `name`; returns the path of the program."""
    try:
        return _build(name, engine, sources, backend, libset, extra, ldflags)
    except BuildError:
        # the code may have been spread over more source files
        if libset == "full":
            raise
        return _build(name, engine, sources, backend, "full", extra, ldflags)


def _build(name, engine, sources, backend, libset, extra, ldflags):
    jflags, jlibs = JSON[backend]
    jlibs = jlibs + list(ldflags)
    inc = [f"-I{REPO}/include", f"-I{REPO}/src", f"-I{VERIF}/mc", f"-I{VERIF}/harness"]
    flags = {"mc": MC_FLAGS, "seq": SEQ_FLAGS, "plain": PLAIN_FLAGS}[engine] + jflags + inc + list(extra)
    hs = [(s if s.startswith("/") else f"{VERIF}/harness/{s}", flags) for s in sources]
    ls = [(s, flags) for s in lib_sources(backend, libset)] if libset != "none" else []
    if engine == "mc":
        rs = runtime() + [(f"{VERIF}/mc/main.cpp", ["-O1"])]
    elif engine == "seq":
        rs = [(f"{VERIF}/mc/{s}", ["-std=gnu++17", "-O2", "-g1", "-w"]) for s in ("seq.cpp", "explore.cpp", "main.cpp")]
    else:
        rs = []
    objs = _compile_all(hs + ls + rs)
    ho, lo, ro = objs[:len(hs)], objs[len(hs):len(hs) + len(ls)], objs[len(hs) + len(ls):]
    key = hashlib.sha256(repr((objs, jlibs)).encode()).hexdigest()[:24]
    d = os.path.join(BUILD, "bin", f"{name}-{key}")
    exe = os.path.join(d, name)
    if os.path.exists(exe):
        return exe
    tmp = d + ".tmp%d_%d" % (os.getpid(), threading.get_ident())
    os.makedirs(tmp, exist_ok=True)
    if engine == "mc":
        _run([CXX, "-shared", "-o", f"{tmp}/libmc.so"] + ro[:-1] + ["-Wl,-Bsymbolic"])
        _run([CXX, "-no-pie", "-o", f"{tmp}/{name}"] + ho + lo + [ro[-1]] +
             [f"-L{tmp}", "-lmc", "-Wl,-rpath,$ORIGIN", "-Wl,-z,now"] + jlibs)
    elif engine == "seq":
        _run([CXX, "-fsanitize=address,undefined", "-o", f"{tmp}/{name}"] + ho + lo + ro + jlibs + ["-lpthread"])
    else:
        _run([CXX, "-o", f"{tmp}/{name}"] + ho + lo + jlibs + ["-lpthread"])
    if os.path.exists(d):
        shutil.rmtree(tmp)
        return exe
    os.rename(tmp, d)
    return exe
