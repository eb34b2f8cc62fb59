"""Builds harnesses from /repo's working tree into /verif/build (never into /repo).

Every object is cached under a key made of the command and the *contents* of all
files it was compiled from, so a check always sees the current tree.
"""
import hashlib, json, os, re, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    tmp = "%s.%d" % (path, os.getpid())
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)


def gen_dir():
    return os.path.join(BUILD, "gen")


def gen_version():
    version = "0.14.0"
    try:
        txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
        m = [re.search(r"set\(LIGHTSTEP_VERSION_%s\s+\"?(\d+)\"?\)" % k, txt) for k in ("MAJOR", "MINOR", "PATCH")]
        if all(m):
            version = ".".join(x.group(1) for x in m)
    except OSError:
        pass
    write_if_changed(os.path.join(gen_dir(), "lightstep/version.h"),
                     '#pragma once\n\n#define LIGHTSTEP_VERSION "%s"\n' % version)


PROTOS = [
    # (root relative to repo, proto relative to root, out dir)
    ("lightstep-tracer-common/third_party/googleapis", "google/api/annotations.proto", "protos/lightstep-tracer-common"),
    ("lightstep-tracer-common/third_party/googleapis", "google/api/http.proto", "protos/lightstep-tracer-common"),
    ("lightstep-tracer-common", "collector.proto", "protos/lightstep-tracer-common"),
    ("lightstep-tracer-common", "lightstep_carrier.proto", "protos/lightstep-tracer-common"),
    ("lightstep-tracer-configuration", "tracer_configuration.proto", "protos/lightstep-tracer-configuration"),
]
_proto_lock = threading.Lock()
_proto_done = False


def _find_proto(root, rel):
    base = os.path.join(REPO, root)
    p = os.path.join(base, rel)
    if os.path.exists(p):
        return base, rel
    for d, _, fs in os.walk(base):
        if os.path.basename(rel) in fs:
            return d, os.path.basename(rel)
    raise BuildError("proto not found: %s/%s" % (root, rel))


def gen_protos():
    global _proto_done
    with _proto_lock:
        out_srcs = []
        todo = []
        h = hashlib.sha256()
        for root, rel, out in PROTOS:
            base, r = _find_proto(root, rel)
            h.update(open(os.path.join(base, r), "rb").read())
            o = os.path.join(gen_dir(), out)
            os.makedirs(o, exist_ok=True)
            out_srcs.append(os.path.join(o, r[:-6] + ".pb.cc"))
            todo.append((base, r, o))
        stamp = os.path.join(gen_dir(), "protos.stamp")
        if not _proto_done:
            old = open(stamp).read() if os.path.exists(stamp) else ""
            if old != h.hexdigest() or not all(map(os.path.exists, out_srcs)):
                for base, r, o in todo:
                    inc = ["-I", base, "-I", os.path.join(REPO, "lightstep-tracer-common/third_party/googleapis"),
                           "-I", "/usr/include"]
                    res = sh(["protoc"] + inc + ["--cpp_out=" + o, os.path.join(base, r)])
                    if res.returncode:
                        raise BuildError("protoc: " + res.stdout)
                write_if_changed(stamp, h.hexdigest())
            _proto_done = True
        return out_srcs


def include_flags():
    g = gen_dir()
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
            "-I" + os.path.join(REPO, "3rd_party/base64/include"), "-I" + g,
            "-I" + os.path.join(VERIF, "shim/include"), "-I" + os.path.join(VERIF, "harness"),
            "-isystem", os.path.join(g, "protos"),
            "-isystem", os.path.join(g, "protos/lightstep-tracer-common"),
            "-isystem", os.path.join(g, "protos/lightstep-tracer-configuration")]


MODES = {
    "plain": (["-O0", "-g1"], []),
    "asan": (["-O0", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"], ["-fsanitize=address"]),
    "sched": (["-O1", "-g1", "-fsanitize=thread", "-U__SANITIZE_THREAD__", "-D_GLIBCXX_TSAN=1", "-DVERIF_SCHED"], []),
    "opt": (["-O1", "-g1"], []),
}
LIBS = ["-lprotobuf", "-levent", "-lcares", "-lpthread", "-ldl", "-lrt"]

_hash_cache = {}
_hash_lock = threading.Lock()


def fhash(path):
    with _hash_lock:
        if path in _hash_cache:
            return _hash_cache[path]
    try:
        with open(path, "rb") as f:
            d = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        d = "missing"
    with _hash_lock:
        _hash_cache[path] = d
    return d


def parse_deps(path):
    txt = open(path).read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    return [x for x in txt.split() if x]


def compile_one(src, mode, defines=(), extra=()):
    """Returns object path; raises BuildError with compiler output."""
    flags = MODES[mode][0]
    cmd = ["g++", "-std=gnu++11", "-w", "-fPIC", "-include", "cassert"] + list(flags) + list(defines) + list(extra) + include_flags()
    if src.endswith(".pb.cc") and mode == "sched":
        cmd = ["g++", "-std=gnu++11", "-w", "-fPIC", "-O0"] + include_flags()
    if mode == "sched" and src.endswith(("/harness/fakeevent.cc", "/harness/fakenet.cc", "/harness/names.cc")):   # stand-ins: each call is one step
        cmd = [x for x in cmd if x != "-fsanitize=thread"]
    if src.endswith("/vrt.cc"):  # the scheduler runtime itself is never instrumented
        cmd = ["g++", "-std=gnu++17", "-w", "-fPIC", "-O2", "-g1", "-fno-threadsafe-statics"] + include_flags()
    key = hashlib.sha256((" ".join(cmd) + "\0" + src).encode()).hexdigest()[:24]
    odir = os.path.join(BUILD, "obj", key[:2])
    os.makedirs(odir, exist_ok=True)
    obj = os.path.join(odir, key + ".o")
    meta = obj + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            deps = json.load(open(meta))
            if all(fhash(p) == h for p, h in deps.items()):
                return obj
        except Exception:
            pass
    tmp = "%s.%d.%d" % (obj, os.getpid(), threading.get_ident())
    dep = tmp + ".d"
    res = sh(cmd + ["-MD", "-MF", dep, "-c", src, "-o", tmp])
    if res.returncode:
        raise BuildError("compiling %s:\n%s" % (src, res.stdout[-6000:]))
    deps = {p: fhash(p) for p in parse_deps(dep) if not p.startswith("/usr/")}
    os.unlink(dep)
    os.replace(tmp, obj)
    with open(meta + ".tmp%d" % os.getpid(), "w") as f:
        json.dump(deps, f)
    os.replace(meta + ".tmp%d" % os.getpid(), meta)
    return obj


def repo_sources(exclude=(), include=()):
    """All library sources of the working tree (by glob, so new files are picked up)."""
    out = []
    src = os.path.join(REPO, "src")
    for d, _, fs in sorted(os.walk(src)):
        rel = os.path.relpath(d, src)
        if rel.split("/")[0] == "bridge":
            continue
        for f in sorted(fs):
            if not f.endswith(".cpp"):
                continue
            r = os.path.normpath(os.path.join(rel, f))
            if r in include:
                out.append(r)
                continue
            if r.endswith("_windows.cpp"):
                continue
            if r in exclude:
                continue
            out.append(r)
    return out


# Alternatives: exactly one of each pair can be linked, and the harness picks.
DEFAULT_EXCLUDE = ("recorder/grpc_transporter/grpc_transporter.cpp", "network/no_dns_resolver.cpp",
                   "tracer/dynamic_load.cpp", "recorder/no_stream_recorder.cpp")


def build(name, harness, srcs, mode="asan", defines=(), protos=False, ldflags=(), whole=False, exclude=()):
    """harness: files under /verif/harness; srcs: files under /repo/src that are linked.

    If linking the listed sources leaves symbols undefined (because code moved to
    another file), all the library's sources are compiled and linked as an archive.
    """
    gen_version()
    pb = gen_protos()   # the headers at least
    if not (protos or whole):
        pb = []
    files = [os.path.join(VERIF, "harness", h) for h in harness]
    present = [s for s in srcs if os.path.exists(os.path.join(REPO, "src", s))]
    files += [os.path.join(REPO, "src", s) for s in present]
    files += pb
    with ThreadPoolExecutor(JOBS) as ex:
        # big generated files first
        order = sorted(files, key=lambda p: not p.endswith(".pb.cc"))
        futs = {p: ex.submit(compile_one, p, mode, defines) for p in order}
        objs = [futs[p].result() for p in files]
    exe = os.path.join(BUILD, "bin", "%s.%s" % (name, mode))
    os.makedirs(os.path.dirname(exe), exist_ok=True)

    def link(objs, arch):
        tmp = "%s.%d" % (exe, os.getpid())
        cmd = ["g++", "-o", tmp] + objs + arch + MODES[mode][1] + list(ldflags) + LIBS
        res = sh(cmd)
        if res.returncode == 0:
            os.replace(tmp, exe)
        return res

    archive = []
    if not whole:
        res = link(objs, [])
        if res.returncode == 0:
            return exe
        first = res.stdout
    # whole library
    pb = gen_protos()
    rest = [s for s in repo_sources(exclude=tuple(DEFAULT_EXCLUDE) + tuple(exclude)) if s not in present]
    base64 = os.path.join(REPO, "3rd_party/base64/src")
    files2 = pb if not protos and not whole else []
    files2 = list(files2) + [os.path.join(REPO, "src", s) for s in rest]
    if os.path.isdir(base64):
        files2 += [os.path.join(base64, f) for f in sorted(os.listdir(base64)) if f.endswith(".cpp")]
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [(p, ex.submit(compile_one, p, mode, defines)) for p in files2]
        objs2, errs = [], []
        for p, f in futs:
            try:
                objs2.append(f.result())
            except BuildError as e:
                errs.append(str(e))
    if errs and whole:
        raise BuildError("\n".join(errs))
    lib = os.path.join(BUILD, "bin", "%s.%s.%d.a" % (name, mode, os.getpid()))
    if os.path.exists(lib):
        os.unlink(lib)
    res = sh(["ar", "crs", lib] + objs2)
    if res.returncode:
        raise BuildError(res.stdout)
    res = link(objs, ["-Wl,--start-group", lib, "-Wl,--end-group"])
    os.unlink(lib)
    if res.returncode:
        raise BuildError("link %s:\n%s" % (name, (res.stdout + "\n".join(errs))[-6000:]))
    return exe
