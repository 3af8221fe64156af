#!/usr/bin/env python3
"""Build driver: compiles the real HELICS sources of /repo (with the stand-ins of /verif/shims for absent submodules)
plus the harness programs of /verif/harness, in sanitizer variants.

 * dependency tracking is by *content* (comments removed), so mtimes and comment edits cause no rebuild,
 * outputs in /verif/build/<variant>/ (git-ignored), never in /repo.
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shlex
import subprocess
import sys
import glob
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = f"{REPO}/src/helics"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

COMMON = ["-std=c++20", "-fno-omit-frame-pointer", "-w", "-pthread", "-fPIC"]
VARIANTS = {
    # -O1 keeps the sanitizer runs quick; recover is off so that each report ends the run
    "asan": dict(cxx="clang++", flags=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function,float-cast-overflow,nonnull-attribute",
                                        "-fno-sanitize-recover=all"],
                 ld=["-fsanitize=address,undefined"]),
    "tsan": dict(cxx="clang++", flags=["-O1", "-g1", "-fsanitize=thread"], ld=["-fsanitize=thread"]),
    "plain": dict(cxx="clang++", flags=["-O1", "-g0"], ld=[]),
}

EXCLUDE = {
    "network/ipc/IpcBlockingPriorityQueue.cpp", "network/ipc/IpcBlockingPriorityQueueImpl.cpp",
    "shared_api_library/helicsAppsExportNull.cpp",
    "apps/helics-broker-server.cpp", "apps/helics-broker.cpp", "apps/appMain.cpp", "apps/connectorMain.cpp",
    "apps/playerMain.cpp", "apps/recorderMain.cpp", "apps/helicsWebServer.cpp", "apps/RestApiConnection.cpp",
    "apps/MultiBroker.cpp",
    "network/zmq/zmqSocketDescriptor.cpp",
}
GROUPS = {
    "common": ["common"],
    "core": ["core"],
    "network": ["network", "network/test", "network/inproc", "network/ipc", "network/zmq", "network/udp", "network/tcp"],
    "api": ["application_api"],
    "apps": ["apps"],
    "capi": ["shared_api_library"],
}
DEFS = ["-DASIO_STANDALONE", "-DCLI11_HAS_FILESYSTEM=1", "-DUSE_STD_OPTIONAL=1", "-DHELICS_STATIC_CORE_LIBRARY",
        "-DHELICS_CXX_STATIC_DEFINE", "-DHELICS_STATIC_DEFINE", "-DSPDLOG_FMT_EXTERNAL", "-DBOOST_DATE_TIME_NO_LIB"]


def incs():
    return ["-I", f"{REPO}/src", "-I", f"{REPO}/src/helics", "-I", f"{BUILD}/gen", "-I", f"{VERIF}/shims", "-I", f"{VERIF}/shims/gmlc/utilities",
            "-isystem", f"{REPO}/ThirdParty", "-isystem", f"{REPO}/ThirdParty/frozen/include",
            "-isystem", f"{REPO}/ThirdParty/cppzmq", "-isystem", f"{REPO}/ThirdParty/helics/external", "-isystem", f"{BUILD}/asio"]


def write_if_changed(path, data):
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == data:
                return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + f".{os.getpid()}.tmp"
    with open(tmp, "w") as f:
        f.write(data)
    os.replace(tmp, path)


def generate():
    if not os.path.exists(f"{BUILD}/asio/asio.hpp"):
        subprocess.run([sys.executable, f"{VERIF}/tools/make_asio.py", f"{BUILD}/asio"], check=True,
                       stdout=subprocess.DEVNULL)
    cm = open(f"{REPO}/CMakeLists.txt").read()
    m = re.search(r"project\(\s*HELICS[^)]*?VERSION\s+(\d+)\.(\d+)\.(\d+)", cm, re.S)
    maj, mnr, pat = m.groups() if m else ("3", "0", "0")
    m = re.search(r'HELICS_DATE\s+"?([0-9-]+)', cm)
    date = m.group(1) if m else "2026-01-01"
    on = {"HELICS_ENABLE_ZMQ_CORE", "HELICS_ENABLE_TCP_CORE", "HELICS_ENABLE_IPC_CORE", "HELICS_ENABLE_UDP_CORE",
          "HELICS_ENABLE_TEST_CORE", "HELICS_ENABLE_INPROC_CORE", "HELICS_ENABLE_LOGGING",
          "HELICS_ENABLE_TRACE_LOGGING", "HELICS_ENABLE_DEBUG_LOGGING"}
    sub = {"HELICS_VERSION_MAJOR": maj, "HELICS_VERSION_MINOR": mnr, "HELICS_VERSION_PATCH": pat,
           "HELICS_VERSION": f"{maj}.{mnr}.{pat}", "HELICS_VERSION_STRING": f"{maj}.{mnr}.{pat} ({date})",
           "HELICS_DATE": date, "CMAKE_SYSTEM_PROCESSOR": "x86_64", "HELICS_COMPILER_VERSION": "verif"}
    out = []
    for ln in open(f"{REPO}/config/helics-config.h.in"):
        m = re.match(r"#cmakedefine\s+(\w+)", ln)
        if m:
            out.append(f"#define {m.group(1)}\n" if m.group(1) in on else f"/* #undef {m.group(1)} */\n")
        else:
            out.append(re.sub(r"\$\{(\w+)\}", lambda k: sub.get(k.group(1), ""), ln))
    write_if_changed(f"{BUILD}/gen/helics/helics-config.h", "".join(out))
    for h in ("helics.h", "helics_api.h"):
        write_if_changed(f"{BUILD}/gen/helics/{h}",
                         open(f"{SRC}/shared_api_library/backup/helics/{h}").read())
    for base, fn in (("HELICS_CXX", "helics_cxx_export.h"), ("HELICS", "helics_export.h")):
        write_if_changed(f"{BUILD}/gen/{fn}",
                         f"#pragma once\n#define {base}_EXPORT\n#define {base}_NO_EXPORT\n"
                         f"#define {base}_DEPRECATED\n#define {base}_DEPRECATED_EXPORT\n#define {base}_DEPRECATED_NO_EXPORT\n")


_tok = re.compile(
    r'R"(?P<d>[^ ()\\\t\n]{0,16})\((?s:.*?)\)(?P=d)"'
    r'|"(?:\\.|[^"\\\n])*"'
    r"|(?<=[0-9a-fA-F])'(?=[0-9a-fA-F])"
    r"|'(?:\\[^\n]{1,10}?|[^'\\\n]{1,4})'"
    r"|//(?:\\\n|[^\n])*"
    r"|/\*(?s:.*?)\*/")


def normalise(text):
    def rep(m):
        s = m.group(0)
        if s.startswith("//"):
            return ""
        if s.startswith("/*"):
            return " "
        return s
    text = _tok.sub(rep, text)
    return "\n".join(l for l in (x.rstrip() for x in text.splitlines()) if l.strip())


_hash = {}


def fhash(path):
    h = _hash.get(path)
    if h is None:
        try:
            with open(path, errors="surrogateescape") as f:
                h = hashlib.sha1(normalise(f.read()).encode("utf8", "surrogateescape")).hexdigest()
        except OSError:
            h = "missing"
        _hash[path] = h
    return h


def parse_d(path):
    txt = open(path).read().replace("\\\n", " ")
    txt = txt.split(":", 1)[1]
    deps = [d for d in shlex.split(txt)]
    return [os.path.realpath(d) for d in deps]


def tracked(dep):
    return dep.startswith(os.path.realpath(REPO) + "/") or dep.startswith(os.path.realpath(VERIF) + "/") and \
        not dep.startswith(os.path.realpath(BUILD) + "/asio/")


class Fail(Exception):
    pass


def compile_one(variant, src, obj, extra=()):
    v = VARIANTS[variant]
    cmd = [v["cxx"], *COMMON, *v["flags"], *DEFS, *extra, *incs(), "-MMD", "-MF", obj + ".d", "-c", src, "-o", obj]
    flagkey = hashlib.sha1(" ".join(cmd).encode()).hexdigest()
    meta = obj + ".json"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["flags"] == flagkey and all(fhash(d) == h for d, h in m["deps"].items()):
                return False
        except (ValueError, KeyError):
            pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    if os.path.exists(meta):
        os.unlink(meta)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Fail(f"compile failed: {src}\n" + r.stderr[-6000:])
    deps = {d: fhash(d) for d in parse_d(obj + ".d") if tracked(d)}
    with open(meta + ".tmp", "w") as f:
        json.dump({"flags": flagkey, "deps": deps}, f)
    os.replace(meta + ".tmp", meta)
    os.unlink(obj + ".d")
    return True


def group_sources(group):
    res = []
    for d in GROUPS[group]:
        for s in sorted(glob.glob(f"{SRC}/{d}/*.cpp")):
            if s[len(SRC) + 1:] not in EXCLUDE:
                res.append(s)
    if group == "capi":
        res += sorted(glob.glob(f"{SRC}/shared_api_library/internal/*.cpp"))
    return res


ALL_GROUPS = ["capi", "apps", "api", "network", "core", "common"]


def build(variant, programs, groups=ALL_GROUPS, log=lambda s: None, keep_going=False, optional=(), failed=None):
    """programs: list of (name, [sources], [extra flags], [link flags]); returns {name: exe path}.
    Programs named in `optional` (white-box harnesses) may fail to compile: they are then left out of the
    result and their error is put in `failed`."""
    optsrc = {}
    t0 = time.time()
    os.makedirs(f"{BUILD}/{variant}", exist_ok=True)
    lock = open(f"{BUILD}/{variant}/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    glock = open(f"{BUILD}/.genlock", "w")
    fcntl.flock(glock, fcntl.LOCK_EX)
    generate()
    fcntl.flock(glock, fcntl.LOCK_UN)
    jobs = []  # (size, src, obj, extra)
    gobjs = {}
    for g in groups:
        gobjs[g] = []
        for s in group_sources(g):
            o = f"{BUILD}/{variant}/{g}/" + s[len(SRC) + 1:].replace("/", "_") + ".o"
            gobjs[g].append(o)
            jobs.append((os.path.getsize(s), s, o, ()))
    pobjs = {}
    for name, srcs, extra, _ in programs:
        pobjs[name] = []
        for s in srcs:
            o = f"{BUILD}/{variant}/prog/{name}_" + os.path.basename(s) + ".o"
            pobjs[name].append(o)
            jobs.append((os.path.getsize(s) + 60000, s, o, tuple(extra)))
            if name in optional:
                optsrc[o] = name
    jobs.sort(reverse=True)
    ncomp, errs = 0, []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {ex.submit(compile_one, variant, s, o, e): s for _, s, o, e in jobs}
        fobj = {f: j[2] for f, j in zip(futs, jobs)}
        for f in cf.as_completed(futs):
            try:
                if f.result():
                    ncomp += 1
                    log(f"  [{variant}] {os.path.relpath(futs[f], REPO)} ({time.time() - t0:.0f}s)")
            except cf.CancelledError:
                continue
            except Fail as e:
                if fobj[f] in optsrc:
                    if failed is not None:
                        failed[optsrc[fobj[f]]] = str(e)
                    programs = [p for p in programs if p[0] != optsrc[fobj[f]]]
                    continue
                errs.append(str(e))
                if not keep_going:
                    for q in futs:
                        q.cancel()
    if errs:
        raise Fail("\n".join(errs))
    libs, libkey = [], []
    for g in groups:
        lib = f"{BUILD}/{variant}/lib{g}.a"
        key = hashlib.sha1("".join(open(o + ".json").read() for o in gobjs[g]).encode()).hexdigest()
        kf = lib + ".key"
        if not (os.path.exists(lib) and os.path.exists(kf) and open(kf).read() == key):
            if os.path.exists(lib):
                os.unlink(lib)
            subprocess.run(["ar", "rcsT" if False else "rcs", lib, *gobjs[g]], check=True)
            open(kf, "w").write(key)
        libs.append(lib)
        libkey.append(key)
    exes = {}

    def link(p):
        name, _, _, ldx = p
        exe = f"{BUILD}/{variant}/bin/{name}"
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        v = VARIANTS[variant]
        cmd = [v["cxx"], "-fuse-ld=lld" if HAVE_LLD else "-pthread", *v["ld"], "-pthread", "-o", exe + ".new", *pobjs[name],
               "-Wl,--start-group", *libs, "-Wl,--end-group", *ldx, "-lfmt", "-lspdlog", "-lzmq", "-lboost_filesystem", "-lrt", "-ldl"]
        key = hashlib.sha1((" ".join(cmd) + "".join(libkey) +
                            "".join(open(o + ".json").read() for o in pobjs[name])).encode()).hexdigest()
        if os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == key:
            return name, exe
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            if name in optional:
                if failed is not None:
                    failed[name] = "link failed: " + r.stderr[-6000:]
                return name, None
            raise Fail(f"link failed: {name}\n" + r.stderr[-6000:])
        os.replace(exe + ".new", exe)
        open(exe + ".key", "w").write(key)
        return name, exe
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for name, exe in ex.map(link, programs):
            if exe:
                exes[name] = exe
    log(f"  [{variant}] {ncomp} compiled, {len(programs)} programs, {time.time() - t0:.1f}s")
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exes


HAVE_LLD = subprocess.run(["which", "ld.lld"], capture_output=True).returncode == 0

if __name__ == "__main__":
    variant = sys.argv[1]
    groups = sys.argv[2].split(",") if len(sys.argv) > 2 else ALL_GROUPS
    try:
        build(variant, [], groups, print, keep_going=True)
    except Fail as e:
        print(e)
        sys.exit(1)
