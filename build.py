#!/usr/bin/env python3
"""Builds simulator binaries from /repo's current working tree.

Objects are cached by content (source text, every header of /repo and /verif/sim, flags), never by time stamp, so a
check always sees the tree as it is.  Usage: build.py NAME...   (prints the path of each binary)
"""
import hashlib, os, subprocess, sys, concurrent.futures, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ZK_REPO", "/repo")
OUT = os.path.join(VERIF, "_build")
CXX = "clang++"
BASE = ["-std=c++20", "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-pthread",
        "-D_ZK_WITH_MMAP=1", "-DZKNO_REM=1", "-D_ZKEXPORT=1"]
VARIANTS = {
    # name: (flags for ZenKit's sources, flags for the harness)
    "asan": (["-fsanitize=address", "-fsanitize-coverage=trace-pc-guard"], ["-fsanitize=address"]),
    "zip": (["-fsanitize=address", "-fsanitize-coverage=trace-pc-guard", "-D_ZK_WITH_ZIPPED_VDF=1", "-I" + os.path.join(VERIF, "shim")],
            ["-fsanitize=address", "-D_ZK_WITH_ZIPPED_VDF=1", "-I" + os.path.join(VERIF, "shim")]),
    "sched": (["-fsanitize=address", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores", "-D_ZK_WITH_ZIPPED_VDF=1", "-I" + os.path.join(VERIF, "shim")],
              ["-fsanitize=address", "-D_ZK_WITH_ZIPPED_VDF=1", "-I" + os.path.join(VERIF, "shim")]),
}
# harness name -> (variant, harness sources, extra link flags)
sys.path.insert(0, VERIF)
from targets import TARGETS

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()

def read(p):
    with open(p, "rb") as f:
        return f.read()

def headers_hash(root, exts):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0" + read(p) + b"\0")
    return h.hexdigest()

def repo_sources():
    r = []
    for d, ds, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith((".cc", ".cpp", ".cxx")) and f != "MmapWin32.cc":
                r.append(os.path.join(d, f))
    return sorted(r)

def compile_one(job):
    src, flags, key = job
    obj = os.path.join(OUT, "obj", key + ".o")
    if os.path.exists(obj):
        return obj, None
    tmp = obj + ".%d.tmp" % os.getpid()
    p = subprocess.run([CXX, *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
    if p.returncode != 0:
        return None, "%s\n%s" % (src, p.stderr)
    os.replace(tmp, obj)
    return obj, None

def build(names):
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    hh = sha(headers_hash(os.path.join(REPO, "include"), (".hh", ".h", ".hpp", ".inl")),
             headers_hash(os.path.join(REPO, "src"), (".hh", ".h", ".hpp", ".inl")))
    sh = sha(headers_hash(os.path.join(VERIF, "sim"), (".hh",)), headers_hash(os.path.join(VERIF, "shim"), (".h",)))
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    jobs, plan = [], []
    for n in names:
        variant, hsrcs, link = TARGETS[n]
        zk, hf = VARIANTS[variant]
        objs = []
        for s in repo_sources():
            flags = BASE + zk + inc
            key = sha("repo", os.path.relpath(s, REPO), read(s), hh, sh if variant in ("zip", "sched") else "", " ".join(flags))[:40]
            jobs.append((s, flags, key)); objs.append(key)
        for s in hsrcs:
            s = os.path.join(VERIF, s)
            flags = BASE + hf + inc + ["-I" + os.path.join(VERIF, "sim")]
            part = b"".join(read(os.path.join(VERIF, "sim", l.split(b'"')[1].decode())) for l in read(s).split(b"\n") if l.startswith(b"#include \"p"))
            key = sha("sim", os.path.relpath(s, VERIF), read(s), part, hh, sh, " ".join(flags))[:40]
            jobs.append((s, flags, key)); objs.append(key)
        plan.append((n, variant, objs, link))
    uniq = {j[2]: j for j in jobs}
    res = {}
    # big files first
    order = sorted(uniq.values(), key=lambda j: -os.path.getsize(j[0]))
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for j, (obj, err) in zip(order, ex.map(compile_one, order)):
            if err:
                print("BUILD ERROR:", err, file=sys.stderr)
                sys.exit(3)
            res[j[2]] = obj
    outs = []
    for n, variant, objs, link in plan:
        key = sha(n, *objs, " ".join(link))[:16]
        binp = os.path.join(OUT, "bin", n + "-" + key)
        if not os.path.exists(binp):
            for f in os.listdir(os.path.join(OUT, "bin")):
                if f.startswith(n + "-"):
                    os.unlink(os.path.join(OUT, "bin", f))
            tmp = binp + ".%d.tmp" % os.getpid()
            p = subprocess.run([CXX, "-fsanitize=address", "-pthread", "-rdynamic", *[res[o] for o in objs], "-o", tmp, "-lsquish", *link],
                               capture_output=True, text=True)
            if p.returncode != 0:
                print("LINK ERROR:", p.stderr, file=sys.stderr)
                sys.exit(3)
            os.replace(tmp, binp)
        outs.append(binp)
    # keep the object cache from growing without bound
    objdir = os.path.join(OUT, "obj")
    ents = [os.path.join(objdir, f) for f in os.listdir(objdir)]
    if len(ents) > 1500:
        for f in sorted(ents, key=os.path.getmtime)[:len(ents) - 800]:
            if os.path.basename(f)[:-2] not in res:
                try: os.unlink(f)
                except OSError: pass
    return outs

if __name__ == "__main__":
    names = sys.argv[1:] or list(TARGETS)
    for o in build(names):
        print(o)
