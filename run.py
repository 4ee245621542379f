#!/usr/bin/env python3
"""Build and run one check:  run.py check <ID> | build [GROUP...] | replay <ID> FILE

Objects are compiled from /repo's working tree into /verif/build (ignored by
git), keyed by a hash of the source, every header and the flags, so that a
change in /repo is always seen."""
import hashlib, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
BUILD = os.path.join(V, "build")
sys.path.insert(0, V)
from checks import GROUPS, CHECKS  # noqa: E402

BASE = ["-std=c++17", "-g1", "-w", "-pthread", "-DNDEBUG", "-U_FORTIFY_SOURCE", "-D_GLIBCXX_ASSERTIONS",
        "-DLOGGER_H=" + REPO + "/src/logger.h",
        "-I" + V + "/shim", "-I" + REPO + "/src", "-I" + REPO + "/include", "-I" + REPO + "/tools", "-I" + V + "/src"]
VARIANT = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-fsanitize=thread"],
}
LINK = {"plain": [], "asan": ["-fsanitize=address"], "tsan": ["-fsanitize=thread"]}


WRAP = "-Wl," + ",".join("--wrap=" + w for w in (
    "sigaction signal open open64 close pread pread64 pwrite pwrite64 write fsync fdatasync ftruncate ftruncate64 "
    "rename unlink remove mkdir nanosleep lseek lseek64").split())


def sh256(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def header_hash():
    hs = []
    for d in (REPO + "/src", REPO + "/include", REPO + "/tools", V + "/shim", V + "/src"):
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                if f.endswith((".h", ".hh", ".hpp")):
                    p = os.path.join(root, f)
                    hs.append(p.encode() + read(p))
    return sh256(*hs)


def repo_sources():
    d = REPO + "/src"
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cc")]


def build(group):
    g = GROUPS[group]
    variant = g.get("variant", "plain")
    hh = header_hash()
    srcs = []
    rs = g.get("repo", "all")
    if rs == "all":
        srcs += repo_sources() + [V + "/shim/fdbshim.cc"]
    else:
        srcs += [REPO + "/src/" + s for s in rs]
    srcs += [V + "/src/" + s for s in g["src"]]
    cc = g.get("cxx", "g++")
    jobs, objs = [], []
    os.makedirs(BUILD + "/obj", exist_ok=True)
    for s in srcs:
        fl = BASE + VARIANT[variant] + g.get("flags", [])
        if os.path.basename(s) in g.get("perturb", []):   # see src/sched.cc
            fl = BASE + ["-O1", "-fno-omit-frame-pointer", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
        if os.path.basename(s) == "sched.cc":
            fl = BASE + ["-O2"]
        if not s.startswith(REPO + "/"):
            fl = fl + ["-fno-access-control"]
        k = sh256(hh, s, read(s), cc, " ".join(fl))
        o = BUILD + "/obj/" + os.path.basename(s) + "." + k + ".o"
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((s, o, [cc] + fl + ["-c", s, "-o"]))
    # largest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))

    def comp(j):
        s, o, cmd = j
        tmp = o + ".tmp%d" % os.getpid()
        r = subprocess.run(cmd + [tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return s + "\n" + r.stdout.decode(errors="replace")[:4000]
        os.rename(tmp, o)
        return None

    if jobs:
        with ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(comp, jobs) if e]
        if errs:
            print("build failed:\n" + "\n".join(errs))
            sys.exit(2)
    wrap = WRAP + "".join(",--wrap=" + w for w in g.get("wrap", "").split())
    exe = BUILD + "/" + group + "." + sh256(*objs, wrap, " ".join(g.get("link", []))) + ".exe"
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        cmd = [cc, "-pthread", "-fuse-ld=lld", wrap] + LINK[variant] + objs + g.get("link", []) + ["-ldl", "-lz", "-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            cmd.remove("-fuse-ld=lld")
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            print("link failed:\n" + r.stdout.decode(errors="replace")[:6000])
            sys.exit(2)
        os.rename(tmp, exe)
    return exe


def prune():
    """Keep the object cache small (it is only a cache)."""
    d = BUILD + "/obj"
    ent = []
    for dd in (d, BUILD):
        if os.path.isdir(dd):
            for f in os.listdir(dd):
                p = os.path.join(dd, f)
                if os.path.isfile(p):
                    st = os.stat(p)
                    ent.append((st.st_mtime, st.st_size, p))
    ent.sort(reverse=True)
    tot = 0
    for _, sz, p in ent:
        tot += sz
        if tot > 6 << 30:
            try:
                os.unlink(p)
            except OSError:
                pass


def env_for(g):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_thread_leaks=0:suppressions=" + V + "/src/tsan.supp"
    e.setdefault("VERIF_SEED", "1")
    e.setdefault("VERIF_TIER", "quick")
    return e


def check(pid, extra):
    c = CHECKS[pid]
    t0 = time.time()
    exe = build(c["group"])
    tb = time.time() - t0
    os.makedirs(V + "/evidence", exist_ok=True)
    e = env_for(c)
    e["VH_LEVEL"] = c.get("level", "exploration")
    cmd = [exe, "--prop", pid, "--evidence", V + "/evidence/" + pid + ".json", "--replays", V + "/replays",
           "--corpus", V + "/corpus", "--known", V + "/known_findings.txt"] + extra
    print("built in %.1f s" % tb, flush=True)
    r = subprocess.run(cmd, env=e, cwd=V)
    prune()
    sys.exit(r.returncode)


def main():
    a = sys.argv[1:]
    if a[0] == "check":
        check(a[1], a[2:])
    elif a[0] == "build":
        for g in (a[1:] or sorted(GROUPS)):
            t = time.time()
            print(g, build(g), "%.1f s" % (time.time() - t), flush=True)
    elif a[0] == "replay":
        exe = build(os.environ.get("VH_GROUP") or CHECKS[a[1]]["group"])
        r = subprocess.run([exe, "--prop", a[1], "--replay", a[2]], env=env_for(None), cwd=V)
        sys.exit(r.returncode)
    elif a[0] == "gen":
        exe = build(os.environ.get("VH_GROUP") or CHECKS[a[1]]["group"])
        sys.exit(subprocess.run([exe, "--prop", a[1], "--gen", a[2]] + a[3:], env=env_for(None), cwd=V).returncode)


if __name__ == "__main__":
    main()
