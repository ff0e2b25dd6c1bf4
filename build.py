#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree into /verif/build (git-ignored).

asan   library with AddressSanitizer + simulator                        -> build/asan/hbsim
tsim   library instrumented at every memory access (gcc -fsanitize=thread code generation, linked against
       the simulator's own __tsan_* runtime, which is the scheduler's yield seam) + simulator -> build/tsim/hbsim
cov    library with gcov counters + simulator, to see what the worlds do not reach (tools/coverage.sh)
"""
import hashlib, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HBSIM_REPO", "/repo")
BUILD = os.environ.get("HBSIM_BUILD", os.path.join(VERIF, "build"))

# inputs of the tracked generated files at the pinned commit (same rule as /opt/vp/build.sh): while the input is
# unchanged the tracked output is what is compiled, otherwise it is regenerated
PIN = {
    "lex": (["src/handlebars.l"], "5a2e35f1601532fa7a159dd5dc669a863b3cd93a4fd0d0af393a011ec14657db"),
    "tab": (["src/handlebars.y", "src/handlebars.l"], "c0e7711fd5a7d89719271c0443359ec2b85774b5803350fedff65a1f5a4ba2f0"),
    "re": (["src/handlebars_scanners.re"], "b669a4812a4445db1f2cb6d8d7f7b7d68261a5b442daab5559f06f81ef8fe52f"),
    "gperf": (["src/handlebars_helpers_ht.gperf"], "45692165461c026fe4d3746d578f0a65ceb3895082b899b0debb6768824c054f"),
}
WRAP = ["json_tokener_new", "time", "usleep", "nanosleep", "clock_nanosleep", "fopen", "fopen64", "fclose", "open", "open64", "pthread_spin_lock", "pthread_spin_trylock", "pthread_spin_unlock",
        "pthread_spin_init", "pthread_spin_destroy", "mprotect", "mmap", "mmap64", "munmap", "abort", "exit", "sched_yield",
        "mdb_txn_begin", "mdb_txn_abort", "mdb_txn_commit", "mdb_put", "mdb_get", "mdb_del", "mdb_dbi_open", "mdb_drop", "mdb_cursor_open", "mdb_cursor_get", "mdb_cursor_del", "mdb_stat", "mdb_env_open",
        "pwrite", "pwrite64", "pwritev", "write", "fdatasync", "fsync", "msync", "ftruncate", "ftruncate64"]

CLI_ALLOC = ["_talloc_array", "_talloc_realloc_array", "_talloc_zero", "talloc_named_const", "talloc_pool", "talloc_strdup", "talloc_strdup_append_buffer", "talloc_strndup", "talloc_strndup_append_buffer"]
WRAP_TSIM = ["memcpy", "memmove", "memset", "memcmp", "vsnprintf", "snprintf", "strncpy", "strcpy", "strcat", "pthread_once", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock"]


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        sys.stdout.write("BUILD FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout[-6000:]))
        raise SystemExit(2)
    return r.stdout


def hash_of(files):
    h = hashlib.sha256()
    for f in files:
        h.update(("== %s\n" % f).encode())
        p = os.path.join(REPO, f)
        h.update(open(p, "rb").read() if os.path.exists(p) else b"missing\n")
    return h.hexdigest()


def pins():
    return {k: hash_of(v[0]) for k, v in PIN.items()}


def mirror(dst):
    """Copies /repo/src to dst (generated files regenerated there when their input differs from the pinned one)."""
    src = os.path.join(REPO, "src")
    os.makedirs(dst, exist_ok=True)
    dirty = [k for k in PIN if hash_of(PIN[k][0]) != PIN[k][1]]
    want = {}
    for f in sorted(os.listdir(src)):
        if f.endswith((".c", ".h", ".l", ".y", ".re", ".gperf")) and f != "handlebars_config.h":
            want[f] = open(os.path.join(src, f), "rb").read()
    for f in os.listdir(dst):
        if f not in want:
            os.unlink(os.path.join(dst, f))
    for f, data in want.items():
        p = os.path.join(dst, f)
        if not os.path.exists(p) or open(p, "rb").read() != data:
            open(p, "wb").write(data)
    if "lex" in dirty:
        sh(["flex", "--noreject", "--fast", "--align", "-o", "handlebars.lex.c", "handlebars.l"], cwd=dst)
    if "tab" in dirty:
        sh(["bison", "-b", "handlebars", "handlebars.y"], cwd=dst)
    if "re" in dirty:
        sh(["re2c", "--no-generation-date", "-s8", "-o", "handlebars_scanners.c", "handlebars_scanners.re"], cwd=dst)
    if "gperf" in dirty:
        sh(["gperf", "--struct-type", "--readonly-tables", "--compare-strncmp", "--compare-lengths", "--global-table",
            "--output-file=handlebars_helpers_ht.h", "handlebars_helpers_ht.gperf"], cwd=dst)


def third_party(bdir):
    """The libraries the code uses, with their memory allocation routed to the simulator."""
    out = []
    for name in ("lmdb", "yaml", "json-c"):
        dst = os.path.join(bdir, "lib%s_sim2.a" % name)
        if not os.path.exists(dst):
            tmp = dst + ".tmp%d" % os.getpid()
            sh(["objcopy"] + ["--redefine-sym=%s=%s_%s" % (f, "jlib" if name == "json-c" and f != "free" else "lib", f) for f in ("malloc", "calloc", "realloc", "strdup", "free", "posix_memalign")] +
               ["/usr/lib/x86_64-linux-gnu/lib%s.a" % name, tmp])
            os.replace(tmp, dst)
        out.append(dst)
    return out


def build(variant="asan", worlds=None, quiet=True):
    bdir = os.path.join(BUILD, variant)
    src = os.path.join(bdir, "src")
    os.makedirs(os.path.join(bdir, "o"), exist_ok=True)
    mirror(src)
    inc = ["-I" + os.path.join(VERIF, "sim"), "-I" + src, "-I" + os.path.join(VERIF, "sim/config"),
           "-I" + os.path.join(REPO, "vendor/xxhash"), "-I" + os.path.join(REPO, "vendor/sort_r"), "-I/usr/include/json-c"]
    base = ["-g1", "-O1", "-fno-omit-frame-pointer", "-fno-strict-aliasing", "-pthread", "-w", "-DHAVE_CONFIG_H", "-DHBS_SIM"]
    libflags = {"asan": ["-fsanitize=address"], "tsim": ["-fsanitize=thread", "-fno-builtin", "-D_FORTIFY_SOURCE=0"], "cov": ["--coverage"]}[variant]
    simflags = {"asan": ["-fsanitize=address"], "tsim": [], "cov": ["-DSIM_COV"]}[variant]
    link = {"asan": ["-fsanitize=address"], "tsim": [], "cov": ["--coverage"]}[variant]

    jobs = []  # (source, object, cmd)
    hdr = hashlib.sha256()
    for d in (src, os.path.join(VERIF, "sim"), os.path.join(VERIF, "sim/config")):
        for f in sorted(os.listdir(d)):
            if f.endswith(".h"):
                hdr.update(f.encode() + open(os.path.join(d, f), "rb").read())

    def add(path, name, cc, flags):
        cmd = [cc] + base + flags + inc + ["-c", path]
        h = hashlib.sha256(b"4" + hdr.digest() + open(path, "rb").read() + " ".join(cmd).encode()).hexdigest()[:24]
        obj = os.path.join(bdir, "o", "%s.%s.o" % (name, h))
        jobs.append((obj, cmd + ["-o", obj]))
        return obj

    objs = []
    cfiles = sorted(f for f in os.listdir(src) if f.endswith(".c"))
    for f in sorted(cfiles, key=lambda f: -os.path.getsize(os.path.join(src, f))):
        objs.append(add(os.path.join(src, f), f, "gcc", libflags))
    objs.append(add(os.path.join(REPO, "bin/handlebarsc.c"), "cli.c", "gcc", libflags + ["-Dmain=handlebarsc_main"] + (["-D%s=cli_%s" % (f, f) for f in CLI_ALLOC] if variant != "tsim" else [])))
    simdir = os.path.join(VERIF, "sim")
    cpps = sorted(f for f in os.listdir(simdir) if f.endswith(".cpp"))
    for f in cpps:
        if f.startswith("w_") and worlds is not None and f[2:-4] not in worlds:
            continue
        if f.startswith("tsim") and variant != "tsim":
            continue
        objs.append(add(os.path.join(simdir, f), f, "g++", simflags + ["-std=gnu++17", "-fpermissive", "-DSIM_VARIANT_" + variant.upper()]))

    jobs.sort(key=lambda j: 0 if "w_" in j[0] or ".cpp" in j[0] else 1)
    todo = [j for j in jobs if not os.path.exists(j[0])]

    def run(j):
        tmp = j[0] + ".tmp%d" % os.getpid() if variant != "cov" else j[0]
        sh(j[1][:-1] + [tmp])
        if variant == "tsim" and "-fsanitize=thread" in j[1]:      # the library's variables in sections of their own
            sh(["objcopy"] + [x for n in (".data", ".data.rel", ".data.rel.local") for x in ("--rename-section", n + "=hbdata")] + ["--rename-section", ".bss=hbbss", tmp])
        if variant != "tsim" and "-Dmain=handlebarsc_main" in j[1]:
            sh(["objcopy"] + [x for n in (".data", ".data.rel", ".data.rel.local") for x in ("--rename-section", n + "=hbclidata")] + ["--rename-section", ".bss=hbclibss", tmp])
        if tmp != j[0]:
            os.replace(tmp, j[0])
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        list(ex.map(run, todo))
    key = hashlib.sha256(("3p2" + "".join(sorted(objs))).encode()).hexdigest()[:16]
    exe = os.path.join(bdir, "hbsim." + key)
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        sh(["g++"] + link + ["-pthread", "-o", tmp] + objs + ["-Wl,--wrap=" + w for w in WRAP + (WRAP_TSIM if variant == "tsim" else [])] +
           third_party(bdir) + ["-ltalloc", "-lm"])
        os.replace(tmp, exe)
    # drop stale objects so that the directory does not grow
    keep = set(objs)
    for f in os.listdir(os.path.join(bdir, "o")):
        p = os.path.join(bdir, "o", f)
        if p not in keep and not f.count(".tmp") and os.path.getmtime(p) < os.path.getmtime(exe) - 3600:
            os.unlink(p)
    return exe


if __name__ == "__main__":
    if len(sys.argv) > 1 and sys.argv[1] == "--pins":
        for k, v in pins().items():
            print(k, v)
    else:
        for v in (sys.argv[1:] or ["asan"]):
            print(build(v))
