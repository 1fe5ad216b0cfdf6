#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree. Prints the path of the binary.

The subjects (the library, in every flavour and memory configuration) are compiled with every memory access and every
control-flow edge instrumented, and their references to the C library (malloc, free, string and number functions, locks)
are renamed so that they reach the simulated environment (rt.cc). The library's sources are not changed.
"""
import hashlib, os, subprocess, sys, fcntl, shutil, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
REPO = os.environ.get("SIM_REPO", "/repo")
CACHE = os.environ.get("SIM_CACHE", os.path.join(HERE, "build"))

def tool(*names):
    for n in names:
        if os.path.isabs(n):
            if os.access(n, os.X_OK): return n
        elif shutil.which(n): return shutil.which(n)
    sys.exit("missing tool: " + "/".join(names))

CC = tool("/usr/bin/clang-18", "/usr/bin/clang", "clang-18", "clang")
CXX = tool("/usr/bin/clang++-18", "/usr/bin/clang++", "clang++-18", "clang++")
OBJCOPY = tool("/usr/bin/objcopy", "objcopy", "llvm-objcopy-18")

INSTR = ["-O1", "-g1", "-w", "-fno-pic", "-fno-omit-frame-pointer", "-fsanitize=thread", "-fsanitize-coverage=trace-pc-guard",
         "-mllvm", "-tsan-instrument-func-entry-exit=0", "-fstack-protector-all", "-fno-builtin", "-U_FORTIFY_SOURCE", "-fno-inline-functions"]
KNOBS = {
    "def": [],
    "tiny": ["-Dzj_ALLOCATOR_INIT_MEMSIZE=1", "-Dzj_STRING_INIT_MEMSIZE=1", "-Dzj_STRING_CACHE_INIT_MEMSIZE=1", "-Dzj_DELTA=2"],
    "d3": ["-Dzj_ALLOCATOR_INIT_MEMSIZE=64", "-Dzj_STRING_INIT_MEMSIZE=16", "-Dzj_STRING_CACHE_INIT_MEMSIZE=16", "-Dzj_DELTA=3"],
    "mid": ["-Dzj_ALLOCATOR_INIT_MEMSIZE=256", "-Dzj_STRING_INIT_MEMSIZE=32", "-Dzj_STRING_CACHE_INIT_MEMSIZE=32"],
    "u64": ["-Dzj_SIZE_TYPE=uint64_t"],
    "u16": ["-Dzj_SIZE_TYPE=uint16_t"],
    "u16t": ["-Dzj_SIZE_TYPE=uint16_t", "-Dzj_ALLOCATOR_INIT_MEMSIZE=1", "-Dzj_STRING_INIT_MEMSIZE=1", "-Dzj_STRING_CACHE_INIT_MEMSIZE=1"],
    "mode3": ["-DSUBJ_MODE3"],
    "o0": ["-O0"],  # also what a debug build does: nothing kept in registers, no static removed
    "zero": ["-Dzj_ALLOCATOR_INIT_MEMSIZE=0", "-Dzj_STRING_INIT_MEMSIZE=0", "-Dzj_STRING_CACHE_INIT_MEMSIZE=0"],
    "exp2": ["-Dzj_EXPECT_MODE=2", "-Dzj_MEMORY_MODE=2", "-Dzj_ALLOCATOR_INIT_MEMSIZE=100", "-Dzj_STRING_INIT_MEMSIZE=7", "-Dzj_DELTA=5"],
}
SUBJECTS = [("c", k) for k in KNOBS] + [("cpp", "o0")] + [("short", "def"), ("short", "tiny"), ("cpp", "def"), ("cpp", "tiny"), ("hpp", "def"), ("hpp", "tiny"), ("short", "u64"), ("cpp", "exp2"), ("hpp", "d3"), ("cpp", "zero"), ("cpp", "mode3")]

RENAME = {n: "sim_" + n for n in ("malloc free calloc realloc strlen strnlen memcmp strcmp strncmp memchr strchr strrchr strcpy stpcpy strcat strncpy "
                                  "strdup memcpy memset strtod strtof strtold strtol strtoll strtoul strtoull atoi atol atoll atof vsnprintf snprintf "
                                  "vsprintf sprintf sscanf sched_yield isalpha isalnum isspace isblank iscntrl isprint isgraph ispunct isupper islower isdigit isxdigit tolower toupper "
                                  "__ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc strcasecmp strncasecmp localeconv setlocale nl_langinfo strtok rand srand strerror "
                                  "strspn strcspn strpbrk strstr memrchr strchrnul rawmemchr memccpy mempcpy strndup strncat strcoll strxfrm mblen mbtowc mbrtowc mbrlen btowc "
                                  "__ctype_get_mb_cur_max aligned_alloc posix_memalign reallocarray strtok_r newlocale uselocale freelocale duplocale strtod_l").split()}
RENAME.update({"memmove": "sim_memcpy", "bcmp": "sim_memcmp", "__isoc99_sscanf": "sim_sscanf", "__isoc23_sscanf": "sim_sscanf",
               "__isoc23_strtol": "sim_strtol", "__isoc23_strtoll": "sim_strtoll", "__isoc23_strtoul": "sim_strtoul", "__isoc23_strtoull": "sim_strtoull",
               "strtoimax": "sim_strtol", "strtoumax": "sim_strtoul",
               "_Znwm": "sim_opnew", "_Znam": "sim_opnew", "_ZdlPv": "sim_opdel", "_ZdaPv": "sim_opdel", "_ZdlPvm": "sim_opdel_sized", "_ZdaPvm": "sim_opdel_sized",
               "_ZnwmRKSt9nothrow_t": "sim_opnew_nothrow", "_ZnamRKSt9nothrow_t": "sim_opnew_nothrow", "_ZdlPvRKSt9nothrow_t": "sim_opdel", "_ZdaPvRKSt9nothrow_t": "sim_opdel",
               "pthread_mutex_lock": "sim_mutex_lock", "pthread_mutex_trylock": "sim_mutex_trylock", "pthread_mutex_unlock": "sim_mutex_unlock",
               "pthread_mutex_init": "sim_mutex_init", "pthread_mutex_destroy": "sim_mutex_destroy", "pthread_once": "sim_once",
               "pthread_spin_lock": "sim_mutex_lock", "pthread_spin_trylock": "sim_mutex_trylock", "pthread_spin_unlock": "sim_mutex_unlock",
               "pthread_spin_init": "sim_mutex_init", "pthread_spin_destroy": "sim_mutex_destroy",
               "pthread_rwlock_rdlock": "sim_mutex_lock", "pthread_rwlock_wrlock": "sim_mutex_lock", "pthread_rwlock_unlock": "sim_mutex_unlock",
               "mtx_lock": "sim_mutex_lock", "mtx_unlock": "sim_mutex_unlock", "mtx_trylock": "sim_mutex_trylock", "call_once": "sim_once",
               "__cxa_guard_acquire": "sim_guard_acquire", "__cxa_guard_release": "sim_guard_release", "__cxa_guard_abort": "sim_guard_abort"})
HARNESS = ["json.cc", "plan.cc", "world.cc", "rt.cc", "exec.cc", "gen.cc", "judge.cc", "main.cc"]

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def digest(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def build(verbose=False):
    os.makedirs(CACHE, exist_ok=True)
    lib = {}
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if not x.startswith((".", "_")) and x not in ("test", "tests", "beta", "doc", "docs", "conformance", "sample", "resource"))
        if os.path.relpath(d, REPO).count(os.sep) > 2: ds[:] = []
        for f in sorted(fs):
            if f.endswith((".h", ".hpp", ".inc", ".inl", ".ipp")): lib[os.path.relpath(os.path.join(d, f), REPO)] = open(os.path.join(d, f), "rb").read()
    sim = {f: open(os.path.join(SIM, f), "rb").read() for f in sorted(os.listdir(SIM))}
    me = open(os.path.abspath(__file__), "rb").read()
    hkey = digest(me, *[k.encode() + v for k, v in sim.items()])
    key = digest(hkey, *[k.encode() + v for k, v in lib.items()])
    final = os.path.join(CACHE, "sim-" + key)
    with open(os.path.join(CACHE, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(final): return final
        hdir = os.path.join(CACHE, "h-" + hkey)
        for f in os.listdir(CACHE):  # keep only what this tree needs
            p = os.path.join(CACHE, f)
            if f == ".lock" or p == hdir: continue
            shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        os.makedirs(hdir, exist_ok=True)
        tmp = os.path.join(CACHE, "t-%d" % os.getpid())
        os.makedirs(tmp)
        try:
            syms = os.path.join(tmp, "syms")
            with open(syms, "w") as f:
                for a in RENAME: f.write("%s simx_%s\n" % (a, a))
            # a snapshot of the sources, so that one build sees one tree
            for f, v in lib.items():
                os.makedirs(os.path.dirname(os.path.join(tmp, f)), exist_ok=True)
                open(os.path.join(tmp, f), "wb").write(v)
            jobs = []
            for fl, kn in SUBJECTS:
                sym = "subj_%s_%s" % (fl, kn)
                o = os.path.join(tmp, sym + ".o")
                d = ['-DSUBJ_SYM=' + sym, '-DSUBJ_FLAVOUR="%s"' % fl, '-DSUBJ_KNOB="%s"' % kn, '-DREPO_H="%s/zzzjson.h"' % tmp, '-DREPO_HPP="%s/zzzjson.hpp"' % tmp, "-I", SIM] + KNOBS[kn]
                if fl in ("c", "short"):
                    cmd = [CC, "-std=gnu11"] + INSTR + d + (["-DSUBJ_LONG"] if fl == "c" else []) + ["-c", os.path.join(SIM, "subject_c.c"), "-o", o]
                else:
                    ns = "%s_%s" % (fl, kn)
                    cmd = [CXX, "-std=c++17", "-fno-exceptions", "-fno-rtti"] + INSTR + d + ["-Dzj=zj_" + ns, "-Dzzzjson=zzzjson_" + ns] + (["-DSUBJ_HPP"] if fl == "hpp" else []) + ["-c", os.path.join(SIM, "subject_cpp.cpp"), "-o", o]
                jobs.append((fl, kn, sym, o, cmd))
            def subj(j):
                rc, out = sh(j[4])
                if rc == 0: rc, out = sh([OBJCOPY, "--redefine-syms=" + syms, j[3]])
                return j, rc, out
            def harn(f):
                o = os.path.join(hdir, f + ".o")
                if os.path.exists(o): return f, 0, ""
                rc, out = sh([CXX, "-std=c++17", "-O2", "-g1", "-w", "-fno-pic", "-c", os.path.join(SIM, f), "-o", o + ".tmp"])
                if rc == 0: os.rename(o + ".tmp", o)
                return f, rc, out
            with cf.ThreadPoolExecutor(8) as ex:
                hs = [ex.submit(harn, f) for f in HARNESS]
                ss = [ex.submit(subj, j) for j in jobs]
                for h in hs:
                    f, rc, out = h.result()
                    if rc: sys.exit("harness %s does not compile:\n%s" % (f, out))
                good = []
                for s in ss:
                    j, rc, out = s.result()
                    if rc:
                        msg = "subject %s-%s does not compile:\n%s" % (j[0], j[1], out[:3000])
                        if (j[0], j[1]) in (("c", "def"), ("c", "tiny")): sys.exit(msg)
                        sys.stderr.write(msg)
                    else: good.append(j)
            tab = os.path.join(tmp, "table.c")
            with open(tab, "w") as f:
                f.write('#include "api.h"\n')
                for j in good: f.write("extern ZApi %s;\n" % j[2])
                f.write("const ZApi *const all_subjects[] = {%s, 0};\n" % ", ".join("&" + j[2] for j in good))
            rc, out = sh([CC, "-O1", "-fno-pic", "-I", SIM, "-c", tab, "-o", tab + ".o"])
            if rc: sys.exit(out)
            def link(gs): return sh([CXX, "-no-pie", "-pthread", "-o", final + ".tmp"] + [os.path.join(hdir, f + ".o") for f in HARNESS] + [tab + ".o"] + [j[3] for j in gs] + ["-Wl,--defsym=simx_%s=%s" % ab for ab in RENAME.items()])
            rc, out = link(good)
            if rc: sys.exit("link failed:\n" + out[:4000])
            os.rename(final + ".tmp", final)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return final

if __name__ == "__main__":
    print(build())
