"""Builds harnesses from /repo's working tree.  Flavors:
  mc   clang TSan instrumentation, linked with mc/mcrt.cc: every access goes through the explorer
  seq  plain -O1 with ASan/UBSan-trap: exhaustive sequential enumeration
"""
import os, subprocess, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MT_REPO", "/repo")
SAN = ("-fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -mllvm -tsan-instrument-read-before-write=1 "
       "-mllvm -tsan-handle-cxx-exceptions=0 -fno-builtin-memcmp -fno-builtin-bcmp").split()
BASE = "clang++ -std=gnu++17 -g -fno-pie -w -DMT_VERIF_HOOKS=1".split()
WRAP_MC = "malloc free calloc realloc posix_memalign abort __assert_fail gettimeofday clock_gettime madvise memcmp".split()
WRAP_SEQ = "malloc free calloc realloc posix_memalign".split()
SIM_WRAP = ("open creat close read write fsync fdatasync ftruncate lseek rename unlink mkdir stat fstat mmap munmap gettimeofday clock_gettime "
            "nanosleep usleep sleep setitimer signal sigaction pthread_create pthread_self pthread_join pthread_cancel pthread_mutex_init pthread_mutex_lock "
            "pthread_mutex_unlock pthread_cond_init pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast socket "
            "setsockopt bind listen accept recvfrom sendto pipe epoll_create epoll_ctl epoll_wait select exit abort __assert_fail").split()
SIMSRC = ["mtd", "log", "checkpoint", "file", "misc", "query_masstree", "value_string", "value_array", "value_versioned_array", "string_slice",
          "kvio", "json", "string", "straccum", "str", "msgpack", "kvrandom", "compiler", "memdebug", "kvthread"]
MCSRC = ["compiler", "kvthread", "string_slice", "straccum", "str", "string"]

class BuildError(Exception):
    pass

def config_header(out):
    c = os.path.join(REPO, "config.h")
    return c if os.path.exists(c) else os.path.join(VERIF, "lib", "config_fallback.h")

def run(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))

def build_all(specs, out, jobs=8):
    """specs: list of (name, flavor, harness, defs, repo sources or None).  Returns {name: binary}"""
    os.makedirs(out, exist_ok=True)
    inc = ["-include", config_header(out), "-I" + REPO, "-I" + VERIF + "/mc", "-I" + VERIF + "/harness"]
    tasks, links, bins = {}, [], {}
    def obj(key, cmd):
        o = os.path.join(out, hashlib.sha1(key.encode()).hexdigest()[:16] + ".o")
        tasks[o] = cmd + ["-o", o]
        return o
    for name, flavor, harness, defs, srcs in specs:
        b = os.path.join(out, name)
        bins[name] = b
        objs = []
        if flavor == "mc":
            fl = BASE + ["-O2"] + SAN + inc
            for s in MCSRC + list(srcs or []):
                objs.append(obj("mc:" + s, fl + ["-c", "%s/%s.cc" % (REPO, s)]))
            objs.append(obj("mcrt", BASE + ["-O2", "-I" + VERIF + "/mc", "-c", VERIF + "/mc/mcrt.cc"]))
            objs.append(obj("mc:%s:%s" % (harness, defs), fl + list(defs) + ["-c", "%s/harness/%s.cc" % (VERIF, harness)]))
            links.append(["clang++", "-no-pie", "-g", "-o", b] + objs + ["-Wl,--wrap=" + w for w in WRAP_MC] + ["-lpthread", "-lm"])
        elif flavor == "seq":
            fl = BASE + ["-O1"] + inc
            if "-DSEQ_ASAN" in defs:
                fl = fl + ["-fsanitize=address", "-fno-omit-frame-pointer"]
            plain = "-UMT_VERIF_HOOKS" in defs          # the repository's code exactly as its own build sees it
            if plain:
                fl = fl + ["-UMT_VERIF_HOOKS"]
            objs.append(obj("seq:mtv", BASE + ["-O1", "-c", VERIF + "/mc/nohooks.cc"]))
            for s in MCSRC + list(srcs or []):
                objs.append(obj("seq:%s:%s:%s" % (s, "-DSEQ_ASAN" in defs, plain), fl + ["-c", "%s/%s.cc" % (REPO, s)]))
            objs.append(obj("seq:%s:%s" % (harness, defs), fl + list(defs) + ["-c", "%s/harness/%s.cc" % (VERIF, harness)]))
            ld = ["-fsanitize=address"] if "-DSEQ_ASAN" in defs else []
            wr = [] if "-DSEQ_NO_WRAP" in defs else ["-Wl,--wrap=" + w for w in WRAP_SEQ]
            links.append(["clang++", "-no-pie", "-g", "-o", b] + ld + objs + wr + ["-lpthread", "-lm"])
        elif flavor == "sim":
            san = ["-fsanitize=address", "-fno-omit-frame-pointer", "-mllvm", "-asan-stack=0"] if "-DSIM_ASAN" in defs else []
            rdefs = [d for d in defs if d.startswith("-DMASSTREE_") or d == "-DSIM_ASAN"]
            fl = BASE + ["-O1"] + inc + san + rdefs
            for s in list(srcs or []):          # helpers that include the repository's headers or sources
                if s.startswith("harness/"):
                    objs.append(obj("sim:%s:%s" % (s, defs), fl + list(defs) + ["-c", "%s/%s.cc" % (VERIF, s)]))
            for s in SIMSRC + [s for s in srcs or [] if not s.startswith("harness/")]:
                objs.append(obj("sim:%s:%s" % (s, rdefs), fl + (["-Dmain=mtd_main"] if s == "mtd" else []) + ["-c", "%s/%s.cc" % (REPO, s)]))
            objs.append(obj("sim:clp:%s" % rdefs, fl + ["-x", "c++", "-c", "%s/clp.c" % REPO]))
            objs.append(obj("sim:%s:%s" % (harness, defs), BASE + ["-O1", "-I" + VERIF + "/mc"] + san + list(defs) + ["-c", "%s/harness/%s.cc" % (VERIF, harness)]))
            links.append(["clang++", "-no-pie", "-g", "-o", b] + san[:1] + objs + ["-Wl,--wrap=" + w for w in SIM_WRAP] + ["-lpthread", "-lm"])
        else:
            raise BuildError("flavor " + flavor)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda c: run(c, None), tasks.values()))
        list(ex.map(lambda c: run(c, None), links))
    return bins
