"""What each check builds and runs.  bounds = (quick, thorough)."""
ASAN = ["-g", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fno-common"]
TSAN = ["-g", "-O1", "-fsanitize=thread", "--param=tsan-distinguish-volatile=1", "-fno-common", "-fno-pie"]
FLAVOURS = {
    "asan": {"lib": ASAN + ["-ftrivial-auto-var-init=pattern"], "harness": ASAN, "mc_flags": ["-g", "-O2", "-fsanitize=address"],
             "link": ["-fsanitize=address", "-g"]},
    # cheap to fork
    "plain": {"lib": ["-g", "-O1", "-fno-common", "-ftrivial-auto-var-init=pattern"], "harness": ["-g", "-O1"], "mc_flags": ["-g", "-O2"], "link": ["-g"]},
    # shared-memory accesses call the hooks of mc/mcsched.c (no TSan runtime is linked)
    "sched": {"lib": TSAN + ["-ftrivial-auto-var-init=pattern"], "harness": TSAN, "mc_flags": ["-g", "-O2", "-fno-pie"], "link": ["-g", "-no-pie"],
              "mc": ["mcsched.c"], "snapshot": True},
}
from bounds import B
CHECKS = {}


NOT_APPLICABLE = {}
HIST = ("model checking of the implementation: exhaustive bounded enumeration of operation "
        "histories of the real code against a reference model in lock-step")
INPUT = ("model checking of the implementation: exhaustive enumeration of a bounded input space "
         "on the real code against an independent oracle")
SCHED = ("model checking of the implementation: exhaustive enumeration of thread interleavings "
         "up to a preemption bound under a controlled scheduler")
FAULT = ("model checking of the implementation: exhaustive enumeration of system-call outcomes "
         "up to a fault bound on the real code")


def check(prop, runs, assumptions=(), technique=HIST):
    CHECKS[prop] = {"runs": runs, "bounds": B[prop], "assumptions": list(assumptions),
                    "technique": technique}


def run(harness, flavour="asan", arg="", **kw):
    return dict(harness=[harness] if isinstance(harness, str) else harness,
                flavour=flavour, arg=arg, **kw)


T = dict(mc=["track.c"])
check("C01", [run("hash_table.c", arg="map", **T)])
check("C02", [run("hash_table.c", arg="own", **T)])
check("C03", [run("gc.c", **T)])
check("C04", [run("array.c", **T)])
check("C05", [run("buffer.c", **T)])
check("C06", [run("pretty.c", **T)])
check("C11", [run("slice.c", arg="range", **T)])
check("C12", [run("slice.c", arg="life", **T)])
check("C14", [run("life.c", rename=["malloc", "calloc", "realloc", "free", "strdup", "strndup", "vasprintf"])])
check("C15", [run("alloc.c", rename=["malloc", "calloc", "realloc", "free"])], technique=FAULT)
check("C07", [run("dllist.c")])
check("C08", [run("ring.c", **T)])
check("C09", [run("bitset.c", **T)])
check("C10", [run("mempool.c", **T)])
check("C16", [run("ip.c", arg="parse")], technique=INPUT)
check("C17", [run("ip.c", arg="format")], technique=INPUT)
check("C18", [run("ip.c", arg="cidr")], technique=INPUT)
PORTABLE = ["-DCORK_CONFIG_HAVE_GCC_INT128=0", "-DCORK_CONFIG_HAVE_GCC_MODE_ATTRIBUTE=0", "-DWANT_PORTABLE"]
check("C19", [run("u128.c", arg="native"), run("u128.c", arg="portable", defs=PORTABLE)], technique=INPUT)
check("C22", [run("order.c"), run("order.c", arg="portable", defs=PORTABLE)], technique=INPUT)
check("C20", [run("stamp.c")], technique=INPUT)
check("C21", [run("hash.c", extra=[("src/cork-hash/*.c", ["-Dmain=cork_hash_main"])])], technique=INPUT)
SLIB = ["malloc", "calloc", "realloc", "free", "strdup", "pthread_create", "pthread_join",
        "pthread_setname_np", "sched_yield", "usleep", "nanosleep", "pthread_mutex_lock",
        "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_once",
        "pthread_key_create", "pthread_getspecific", "pthread_setspecific", "atexit"]
check("C26", [run("atomic.c", flavour="sched", rename=SLIB)], technique=SCHED)
check("C13", [run("mbuf_mt.c", flavour="sched", rename=SLIB)], technique=SCHED)
NOTLS = ["-DCORK_CONFIG_HAVE_THREAD_STORAGE_CLASS=0"]
check("C24", [run("once.c", flavour="sched", rename=SLIB),
              run("once.c", flavour="sched", arg="pthread-key", defs=NOTLS, rename=SLIB)], technique=SCHED)
check("C25", [run("thread.c", flavour="sched", rename=SLIB),
              run("thread.c", flavour="sched", arg="pthread-key", defs=NOTLS, rename=SLIB)], technique=SCHED)
check("C23", [run("error.c", arg="hist"), run("error.c", flavour="plain", arg="deep"),
              run("error.c", flavour="sched", arg="mt", defs=["-DWANT_MT"], rename=SLIB),
              run("error.c", flavour="sched", arg="key", defs=NOTLS + ["-DWANT_MT"], rename=SLIB)], technique=SCHED)
check("C38", [run("tls.c", flavour="sched", rename=SLIB),
              run("tls.c", flavour="sched", arg="pthread-key", defs=NOTLS, rename=SLIB)], technique=SCHED)
check("C27", [run("cleanup.c")])
check("C37", [run("custom.c", rename=["malloc", "calloc", "realloc", "free"])])
IO = ["read", "write", "open", "close", "open64", "__open_2", "__open64_2", "__read_chk"]
check("C28", [run("stream.c", rename=IO, **T)], technique=FAULT)
CWD = ["getcwd", "__getcwd_chk", "get_current_dir_name"]
check("C32", [run("path.c", rename=CWD, **T)])
FS = ["track.c", "scratch.c"]
check("C35", [run("plist.c", mc=FS)], technique=INPUT)
check("C36", [run("cli.c")], technique=INPUT)
EXEC = ["execvp", "execvpe", "execv", "execve", "chdir"]
check("C31", [run("env.c", arg="env", rename=EXEC, **T), run("env.c", arg="exec", rename=EXEC, **T)])
FSX = ["track.c", "scratch.c", "fsx.c"]
FSCALLS = ["stat", "lstat", "fstatat", "access", "mkdir", "rmdir", "unlink", "unlinkat", "remove",
           "opendir", "readdir", "dirfd", "rewinddir", "closedir"]
check("C33", [run("files.c", mc=FSX, rename=FSCALLS)], technique=FAULT)
check("C34", [run("dirs.c", mc=FSX, rename=FSCALLS)], technique=FAULT)
PROC = ["fork", "vfork", "pipe", "pipe2", "dup2", "dup3", "fcntl", "fcntl64", "close", "read", "__read_chk", "write",
        "waitpid", "wait4", "wait", "kill", "usleep", "nanosleep", "sched_yield", "poll", "select"]
check("C29", [run("subproc.c", arg="whole", mc=FS, rename=PROC)], technique=SCHED)
check("C30", [run("subproc.c", flavour="plain", arg="orch", mc=FS, rename=PROC)], technique=SCHED)
