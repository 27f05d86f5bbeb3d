#!/usr/bin/env python3
"""Builds the simulator from the library sources of /repo's working tree. Used by check.py; also a CLI."""
import glob, os, re, subprocess, sys, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
REPO = os.environ.get("SIM_REPO", "/repo")
WRAPS = """syscall gettid getpid clock_gettime gettimeofday time nanosleep clock_nanosleep usleep sleep sched_yield
pthread_create pthread_join pthread_detach pthread_self pthread_once pthread_atfork pthread_mutex_init pthread_mutex_destroy
pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_signal
pthread_cond_broadcast pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait
open open64 openat creat close read write pread pwrite lseek stat lstat fstat fstatat access mkdir rmdir unlink unlinkat remove rename
renameat2 link ftruncate fallocate posix_fallocate fchmod chmod fsync msync madvise flock fcntl dup mkstemp mkstemp64 mkostemp mmap mmap64 munmap
mprotect opendir readdir closedir realpath inotify_init inotify_init1 inotify_add_watch inotify_rm_watch epoll_create epoll_create1
epoll_ctl epoll_wait epoll_pwait eventfd poll getenv secure_getenv getrandom malloc calloc realloc free strdup strndup
posix_memalign aligned_alloc abort jrand48 nrand48 erand48 mrand48 lrand48 drand48 srand48 rand srand random srandom""".split()

# Calls the library does not make today: simulated in more.cpp, or ended with an error before they have any effect.
MORE = """fdopendir dirfd rewinddir readlink readlinkat fdatasync pthread_sigmask sigprocmask ppoll readv writev scandir nftw
pthread_mutex_timedlock pthread_mutex_clocklock linkat renameat mkdirat faccessat truncate symlink symlinkat getentropy arc4random arc4random_buf
pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock
pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock
pthread_rwlock_trywrlock pthread_rwlock_unlock
_ZNSt6chrono3_V212steady_clock3nowEv _ZNSt6chrono3_V212system_clock3nowEv
_ZNSt18condition_variableC1Ev _ZNSt18condition_variableD1Ev _ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE
_ZNSt18condition_variable10notify_oneEv _ZNSt18condition_variable10notify_allEv
_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE _ZNSt6thread4joinEv _ZNSt6thread6detachEv
_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE _ZNSt13random_device7_M_finiEv
_ZNSt13random_device9_M_getvalEv""".split()
NEVER = re.compile(r"""^(system|popen|exec[vl].*|fexecve|posix_spawn.*|v?fork|_Fork|clone|clone3|kill|killpg|tgkill|raise|sig(action|nal|procmask|queue)
|pthread_(kill|sigmask|exit|cancel|setcancel.*|.*join_np|mutex_(timed|clock)lock|barrier.*|.*setschedparam|.*affinity_np|key_.*|[gs]etspecific)|sem_.*|timer_.*|timerfd_.*|signalfd
|u?mount2?|chroot|pivot_root|unshare|setns|reboot|swapo.*|ptrace|prctl|set[a-z]*id|chdir|fchdir|umask|settimeofday|clock_settime|adjtime.*|sethostname
|shm_.*|shmget|shmat|mq_.*|socket.*|bind|connect|accept4?|send.*|recv.*|pipe2?|select|pselect|ppoll|aio_.*
|(f|fre)open(64)?|fdopen|fdopendir|tmpfile(64)?|mkdtemp|mkostemps?|mkstemps|mktemp|tempnam|tmpnam(_r)?|[nf]?tw(64)?|nftw|fts_.*|scandir(at)?|glob|readlink(at)?|openat2?|open_by_.*
|l?chown|fchown(at)?|fchmodat|utime.*|futime.*|lutimes|[lf]?setxattr|[lf]?removexattr|mknod(at)?|mkfifo(at)?|copy_file_range|sendfile|splice|mremap|shmdt|remap_file_pages|dup[23]|pwritev?2?|preadv?2?|readv|writev|ioctl|lockf|statx|f?statv?fs|getdents.*|sync|syncfs|fdatasync|sync_file_range
|_ZNSt10filesystem.*|_ZNSt1[0-9]basic_.?fstream.*|_ZNSt13basic_filebuf.*|_ZNSt28__atomic_futex_unsigned_base.*|_ZNSt6thread20hardware_concurrencyEv|_ZNSt25__condition_variable_any.*)$""".replace("\n", ""))

CC, CXX = "clang-18", "clang++-18"


def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("%s failed:\n%s\n%s" % (what, " ".join(cmd), p.stdout[-4000:]))


def build(out, repo=None):
    repo = repo or REPO
    os.makedirs(out, exist_ok=True)
    inst = ["-O1", "-g", "-fsanitize=thread", "-femulated-tls", "-D__has_feature(x)=0", "-w", "-DNDEBUG", "-DA0_EXT_NLOHMANN",
            "-I" + os.path.join(repo, "include"), "-I" + os.path.join(SIM, "stub"), "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
    plain = ["-O2", "-g", "-std=c++17", "-w", "-fno-strict-aliasing", "-I" + os.path.join(repo, "include"), "-I" + SIM]
    jobs, repo_objs, sim_objs = [], [], []
    for f in sorted(glob.glob(os.path.join(repo, "src", "*.c")) + glob.glob(os.path.join(repo, "src", "*.cpp"))):
        o = os.path.join(out, "r_" + os.path.basename(f).replace(".", "_") + ".o")
        cc = [CC, "-std=c11", "-D_GNU_SOURCE"] if f.endswith(".c") else [CXX, "-std=c++11"]
        jobs.append((cc + inst + ["-c", f, "-o", o], os.path.getsize(f) + (20000 if f.endswith("pp") else 0)))
        repo_objs.append(o)
    for f in sorted(glob.glob(os.path.join(SIM, "*.cpp")) + glob.glob(os.path.join(SIM, "stub", "*.cpp"))):
        o = os.path.join(out, "s_" + os.path.basename(f).replace(".", "_") + ".o")
        fl = plain + ["-femulated-tls"]
        jobs.append(([CXX] + fl + ["-c", f, "-o", o], os.path.getsize(f) + 30000))
        sim_objs.append(o)
    jobs.sort(key=lambda j: -j[1])
    with cf.ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        for r in [ex.submit(run, j[0], "compile") for j in jobs]:
            r.result()
    ro = os.path.join(out, "repo.o")
    run(["ld", "-r", "--force-group-allocation", "-T", os.path.join(SIM, "repo.ld"), "-o", ro] + repo_objs, "partial link")
    und = subprocess.run(["nm", "-u", ro], stdout=subprocess.PIPE, text=True, check=True).stdout.split()
    und = sorted({u for u in und if len(u) > 1} - set(WRAPS))
    big = [u for u in und if u.endswith("64") and u not in WRAPS and u[:-2] in WRAPS + MORE]
    if big:
        run(["objcopy"] + [a for u in big for a in ("--redefine-sym", u + "=" + u[:-2])] + [ro], "objcopy")
        und = sorted({u for u in und if u not in big} | {u[:-2] for u in big if u[:-2] in MORE})
    redef, never = [], [u for u in und if u not in MORE and NEVER.match(u)]
    for u in und:
        if u in MORE or u in never:
            redef += ["--redefine-sym", "%s=%s_%s" % (u, "__sim" if u in MORE else "__never", u)]
    if redef:
        run(["objcopy"] + redef + [ro], "objcopy")
    if never:
        c = os.path.join(out, "never.cpp")
        with open(c, "w") as f:
            f.write('extern "C" {\nvoid sim_never(const char*);\n')
            for u in never:
                f.write('void __never_%s() { sim_never("%s"); }\n' % (u, u))
            f.write("}\n")
        run([CXX, "-w", "-c", c, "-o", c + ".o"], "compile")
        sim_objs.append(c + ".o")
    binp = os.path.join(out, "simbin")
    run([CXX, "-no-pie", "-g", "-o", binp, ro] + sim_objs + ["-Wl,--wrap=" + w for w in WRAPS] + ["-lpthread"], "link")
    return binp


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None))
