#!/usr/bin/env python3
"""Build the simulator from /repo's working tree and /verif's sources.

Objects are cached in /verif/.build under a hash of everything that goes into
them (compiler flags, the source, all headers), so the result depends only on
the current contents of the trees.
"""
import concurrent.futures, fcntl, glob, hashlib, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MPSIM_REPO", "/repo")
BUILD = os.environ.get("MPSIM_BUILD", os.path.join(VERIF, ".build"))

WRAP = """pthread_create pthread_join pthread_detach pthread_mutex_init
pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock
pthread_mutex_timedlock pthread_mutex_unlock pthread_cond_init
pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait
pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast
pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock
pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once __cxa_guard_acquire
__cxa_guard_release __cxa_guard_abort sched_yield time gettimeofday
clock_gettime times nanosleep clock_nanosleep sleep usleep getpid socket bind
listen accept accept4 connect read recv write send close shutdown fcntl fcntl64
ioctl setsockopt getsockopt getpeername getsockname pipe pipe2 dup dup2 poll
select getaddrinfo freeaddrinfo getnameinfo gethostbyaddr fork signal sigaction
prctl alarm getpgid setpgid kill waitpid setenv chdir execl execv execve execvp
execlp unsetenv clearenv sysconf getdtablesize close_range closefrom _exit exit fopen fopen64 stat ber_oidc
nmem_malloc nmem_reset nmem_destroy nmem_transfer yaz_record_conv_record
yaz_record_conv_opac_record yaz_record_conv_get_error cql_transform_buf
cql_transform_rpn2cql_wrbuf cql_transform_error ZOOM_connection_connect
ZOOM_connection_search ZOOM_connection_destroy ZOOM_resultset_records
ZOOM_resultset_destroy""".split()

YAZDEF = ["-DYAZ_POSIX_THREADS=1", "-DYAZ_HAVE_XML2=1", "-DYAZ_HAVE_XSLT=1",
          "-DYAZ_HAVE_EXSLT=1", "-I/usr/include/libxml2"]
GUARD = ["-DMP_SIMULATION=1"]
COMMON = ["-std=gnu++17", "-w", "-gline-tables-only", "-fno-omit-frame-pointer",
          "-fno-pie"]
REPO_FLAGS = COMMON + ["-O1", "-fsanitize=address",
                       "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
YAZPP_FLAGS = COMMON + ["-O1", "-fsanitize=address"]
SIM_FLAGS = COMMON + ["-O1"]
RACE = ["-DSIM_RACE=1"]
FLAGS = {
    False: (REPO_FLAGS, YAZPP_FLAGS, SIM_FLAGS),
    True: (COMMON + ["-O1", "-fsanitize=thread"], COMMON + ["-O1"],
           COMMON + ["-O1"] + RACE),
}
RACE_WRAP = """_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_
_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_
_ZNSt8__detail15_List_node_base7_M_hookEPS0_
_ZNSt8__detail15_List_node_base9_M_unhookEv""".split()
LIBDIR = "/usr/lib/x86_64-linux-gnu"
CXX = "clang++"


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def build(verbose=False, race=False):
    """The simulator; race: the variant with the happens-before detector
    (sim/race.cpp) in place of the address sanitizer."""
    t0 = time.time()
    REPO_FLAGS, YAZPP_FLAGS, SIM_FLAGS = FLAGS[race]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    conf_dir = os.path.join(BUILD, "conf")
    os.makedirs(conf_dir, exist_ok=True)
    version = "0"
    m = re.search(rb"VERSION=\s*([0-9.]+)", rd(os.path.join(REPO, "IDMETA")))
    if m:
        version = m.group(1).decode()
    conf = rd(os.path.join(VERIF, "sim", "config.hpp.in")).decode().replace(
        "@MP_VERSION@", version)
    cpath = os.path.join(conf_dir, "config.hpp")
    if not os.path.exists(cpath) or rd(cpath).decode() != conf:
        with open(cpath, "w") as f:
            f.write(conf)
    repo_hdrs = sorted(glob.glob(REPO + "/include/metaproxy/*.hpp") +
                       glob.glob(REPO + "/src/*.hpp") +
                       glob.glob(REPO + "/src/*.h"))
    yazpp_hdrs = sorted(glob.glob(VERIF + "/yazpp/include/yazpp/*.h"))
    sim_hdrs = sorted(glob.glob(VERIF + "/sim/*.hpp"))
    hdr_repo = sha(*[x for p in repo_hdrs for x in (os.path.basename(p), rd(p))], conf)
    hdr_yazpp = sha(*[x for p in yazpp_hdrs for x in (os.path.basename(p), rd(p))])
    hdr_sim = sha(*[x for p in sim_hdrs for x in (os.path.basename(p), rd(p))])
    inc = ["-I" + conf_dir, "-I" + REPO + "/src", "-I" + REPO + "/include",
           "-I" + VERIF + "/yazpp/include"] + YAZDEF + GUARD
    jobs = []   # (src, obj, cmd)

    def job(src, flags, key_hdrs):
        name = os.path.basename(src)[:-4]
        key = sha(" ".join(flags), rd(src), *key_hdrs)[:24]
        obj = os.path.join(BUILD, "obj", "%s-%s.o" % (name, key))
        jobs.append((src, obj, [CXX] + flags + ["-c", src, "-o", obj + ".tmp"]))

    skip = re.compile(r"^(test_.*|tstdl|filter_dl|metaproxy_prog)$")
    for src in sorted(glob.glob(REPO + "/src/*.cpp")):
        name = os.path.basename(src)[:-4]
        if skip.match(name):
            continue
        job(src, REPO_FLAGS + inc, (hdr_repo, hdr_yazpp))
    job(REPO + "/src/metaproxy_prog.cpp", REPO_FLAGS + ["-Dmain=mp_main"] + inc,
        (hdr_repo, hdr_yazpp))
    # sim/race.cpp tells code under test from the rest by the order of the objects
    for src in [VERIF + "/yazpp/yazpp.cpp", VERIF + "/sim/aaa.cpp"] + [
            s for s in sorted(glob.glob(VERIF + "/sim/*.cpp"))
            if not s.endswith(("/aaa.cpp", "/zzz.cpp"))] + [VERIF + "/sim/zzz.cpp"]:
        if src.endswith("yazpp.cpp"):
            job(src, YAZPP_FLAGS + inc, (hdr_yazpp,))
            continue
        # scenario files may use metaproxy's own headers
        uses_repo = b"metaproxy/" in rd(src) or b"thread_pool_observer" in rd(src)
        job(src, SIM_FLAGS + inc,
            (hdr_sim, hdr_yazpp) + ((hdr_repo,) if uses_repo else ()))
    todo = [j for j in jobs if not os.path.exists(j[1])]
    # big ones first
    todo.sort(key=lambda j: -os.path.getsize(j[0]))
    fails = []

    def run(j):
        p = subprocess.run(j[2], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return (j[0], p.stdout.decode(errors="replace"))
        os.rename(j[1] + ".tmp", j[1])
        return None

    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for r in ex.map(run, todo):
            if r:
                fails.append(r)
    if fails:
        for f in fails:
            sys.stderr.write("compile failed: %s\n%s\n" % f)
        return None
    objs = [j[1] for j in jobs]
    wrap = WRAP + (RACE_WRAP if race else [])
    key = sha(*[os.path.basename(o) for o in objs], " ".join(wrap))[:24]
    stem = "mprace-" if race else "mpsim-"
    exe = os.path.join(BUILD, stem + key)
    if not os.path.exists(exe):
        cmd = [CXX] + ([] if race else ["-fsanitize=address"]) + [
            "-no-pie", "-static-libstdc++", "-fuse-ld=lld",
            "-Wl," + ",".join("--wrap=" + s for s in wrap)]
        cmd += objs
        cmd += ["%s/libboost_%s.a" % (LIBDIR, b) for b in
                ("thread", "regex", "system", "chrono", "atomic", "date_time")]
        cmd += [LIBDIR + "/libyaz.a", "-lexslt", "-lxslt", "-lxml2", "-lgnutls",
                "-ldl", "-lpthread", "-o", exe + ".tmp"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            sys.stderr.write("link failed:\n" + p.stdout.decode(errors="replace")[:6000])
            return None
        os.rename(exe + ".tmp", exe)
    # keep the cache small
    keep = set(objs)
    old = sorted((o for o in glob.glob(BUILD + "/obj/*.o") if o not in keep),
                 key=os.path.getmtime)
    for o in old[:-700]:
        os.unlink(o)
    exes = sorted((e for e in glob.glob(BUILD + "/" + stem + "*") if e != exe),
                  key=os.path.getmtime)
    for e in exes[:-6]:
        try:
            os.unlink(e)
        except OSError:
            pass
    os.utime(exe)
    if verbose:
        print("built %s (%d compiled) in %.1fs" % (exe, len(todo), time.time() - t0))
    lock.close()
    return exe


if __name__ == "__main__":
    e = build(True) and build(True, True)
    sys.exit(0 if e else 2)
