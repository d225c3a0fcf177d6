#!/usr/bin/env python3
"""Build the simulator from /repo's current working tree into /verif/.build.

1. meson/ninja compile of /repo/src (pgBackRest itself, unmodified)
2. ld -r of all of its objects, objcopy --redefine-syms: every OS-facing symbol -> sim_<symbol>, main -> pgbr_main
3. link with the simulator (sim/*.cpp), globals of pgBackRest placed in one contiguous section
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("PGBR_REPO", "/repo")
OUT = os.environ.get("SIM_BUILD_DIR", os.path.join(ROOT, ".build"))
PG = os.path.join(OUT, "pg")

CARGS = "-O1 -g -fno-pie -fno-strict-aliasing -fno-omit-frame-pointer -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-stack-protector"

# symbol in pgBackRest -> simulator function
REDEF = {}
ALIAS = {}
for s in """open creat openat read write close pread pwrite writev readv fsync fdatasync ftruncate truncate lseek stat lstat fstat fstatat access
faccessat readlink mkdir rmdir unlink unlinkat remove rename renameat link symlink chmod fchmod chown lchown fchown utime utimes utimensat
futimens umask opendir readdir closedir flock fcntl dup2 dup pipe pipe2 poll select fork execvp execv exit _exit abort waitpid getpid getppid
getuid getgid geteuid getegid kill raise setsid setpriority nice signal sigaction sigprocmask alarm nanosleep sleep usleep gettimeofday time clock_gettime chdir
getcwd getenv setenv unsetenv gethostname getpagesize getpwuid getpwnam getgrgid getgrnam fprintf vfprintf printf puts fputs fwrite fputc
fflush sd_notify system fopen popen sync_file_range posix_fadvise fallocate RAND_bytes getrandom rand random srand srandom malloc free
realloc calloc strdup backtrace_create_state backtrace_full environ
socket bind listen accept connect getsockopt setsockopt getaddrinfo freeaddrinfo gai_strerror getnameinfo shutdown send recv
SSL_read SSL_write
PQconnectdb PQstatus PQerrorMessage PQsendQuery PQconsumeInput PQisBusy PQsocket PQgetResult PQresultStatus PQresultErrorMessage
PQntuples PQnfields PQftype PQgetvalue PQgetisnull PQclear PQfinish PQgetCancel PQcancel PQfreeCancel PQsetNoticeProcessor""".split():
    REDEF[s] = "sim_" + s
for s in "SSL_read SSL_write".split():
    del REDEF[s]
for a in "open stat lstat fstat fstatat fcntl lseek ftruncate truncate pread pwrite readdir creat openat posix_fadvise fallocate".split():
    REDEF[a + "64"] = "sim_" + a + "64"
    ALIAS["sim_" + a + "64"] = "sim_" + a
REDEF["__sysv_signal"] = "sim_sysv_signal"
ALIAS["sim_sysv_signal"] = "sim_signal"
REDEF["__environ"] = "sim_environ2"
ALIAS["sim_environ2"] = "sim_environ"
REDEF["main"] = "pgbr_main"
# gcc rewrites fprintf(f, "const") to fwrite etc.; names with a leading __isoc99 / __printf_chk do not occur (no fortify)

LIBS = ["-lbz2", "-lssl", "-lcrypto", "-llz4", "-lssh2", "-lxml2", "-lz", "-lzstd", "-lm", "-ldl", "-lpthread"]

LDS = """SECTIONS {
  .pgbr_data : ALIGN(64) { __pgbr_start = .; *pgbr.o(.data .data.* .bss .bss.* COMMON) . = ALIGN(64); __pgbr_end = .; }
} INSERT AFTER .data;
"""


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode("utf8", "replace")


def mtime(p):
    try:
        return os.stat(p).st_mtime_ns
    except OSError:
        return 0


def writeIf(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def freshen():
    """ninja goes by modification times: start over when a source changed its content without becoming newer than the last build"""
    now, old, idx = {}, {}, os.path.join(OUT, "sources.json")
    for base, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in (".git", "_build", "test", "doc")]
        for f in files:
            p = os.path.join(base, f)
            try:
                with open(p, "rb") as h:
                    now[os.path.relpath(p, REPO)] = hashlib.sha1(h.read()).hexdigest()
            except OSError:
                pass
    try:
        with open(idx) as h:
            old = json.load(h)
    except (OSError, ValueError):
        pass
    if old:
        when = mtime(idx)
        if any(mtime(os.path.join(REPO, k)) <= when for k, v in now.items() if old.get(k) != v) or set(old) - set(now):
            shutil.rmtree(PG, ignore_errors=True)
    else:
        shutil.rmtree(PG, ignore_errors=True)
    with open(idx, "w") as h:
        json.dump(now, h)


def build(verbose=False):
    os.makedirs(OUT, exist_ok=True)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    env.setdefault("CCACHE_DIR", os.path.join(OUT, "ccache"))
    lock = open(os.path.join(OUT, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    setup = ["meson", "setup", PG, REPO, "--buildtype=plain", "--wrap-mode=nodownload", "-Dwerror=false", "-Db_pie=false",
             "-Db_ndebug=true", "-Dc_link_args=-no-pie", "-Dc_args=" + CARGS]
    freshen()
    for attempt in (0, 1):
        ok = True
        if not os.path.exists(os.path.join(PG, "build.ninja")):
            shutil.rmtree(PG, ignore_errors=True)
            rc, out = run(setup, env=env)
            ok = rc == 0
        if ok:
            rc, out = run(["ninja", "-C", PG, "src/pgbackrest"], env=env)
            ok = rc == 0
        if ok:
            break
        if verbose or attempt:
            sys.stderr.write(out[-6000:])
        shutil.rmtree(PG, ignore_errors=True)
    if not ok:
        raise SystemExit("build of pgBackRest failed")
    objs = sorted(glob.glob(os.path.join(PG, "src/pgbackrest.p/**/*.o"), recursive=True))
    # only objects the current build.ninja knows
    known = open(os.path.join(PG, "build.ninja")).read()
    objs = [o for o in objs if os.path.relpath(o, PG) in known]
    allo, pgbr = os.path.join(OUT, "all.o"), os.path.join(OUT, "pgbr.o")
    redef = os.path.join(OUT, "redef.txt")
    writeIf(redef, "".join("%s %s\n" % kv for kv in sorted(REDEF.items())))
    lds = os.path.join(OUT, "sim.lds")
    writeIf(lds, LDS)
    if mtime(pgbr) < max([mtime(o) for o in objs] + [mtime(redef)]):
        for cmd in (["ld", "-r", "-o", allo] + objs, ["objcopy", "--redefine-syms", redef, allo, pgbr]):
            rc, out = run(cmd)
            if rc:
                raise SystemExit(out)
    # simulator objects
    hdrs = glob.glob(os.path.join(HERE, "*.h"))
    hmax = max(mtime(h) for h in hdrs)
    sobj, procs = [], []
    for c in sorted(glob.glob(os.path.join(HERE, "*.cpp"))):
        o = os.path.join(OUT, os.path.basename(c)[:-4] + ".sim.o")
        sobj.append(o)
        if mtime(o) < max(mtime(c), hmax):
            procs.append((c, subprocess.Popen(["g++", "-std=c++20", "-O1", "-g", "-fno-pie", "-Wall", "-Wextra", "-Wno-unused-parameter",
                          "-Wno-misleading-indentation", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-fno-stack-protector",
                          "-I/usr/include/postgresql", "-c", c, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    bad = False
    for c, p in procs:
        out = p.communicate()[0].decode()
        if p.returncode or (verbose and out):
            sys.stderr.write(out)
        bad |= p.returncode != 0
    if bad:
        raise SystemExit("build of simulator failed")
    exe = os.path.join(OUT, "simrun")
    if mtime(exe) < max([mtime(o) for o in sobj] + [mtime(pgbr), mtime(lds)]):
        rc, out = run(["g++", "-no-pie", "-o", exe + ".tmp"] + sobj + [pgbr, "-Wl,-T," + lds] + ["-Wl,--defsym=%s=%s" % kv for kv in sorted(ALIAS.items())] + LIBS)
        if rc:
            raise SystemExit(out)
        os.rename(exe + ".tmp", exe)
    return exe


if __name__ == "__main__":
    print(build(verbose="-v" in sys.argv))
