// Simulated operating system implementation
#include "os.h"
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <netdb.h>
#include <poll.h>
#include <pwd.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>

extern "C" {
extern char __pgbr_start[], __pgbr_end[];
int pgbr_main(int argc, const char **argv);
char **sim_environ;
}

namespace sim {

World *W;

const char *sysName[S_COUNT] = {"open", "creat", "read", "write", "close", "stat", "readdir", "readlink", "mkdir", "rmdir", "unlink",
    "rename", "link", "symlink", "chmod", "chown", "utime", "fsync", "ftruncate", "lseek", "flock", "pipe", "pread", "pwrite", "poll",
    "fork", "exec", "exit", "waitpid", "kill", "sleep", "libpq", "socket", "malloc"};
const char *faultName[FK_COUNT] = {"none", "kill", "killtree", "power", "errno", "short", "stall", "term", "clock", "full", "break",
    "nomem", "call"};

int sysClass(Sys s)
{
    switch (s) {
        case S_CREAT: case S_WRITE: case S_MKDIR: case S_RMDIR: case S_UNLINK: case S_RENAME: case S_LINK: case S_SYMLINK:
        case S_CHMOD: case S_CHOWN: case S_UTIME: case S_FSYNC: case S_FTRUNC: return C_MUT;
        case S_OPEN: case S_READ: case S_STAT: case S_READDIR: case S_READLINK: case S_LSEEK: case S_FLOCK: return C_RD;
        case S_PREAD: case S_PWRITE: case S_POLL: return C_PIPE;
        case S_PIPE: case S_FORK: case S_EXEC: case S_EXIT: case S_WAIT: case S_KILL: case S_SLEEP: return C_PROC;
        case S_PQ: return C_PQ;
        case S_SOCK: return C_SOCK;
        case S_MALLOC: return C_MEM;
        default: return 0;
    }
}

uint64_t hashBytes(const void *p, size_t n, uint64_t h)
{
    const unsigned char *c = (const unsigned char *)p;
    if (n >= 256) {                                                 // four independent lanes for large buffers
        uint64_t l[4] = {h, h + 0x51ull, h + 0xA3ull, h + 0xF7ull};
        while (n >= 32) { uint64_t v[4]; memcpy(v, c, 32); for (int k = 0; k < 4; k++) { l[k] = (l[k] ^ v[k]) * 0x9E3779B97F4A7C15ull; l[k] ^= l[k] >> 29; } c += 32; n -= 32; }
        h = l[0]; for (int k = 1; k < 4; k++) { h = (h ^ l[k]) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
    }
    while (n >= 8) { uint64_t v; memcpy(&v, c, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; c += 8; n -= 8; }
    while (n--) h = (h ^ *c++) * 1099511628211ull;
    return h;
}

void logf(const char *fmt, ...)
{
    if (!W->trace) return;
    char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (W->traceFile) { fprintf(W->traceFile, "[%10.6f] %s\n", (double)W->now / 1e6, b); }
    else W->log.push_back(b);
}

void violate(const std::string &cls, const std::string &msg)
{
    logf("VIOLATION %s: %s", cls.c_str(), msg.c_str());
    if (W->violation.empty()) { W->violClass = cls; W->violation = msg; }
}

static inline void mix(uint64_t v) { W->hash = (W->hash ^ v) * 0x9E3779B97F4A7C15ull; W->hash ^= W->hash >> 31; }

//=================================================================================================================================
// Context switching
//=================================================================================================================================
extern "C" void simSwitch(void **saveSp, void *loadSp);
asm(R"(
.text
.globl simSwitch
.type simSwitch,@function
simSwitch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size simSwitch,.-simSwitch
)");

static const uintptr_t SLOT_BASE = 0x100000000000ull;
static const uintptr_t SLOT_SIZE = 0x40000000ull;                   // 1 GB virtual per process slot
static const uintptr_t STACK_SIZE = 0x100000ull;                    // 1 MB
static const int SLOT_MAX = 192;
static std::vector<int> slotFree;
static void *schedSp;
static size_t gSize;
static char *gPristine;                                             // globals as linked
static Proc *loaded;                                                // whose globals are loaded now
enum Req { R_NONE, R_YIELD, R_FORK, R_EXEC, R_DEAD };
static Req req;
static Proc *reqProc;

static char *stackTop(int slot) { return (char *)(SLOT_BASE + (uintptr_t)slot * SLOT_SIZE + SLOT_SIZE); }
static char *stackBot(int slot) { return stackTop(slot) - STACK_SIZE; }
static char *arenaBase(int slot) { return (char *)(SLOT_BASE + (uintptr_t)slot * SLOT_SIZE); }

//---------------------------------------------------------------------------------------------------------------------------------
// Per process heap. All metadata lives at the start of the arena so that a memory snapshot captures it.
struct Arena { uint64_t top; void *freeList[40]; uint64_t live; };
static Arena *arenaOf(Proc *p) { return (Arena *)arenaBase(p->slot); }
struct Blk { uint32_t cls; uint32_t magic; uint64_t size; };

static void arenaInit(int slot)
{
    Arena *a = (Arena *)arenaBase(slot);
    memset(a, 0, sizeof *a);
    a->top = 4096;
}

static void *arenaAlloc(Proc *p, size_t n)
{
    Arena *a = arenaOf(p);
    unsigned cls = 5;
    while (((size_t)1 << cls) < n + sizeof(Blk)) cls++;
    if (cls >= 29) return nullptr;
    Blk *b;
    if (a->freeList[cls]) { b = (Blk *)a->freeList[cls]; a->freeList[cls] = *(void **)(b + 1); }
    else {
        size_t sz = (size_t)1 << cls;
        if (a->top + sz > SLOT_SIZE - STACK_SIZE * 2) return nullptr;
        b = (Blk *)(arenaBase(p->slot) + a->top); a->top += sz;
    }
    b->cls = cls; b->magic = 0xA110C8ED; b->size = n; a->live += n;
    return b + 1;
}

static void arenaFree(Proc *p, void *ptr)
{
    Blk *b = (Blk *)ptr - 1;
    Arena *a = arenaOf(p);
    if (b->magic != 0xA110C8ED) { raise(SIGSEGV); return; }
    b->magic = 0xF4EEF4EE; a->live -= b->size;
    *(void **)(b + 1) = a->freeList[b->cls];
    a->freeList[b->cls] = b;
}

static bool inArena(Proc *p, void *ptr)
{
    return p && p->slot >= 0 && (char *)ptr >= arenaBase(p->slot) && (char *)ptr < stackBot(p->slot);
}

//---------------------------------------------------------------------------------------------------------------------------------
static void loadGlobals(Proc *p)
{
    if (loaded == p) return;
    if (loaded && loaded->globals) memcpy(loaded->globals, __pgbr_start, gSize);
    memcpy(__pgbr_start, p->globals, gSize);
    loaded = p;
}

static void toSched(Req r)
{
    req = r; reqProc = W->cur;
    Proc *p = W->cur;
    p->savedErrno = errno;
    simSwitch(&p->ctx, schedSp);
    errno = W->cur->savedErrno;
}

static void procStart()
{
    Proc *p = W->cur;
    int rc = pgbr_main((int)p->argvPtr.size() - 1, (const char **)p->argvPtr.data());
    extern void procExit(int status);
    procExit((rc & 0xff) << 8);
}

static int slotAlloc()
{
    if (slotFree.empty()) { fprintf(stderr, "sim: out of process slots\n"); _exit(99); }
    int s = slotFree.back(); slotFree.pop_back(); return s;
}

static void slotRelease(int s)
{
    Arena *a = (Arena *)arenaBase(s);
    if (a->top > 8 * 1024 * 1024) madvise(arenaBase(s), SLOT_SIZE - STACK_SIZE, MADV_DONTNEED);
    slotFree.push_back(s);
}

static void imageInit(Proc *p)
{
    p->slot = slotAlloc(); p->borrowed = false;
    arenaInit(p->slot);
    p->globals = (char *)malloc(gSize);
    memcpy(p->globals, gPristine, gSize);
    p->argvPtr.clear();
    for (auto &s : p->argv) p->argvPtr.push_back((char *)s.c_str());
    p->argvPtr.push_back(nullptr);
    p->envStr.clear(); p->envPtr.clear();
    for (auto &kv : p->env) p->envStr.push_back(kv.first + "=" + kv.second);
    for (auto &s : p->envStr) p->envPtr.push_back((char *)s.c_str());
    p->envPtr.push_back(nullptr);
    uintptr_t *sp = (uintptr_t *)(stackTop(p->slot) - 64);
    *--sp = 0;                                                      // fake return for alignment
    *--sp = (uintptr_t)procStart;
    for (int i = 0; i < 6; i++) *--sp = 0;
    p->ctx = sp;
    p->started = true;
}

//---------------------------------------------------------------------------------------------------------------------------------
static std::string roleOf(const std::vector<std::string> &argv)
{
    for (size_t i = 1; i < argv.size(); i++)
        if (!argv[i].empty() && argv[i][0] != '-') {
            size_t c = argv[i].find(':');
            return c == std::string::npos ? std::string("main") : argv[i].substr(c + 1);
        }
    return "main";
}

static void fdRef(OFile *o) { o->refs++; }
static void fdUnref(OFile *o)
{
    if (--o->refs > 0) return;
    switch (o->kind) {
        case OPipeR: o->pipe->readers--; break;
        case OPipeW: o->pipe->writers--; break;
        case OSock: if (o->pipe) o->pipe->readers--; if (o->pipe2) o->pipe2->writers--; break;
        case OFileK:
            if (o->ino) { if (o->ino->lockEx == o) o->ino->lockEx = nullptr; o->ino->lockSh.erase(o); }
            break;
        default: break;
    }
}

static int fdAlloc(Proc *p, OFile *o, bool cx)
{
    size_t i = 0;
    while (i < p->fd.size() && p->fd[i]) i++;
    if (i == p->fd.size()) { p->fd.push_back(nullptr); p->cx.push_back(0); }
    p->fd[i] = o; p->cx[i] = cx; fdRef(o);
    return (int)i;
}
int fdSockNew(Proc *p, OFile *o) { return fdAlloc(p, o, false); }

static Proc *procNew(Host *h)
{
    Proc *p = new Proc;
    p->pid = p->waitPid = W->nextPid++;
    p->host = h; p->startAt = W->now; p->prio = (int)W->sched.below(1000000);
    W->procs[p->pid] = p; W->stats.procs++;
    return p;
}

Proc *spawn(Host *h, const std::vector<std::string> &argv, const std::map<std::string, std::string> &env, uid_t uid, gid_t gid,
    const std::string &cwd, int op)
{
    Proc *p = procNew(h);
    p->argv = argv; p->env = env; p->uid = uid; p->gid = gid; p->cwd = cwd; p->op = op; p->role = roleOf(argv);
    OFile *n = new OFile; n->kind = ONull; fdAlloc(p, n, false);
    p->capOut = new std::string; p->capErr = new std::string;
    OFile *o = new OFile; o->kind = OCapture; o->cap = p->capOut; fdAlloc(p, o, false);
    OFile *e = new OFile; e->kind = OCapture; e->cap = p->capErr; fdAlloc(p, e, false);
    imageInit(p);
    if (W->trace) { std::string s; for (auto &a : argv) s += a + " "; logf("spawn pid=%d host=%s op=%d: %s", p->pid, h->name.c_str(), op, s.c_str()); }
    return p;
}

static void reapOrZombie(Proc *p, int status)
{
    p->exitStatus = status; p->exited = true; p->endAt = W->now;
    Proc *par = p->parent;
    bool keep = par && (par->st != Proc::DEAD && par->st != Proc::ZOMBIE) && par->handler[SIGCHLD] != SIG_IGN;
    p->st = keep ? Proc::ZOMBIE : Proc::DEAD;
    // orphan children
    for (auto &kv : W->procs) if (kv.second->parent == p) { kv.second->parent = nullptr; if (kv.second->st == Proc::ZOMBIE) kv.second->st = Proc::DEAD; }
}

static void procTeardown(Proc *p, int status, bool keepPipes = false)
{
    if (p->exited) return;
    for (size_t i = 0; i < p->fd.size(); i++)
        if (p->fd[i]) {
            if (!(keepPipes && (p->fd[i]->kind == OPipeR || p->fd[i]->kind == OPipeW) && p->fd[i]->pipe->ssh)) fdUnref(p->fd[i]);
            p->fd[i] = nullptr;
        }
    reapOrZombie(p, status);
    if (p->vforkParent) {                                           // died between fork and exec: resume parent
        Proc *par = p->vforkParent; p->vforkParent = nullptr;
        if (!par->exited) { par->vforkChild = nullptr; par->st = Proc::RUN; }
    }
    if (p->vforkChild) {                                            // parent killed while the fork child still runs: the child keeps the image
        Proc *c = p->vforkChild; c->vforkParent = nullptr; c->borrowed = false; p->slot = -1;
        if (p->vforkParent) { }
    }
    if (!p->borrowed && p->slot >= 0) {
        // image memory released once the process is gone; the globals copy may be live in the linked section
        slotRelease(p->slot); p->slot = -1;
    }
    if (loaded == p) loaded = nullptr;
    if (p->globals) { free(p->globals); p->globals = nullptr; }
    logf("exit pid=%d role=%s status=%x", p->pid, p->role.c_str(), status);
    mix((uint64_t)p->pid * 1000003 + (uint64_t)status);
    if (W->onExit) W->onExit(p);
}

void procExit(int status)
{
    procTeardown(W->cur, status);
    toSched(R_DEAD);
    abort();
}

void killProc(Proc *p, int sig)
{
    if (p->exited) return;
    logf("kill pid=%d role=%s sig=%d", p->pid, p->role.c_str(), sig);
    procTeardown(p, sig);
    if (p == W->cur) { toSched(R_DEAD); abort(); }
}

void signalProc(Proc *p, int sig) { if (!p->exited) p->sigPending |= 1ull << sig; }

void killHost(Host *h)
{
    std::vector<Proc *> v;
    for (auto &kv : W->procs) if (kv.second->host == h && !kv.second->exited) v.push_back(kv.second);
    Proc *me = nullptr;
    for (auto p : v) { if (p == W->cur) me = p; else procTeardown(p, SIGKILL); }
    if (me) procTeardown(me, SIGKILL);
}

int aliveCount(Host *h) { int n = 0; for (auto &kv : W->procs) if (!kv.second->exited && (!h || kv.second->host == h)) n++; return n; }

//=================================================================================================================================
// Crash model
//=================================================================================================================================
static void crashDir(Inode *d, Rng &r, std::set<Inode *> &seen)
{
    if (!seen.insert(d).second) return;
    // a prefix of the un-synced directory operations survives
    size_t keep = d->pend.empty() ? 0 : (size_t)r.below(d->pend.size() + 1);
    if (W->metaOrdered) { keep = 0; while (keep < d->pend.size() && d->pend[keep].seq <= W->metaCut) keep++; }
    // bias: sometimes everything or nothing
    else if (!d->pend.empty()) { uint64_t b = r.below(4); if (b == 0) keep = 0; else if (b == 1) keep = d->pend.size(); }
    for (size_t i = 0; i < keep; i++) {
        DirOp &o = d->pend[i];
        if (o.add) d->dent[o.name] = o.ino; else d->dent.erase(o.name);
        if (!o.del.empty()) d->dent.erase(o.del);
    }
    if (keep < d->pend.size()) W->stats.powerLostEnt += (int64_t)(d->pend.size() - keep);
    d->pend.clear();
    d->ent = d->dent;
    for (auto &kv : d->ent) {
        Inode *i = kv.second;
        i->lockEx = nullptr; i->lockSh.clear();
        if (i->type == TDir) { i->parent = d; crashDir(i, r, seen); }
        else if (i->type == TFile && seen.insert(i).second) {
            if (i->ddata.get() != i->data.get() || i->lostWrite) {
                std::string cur = i->data ? *i->data : "", old = i->ddata ? *i->ddata : "";
                uint64_t c = r.below(i->lostWrite ? 2 : 4);
                std::string res;
                if (c == 0) { res = old; W->stats.powerLostData++; }
                else if (c == 1) { res = old; if (!i->everSync) res.clear(); W->stats.powerLostData++; }
                else if (c == 2) { res = cur; }
                else {                                              // torn: size of current, each block old / new / zero
                    W->stats.powerTorn++;
                    size_t n = cur.size(); if (r.chance(0.3)) n = (size_t)r.below(cur.size() + 1);
                    res.assign(n, '\0');
                    for (size_t b = 0; b < n; b += 512) {
                        size_t l = std::min((size_t)512, n - b);
                        if (r.chance(0.5)) memcpy(&res[b], &cur[b], l);
                        else if (b < old.size()) memcpy(&res[b], &old[b], std::min(l, old.size() - b));
                    }
                }
                i->data = std::make_shared<std::string>(res);
                i->ddata = i->data; i->gen++;
            }
            i->lostWrite = false; i->everSync = true;
        }
    }
}

void powerCrash(Host *h, uint64_t seed)
{
    logf("POWER CRASH host=%s", h->name.c_str());
    h->crashes++;
    Rng r(seed ^ 0xC4A54ull);
    killHost(h);
    std::set<Inode *> seen;
    if (W->metaOrdered) {                                           // journaling file system: one cut through the order of all directory operations of the host
        uint64_t lo = h->metaDurable, hi = W->metaSeq; uint64_t b = r.below(4); W->metaCut = b == 0 ? lo : b == 1 ? hi : lo + r.below(hi - lo + 1);
        h->metaDurable = hi;
    }
    crashDir(h->root, r, seen);
    if (W->onPower) { Proc *me = W->cur; W->cur = nullptr; W->onPower(h); W->cur = me; }
}

static void syncRec(Inode *d)
{
    d->pend.clear(); d->dent = d->ent;
    for (auto &kv : d->ent) {
        Inode *i = kv.second;
        if (i->type == TDir) syncRec(i);
        else { i->ddata = i->data; i->everSync = true; i->lostWrite = false; }
    }
}
void syncHost(Host *h) { syncRec(h->root); }
void fsSyncTree(Host *h, const std::string &path)
{
    Inode *i = fsLookup(h, path);
    if (!i) return;
    if (i->type == TDir) syncRec(i); else { i->ddata = i->data; i->everSync = true; }
    for (Inode *d = i->parent; d; d = d->parent) { d->dent = d->ent; d->pend.clear(); }
}

//=================================================================================================================================
// File system
//=================================================================================================================================
static Inode *inodeNew(Host *h, ItemType t, unsigned mode, uid_t uid, gid_t gid)
{
    Inode *i = new Inode;
    i->no = W->inoSeq++; i->type = t; i->mode = mode; i->uid = uid; i->gid = gid; i->mtime = wallSec(h);
    if (t != TDir) { i->data = std::make_shared<std::string>(); i->ddata = nullptr; }
    return i;
}

static void dirAdd(Host *h, Inode *d, const std::string &n, Inode *i)
{
    d->ent[n] = i; d->pend.push_back({true, n, i, "", ++W->metaSeq}); d->mtime = wallSec(h);
    if (i->type == TDir) i->parent = d;
}
static void dirDel(Host *h, Inode *d, const std::string &n)
{
    d->ent.erase(n); d->pend.push_back({false, n, nullptr, "", ++W->metaSeq}); d->mtime = wallSec(h);
}

static std::vector<std::string> split(const std::string &p)
{
    std::vector<std::string> v; size_t i = 0;
    while (i < p.size()) {
        while (i < p.size() && p[i] == '/') i++;
        size_t j = i; while (j < p.size() && p[j] != '/') j++;
        if (j > i) v.push_back(p.substr(i, j - i));
        i = j;
    }
    return v;
}

// Resolve a path. Returns errno (0 ok). On success *out may be null when the last component is missing (then *dir/*name are set).
static int resolve(Host *h, const std::string &cwd, const std::string &path, bool follow, Inode **dir, std::string *name, Inode **out,
    int depth = 0)
{
    if (depth > 20) return ELOOP;
    if (path.empty()) return ENOENT;
    if (path.size() > 4000) return ENAMETOOLONG;
    std::string full = path[0] == '/' ? path : cwd + "/" + path;
    std::vector<std::string> v = split(full);
    Inode *d = h->root;
    if (v.empty()) { *dir = d; *name = "."; *out = d; return 0; }
    std::string cur;
    for (size_t i = 0; i < v.size(); i++) {
        bool last = i + 1 == v.size();
        if (d->type != TDir) return ENOTDIR;
        if (v[i].size() > 255) return ENAMETOOLONG;
        if (v[i] == ".") { if (last) { *dir = d; *name = "."; *out = d; } continue; }
        if (v[i] == "..") { d = d->parent ? d->parent : d; if (last) { *dir = d; *name = "."; *out = d; } continue; }
        auto it = d->ent.find(v[i]);
        if (it == d->ent.end()) {
            if (last) { *dir = d; *name = v[i]; *out = nullptr; return 0; }
            return ENOENT;
        }
        Inode *n = it->second;
        if (n->type == TLink && (!last || follow || full.back() == '/')) {
            std::string t = *n->data;
            std::string base; for (size_t k = 0; k < i; k++) base += "/" + v[k];
            std::string rest; for (size_t k = i + 1; k < v.size(); k++) rest += "/" + v[k];
            std::string np = (t.size() && t[0] == '/' ? t : base + "/" + t) + rest;
            return resolve(h, "/", np, follow, dir, name, out, depth + 1);
        }
        if (last) { *dir = d; *name = v[i]; *out = n; return 0; }
        d = n;
    }
    return 0;
}

Inode *fsLookup(Host *h, const std::string &path, bool follow)
{
    Inode *d = nullptr, *o = nullptr; std::string n;
    if (resolve(h, "/", path, follow, &d, &n, &o)) return nullptr;
    return o;
}
Inode *fsMkdirs(Host *h, const std::string &path, uid_t uid, gid_t gid, unsigned mode)
{
    std::string cur; Inode *i = h->root;
    for (auto &c : split(path)) {
        cur += "/" + c;
        Inode *n = fsLookup(h, cur);
        if (!n) { n = inodeNew(h, TDir, mode, uid, gid); dirAdd(h, i, c, n); }
        i = n;
    }
    return i;
}
Inode *fsWrite(Host *h, const std::string &path, const std::string &data, uid_t uid, gid_t gid, unsigned mode)
{
    size_t s = path.rfind('/');
    Inode *d = nullptr, *o = nullptr; std::string n;
    if (s != 0 && !fsLookup(h, path.substr(0, s))) fsMkdirs(h, path.substr(0, s), uid, gid);
    if (resolve(h, "/", path, true, &d, &n, &o)) return nullptr;
    if (!o) { o = inodeNew(h, TFile, mode, uid, gid); dirAdd(h, d, n, o); }
    o->data = std::make_shared<std::string>(data); o->mtime = wallSec(h); o->gen++;
    return o;
}
void fsPatch(Host *h, Inode *i, uint64_t off, const std::string &b)
{
    if (i->data.use_count() > 1) i->data = std::make_shared<std::string>(*i->data);
    if (i->data->size() < off + b.size()) i->data->resize(off + b.size(), '\0');
    memcpy(&(*i->data)[off], b.data(), b.size());
    i->mtime = wallSec(h); i->gen++;
}
void fsTouch(Host *h, Inode *i) { i->mtime = wallSec(h); }
bool fsRead(Host *h, const std::string &path, std::string &out)
{
    Inode *i = fsLookup(h, path);
    if (!i || i->type != TFile) return false;
    out = *i->data; return true;
}
bool fsExists(Host *h, const std::string &path) { return fsLookup(h, path, false) != nullptr; }
bool fsUnlink(Host *h, const std::string &path)
{
    Inode *d = nullptr, *o = nullptr; std::string n;
    if (resolve(h, "/", path, false, &d, &n, &o) || !o) return false;
    dirDel(h, d, n); o->nlink--; return true;
}
bool fsRename(Host *h, const std::string &from, const std::string &to)
{
    Inode *d = nullptr, *o = nullptr, *d2 = nullptr, *o2 = nullptr; std::string n, n2;
    if (resolve(h, "/", from, false, &d, &n, &o) || !o) return false;
    if (resolve(h, "/", to, false, &d2, &n2, &o2)) return false;
    dirAdd(h, d2, n2, o); dirDel(h, d, n); return true;
}
void fsRemoveTree(Host *h, const std::string &path) { fsUnlink(h, path); }
void fsSymlink(Host *h, const std::string &target, const std::string &path, uid_t uid, gid_t gid)
{
    Inode *d = nullptr, *o = nullptr; std::string n;
    if (resolve(h, "/", path, false, &d, &n, &o)) return;
    if (o) dirDel(h, d, n);
    Inode *l = inodeNew(h, TLink, 0777, uid, gid); l->data = std::make_shared<std::string>(target); l->ddata = l->data;
    dirAdd(h, d, n, l);
}
std::vector<std::string> fsList(Host *h, const std::string &path)
{
    std::vector<std::string> v; Inode *i = fsLookup(h, path);
    if (i && i->type == TDir) for (auto &kv : i->ent) v.push_back(kv.first);
    return v;
}
static void walkRec(const std::string &p, Inode *i, const std::function<void(const std::string &, Inode *)> &fn)
{
    for (auto &kv : i->ent) {
        std::string c = p + "/" + kv.first;
        fn(c, kv.second);
        if (kv.second->type == TDir) walkRec(c, kv.second, fn);
    }
}
void fsWalk(Host *h, const std::string &path, const std::function<void(const std::string &, Inode *)> &fn)
{
    Inode *i = fsLookup(h, path);
    if (!i) return;
    if (i->type != TDir) { fn(path, i); return; }
    walkRec(path, i, fn);
}
static Inode *copyRec(Host *h, Inode *s)
{
    Inode *n = inodeNew(h, s->type, s->mode, s->uid, s->gid); n->mtime = s->mtime;
    if (s->type == TDir) { for (auto &kv : s->ent) { Inode *c = copyRec(h, kv.second); n->ent[kv.first] = c; n->dent[kv.first] = c; if (c->type == TDir) c->parent = n; } }
    else { n->data = s->data; n->ddata = s->data; n->everSync = true; }
    return n;
}
void fsCopyTree(Host *h, const std::string &from, const std::string &to)
{
    Inode *s = fsLookup(h, from); if (!s) return;
    size_t sl = to.rfind('/');
    Inode *d = fsMkdirs(h, to.substr(0, sl), s->uid, s->gid);
    Inode *n = copyRec(h, s); n->mtime = s->mtime;
    int64_t mt = d->mtime; dirAdd(h, d, to.substr(sl + 1), n); d->mtime = mt;
}
std::string fsHashTree(Host *h, const std::string &path, bool meta)
{
    std::string r; char b[256];
    fsWalk(h, path, [&](const std::string &p, Inode *i) {
        r += p.substr(path.size());
        if (i->type == TFile) { snprintf(b, sizeof b, " f %zu %016llx", i->data->size(), (unsigned long long)hashStr(*i->data)); r += b; }
        else if (i->type == TLink) r += " l " + *i->data;
        else r += " d";
        if (meta) { snprintf(b, sizeof b, " %o %d:%d", i->mode, (int)i->uid, (int)i->gid); r += b; }
        r += "\n";
    });
    return r;
}
uint64_t fsUsed(Host *h) { uint64_t n = 0; fsWalk(h, "/", [&](const std::string &, Inode *i) { if (i->type == TFile) n += i->data->size(); }); return n; }

int64_t wallSec(Host *h) { return (W->epoch * 1000000 + W->now + h->clockOff) / 1000000; }

Host *addHost(const std::string &name)
{
    Host *h = new Host; h->name = name; h->idx = (int)W->hosts.size();
    W->hosts.push_back(h);
    h->root = inodeNew(h, TDir, 0755, 0, 0);
    h->users = {{"root", 0}, {"postgres", 1000}, {"pgbackrest", 1001}};
    h->groups = {{"root", 0}, {"postgres", 1000}, {"pgbackrest", 1001}};
    fsMkdirs(h, "/tmp", 0, 0, 01777); fsMkdirs(h, "/etc/pgbackrest", 0, 0, 0755);
    return h;
}

//=================================================================================================================================
// Scheduler
//=================================================================================================================================
void at(usec when, std::function<void()> fn) { W->evq.push_back({when, W->evSeq++, std::move(fn)}); }

static usec nextEv() { usec t = INT64_MAX; for (auto &e : W->evq) if (e.at < t) t = e.at; return t; }

static bool runDueEvents()
{
    bool any = false;
    for (;;) {
        int best = -1;
        for (size_t i = 0; i < W->evq.size(); i++)
            if (W->evq[i].at <= W->now && (best < 0 || W->evq[i].at < W->evq[(size_t)best].at ||
                (W->evq[i].at == W->evq[(size_t)best].at && W->evq[i].seq < W->evq[(size_t)best].seq))) best = (int)i;
        if (best < 0) break;
        auto fn = std::move(W->evq[(size_t)best].fn);
        W->evq.erase(W->evq.begin() + best);
        fn(); any = true;
    }
    return any;
}

static bool isReady(Proc *p)
{
    if (p->st == Proc::RUN) return p->stallUntil <= W->now;
    if (p->st != Proc::BLOCK || p->stallUntil > W->now) return false;
    if (p->sigPending) return true;
    if (p->deadline >= 0 && W->now >= p->deadline) return true;
    return p->ready && p->ready();
}

static void restoreForked()                                         // restore any vfork parent whose child is gone
{
    for (auto &kv : W->procs) {
        Proc *q = kv.second;
        if (q->st == Proc::RUN && q->svStack && !q->vforkChild) {
            memcpy(stackTop(q->slot) - q->svStack->size(), q->svStack->data(), q->svStack->size());
            memcpy(arenaBase(q->slot), q->svArena->data(), q->svArena->size());
            memcpy(q->globals, q->svGlobals->data(), gSize);
            q->ctx = q->svCtx; q->savedErrno = q->svErrno;
            delete q->svStack; delete q->svArena; delete q->svGlobals; q->svStack = q->svArena = q->svGlobals = nullptr;
            if (loaded == q) loaded = nullptr;
        }
    }
}

static void resumeProc(Proc *p)
{
    W->cur = p; loadGlobals(p);
    sim_environ = p->envPtr.data();
    if (p->st == Proc::BLOCK) p->st = Proc::RUN;
    W->stats.switches++;
    W->schedHash = (W->schedHash ^ (uint64_t)p->pid) * 0x9E3779B97F4A7C15ull;
    req = R_NONE;
    simSwitch(&schedSp, p->ctx);
    W->cur = nullptr;
    // handle requests that must run off the process stack
    if (req == R_FORK) {
        Proc *par = reqProc;
        Proc *c = procNew(par->host);
        c->ppid = par->pid; c->parent = par; c->uid = par->uid; c->gid = par->gid; c->cwd = par->cwd; c->umask_ = par->umask_;
        c->argv = par->argv; c->env = par->env; c->op = par->op; c->tag = par->tag; c->role = par->role; c->argvPtr = par->argvPtr; c->envPtr = par->envPtr;
        memcpy(c->handler, par->handler, sizeof c->handler);
        c->capOut = par->capOut; c->capErr = par->capErr;
        c->fd = par->fd; c->cx = par->cx;
        for (auto o : c->fd) if (o) fdRef(o);
        // save parent's memory
        memcpy(par->globals, __pgbr_start, gSize);
        par->svSp = (uintptr_t)par->ctx; par->svCtx = par->ctx; par->svErrno = par->savedErrno;
        par->svStack = new std::string((char *)par->ctx, (size_t)(stackTop(par->slot) - (char *)par->ctx));
        par->svArena = new std::string(arenaBase(par->slot), arenaOf(par)->top);
        par->svGlobals = new std::string(par->globals, gSize);
        c->slot = par->slot; c->borrowed = true; c->ctx = par->ctx; c->started = true; c->savedErrno = par->savedErrno;
        c->globals = (char *)malloc(gSize); memcpy(c->globals, par->globals, gSize);
        c->forkRet = 0; c->vforkParent = par; par->vforkChild = c; par->forkRet = c->pid; par->st = Proc::VFORK;
        logf("fork pid=%d -> %d", par->pid, c->pid);
    } else if (req == R_EXEC) {
        Proc *c = reqProc;
        bool borrowed = c->borrowed; int oldSlot = c->slot;
        if (loaded == c) loaded = nullptr;
        free(c->globals); c->globals = nullptr;
        if (!borrowed && oldSlot >= 0) slotRelease(oldSlot);
        imageInit(c); c->st = Proc::RUN;
        Proc *par = c->vforkParent; c->vforkParent = nullptr;
        if (par && !par->exited) { par->vforkChild = nullptr; par->st = Proc::RUN; }
    }
    restoreForked();
    if (req == R_DEAD && reqProc->exited && loaded == reqProc) loaded = nullptr;
}

bool step()
{
    W->stats.steps++;
    runDueEvents();
    if (W->onStep) W->onStep();
    restoreForked();
    static std::vector<Proc *> cand; cand.clear();
    for (auto it = W->procs.begin(); it != W->procs.end();) {
        Proc *p = it->second;
        if (p->st == Proc::DEAD && p->svStack == nullptr) { it = W->procs.erase(it); continue; }   // Proc objects are kept alive by holders
        if (p->st == Proc::RUN || p->st == Proc::BLOCK) if (isReady(p)) cand.push_back(p);
        ++it;
    }
    if (cand.empty()) {
        usec t = nextEv();
        for (auto &kv : W->procs) {
            Proc *p = kv.second;
            if (p->st == Proc::BLOCK || p->st == Proc::RUN) {
                if (p->stallUntil > W->now) { if (p->stallUntil < t) t = p->stallUntil; }
                else if (p->deadline >= 0 && p->deadline < t) t = p->deadline;
            }
        }
        if (t == INT64_MAX) return false;
        if (t > W->now) W->now = t;
        return true;
    }
    Proc *p;
    if (W->schedMode == 1) {
        p = cand[0];
        for (auto q : cand) if (q->prio > p->prio) p = q;
        if (W->sched.below(64) == 0) p->prio = (int)W->sched.below(1000000);
    } else if (W->schedMode == 2) p = cand[(size_t)W->stats.steps % cand.size()];
    else p = cand[W->sched.below(cand.size())];
    resumeProc(p);
    return true;
}

bool runUntil(const std::function<bool()> &done, usec maxVirtual)
{
    usec limit = maxVirtual ? W->now + maxVirtual : INT64_MAX;
    while (!done()) {
        if (!W->violation.empty()) return false;
        if (W->now > limit) { W->stuckWhy = "virtual time limit"; return false; }
        if (W->stats.steps > W->maxSteps) { W->stuck = true; W->stuckWhy = "step limit"; return false; }
        if (!step()) { if (done()) return true; W->stuckWhy = "deadlock"; return false; }
    }
    return true;
}

static void deliverSignals()
{
    Proc *p = W->cur;
    while (p->sigPending) {
        int sig = __builtin_ctzll(p->sigPending);
        p->sigPending &= ~(1ull << sig);
        if (sig == SIGKILL) { killProc(p, sig); }
        void (*h)(int) = p->handler[sig];
        if (h == SIG_IGN) continue;
        if (h == SIG_DFL || h == nullptr) {
            if (sig == SIGCHLD || sig == SIGURG || sig == SIGWINCH) continue;
            killProc(p, sig);
        }
        logf("signal pid=%d sig=%d handler", p->pid, sig);
        h(sig);
    }
}

void schedPoint()
{
    Proc *p = W->cur;
    if (!p) return;
    bool cont = false;
    if (!W->onStep && W->now < nextEv() && W->schedMode == 0 && p->stallUntil <= W->now) cont = W->sched.chance(W->stick);
    else if (W->schedMode == 0 && p->stallUntil <= W->now && W->now < nextEv()) cont = W->sched.chance(W->stick * 0.9);
    if (!cont) { p->st = Proc::RUN; p->deadline = -1; toSched(R_YIELD); }
    if (W->cur->sigPending) deliverSignals();
}

bool blockOn(const std::function<bool()> &ready, usec deadline)
{
    Proc *p = W->cur;
    for (;;) {
        if (ready()) return true;
        if (deadline >= 0 && W->now >= deadline) return false;
        p->ready = ready; p->deadline = deadline; p->st = Proc::BLOCK;
        toSched(R_YIELD);
        p->deadline = -1;
        if (p->sigPending) deliverSignals();
    }
}

//---------------------------------------------------------------------------------------------------------------------------------
void breakSsh()
{
    // every ssh process: parent sees connection loss, remote side sees EOF
    std::vector<Proc *> v;
    for (auto &kv : W->procs) if (kv.second->isSsh && !kv.second->exited) v.push_back(kv.second);
    for (auto p : v) {
        for (auto o : p->fd) if (o && (o->kind == OPipeR || o->kind == OPipeW)) { o->pipe->broken = true; }
        // stub for the ssh client
        Proc *z = new Proc; z->pid = z->waitPid = p->waitPid; z->parent = p->parent; z->host = p->parent ? p->parent->host : p->host;
        z->st = p->parent ? Proc::ZOMBIE : Proc::DEAD; z->exited = true; z->exitStatus = 255 << 8;
        if (z->st == Proc::ZOMBIE) W->procs[z->pid] = z;
        p->parent = nullptr; p->isSsh = false; p->waitPid = p->pid;
        logf("ssh connection broken pid=%d", p->pid);
    }
}

static thread_local int injErr; static int injShort;

static bool matchFault(Fault &f, Sys s, Proc *p, const char *path)
{
    if (f.op >= 0 && p->op != f.op) return false;
    if (f.cls && !(f.cls & sysClass(s))) return false;
    if (f.sys >= 0 && f.sys != (int)s) return false;
    if (!f.role.empty() && f.role != p->role) return false;
    if (!f.host.empty() && f.host != p->host->name) return false;
    if (!f.path.empty() && (!path || !strstr(path, f.path.c_str()))) return false;
    return true;
}

static void fireFault(Fault &f, Sys s, Proc *p, const char *path)
{
    f.fired++;
    if (f.where.empty()) f.where = std::string(sysName[s]) + " " + (path ? path : "") + " [" + p->role + "@" + p->host->name + "]";
    W->stats.faults[f.kind]++; W->stats.faultSys[s]++;
    logf("FAULT %s at %s pid=%d role=%s path=%s err=%d", faultName[f.kind], sysName[s], p->pid, p->role.c_str(), path ? path : "", f.err);
    mix((uint64_t)f.kind * 77 + (uint64_t)s);
    switch (f.kind) {
        case FK_KILL: killProc(p, SIGKILL); break;
        case FK_KILLTREE: {
            Host *h = p->host; killHost(h); toSched(R_DEAD); abort();
        }
        case FK_POWER: {
            Host *h = p->host;
            if (f.arg == 1) { for (auto x : W->hosts) if (x != h) { h = x; break; } }   // the other host
            bool me = p->host == h;
            powerCrash(h, f.seed);
            if (me) { toSched(R_DEAD); abort(); }
            break;
        }
        case FK_ERRNO: injErr = f.err; break;
        case FK_NOMEM: injErr = ENOMEM; break;
        case FK_SHORT: injShort = 1; break;
        case FK_STALL: p->stallUntil = W->now + f.arg; toSched(R_YIELD); if (p->sigPending) deliverSignals(); break;
        case FK_TERM: {
            // signal the main process of the op (or the process itself)
            Proc *t = p;
            if (f.arg == 0) for (auto &kv : W->procs) if (!kv.second->exited && kv.second->op == p->op && kv.second->role == "main") t = kv.second;
            signalProc(t, f.err ? f.err : SIGTERM);
            if (t == p) deliverSignals();
            break;
        }
        case FK_CLOCK: p->host->clockOff += f.arg; break;
        case FK_FULL: p->host->diskFull = true; break;
        case FK_BREAK: breakSsh(); break;
        case FK_CALL: f.call(); if (p->exited) { toSched(R_DEAD); abort(); } break;
        default: break;
    }
}

static const int64_t sysLat[S_COUNT] = {};

void sysEnter(Sys s, const char *path)
{
    Proc *p = W->cur;
    injErr = 0; injShort = 0;
    p->syscalls++; W->stats.syscalls++;
    W->now += W->sched.range(W->latMin, W->latMax) + (s == S_FSYNC ? W->fsyncLat : 0);
    schedPoint();
    p = W->cur;
    mix(((uint64_t)p->pid << 8) ^ (uint64_t)s ^ ((uint64_t)W->now << 20));
    if (path) mix(hashBytes(path, strlen(path)));
    if (W->trace && s != S_MALLOC && s != S_SLEEP && s != S_POLL)
        logf("%d %s@%s %s %s", p->pid, p->role.c_str(), p->host->name.c_str(), sysName[s], path ? path : "");
    if (p->op >= 0 && p->op == W->curOp) {
        int c = sysClass(s);
        for (int i = 0; i < 6; i++) if (c & (1 << i)) W->opCount[i]++;
        if (W->profiling) {
            World::Prof e; e.sys = (uint8_t)s; e.cls = (uint8_t)c; e.idx = (uint32_t)W->prof.size(); snprintf(e.role, sizeof e.role, "%s", p->role.c_str());
            std::string n; if (path) { e.path = path; for (const char *q = path; *q; q++) if (!(*q >= '0' && *q <= '9') && !(*q >= 'a' && *q <= 'f' && q > path && (q[-1] >= '0' && q[-1] <= '9'))) n += *q; }
            e.site = hashStr(n, (uint64_t)s * 131 + hashStr(p->role)); W->prof.push_back(e);
        }
    }
    if (W->faultsOn && !W->faults.empty()) {
        for (size_t i = 0; i < W->faults.size(); i++) {
            Fault &f = W->faults[i];
            if (f.fired >= f.repeat || f.nth < 0) continue;
            if (!matchFault(f, s, p, path)) continue;
            // errno/short faults only make sense on calls that can return them
            if (f.kind == FK_NOMEM && s != S_MALLOC) continue;
            if (f.kind == FK_SHORT && s != S_WRITE) continue;
            if (f.seen++ >= f.nth) fireFault(f, s, p, path);
        }
    }
    for (auto &pre : p->host->eioPath) if (path && !strncmp(path, pre.c_str(), pre.size())) injErr = EIO;
}

static int faultErr() { int e = injErr; injErr = 0; return e; }
int takeErr() { return faultErr(); }
static void mutDone(Sys s, const std::string &path) { if (W->onMut) W->onMut(W->cur->host, s, path); }

//=================================================================================================================================
static stack_t altStack;
static void onCrashSig(int sig)
{
    if (W && W->cur) {
        sigset_t ss; sigemptyset(&ss); sigaddset(&ss, sig); sigprocmask(SIG_UNBLOCK, &ss, nullptr);
        W->stats.segv++;
        Proc *p = W->cur;
        logf("CRASH signal %d in pid=%d role=%s", sig, p->pid, p->role.c_str());
        procTeardown(p, sig);
        toSched(R_DEAD);
    }
    signal(sig, SIG_DFL); raise(sig);
}

void osInit(uint64_t seed)
{
    static bool once = false;
    if (!once) {
        once = true;
        gSize = (size_t)(__pgbr_end - __pgbr_start);
        gPristine = (char *)malloc(gSize); memcpy(gPristine, __pgbr_start, gSize);
        void *m = mmap((void *)SLOT_BASE, SLOT_SIZE * SLOT_MAX, PROT_READ | PROT_WRITE,
            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (m == MAP_FAILED) { perror("sim mmap"); _exit(99); }
        for (int i = SLOT_MAX - 1; i >= 0; i--) slotFree.push_back(i);
        altStack.ss_size = 65536; altStack.ss_sp = malloc(65536); sigaltstack(&altStack, nullptr);
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onCrashSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
        sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGABRT, &sa, nullptr);
        sigaction(SIGILL, &sa, nullptr);
    }
    setenv("TZ", "UTC", 1); tzset();
    W = new World;
    W->sched.seedIt(seed ^ 0x5C4ED); W->misc.seedIt(seed ^ 0x315C); W->dirSalt = seed * 0x9E3779B97F4A7C15ull;
    W->epoch = 1700000000;
    loaded = nullptr;
}

static Proc *C() { return W->cur; }
static int fail(int e) { errno = e; return -1; }
static OFile *F(int fd) { Proc *p = C(); if (fd < 0 || (size_t)fd >= p->fd.size()) return nullptr; return p->fd[(size_t)fd]; }
static std::string absPath(const char *path) { return path[0] == '/' ? path : C()->cwd + "/" + path; }

static std::vector<std::string> shellSplit(const std::string &s)
{
    std::vector<std::string> v; std::string cur; bool has = false;
    for (size_t i = 0; i < s.size(); i++) {
        char c = s[i];
        if (c == '\\' && i + 1 < s.size()) { cur += s[++i]; has = true; }
        else if (c == '\'') { has = true; for (i++; i < s.size() && s[i] != '\''; i++) cur += s[i]; }
        else if (c == '"') { has = true; for (i++; i < s.size() && s[i] != '"'; i++) { if (s[i] == '\\' && i + 1 < s.size()) i++; cur += s[i]; } }
        else if (c == ' ') { if (has) v.push_back(cur); cur.clear(); has = false; }
        else { cur += c; has = true; }
    }
    if (has) v.push_back(cur);
    return v;
}

} // namespace sim
using namespace sim;

//=================================================================================================================================
// Syscall surface
//=================================================================================================================================
extern "C" {

void *sim_malloc(size_t n)
{
    Proc *p = W->cur;
    if (!p) return malloc(n);
    if (W->faultsOn && !W->faults.empty()) {
        bool mem = false; for (auto &f : W->faults) if (f.kind == FK_NOMEM) mem = true;
        if (mem && p->op >= 0) {
            if (p->op == W->curOp) W->opCount[5]++;
            for (auto &f : W->faults) {
                if (f.kind != FK_NOMEM || f.fired >= f.repeat || f.nth < 0 || !matchFault(f, S_MALLOC, p, nullptr)) continue;
                if (f.seen++ >= f.nth) { fireFault(f, S_MALLOC, p, nullptr); injErr = 0; errno = ENOMEM; return nullptr; }
            }
        }
    }
    void *r = arenaAlloc(p, n ? n : 1);
    if (!r) errno = ENOMEM;
    return r;
}
void sim_free(void *ptr)
{
    if (!ptr) return;
    Proc *p = W->cur;
    if (inArena(p, ptr)) arenaFree(p, ptr); else free(ptr);
}
void *sim_realloc(void *ptr, size_t n)
{
    Proc *p = W->cur;
    if (!ptr) return sim_malloc(n);
    if (!inArena(p, ptr)) return realloc(ptr, n);
    Blk *b = (Blk *)ptr - 1;
    if (n + sizeof(Blk) <= ((size_t)1 << b->cls)) { arenaOf(p)->live += n - b->size; b->size = n; return ptr; }
    void *r = sim_malloc(n);
    if (!r) return nullptr;
    memcpy(r, ptr, b->size < n ? b->size : n);
    arenaFree(p, ptr);
    return r;
}
void *sim_calloc(size_t a, size_t b) { void *r = sim_malloc(a * b); if (r) memset(r, 0, a * b); return r; }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)sim_malloc(n); if (r) memcpy(r, s, n); return r; }

//---------------------------------------------------------------------------------------------------------------------------------
static int openCommon(const char *path, int flags, unsigned mode)
{
    bool creat = flags & O_CREAT;
    std::string full = absPath(path);
    sysEnter(creat ? S_CREAT : S_OPEN, full.c_str());
    if (int e = faultErr()) return fail(e);
    Proc *p = C();
    if (full == "/dev/null") { OFile *o = new OFile; o->kind = ONull; return fdAlloc(p, o, flags & O_CLOEXEC); }
    Inode *d = nullptr, *i = nullptr; std::string n;
    if (int e = resolve(p->host, p->cwd, path, !(flags & O_NOFOLLOW), &d, &n, &i)) return fail(e);
    if (i && i->type == TLink) return fail(ELOOP);
    if (!i) {
        if (!creat) return fail(ENOENT);
        if (p->host->diskFull) return fail(ENOSPC);
        i = inodeNew(p->host, TFile, mode & ~p->umask_ & 07777, p->uid, p->gid);
        dirAdd(p->host, d, n, i);
        OFile *o = new OFile; o->ino = i; o->dir = d; o->flags = flags; o->path = full; o->host = p->host;
        int fd = fdAlloc(p, o, flags & O_CLOEXEC);
        mutDone(S_CREAT, full);
        return fd;
    }
    if (creat && (flags & O_EXCL)) return fail(EEXIST);
    int acc = flags & O_ACCMODE;
    if (i->type == TDir && acc != O_RDONLY) return fail(EISDIR);
    if ((flags & O_DIRECTORY) && i->type != TDir) return fail(ENOTDIR);
    // permission check for non-root
    if (p->uid != 0) {
        unsigned sh = i->uid == p->uid ? 6 : i->gid == p->gid ? 3 : 0;
        unsigned m = (i->mode >> sh) & 7;
        if ((acc == O_RDONLY || acc == O_RDWR) && !(m & 4)) return fail(EACCES);
        if ((acc == O_WRONLY || acc == O_RDWR) && !(m & 2)) return fail(EACCES);
    }
    OFile *o = new OFile; o->ino = i; o->dir = d; o->flags = flags; o->path = full; o->host = p->host; o->kind = i->type == TDir ? ODirK : OFileK;
    if ((flags & O_TRUNC) && i->type == TFile && acc != O_RDONLY) {
        i->lostWrite = false;
        i->data = std::make_shared<std::string>(); i->mtime = wallSec(p->host); i->gen++;
    }
    int fd = fdAlloc(p, o, flags & O_CLOEXEC);
    if ((flags & O_TRUNC) && i->type == TFile) mutDone(S_CREAT, full);
    return fd;
}
int sim_open(const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags); unsigned m = (flags & O_CREAT) ? va_arg(ap, unsigned) : 0; va_end(ap);
    return openCommon(path, flags, m);
}
int sim_creat(const char *path, unsigned mode) { return openCommon(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int sim_openat(int dfd, const char *path, int flags, ...)
{
    va_list ap; va_start(ap, flags); unsigned m = (flags & O_CREAT) ? va_arg(ap, unsigned) : 0; va_end(ap);
    if (path[0] != '/' && dfd != AT_FDCWD) { OFile *o = F(dfd); if (!o) return fail(EBADF); std::string f = o->path + "/" + path; return openCommon(f.c_str(), flags, m); }
    return openCommon(path, flags, m);
}

static ssize_t pipeRead(OFile *o, Pipe *pp, void *buf, size_t n)
{
    if (o->flags & O_NONBLOCK) { if (pp->avail() == 0 && pp->writers > 0 && !pp->broken) return fail(EAGAIN); }
    blockOn([pp] { return pp->avail() > 0 || pp->writers == 0 || pp->broken; }, -1);
    size_t a = pp->avail();
    if (a == 0) return 0;
    if (n > a) n = a;
    // short reads on pipes are legal: sometimes return less
    if (n > 1 && W->sched.below(8) == 0) n = 1 + W->sched.below(n);
    memcpy(buf, pp->buf.data() + pp->pos, n);
    pp->pos += n;
    if (pp->pos == pp->buf.size()) { pp->buf.clear(); pp->pos = 0; }
    else if (pp->pos > 262144) { pp->buf.erase(0, pp->pos); pp->pos = 0; }
    mix(hashBytes(buf, n));
    return (ssize_t)n;
}
static ssize_t pipeWrite(OFile *o, Pipe *pp, const void *buf, size_t n)
{
    size_t done = 0;
    while (done < n) {
        if (pp->readers == 0 || pp->broken) {
            Proc *p = C();
            if (p->handler[SIGPIPE] == SIG_DFL || !p->handler[SIGPIPE]) killProc(p, SIGPIPE);
            return fail(EPIPE);
        }
        size_t room = pp->cap > pp->avail() ? pp->cap - pp->avail() : 0;
        if (room == 0) {
            if (o->flags & O_NONBLOCK) return done ? (ssize_t)done : fail(EAGAIN);
            blockOn([pp] { return pp->avail() < pp->cap || pp->readers == 0 || pp->broken; }, -1);
            continue;
        }
        size_t k = std::min(room, n - done);
        pp->buf.append((const char *)buf + done, k);
        done += k;
    }
    return (ssize_t)n;
}

ssize_t sim_read(int fd, void *buf, size_t n)
{
    OFile *o = F(fd);
    if (!o) return fail(EBADF);
    bool isPipe = o->kind == OPipeR || o->kind == OSock;
    sysEnter(isPipe ? S_PREAD : S_READ, isPipe ? nullptr : o->path.c_str());
    if (int e = faultErr()) return fail(e);
    switch (o->kind) {
        case OFileK: {
            std::string &d = *o->ino->data;
            if (o->off >= d.size()) return 0;
            size_t a = d.size() - o->off; if (n > a) n = a;
            memcpy(buf, d.data() + o->off, n); o->off += n;
            mix(hashBytes(buf, n));
            if (W->onRead) W->onRead(o->ino, o->off - n, n);
            return (ssize_t)n;
        }
        case OPipeR: case OSock: return pipeRead(o, o->pipe, buf, n);
        case ONull: return 0;
        case ODirK: return fail(EISDIR);
        default: return fail(EBADF);
    }
}

static ssize_t fileWrite(OFile *o, const void *buf, size_t n, uint64_t off)
{
    Host *h = o->host; Inode *i = o->ino;
    if (h->diskFull && off + n > i->data->size()) return fail(ENOSPC);
    if (h->diskFree >= 0 && off + n > i->data->size()) {
        uint64_t grow = off + n - i->data->size();
        if ((int64_t)grow > h->diskFree) {
            if (h->diskFree == 0) return fail(ENOSPC);
            n = (size_t)((uint64_t)n - (grow - (uint64_t)h->diskFree)); grow = (uint64_t)h->diskFree;    // short write at the end of the disk
        }
        h->diskFree -= (int64_t)grow;
    }
    if (i->data.use_count() > 1) i->data = std::make_shared<std::string>(*i->data);
    if (i->data->size() < off + n) i->data->resize(off + n, '\0');
    memcpy(&(*i->data)[off], buf, n);
    i->mtime = wallSec(h); i->gen++;
    return (ssize_t)n;
}

ssize_t sim_write(int fd, const void *buf, size_t n)
{
    OFile *o = F(fd);
    if (!o) return fail(EBADF);
    if (o->kind == OCapture) { if (o->cap->size() < (4u << 20)) o->cap->append((const char *)buf, n); if (W->trace) logf("OUT pid=%d %.*s", C()->pid, (int)std::min(n, (size_t)300), (const char *)buf); return (ssize_t)n; }
    if (o->kind == ONull) return (ssize_t)n;
    bool isPipe = o->kind == OPipeW || o->kind == OSock;
    mix(hashBytes(buf, n));
    sysEnter(isPipe ? S_PWRITE : S_WRITE, isPipe ? nullptr : o->path.c_str());
    if (int e = faultErr()) return fail(e);
    if (o->kind == OPipeW) return pipeWrite(o, o->pipe, buf, n);
    if (o->kind == OSock) return pipeWrite(o, o->pipe2, buf, n);
    if (o->kind != OFileK || (o->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
    if (injShort && n > 1) { injShort = 0; n = (size_t)(1 + W->misc.below(n - 1)); }
    uint64_t off = (o->flags & O_APPEND) ? o->ino->data->size() : o->off;
    ssize_t r = fileWrite(o, buf, n, off);
    if (r > 0) o->off = off + (uint64_t)r;
    if (r > 0) mutDone(S_WRITE, o->path);
    return r;
}
ssize_t sim_pread(int fd, void *buf, size_t n, off_t off)
{
    OFile *o = F(fd); if (!o || o->kind != OFileK) return fail(EBADF);
    sysEnter(S_READ, o->path.c_str()); if (int e = faultErr()) return fail(e);
    std::string &d = *o->ino->data; if ((uint64_t)off >= d.size()) return 0;
    size_t a = d.size() - (size_t)off; if (n > a) n = a; memcpy(buf, d.data() + off, n); return (ssize_t)n;
}
ssize_t sim_pwrite(int fd, const void *buf, size_t n, off_t off)
{
    OFile *o = F(fd); if (!o || o->kind != OFileK) return fail(EBADF);
    sysEnter(S_WRITE, o->path.c_str()); if (int e = faultErr()) return fail(e);
    ssize_t r = fileWrite(o, buf, n, (uint64_t)off); if (r > 0) mutDone(S_WRITE, o->path); return r;
}
ssize_t sim_writev(int fd, const struct iovec *iov, int cnt)
{
    std::string s; for (int i = 0; i < cnt; i++) s.append((const char *)iov[i].iov_base, iov[i].iov_len);
    return sim_write(fd, s.data(), s.size());
}
ssize_t sim_readv(int fd, const struct iovec *iov, int cnt)
{
    ssize_t t = 0; for (int i = 0; i < cnt; i++) { ssize_t r = sim_read(fd, iov[i].iov_base, iov[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < iov[i].iov_len) break; }
    return t;
}
int sim_close(int fd)
{
    OFile *o = F(fd);
    if (!o) return fail(EBADF);
    Proc *p = C();
    p->fd[(size_t)fd] = nullptr;
    fdUnref(o);
    return 0;
}
off_t sim_lseek(int fd, off_t off, int whence)
{
    OFile *o = F(fd); if (!o) return fail(EBADF);
    if (o->kind != OFileK) return fail(ESPIPE);
    int64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)o->off : (int64_t)o->ino->data->size();
    if (b + off < 0) return fail(EINVAL);
    o->off = (uint64_t)(b + off);
    return (off_t)o->off;
}
static void persistChain(Inode *d)
{
    // A directory that is synced (or holds a synced file) stays reachable: journaling file systems commit the mkdir chain
    for (Inode *c = d; c && c->parent; c = c->parent) {
        Inode *par = c->parent;
        for (size_t k = 0; k < par->pend.size(); k++) {
            if (par->pend[k].add && par->pend[k].ino == c && par->pend[k].del.empty()) { par->dent[par->pend[k].name] = c; par->pend.erase(par->pend.begin() + (long)k); break; }
        }
    }
}
int sim_fsync(int fd)
{
    OFile *o = F(fd); if (!o) return fail(EBADF);
    sysEnter(S_FSYNC, o->path.c_str());
    if (int e = faultErr()) { if (o->ino) o->ino->lostWrite = true; return fail(e); }
    W->cur->host->metaDurable = W->metaSeq;
    if (o->kind == OFileK) { Inode *i = o->ino; if (!i->lostWrite) { i->ddata = i->data; i->everSync = true; i->dmtime = i->mtime; } persistChain(o->dir); }
    else if (o->kind == ODirK) {
        Inode *i = o->ino;
        i->pend.clear(); i->dent = i->ent;
        persistChain(i);
    } else return fail(EINVAL);
    return 0;
}
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_ftruncate(int fd, off_t len)
{
    OFile *o = F(fd); if (!o || o->kind != OFileK) return fail(EBADF);
    sysEnter(S_FTRUNC, o->path.c_str()); if (int e = faultErr()) return fail(e);
    Inode *i = o->ino; if (i->data.use_count() > 1) i->data = std::make_shared<std::string>(*i->data);
    i->data->resize((size_t)len, '\0'); i->gen++; i->mtime = wallSec(o->host);
    mutDone(S_FTRUNC, o->path);
    return 0;
}
static void fillStat(Host *h, Inode *i, struct stat *st)
{
    memset(st, 0, sizeof *st);
    st->st_ino = i->no; st->st_dev = (dev_t)(100 + h->idx);
    st->st_mode = i->mode | (i->type == TDir ? S_IFDIR : i->type == TLink ? S_IFLNK : i->type == TFifo ? S_IFIFO : S_IFREG);
    st->st_nlink = (nlink_t)i->nlink; st->st_uid = i->uid; st->st_gid = i->gid; st->st_size = i->data ? (off_t)i->data->size() : 4096;
    st->st_mtim.tv_sec = i->mtime; st->st_atim.tv_sec = i->mtime; st->st_ctim.tv_sec = i->mtime; st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
}
static int statCommon(const char *path, struct stat *st, bool follow)
{
    std::string full = absPath(path);
    sysEnter(S_STAT, full.c_str()); if (int e = faultErr()) return fail(e);
    Inode *d = nullptr, *i = nullptr; std::string n;
    if (int e = resolve(C()->host, C()->cwd, path, follow, &d, &n, &i)) return fail(e);
    if (!i) return fail(ENOENT);
    fillStat(C()->host, i, st);
    return 0;
}
int sim_stat(const char *path, struct stat *st) { return statCommon(path, st, true); }
int sim_lstat(const char *path, struct stat *st) { return statCommon(path, st, false); }
int sim_fstat(int fd, struct stat *st) { OFile *o = F(fd); if (!o) return fail(EBADF); if (!o->ino) { memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; return 0; } fillStat(C()->host, o->ino, st); return 0; }
int sim_fstatat(int dfd, const char *path, struct stat *st, int flags)
{
    std::string f = path; if (path[0] != '/' && dfd != AT_FDCWD) { OFile *o = F(dfd); if (!o) return fail(EBADF); f = o->path + "/" + path; }
    return statCommon(f.c_str(), st, !(flags & AT_SYMLINK_NOFOLLOW));
}
int sim_access(const char *path, int) { struct stat st; return statCommon(path, &st, true); }
int sim_faccessat(int, const char *path, int, int) { struct stat st; return statCommon(path, &st, true); }

ssize_t sim_readlink(const char *path, char *buf, size_t n)
{
    std::string full = absPath(path);
    sysEnter(S_READLINK, full.c_str()); if (int e = faultErr()) return fail(e);
    Inode *d = nullptr, *i = nullptr; std::string nm;
    if (int e = resolve(C()->host, C()->cwd, path, false, &d, &nm, &i)) return fail(e);
    if (!i) return fail(ENOENT);
    if (i->type != TLink) return fail(EINVAL);
    size_t l = std::min(n, i->data->size()); memcpy(buf, i->data->data(), l);
    return (ssize_t)l;
}
#define MUT_PROLOGUE(S, path)                                                                                                      \
    std::string full = absPath(path);                                                                                              \
    sysEnter(S, full.c_str());                                                                                                     \
    if (int e = faultErr()) return fail(e);                                                                                        \
    Proc *p = C(); Inode *d = nullptr, *i = nullptr; std::string n;

int sim_mkdir(const char *path, mode_t mode)
{
    MUT_PROLOGUE(S_MKDIR, path)
    if (int e = resolve(p->host, p->cwd, path, false, &d, &n, &i)) return fail(e);
    if (i) return fail(EEXIST);
    if (p->host->diskFull) return fail(ENOSPC);
    Inode *nd = inodeNew(p->host, TDir, mode & ~p->umask_ & 07777, p->uid, p->gid);
    dirAdd(p->host, d, n, nd);
    mutDone(S_MKDIR, full);
    return 0;
}
int sim_rmdir(const char *path)
{
    MUT_PROLOGUE(S_RMDIR, path)
    if (int e = resolve(p->host, p->cwd, path, false, &d, &n, &i)) return fail(e);
    if (!i) return fail(ENOENT);
    if (i->type != TDir) return fail(ENOTDIR);
    if (!i->ent.empty()) return fail(ENOTEMPTY);
    dirDel(p->host, d, n);
    mutDone(S_RMDIR, full);
    return 0;
}
int sim_unlink(const char *path)
{
    MUT_PROLOGUE(S_UNLINK, path)
    if (int e = resolve(p->host, p->cwd, path, false, &d, &n, &i)) return fail(e);
    if (!i) return fail(ENOENT);
    if (i->type == TDir) return fail(EISDIR);
    dirDel(p->host, d, n); i->nlink--;
    mutDone(S_UNLINK, full);
    return 0;
}
int sim_remove(const char *path)
{
    Inode *i = fsLookup(C()->host, absPath(path), false);
    return i && i->type == TDir ? sim_rmdir(path) : sim_unlink(path);
}
int sim_unlinkat(int dfd, const char *path, int flags)
{
    std::string f = path; if (path[0] != '/' && dfd != AT_FDCWD) { OFile *o = F(dfd); if (!o) return fail(EBADF); f = o->path + "/" + path; }
    return (flags & AT_REMOVEDIR) ? sim_rmdir(f.c_str()) : sim_unlink(f.c_str());
}
int sim_rename(const char *from, const char *to)
{
    MUT_PROLOGUE(S_RENAME, from)
    std::string full2 = absPath(to);
    if (int e = resolve(p->host, p->cwd, from, false, &d, &n, &i)) return fail(e);
    if (!i) return fail(ENOENT);
    Inode *d2 = nullptr, *i2 = nullptr; std::string n2;
    if (int e = resolve(p->host, p->cwd, to, false, &d2, &n2, &i2)) return fail(e);
    if (i2 == i) return 0;
    if (i2) {
        if (i2->type == TDir && i->type != TDir) return fail(EISDIR);
        if (i->type == TDir && i2->type != TDir) return fail(ENOTDIR);
        if (i2->type == TDir && !i2->ent.empty()) return fail(ENOTEMPTY);
        i2->nlink--;
    }
    if (d == d2) {                                                  // one journal operation
        d->ent[n2] = i; d->ent.erase(n); d->pend.push_back({true, n2, i, n, ++W->metaSeq}); d->mtime = wallSec(p->host);
    } else { dirAdd(p->host, d2, n2, i); dirDel(p->host, d, n); }
    W->mutFrom = absPath(from); mutDone(S_RENAME, full2); W->mutFrom.clear();
    return 0;
}
int sim_renameat(int, const char *a, int, const char *b) { return sim_rename(a, b); }
int sim_link(const char *from, const char *to)
{
    MUT_PROLOGUE(S_LINK, to)
    Inode *s = nullptr; std::string sn; Inode *sd = nullptr;
    if (int e = resolve(p->host, p->cwd, from, false, &sd, &sn, &s)) return fail(e);
    if (!s) return fail(ENOENT);
    if (int e = resolve(p->host, p->cwd, to, false, &d, &n, &i)) return fail(e);
    if (i) return fail(EEXIST);
    dirAdd(p->host, d, n, s); s->nlink++;
    mutDone(S_LINK, full);
    return 0;
}
int sim_symlink(const char *target, const char *path)
{
    MUT_PROLOGUE(S_SYMLINK, path)
    if (int e = resolve(p->host, p->cwd, path, false, &d, &n, &i)) return fail(e);
    if (i) return fail(EEXIST);
    Inode *l = inodeNew(p->host, TLink, 0777, p->uid, p->gid); l->data = std::make_shared<std::string>(target); l->ddata = l->data;
    dirAdd(p->host, d, n, l);
    mutDone(S_SYMLINK, full);
    return 0;
}
int sim_chmod(const char *path, mode_t mode)
{
    MUT_PROLOGUE(S_CHMOD, path)
    if (int e = resolve(p->host, p->cwd, path, true, &d, &n, &i)) return fail(e);
    if (!i) return fail(ENOENT);
    if (p->uid != 0 && p->uid != i->uid) return fail(EPERM);
    i->mode = mode & 07777; mutDone(S_CHMOD, full);
    return 0;
}
int sim_fchmod(int fd, mode_t mode) { OFile *o = F(fd); if (!o || !o->ino) return fail(EBADF); sysEnter(S_CHMOD, o->path.c_str()); if (int e = faultErr()) return fail(e); o->ino->mode = mode & 07777; return 0; }
static int chownCommon(const char *path, uid_t uid, gid_t gid, bool follow)
{
    MUT_PROLOGUE(S_CHOWN, path)
    if (int e = resolve(p->host, p->cwd, path, follow, &d, &n, &i)) return fail(e);
    if (!i) return fail(ENOENT);
    if (p->uid != 0 && (uid != (uid_t)-1 && uid != i->uid)) return fail(EPERM);
    if (p->uid != 0 && (gid != (gid_t)-1 && gid != i->gid && gid != p->gid)) return fail(EPERM);
    if (uid != (uid_t)-1) i->uid = uid;
    if (gid != (gid_t)-1) i->gid = gid;
    mutDone(S_CHOWN, full);
    return 0;
}
int sim_chown(const char *path, uid_t u, gid_t g) { return chownCommon(path, u, g, true); }
int sim_lchown(const char *path, uid_t u, gid_t g) { return chownCommon(path, u, g, false); }
int sim_fchown(int fd, uid_t u, gid_t g) { OFile *o = F(fd); if (!o || !o->ino) return fail(EBADF); if (u != (uid_t)-1) o->ino->uid = u; if (g != (gid_t)-1) o->ino->gid = g; return 0; }
static int utimeCommon(const char *path, int64_t t, bool follow)
{
    MUT_PROLOGUE(S_UTIME, path)
    if (int e = resolve(p->host, p->cwd, path, follow, &d, &n, &i)) return fail(e);
    if (!i) return fail(ENOENT);
    i->mtime = t; mutDone(S_UTIME, full);
    return 0;
}
int sim_utime(const char *path, const struct utimbuf *t) { return utimeCommon(path, t ? t->modtime : wallSec(C()->host), true); }
int sim_utimes(const char *path, const struct timeval *t) { return utimeCommon(path, t ? t[1].tv_sec : wallSec(C()->host), true); }
int sim_utimensat(int, const char *path, const struct timespec *t, int fl) { return utimeCommon(path, t ? t[1].tv_sec : wallSec(C()->host), !(fl & AT_SYMLINK_NOFOLLOW)); }
int sim_futimens(int fd, const struct timespec *t) { OFile *o = F(fd); if (!o || !o->ino) return fail(EBADF); sysEnter(S_UTIME, o->path.c_str()); if (int e = faultErr()) return fail(e); o->ino->mtime = t ? t[1].tv_sec : wallSec(C()->host); return 0; }
mode_t sim_umask(mode_t m) { mode_t o = C()->umask_; C()->umask_ = m & 0777; return o; }

//---------------------------------------------------------------------------------------------------------------------------------
struct SimDir { std::vector<std::pair<std::string, unsigned char>> names; size_t pos; size_t failAt = SIZE_MAX; int err = 0; struct dirent64 de; std::string path; uint64_t magic; };
DIR *sim_opendir(const char *path)
{
    std::string full = absPath(path);
    sysEnter(S_READDIR, full.c_str()); int e0 = faultErr(), late = 0; uint64_t hs = hashStr(full, W->dirSalt);
    if (e0 && hs % 2) late = EIO; else if (e0) { errno = e0; return nullptr; }     // an error opening the directory, or later, reading it
    Proc *p = C(); Inode *d = nullptr, *i = nullptr; std::string n;
    if (int e = resolve(p->host, p->cwd, path, true, &d, &n, &i)) { errno = e; return nullptr; }
    if (!i) { errno = ENOENT; return nullptr; }
    if (i->type != TDir) { errno = ENOTDIR; return nullptr; }
    SimDir *s = new SimDir; s->pos = 0; s->path = full;
    s->names.push_back({".", DT_DIR}); s->names.push_back({"..", DT_DIR});
    std::vector<std::pair<uint64_t, std::string>> v;
    for (auto &kv : i->ent) v.push_back({hashStr(kv.first, W->dirSalt), kv.first});
    std::sort(v.begin(), v.end());
    for (auto &x : v) { Inode *c = i->ent[x.second]; s->names.push_back({x.second, (unsigned char)(c->type == TDir ? DT_DIR : c->type == TLink ? DT_LNK : DT_REG)}); }
    if (late) { s->failAt = (hs >> 8) % (s->names.size() + 1); s->err = late; }
    return (DIR *)s;
}
struct dirent64 *sim_readdir(DIR *dp)
{
    SimDir *s = (SimDir *)dp;
    if (s->pos >= s->failAt) { errno = s->err; return nullptr; }
    if (s->pos >= s->names.size()) return nullptr;
    memset(&s->de, 0, sizeof s->de);
    s->de.d_ino = 1 + s->pos; s->de.d_type = s->names[s->pos].second; s->de.d_reclen = sizeof s->de;
    snprintf(s->de.d_name, sizeof s->de.d_name, "%s", s->names[s->pos].first.c_str());
    s->pos++;
    return &s->de;
}
int sim_closedir(DIR *dp) { delete (SimDir *)dp; return 0; }

int sim_flock(int fd, int op)
{
    OFile *o = F(fd); if (!o || !o->ino) return fail(EBADF);
    sysEnter(S_FLOCK, o->path.c_str()); if (int e = faultErr()) return fail(e);
    Inode *i = o->ino;
    int k = op & ~LOCK_NB;
    if (k == LOCK_UN) { if (i->lockEx == o) i->lockEx = nullptr; i->lockSh.erase(o); return 0; }
    auto can = [i, o, k] { if (i->lockEx && i->lockEx != o) return false; if (k == LOCK_EX) for (auto x : i->lockSh) if (x != o) return false; return true; };
    if (!can()) { if (op & LOCK_NB) return fail(EWOULDBLOCK); blockOn(can, -1); }
    if (k == LOCK_EX) { i->lockEx = o; i->lockSh.erase(o); } else { i->lockSh.insert(o); if (i->lockEx == o) i->lockEx = nullptr; }
    return 0;
}
int sim_fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    OFile *o = F(fd); if (!o) return fail(EBADF);
    Proc *p = C();
    switch (cmd) {
        case F_GETFD: return p->cx[(size_t)fd] ? FD_CLOEXEC : 0;
        case F_SETFD: p->cx[(size_t)fd] = (arg & FD_CLOEXEC) != 0; return 0;
        case F_GETFL: return o->flags;
        case F_SETFL: o->flags = (o->flags & O_ACCMODE) | ((int)arg & ~O_ACCMODE); return 0;
        case F_DUPFD: { size_t i = (size_t)arg; while (i < p->fd.size() && p->fd[i]) i++; if (i >= p->fd.size()) { p->fd.resize(i + 1); p->cx.resize(i + 1); } p->fd[i] = o; fdRef(o); return (int)i; }
        default: return 0;
    }
}
int sim_dup2(int a, int b)
{
    OFile *o = F(a); if (!o) return fail(EBADF);
    Proc *p = C();
    if (a == b) return b;
    if ((size_t)b >= p->fd.size()) { p->fd.resize((size_t)b + 1); p->cx.resize((size_t)b + 1); }
    if (p->fd[(size_t)b]) fdUnref(p->fd[(size_t)b]);
    p->fd[(size_t)b] = o; p->cx[(size_t)b] = 0; fdRef(o);
    return b;
}
int sim_dup(int a) { OFile *o = F(a); if (!o) return fail(EBADF); return fdAlloc(C(), o, false); }
static int pipeCommon(int fds[2], int flags)
{
    sysEnter(S_PIPE, nullptr); if (int e = faultErr()) return fail(e);
    Pipe *pp = new Pipe; pp->readers = pp->writers = 1;
    OFile *r = new OFile; r->kind = OPipeR; r->pipe = pp; OFile *w = new OFile; w->kind = OPipeW; w->pipe = pp;
    fds[0] = fdAlloc(C(), r, flags & O_CLOEXEC); fds[1] = fdAlloc(C(), w, flags & O_CLOEXEC);
    return 0;
}
int sim_pipe(int fds[2]) { return pipeCommon(fds, 0); }
int sim_pipe2(int fds[2], int flags) { return pipeCommon(fds, flags); }

static short pollOne(OFile *o, short ev)
{
    short r = 0;
    if (!o) return POLLNVAL;
    switch (o->kind) {
        case OPipeR: if (o->pipe->avail() > 0) r |= POLLIN; if (o->pipe->writers == 0 || o->pipe->broken) r |= POLLHUP; break;
        case OPipeW: if (o->pipe->avail() < o->pipe->cap) r |= POLLOUT; if (o->pipe->readers == 0 || o->pipe->broken) r |= POLLERR; break;
        case OSock:
            if (o->rdy) { if (o->rdy()) r |= POLLIN | POLLOUT; break; }
            if (o->pipe && (o->pipe->avail() > 0 || o->pipe->writers == 0 || o->pipe->broken)) r |= POLLIN;
            if (o->pipe2 && (o->pipe2->avail() < o->pipe2->cap || o->pipe2->readers == 0 || o->pipe2->broken)) r |= POLLOUT;
            break;
        case OPq: if (o->rdy && o->rdy()) r |= POLLIN; r |= POLLOUT; break;
        default: r |= POLLIN | POLLOUT;
    }
    return (short)(r & (ev | POLLHUP | POLLERR | POLLNVAL));
}
int sim_poll(struct pollfd *fds, nfds_t n, int timeout)
{
    sysEnter(S_POLL, nullptr);
    if (int e = faultErr()) { if (e == EINTR) return fail(e); }
    Proc *p = C();
    auto any = [p, fds, n] { for (nfds_t i = 0; i < n; i++) { int fd = fds[i].fd; OFile *o = fd >= 0 && (size_t)fd < p->fd.size() ? p->fd[(size_t)fd] : nullptr; if (fd >= 0 && pollOne(o, fds[i].events)) return true; } return false; };
    if (timeout != 0) blockOn(any, timeout < 0 ? -1 : W->now + (usec)timeout * 1000);
    int c = 0;
    for (nfds_t i = 0; i < n; i++) { fds[i].revents = fds[i].fd >= 0 ? pollOne(F(fds[i].fd), fds[i].events) : 0; if (fds[i].revents) c++; }
    return c;
}
int sim_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
    sysEnter(S_POLL, nullptr);
    if (int e = faultErr()) { if (e == EINTR) return fail(e); }
    Proc *p = C();
    fd_set r0, w0; FD_ZERO(&r0); FD_ZERO(&w0); if (r) r0 = *r; if (w) w0 = *w;
    auto chk = [p, n, r0, w0](fd_set *ro, fd_set *wo) { int c = 0; for (int i = 0; i < n; i++) { OFile *o = (size_t)i < p->fd.size() ? p->fd[(size_t)i] : nullptr;
        if (FD_ISSET(i, &r0) && o && (pollOne(o, POLLIN) & (POLLIN | POLLHUP | POLLERR))) { c++; if (ro) FD_SET(i, ro); }
        if (FD_ISSET(i, &w0) && o && (pollOne(o, POLLOUT) & (POLLOUT | POLLERR))) { c++; if (wo) FD_SET(i, wo); } } return c; };
    usec dl = tv ? W->now + (usec)tv->tv_sec * 1000000 + tv->tv_usec : -1;
    blockOn([chk] { return chk(nullptr, nullptr) > 0; }, dl);
    if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (x) FD_ZERO(x);
    return chk(r, w);
}

//---------------------------------------------------------------------------------------------------------------------------------
pid_t sim_fork(void)
{
    sysEnter(S_FORK, nullptr);
    if (int e = injErr) { injErr = 0; errno = e; return -1; }
    toSched(R_FORK);
    return W->cur->forkRet;
}
int sim_execvp(const char *file, char *const argv[])
{
    sysEnter(S_EXEC, file);
    if (int e = injErr) { injErr = 0; errno = e; return -1; }
    Proc *p = C();
    std::vector<std::string> a;
    for (int i = 0; argv[i]; i++) a.push_back(argv[i]);
    std::string base = file; size_t sl = base.rfind('/'); if (sl != std::string::npos) base = base.substr(sl + 1);
    if (base == "ssh") {
        std::string target; std::string cmd; size_t i = 1;
        for (; i < a.size(); i++) {
            if (a[i] == "-o" || a[i] == "-p" || a[i] == "-i") { i++; continue; }
            if (!a[i].empty() && a[i][0] == '-') continue;
            target = a[i]; i++; break;
        }
        for (; i < a.size(); i++) cmd += (cmd.empty() ? "" : " ") + a[i];
        size_t at = target.find('@'); std::string user = at == std::string::npos ? "postgres" : target.substr(0, at);
        std::string hn = at == std::string::npos ? target : target.substr(at + 1);
        Host *h = nullptr; for (auto x : W->hosts) if (x->name == hn) h = x;
        for (size_t k = 0; k < p->fd.size(); k++) if (p->fd[k] && (p->cx[k] || k > 2)) { fdUnref(p->fd[k]); p->fd[k] = nullptr; }
        if (!h || !h->reachable) { procExit(255 << 8); }
        a = shellSplit(cmd);
        p->host = h; p->isSsh = true; p->pid = W->nextPid++;
        W->procs.erase(p->waitPid); W->procs[p->pid] = p;
        for (auto &u : h->users) if (u.name == user) { p->uid = u.id; p->gid = u.id; }
        for (size_t k = 0; k < p->fd.size(); k++) if (p->fd[k] && (p->fd[k]->kind == OPipeR || p->fd[k]->kind == OPipeW)) p->fd[k]->pipe->ssh = true;
        p->env.clear(); p->cwd = "/"; p->umask_ = 022;
        for (int s = 0; s < 65; s++) p->handler[s] = nullptr;
    } else if (base != "pgbackrest") return fail(ENOENT);
    else {
        for (size_t k = 0; k < p->fd.size(); k++) if (p->fd[k] && p->cx[k]) { fdUnref(p->fd[k]); p->fd[k] = nullptr; }
        for (int s = 0; s < 65; s++) if (p->handler[s] != SIG_IGN) p->handler[s] = nullptr;
    }
    p->argv = a; p->role = roleOf(a);
    if (W->trace) { std::string s; for (auto &x : a) s += x + " "; logf("exec pid=%d host=%s: %s", p->pid, p->host->name.c_str(), s.c_str()); }
    toSched(R_EXEC);
    abort();
}
int sim_execv(const char *file, char *const argv[]) { return sim_execvp(file, argv); }
void sim_exit(int rc) { procExit((rc & 0xff) << 8); }
void sim__exit(int rc) { procExit((rc & 0xff) << 8); }
void sim_abort(void) { procExit(SIGABRT); }
pid_t sim_waitpid(pid_t pid, int *status, int opts)
{
    sysEnter(S_WAIT, nullptr); injErr = 0;
    Proc *p = C();
    auto find = [p, pid](bool zombieOnly) -> Proc * {
        for (auto &kv : W->procs) { Proc *c = kv.second; if (c->parent == p && (pid <= 0 || c->waitPid == pid)) if (!zombieOnly || c->st == Proc::ZOMBIE) return c; }
        return nullptr;
    };
    if (!find(false)) return fail(ECHILD);
    if (!find(true)) {
        if (opts & WNOHANG) return 0;
        blockOn([find] { return find(true) || !find(false); }, -1);
        if (!find(true)) return fail(ECHILD);
    }
    Proc *z = find(true);
    int wp = z->waitPid;
    if (status) *status = z->exitStatus;
    z->st = Proc::DEAD; z->parent = nullptr;
    mix((uint64_t)z->exitStatus);
    return wp;
}
pid_t sim_getpid(void) { return C()->pid; }
pid_t sim_getppid(void) { return C()->parent ? C()->parent->pid : 1; }
uid_t sim_getuid(void) { return C()->uid; }
gid_t sim_getgid(void) { return C()->gid; }
uid_t sim_geteuid(void) { return C()->uid; }
gid_t sim_getegid(void) { return C()->gid; }
int sim_kill(pid_t pid, int sig)
{
    sysEnter(S_KILL, nullptr); if (int e = faultErr()) return fail(e);
    Proc *p = C();
    // pids are only visible on the same host
    for (auto &kv : W->procs) { Proc *t = kv.second; if (t->waitPid == pid && t->isSsh && t->parent == p) { if (sig) signalProc(t, sig); return 0; } }
    auto it = W->procs.find(pid);
    if (it == W->procs.end() || it->second->host != p->host || (it->second->exited && it->second->st != Proc::ZOMBIE)) return fail(ESRCH);
    logf("kill(%d,%d) by pid=%d", pid, sig, p->pid);
    if (it->second->exited) return 0;
    if (sig == 0) return 0;
    signalProc(it->second, sig);
    if (it->second == p) deliverSignals();
    return 0;
}
int sim_raise(int sig) { signalProc(C(), sig); deliverSignals(); return 0; }
pid_t sim_setsid(void) { C()->sess = true; return C()->pid; }
int sim_setpriority(int, int, int) { return 0; }
int sim_nice(int) { return 0; }
void (*sim_signal(int sig, void (*h)(int)))(int) { void (*o)(int) = C()->handler[sig]; C()->handler[sig] = h; return o; }
int sim_sigaction(int sig, const struct sigaction *sa, struct sigaction *old)
{
    if (old) { memset(old, 0, sizeof *old); old->sa_handler = C()->handler[sig]; }
    if (sa) C()->handler[sig] = sa->sa_handler;
    return 0;
}
int sim_sigprocmask(int, const sigset_t *, sigset_t *) { return 0; }
unsigned sim_alarm(unsigned) { return 0; }

int sim_nanosleep(const struct timespec *rq, struct timespec *rm)
{
    sysEnter(S_SLEEP, nullptr); injErr = 0;
    usec dl = W->now + (usec)rq->tv_sec * 1000000 + rq->tv_nsec / 1000;
    if (dl == W->now) dl++;
    blockOn([] { return false; }, dl);
    if (rm) memset(rm, 0, sizeof *rm);
    return 0;
}
unsigned sim_sleep(unsigned s) { struct timespec t = {(time_t)s, 0}; sim_nanosleep(&t, nullptr); return 0; }
int sim_usleep(unsigned us) { struct timespec t = {us / 1000000, (long)(us % 1000000) * 1000}; return sim_nanosleep(&t, nullptr); }
int sim_gettimeofday(struct timeval *tv, void *)
{
    Proc *p = C(); W->now += 1;
    usec t = W->now + p->host->clockOff;
    tv->tv_sec = W->epoch + (t >= 0 ? t / 1000000 : (t - 999999) / 1000000);
    tv->tv_usec = ((t % 1000000) + 1000000) % 1000000;
    return 0;
}
time_t sim_time(time_t *t) { struct timeval tv; sim_gettimeofday(&tv, nullptr); if (t) *t = tv.tv_sec; return tv.tv_sec; }
int sim_clock_gettime(clockid_t c, struct timespec *ts)
{
    if (c == CLOCK_REALTIME) { struct timeval tv; sim_gettimeofday(&tv, nullptr); ts->tv_sec = tv.tv_sec; ts->tv_nsec = tv.tv_usec * 1000; }
    else { W->now += 1; ts->tv_sec = W->now / 1000000; ts->tv_nsec = (W->now % 1000000) * 1000; }
    return 0;
}
int sim_chdir(const char *path) { Inode *i = fsLookup(C()->host, absPath(path)); if (!i) return fail(ENOENT); C()->cwd = absPath(path); return 0; }
char *sim_getcwd(char *buf, size_t n) { if (C()->cwd.size() + 1 > n) { errno = ERANGE; return nullptr; } strcpy(buf, C()->cwd.c_str()); return buf; }
char *sim_getenv(const char *n) { auto it = C()->env.find(n); return it == C()->env.end() ? nullptr : (char *)it->second.c_str(); }
int sim_setenv(const char *n, const char *v, int) { C()->env[n] = v; return 0; }
int sim_unsetenv(const char *n) { C()->env.erase(n); return 0; }
int sim_gethostname(char *b, size_t n) { snprintf(b, n, "%s", C()->host->name.c_str()); return 0; }
int sim_getpagesize(void) { return 4096; }

static struct passwd pwBuf; static struct group grBuf;
static struct passwd *pw(const User &u) { memset(&pwBuf, 0, sizeof pwBuf); pwBuf.pw_name = (char *)u.name.c_str(); pwBuf.pw_uid = u.id; pwBuf.pw_gid = u.id; pwBuf.pw_dir = (char *)"/tmp"; pwBuf.pw_shell = (char *)"/bin/sh"; return &pwBuf; }
static struct group *gr(const User &u) { memset(&grBuf, 0, sizeof grBuf); grBuf.gr_name = (char *)u.name.c_str(); grBuf.gr_gid = u.id; return &grBuf; }
struct passwd *sim_getpwuid(uid_t id) { for (auto &u : C()->host->users) if (u.id == id) return pw(u); return nullptr; }
struct passwd *sim_getpwnam(const char *n) { for (auto &u : C()->host->users) if (u.name == n) return pw(u); return nullptr; }
struct group *sim_getgrgid(gid_t id) { for (auto &u : C()->host->groups) if (u.id == id) return gr(u); return nullptr; }
struct group *sim_getgrnam(const char *n) { for (auto &u : C()->host->groups) if (u.name == n) return gr(u); return nullptr; }

int sim_fprintf(FILE *, const char *fmt, ...)
{
    char b[16384]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (W->cur) sim_write(2, b, strlen(b));
    return n;
}
int sim_vfprintf(FILE *, const char *fmt, va_list ap) { char b[16384]; int n = vsnprintf(b, sizeof b, fmt, ap); if (W->cur) sim_write(2, b, strlen(b)); return n; }
int sim_printf(const char *fmt, ...) { char b[16384]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); sim_write(1, b, strlen(b)); return n; }
int sim_puts(const char *s) { sim_write(1, s, strlen(s)); sim_write(1, "\n", 1); return 1; }
int sim_fputs(const char *s, FILE *f) { sim_write(f == stdout ? 1 : 2, s, strlen(s)); return 1; }
size_t sim_fwrite(const void *b, size_t s, size_t n, FILE *f) { sim_write(f == stdout ? 1 : 2, b, s * n); return n; }
int sim_fputc(int c, FILE *f) { char ch = (char)c; sim_write(f == stdout ? 1 : 2, &ch, 1); return c; }
int sim_fflush(FILE *) { return 0; }
int sim_sd_notify(int, const char *) { return 0; }
int sim_system(const char *) { return fail(ENOSYS); }
FILE *sim_fopen(const char *, const char *) { errno = ENOSYS; return nullptr; }
FILE *sim_popen(const char *, const char *) { errno = ENOSYS; return nullptr; }
int sim_truncate(const char *path, off_t len)
{
    MUT_PROLOGUE(S_FTRUNC, path)
    if (int e = resolve(p->host, p->cwd, path, true, &d, &n, &i)) return fail(e);
    if (!i) return fail(ENOENT);
    if (i->data.use_count() > 1) i->data = std::make_shared<std::string>(*i->data);
    i->data->resize((size_t)len, '\0'); i->gen++; i->mtime = wallSec(p->host); mutDone(S_FTRUNC, full); return 0;
}
int sim_sync_file_range(int fd, off_t, off_t, unsigned) { OFile *o = F(fd); return o ? 0 : fail(EBADF); }
int sim_posix_fadvise(int, off_t, off_t, int) { return 0; }
int sim_fallocate(int, int, off_t, off_t) { return fail(EOPNOTSUPP); }

// randomness
int sim_RAND_bytes(unsigned char *b, int n) { for (int i = 0; i < n; i++) b[i] = (unsigned char)W->misc.next(); return 1; }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { sim_RAND_bytes((unsigned char *)b, (int)n); return (ssize_t)n; }
int sim_rand(void) { return (int)(W->misc.next() & 0x7fffffff); }
long sim_random(void) { return (long)(W->misc.next() & 0x7fffffff); }
void sim_srand(unsigned) {}
void sim_srandom(unsigned) {}

// backtrace
void *sim_backtrace_create_state(const char *, int, void *, void *) { return nullptr; }
int sim_backtrace_full(void *, int, void *, void *, void *) { return 0; }

// sockets -- replaced by net.cpp when a network is simulated
int sim_socket(int, int, int) { return fail(ENOSYS); }
int sim_bind(int, const struct sockaddr *, socklen_t) { return fail(ENOSYS); }
int sim_listen(int, int) { return fail(ENOSYS); }
int sim_accept(int, struct sockaddr *, socklen_t *) { return fail(ENOSYS); }
int sim_connect(int, const struct sockaddr *, socklen_t) { return fail(ENOSYS); }
int sim_getsockopt(int, int, int, void *, socklen_t *) { return fail(ENOSYS); }
int sim_setsockopt(int, int, int, const void *, socklen_t) { return fail(ENOSYS); }
int sim_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **) { return EAI_FAIL; }
int sim_shutdown(int, int) { return fail(ENOSYS); }
ssize_t sim_send(int, const void *, size_t, int) { return fail(ENOSYS); }
ssize_t sim_recv(int, void *, size_t, int) { return fail(ENOSYS); }
void sim_freeaddrinfo(struct addrinfo *) {}
const char *sim_gai_strerror(int) { return "sim: no network"; }
int sim_getnameinfo(const struct sockaddr *, socklen_t, char *, socklen_t, char *, socklen_t, int) { return EAI_FAIL; }
}
