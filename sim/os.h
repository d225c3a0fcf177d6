// Simulated operating system: processes, scheduler, clock, file system, pipes, faults. See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <sys/types.h>

namespace sim {

typedef int64_t usec;

//---------------------------------------------------------------------------------------------------------------------------------
struct Rng {                                                        // splitmix/xorshift, one stream per purpose, all from the seed
    uint64_t s;
    explicit Rng(uint64_t seed = 1) { seedIt(seed); }
    void seedIt(uint64_t seed) { s = seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull; next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(double p) { return (double)(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ull) { return hashBytes(s.data(), s.size(), h); }

//---------------------------------------------------------------------------------------------------------------------------------
struct Host;
struct Inode;
typedef std::shared_ptr<std::string> Data;

enum ItemType { TFile, TDir, TLink, TFifo };

struct DirOp { bool add; std::string name; Inode *ino; std::string del; uint64_t seq = 0; };   // del: old name of a rename within the directory

struct Inode {
    uint64_t no = 0;
    ItemType type = TFile;
    unsigned mode = 0;
    uid_t uid = 0; gid_t gid = 0;
    int64_t mtime = 0;                                              // seconds
    int nlink = 1;
    Data data;                                                      // file content or link target
    std::map<std::string, Inode *> ent;                             // directory entries (volatile view)
    Inode *parent = nullptr;                                        // for directories
    // durable view
    Data ddata; int64_t dmtime = 0; unsigned dmode = 0; bool everSync = false; bool lostWrite = false;
    std::map<std::string, Inode *> dent;
    std::vector<DirOp> pend;
    // flock
    void *lockEx = nullptr; std::set<void *> lockSh;
    uint64_t gen = 0;                                               // content generation (bumped on every write)
    int openWriters = 0;
};

enum OKind { OFileK, ODirK, OPipeR, OPipeW, OCapture, ONull, OPq, OSock };

struct Pipe { std::string buf; size_t cap = 65536; int readers = 0, writers = 0; bool broken = false; size_t pos = 0;
    bool ssh = false;
    size_t avail() const { return buf.size() - pos; } };

struct Proc;
struct OFile {
    OKind kind = OFileK; int refs = 0; int flags = 0;
    Inode *ino = nullptr; Inode *dir = nullptr; uint64_t off = 0; std::string path; Host *host = nullptr;
    Pipe *pipe = nullptr;                                           // OPipeR/W, OSock: rx
    Pipe *pipe2 = nullptr;                                          // OSock: tx
    std::string *cap = nullptr;                                     // capture target
    std::function<bool()> rdy;                                      // OPq
    void *aux = nullptr;
};

struct User { std::string name; uid_t id; };

struct Host {
    std::string name; int idx = 0;
    Inode *root = nullptr;
    usec clockOff = 0;                                              // wall clock offset of this host
    bool diskFull = false;
    int64_t diskFree = -1;                                          // bytes until ENOSPC (-1 = unlimited)
    bool reachable = true;                                          // ssh connects
    std::vector<User> users, groups;
    int crashes = 0; uint64_t metaDurable = 0;
    std::set<std::string> eioPath;                                  // path prefixes returning EIO/EACCES (unavailable mount)
};

//---------------------------------------------------------------------------------------------------------------------------------
enum Sys {
    S_OPEN, S_CREAT, S_READ, S_WRITE, S_CLOSE, S_STAT, S_READDIR, S_READLINK, S_MKDIR, S_RMDIR, S_UNLINK, S_RENAME, S_LINK, S_SYMLINK,
    S_CHMOD, S_CHOWN, S_UTIME, S_FSYNC, S_FTRUNC, S_LSEEK, S_FLOCK, S_PIPE, S_PREAD, S_PWRITE, S_POLL, S_FORK, S_EXEC, S_EXIT,
    S_WAIT, S_KILL, S_SLEEP, S_PQ, S_SOCK, S_MALLOC, S_COUNT
};
extern const char *sysName[S_COUNT];

enum { C_MUT = 1, C_RD = 2, C_PIPE = 4, C_PROC = 8, C_PQ = 16, C_MEM = 32, C_SOCK = 64 };
int sysClass(Sys s);

enum FaultKind { FK_NONE, FK_KILL, FK_KILLTREE, FK_POWER, FK_ERRNO, FK_SHORT, FK_STALL, FK_TERM, FK_CLOCK, FK_FULL, FK_BREAK, FK_NOMEM,
    FK_CALL, FK_COUNT };
extern const char *faultName[FK_COUNT];

struct Fault {
    FaultKind kind = FK_NONE;
    int op = -1;                                                    // harness op the fault belongs to (-1 any)
    int cls = 0;                                                    // syscall class mask counted
    int sys = -1;                                                   // exact syscall
    std::string role;                                               // process role filter ("" any)
    std::string host;                                               // host filter
    std::string path;                                               // substring filter on path
    int64_t nth = 0;                                                // fires at nth matching call (0 based)
    double frac = -1;                                               // if >=0 nth = frac * profiled count
    int err = 0;
    int64_t arg = 0;
    uint64_t seed = 0;                                              // for crash outcome choices
    int repeat = 1;                                                 // errno persists for this many matching calls
    // runtime
    int64_t seen = 0; int fired = 0; std::string where;
    std::function<void()> call;                                     // FK_CALL
};

//---------------------------------------------------------------------------------------------------------------------------------
struct Proc {
    int pid = 0, ppid = 0; Proc *parent = nullptr; Host *host = nullptr; uid_t uid = 0; gid_t gid = 0;
    std::string cwd = "/"; unsigned umask_ = 022; bool sess = false;
    std::vector<OFile *> fd; std::vector<char> cx; int waitPid = 0; bool isSsh = false;
    void (*handler[65])(int) = {};
    uint64_t sigPending = 0;
    std::vector<std::string> argv; std::map<std::string, std::string> env;
    std::string role; int op = -1; int tag = 0;
    std::vector<char *> argvPtr, envPtr; std::vector<std::string> envStr;

    enum St { RUN, BLOCK, VFORK, ZOMBIE, DEAD } st = RUN;
    std::function<bool()> ready; usec deadline = -1; usec stallUntil = 0; usec readySince = 0;
    int exitStatus = 0;                                             // wait status encoding
    bool exited = false;
    // image
    int slot = -1; bool borrowed = false; bool started = false;
    void *ctx = nullptr;                                            // saved stack pointer
    char *globals = nullptr; int savedErrno = 0; uintptr_t arenaTop = 0; void *freeList[64] = {}; 
    // fork save
    std::string *svStack = nullptr, *svArena = nullptr, *svGlobals = nullptr; void *svCtx = nullptr; Proc *vforkChild = nullptr, *vforkParent = nullptr;
    uintptr_t svSp = 0; int svErrno = 0;
    int forkRet = 0;
    std::string *capOut = nullptr, *capErr = nullptr;
    int64_t syscalls = 0; int prio = 0;
    usec startAt = 0, endAt = 0;
    bool simBug = false;
    struct umEnt { int id; } ;
};

struct Stats { int64_t steps = 0, switches = 0, syscalls = 0; int64_t faults[FK_COUNT] = {}; int64_t faultSys[S_COUNT] = {}; int64_t segv = 0; int64_t procs = 0;
    int64_t powerLostEnt = 0, powerLostData = 0, powerTorn = 0; };

struct World {
    Rng sched, misc;
    usec now = 0;                                                   // virtual microseconds since boot
    int64_t epoch = 1700000000;
    std::vector<Host *> hosts;
    std::map<int, Proc *> procs; int nextPid = 100;
    Proc *cur = nullptr;
    uint64_t hash = 14695981039346656037ull;
    uint64_t schedHash = 14695981039346656037ull;                  // hash of interleaving only
    Stats stats;
    std::vector<Fault> faults; bool faultsOn = true;
    int curOp = -1;
    int64_t opCount[6] = {};                                        // profiled syscall counts by class in the current op
    bool trace = false; std::vector<std::string> log; FILE *traceFile = nullptr;
    double stick = 0.9;                                             // chance to keep running the same process at a scheduling point
    int schedMode = 0;                                              // 0 random, 1 priority, 2 round robin
    int64_t maxSteps = 20000000; usec maxVirtual = 0;
    bool stuck = false; std::string stuckWhy;
    bool metaOrdered = false; uint64_t metaSeq = 0, metaCut = 0;     // see powerCrash
    uint64_t inoSeq = 1; uint64_t dirSalt = 0;
    // background events
    struct Ev { usec at; uint64_t seq; std::function<void()> fn; };
    std::vector<Ev> evq; uint64_t evSeq = 0;
    // invariant hook, called on every fs mutation (after it) with path
    std::function<void(Host *, Sys, const std::string &)> onMut;
    std::string mutFrom;                                            // old name while onMut reports a rename
    std::function<void(Inode *, uint64_t, size_t)> onRead;          // after a file was read by the code under test
    std::function<void(Host *)> onPower;                            // after a power crash
    bool profiling = false; struct Prof { uint8_t sys; uint8_t cls; uint64_t site; uint32_t idx; char role[16]; std::string path; }; std::vector<Prof> prof;
    std::function<void(Proc *)> onExit;
    std::function<void()> onStep;                                   // called at every scheduling step
    std::string violation;                                          // first violation recorded
    std::string violClass;
    int64_t latMin = 1, latMax = 20, fsyncLat = 200;
};
extern World *W;

// Scheduler / processes
void osInit(uint64_t seed);
Host *addHost(const std::string &name);
Proc *spawn(Host *h, const std::vector<std::string> &argv, const std::map<std::string, std::string> &env, uid_t uid, gid_t gid,
    const std::string &cwd = "/", int op = -1);
bool runUntil(const std::function<bool()> &done, usec maxVirtual = 0);   // false if stuck/limit
bool step();                                                        // one scheduling step
void killProc(Proc *p, int sig);                                    // immediate death by signal
void signalProc(Proc *p, int sig);                                  // post signal
void killHost(Host *h);                                             // SIGKILL every process on the host
void powerCrash(Host *h, uint64_t seed);                            // kill + lose non-durable state
void syncHost(Host *h);                                             // make everything durable (quiesce)
void breakSsh();                                                    // break all ssh connections
void at(usec when, std::function<void()> fn);
int64_t wallSec(Host *h);
void violate(const std::string &cls, const std::string &msg);
void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int aliveCount(Host *h = nullptr);
int fdSockNew(Proc *p, OFile *o);

// Direct (harness side) file system access -- no scheduling, no faults
struct FsItem { std::string path; Inode *ino; };
Inode *fsLookup(Host *h, const std::string &path, bool follow = true);
Inode *fsMkdirs(Host *h, const std::string &path, uid_t uid, gid_t gid, unsigned mode = 0750);
Inode *fsWrite(Host *h, const std::string &path, const std::string &data, uid_t uid, gid_t gid, unsigned mode = 0600);
void fsPatch(Host *h, Inode *ino, uint64_t off, const std::string &data);
bool fsRead(Host *h, const std::string &path, std::string &out);
bool fsExists(Host *h, const std::string &path);
bool fsUnlink(Host *h, const std::string &path);
bool fsRename(Host *h, const std::string &from, const std::string &to);
void fsRemoveTree(Host *h, const std::string &path);
void fsSymlink(Host *h, const std::string &target, const std::string &path, uid_t uid, gid_t gid);
std::vector<std::string> fsList(Host *h, const std::string &path);
void fsWalk(Host *h, const std::string &path, const std::function<void(const std::string &, Inode *)> &fn);
void fsSyncTree(Host *h, const std::string &path);
std::string fsHashTree(Host *h, const std::string &path, bool meta);  // human-readable listing "path type mode size hash"
void fsTouch(Host *h, Inode *i);
void fsCopyTree(Host *h, const std::string &from, const std::string &to);
uint64_t fsUsed(Host *h);

// used by libpq stub
void sysEnter(Sys s, const char *path);
int takeErr();
bool blockOn(const std::function<bool()> &ready, usec deadline);
void schedPoint();
}
