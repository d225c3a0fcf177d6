// Harness: plans, worlds, operations, oracles
#pragma once
#include "os.h"
#include "pg.h"

namespace sim {

typedef std::map<std::string, std::string> SMap;

struct Op { std::string name; SMap a;
    std::string s(const std::string &k, const std::string &d = "") const { auto i = a.find(k); return i == a.end() ? d : i->second; }
    int64_t n(const std::string &k, int64_t d = 0) const { auto i = a.find(k); return i == a.end() ? d : strtoll(i->second.c_str(), nullptr, 10); } };

struct Plan {
    std::string prop; uint64_t seed = 1; SMap cfg; std::vector<Op> ops; std::vector<Fault> faults;
    int target = -1; int variants = 0;                              // exploration only, not part of a replay file
    std::string faultMix;                                           // comma list of fault kinds for variants
    std::string s(const std::string &k, const std::string &d = "") const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
    int64_t n(const std::string &k, int64_t d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : strtoll(i->second.c_str(), nullptr, 10); }
    std::string text() const; static bool parse(const std::string &t, Plan &p, std::string *expect = nullptr);
};

struct CmdRes { int rc = -1; int sig = 0; bool done = false; std::string out, err; usec t0 = 0, t1 = 0; Proc *p = nullptr;
    bool ok() const { return done && sig == 0 && rc == 0; } std::string all() const { return out + err; } std::string why() const; };

struct Json { enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL; double num = 0; bool b = false; std::string str; std::vector<Json> arr; std::vector<std::pair<std::string, Json>> obj;
    const Json *get(const std::string &k) const { for (auto &p : obj) if (p.first == k) return &p.second; return nullptr; }
    static bool parse(const std::string &s, Json &j); };

struct BkInfo { std::string label, prior, type, startSeg, stopSeg, archiveId; uint64_t startLsn = 0, stopLsn = 0; int64_t tStart = 0, tStop = 0; bool error = false; std::vector<std::string> ref; int repo = 1; int dbId = 1; };
struct RepoInfo { bool ok = false; std::vector<BkInfo> backups; std::string raw; int code = 0; std::vector<std::pair<std::string, std::pair<std::string, std::string>>> archive; };

struct Acked { std::string file; usec at; };

struct Run {
    Plan &plan; const SMap &cfg;
    Host *hp = nullptr, *hr = nullptr, *hs = nullptr; Pg *pg = nullptr; std::vector<Pg *> sb;      // sb: standbys
    int repos = 1; bool remote[5] = {}; 
    Rng rng;
    int restoreSeq = 0;
    std::map<std::string, int64_t> probes;
    std::vector<std::string> note;
    std::map<std::string, std::string> kept;                        // named saved listings
    std::map<std::string, usec> kept64;
    std::set<std::string> completed[5];                             // labels of backups whose command returned success, per repo
    std::map<std::string, std::pair<usec, usec>> window;            // label -> [start, end]
    CmdRes last; int opIdx = -1; std::vector<Pg *> models;
    std::map<std::string, std::string> vars;

    Run(Plan &p) : plan(p), cfg(p.cfg) {}
    int64_t n(const std::string &k, int64_t d = 0) const { return plan.n(k, d); }
    std::string s(const std::string &k, const std::string &d = "") const { return plan.s(k, d); }
    void probe(const std::string &k, int64_t v = 1) { probes[k] += v; }

    // world
    void setup();
    void writeConfig();
    std::string repoPath(int r) const { return "/repo" + std::to_string(r); }
    Host *repoHost(int r) const { return remote[r] ? hr : hp; }
    uid_t repoUid(int r) const { return remote[r] ? 1001 : 1000; }

    // commands
    Proc *start(Host *h, const std::vector<std::string> &args, const std::string &cwd = "/", int op = -1, int uid = -1);
    CmdRes wait(Proc *p, usec limit = 0);
    CmdRes cmd(Host *h, const std::vector<std::string> &args, const std::string &cwd = "/", int op = -1, int uid = -1);
    CmdRes quiet(Host *h, const std::vector<std::string> &args, const std::string &cwd = "/", int uid = -1);   // no faults
    void waitGetAsync(); void waitArchiver();
    void settle(usec limit = 600000000ll);                          // let background processes end
    bool drainWal(usec limit = 3600000000ll);                       // wait until archiver has nothing left

    // high level
    CmdRes backup(const std::string &type, int repo, const std::vector<std::string> &extra = {});
    RepoInfo info(int repo); static RepoInfo parseInfo(const CmdRes &r, int repo);
    struct RestoreOpt { std::string label; int repo = 0; std::string target, targetType; bool delta = false; bool force = false; std::string dir; std::vector<std::string> extra; bool fault = false; std::string action; bool noTs = false; };
    CmdRes restore(RestoreOpt &o);
    std::vector<std::string> restoreArgs(RestoreOpt &o);
    // oracle: recover the restored directory and compare with the model. Returns "" or the reason
    struct Recov { uint64_t reached = 0; bool consistent = false; uint64_t startLsn = 0; std::string lastSeg; int segs = 0; std::string label; };
    std::function<bool(const std::string &)> ignoreRel;             // relations not judged after recovery
    std::string recover(const std::string &dir, Recov &r, bool needAll, uint64_t stopAtLsn = 0, const BackupRec *expect = nullptr);
    std::string restoreAndCheck(const std::string &label, int repo, const std::string &why, bool needAll = true);
    std::string checkAll(const std::string &why, bool all = true);   // every backup reported by info restores
    std::string checkExtras(const std::string &dir, usec t0, usec t1);
    std::string getWal(const std::string &file, int repo, std::string &out, int *rc);   // archive-get through the real command, no faults
    const BackupRec *modelBackup(const BkInfo &b) const;
    void fail(const std::string &cls, const std::string &msg);
    bool bad() const { return !W->violation.empty(); }
    std::vector<std::string> missingAcked(int repo);

    void sleepFor(usec d);
    void heal(); void noFaults(); void noFaultsKeepDown() { W->faultsOn = false; }
    int faultsFired(int op = -1) const;
    std::string snapshotInfo();
    std::string checkListed(const std::string &why, bool needAll = true, int atMost = 0);
    void powerAll(uint64_t vseed, int which);
    std::set<std::string> listed[5]; std::set<std::string> checkedOk;
    void execOp(int i);
    void finish();
    bool execPropOp(int i, const Op &op);                           // property-specific ops
};

std::vector<std::string> shSplit(const std::string &s);
std::string sha1hex(const std::string &s);
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
Plan genPlan(const std::string &prop, uint64_t seed, const std::string &tier);
std::vector<Fault> genVariant(Plan &q, Rng &r);
extern const std::vector<std::string> propList;
}
