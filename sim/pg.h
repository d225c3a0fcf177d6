// Simulated PostgreSQL cluster: files, WAL, archiver, backup functions, recovery oracle
#pragma once
#include "os.h"

namespace sim {

static const unsigned PAGE = 8192;

struct PgVer { unsigned num; uint32_t ctl, cat; uint16_t magic; size_t crcOff; };
const PgVer &pgVer(unsigned major);

uint32_t crc32c(const void *p, size_t n);
uint16_t pageChecksum(const std::string &page, uint32_t blk);
std::string pageImage(const std::string &rel, uint32_t blk, uint64_t token, bool checksum, uint32_t segBase);
std::string lsnStr(uint64_t lsn);

enum RecType : uint8_t { RPage = 1, RCreate = 2, RDrop = 3, RTrunc = 4, RNoop = 5, RBackupEnd = 6, RCheckpoint = 7, RCommit = 8 };
struct Rec { uint64_t lsn = 0, end = 0; RecType type = RNoop; std::string rel; uint32_t blk = 0; uint64_t token = 0; int64_t time = 0; uint32_t tli = 1; };
typedef std::map<std::string, std::vector<uint64_t>> RelState;      // rel path -> page tokens (0 = zero page)

struct ExtraVer { std::string data; usec from; usec to; };          // non WAL-logged file content with validity interval

struct BackupRec { uint64_t startLsn = 0, stopLsn = 0; usec t0 = 0, t1 = 0; std::string label; };

struct BkState { bool on = false; uint64_t start = 0; std::string startSeg, label; usec t0 = 0; };   // one backup session

struct Pg {
    Host *h = nullptr; std::string data = "/pg/data"; int port = 5432; unsigned major = 16; uint64_t sysid = 0x1234567890ABCDEFull;
    uid_t uid = 1000; gid_t gid = 1000; unsigned fm = 0600, dm = 0700;     // modes (group access or not)
    std::vector<std::pair<std::string, std::string>> links;         // path in the data directory -> link text
    std::string linkReal(const std::pair<std::string, std::string> &l) const; void makeLinks();
    uint32_t tli = 1; unsigned segSize = 1024 * 1024; bool checksum = true; bool running = true; bool standby = false; bool probeTli = false;
    Rng rng;
    uint64_t lsn0 = 0x2000000;                                      // where the WAL of a new cluster starts
    uint64_t lsn = 0; uint64_t checkpointLsn = 0;
    std::vector<Rec> recs; RelState rels; RelState initial; uint64_t initialLsn = 0;
    std::set<std::pair<std::string, uint32_t>> dirty;
    std::map<std::string, std::vector<ExtraVer>> extra;             // relative path -> versions
    std::vector<std::pair<uint32_t, std::string>> tblspc;           // oid -> real path
    std::string segName(uint64_t l) const; std::string walDir() const { return data + "/pg_wal"; }
    std::string curSeg; std::string segBuf;
    std::string tblId() const;

    // archiver
    std::vector<std::string> archiveCmd;                            // argv template, %p replaced
    std::map<std::string, std::string> archiveEnv;
    Proc *pusher = nullptr; std::string pushing; bool archiverOn = false; int64_t pushOk = 0, pushFail = 0; int archOp = -1;
    bool archiveEnabled = true; usec archRetry = 1000000; usec retryAt = 0; int lastPushRc = 0; std::string lastPushErr;
    bool keepWal = false;                                           // do not remove archived segments
    std::set<std::string> acked;                                    // acknowledged and still owed by the archive (see Run)
    std::set<std::string> archived;                                 // acknowledged by archive-push
    std::map<std::string, std::string> walContent;                  // every completed segment / history file ever produced
    std::vector<std::string> walOrder;
    std::function<void(const std::string &seg, int rc)> onPush;
    std::function<bool(const std::string &seg)> skipArchive;        // the archive command "succeeds" without storing this segment
    std::string lastPushOut, lastSwitch; std::map<std::string, int> readyMax;   // most files waiting at once while this one was waiting
    void noteReady();

    // activity
    bool active = false; double actRate = 1.0; usec actMin = 200, actMax = 4000; int64_t actCount = 0, actBurst = 0; bool actScheduled = false;
    bool allowDdl = true; bool tornPages = true; bool extraChange = true;
    int64_t nextRel = 16400; int maxPages = 24;
    // corrupt pages planted on disk (rel, blk)
    std::set<std::pair<std::string, uint32_t>> badPages;
    std::set<std::string> frozen;                                   // relations activity leaves alone
    std::map<Inode *, std::map<uint32_t, std::string>> tearing;      // pages in the middle of a write: completed once somebody has read them
    void tearRead(Inode *i, uint64_t off, size_t n); usec tearMax = 2500;
    // live backups
    std::vector<BackupRec> backups;
    int64_t queryDelayMax = 2000; double queryFail = 0; usec stallBackupStop = 0;
    bool dropConn = false;

    // streaming replication: this cluster follows `up`
    Pg *up = nullptr; std::vector<Pg *> downs; size_t replayed = 0; uint64_t replayLsn = 0, lastCkpt = 0; uint32_t tliForce = 0;
    int gapRecs = 0; uint64_t gapLsn = 0; bool holdCkpt = false;
    bool replayStalled = false, replaySched = false, foreign = false, promoted = false, replayFlush = true; usec lagMax = 3000; int replayBatch = 12;
    void follow(Pg *p); void writeAll(); void replayKick(); void replayStep(); void restartpoint(); void promote(); void unfollow();
    struct Db { int64_t oid; std::string name; int ts; };           // further databases (ts: tablespace it lives in or -1)
    std::vector<Db> dbs; bool template0New = false;
    std::string relDir();                                           // directory of a new relation
    void makeDbs();
    void init(uint64_t seed, int nRel, int nExtra);
    void writeControl(bool torn = false);
    std::string controlBytes();
    void addRec(Rec r);
    void writePage(const std::string &rel, uint32_t blk);
    void createRel(const std::string &rel, uint32_t pages);
    void dropRel(const std::string &rel);
    void truncRel(const std::string &rel, uint32_t pages);
    void flushPage(const std::string &rel, uint32_t blk, bool torn);
    void flushAll();
    void checkpoint();
    std::string switchWal();                                        // returns name of segment that was completed
    void openSeg();
    void segFlush();
    void setExtra(const std::string &path, const std::string &data);
    void act();                                                     // one random activity
    void startActivity(); void stopActivity();
    void archiverKick();                                            // schedule archiver
    std::string relPathOnDisk(const std::string &rel) const;
    std::string pickRel();
    void backupStart(BkState &b); void backupStop(BkState &b, std::string &label, std::string &map);
    void rebootCrash();                                             // host crashed: pg restarts, files made consistent with model
    void becomeTimeline(uint32_t newTli);
    RelState stateAt(uint64_t lsn, uint32_t tli) const;
    std::string pageOf(const std::string &rel, uint32_t blk, uint64_t token) const;
    int readyCount() const;
};
extern std::vector<Pg *> pgs;

// Parse one WAL segment into records starting at or after fromLsn; returns false if the header is not valid for the cluster
bool walParse(const std::string &seg, uint64_t segStart, uint64_t sysid, unsigned segSize, std::vector<Rec> &out, std::string *err);
}
