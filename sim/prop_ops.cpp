// Property scenarios: plan generators and property-specific operations / oracles
#include "props.h"
#include <algorithm>
#include <cerrno>
#include <csignal>

namespace sim {

//=================================================================================================================================

static void genC01(Plan &p, Rng &r, bool th)
{
    swarm(p, r, {});
    int n = (int)r.range(2, th ? 6 : 4);
    history(p, r, n);
    if (r.chance(0.25)) { p.ops.push_back(O("tli")); p.ops.push_back(O("activity", {{"ms", "60"}})); p.ops.push_back(O("backup", {{"type", rtype(r)}, {"repo", "1"}})); p.ops.push_back(O("activity", {{"ms", "40"}})); }
    if (r.chance(0.5)) p.ops.push_back(O("switch", {{"n", S(r.range(1, 3))}}));
    // search over interleavings (and delays) of one backup of the history
    for (int i = (int)p.ops.size() - 1; i >= 0; i--) if (p.ops[(size_t)i].name == "backup" && (p.target < 0 || r.chance(0.3))) p.target = i;
    p.ops.push_back(O("checkall"));
    p.variants = 6; p.faultMix = r.chance(0.5) ? "@resched" : "@resched,lag";
}
static void genC02(Plan &p, Rng &r, bool)
{
    swarm(p, r, {}); p.cfg["small"] = "1";
    history(p, r, (int)r.range(1, 3), false);
    addTarget(p, O("backup", {{"type", rtype(r)}, {"repo", S(r.range(1, p.n("repos")))}}));
    p.ops.push_back(O("heal")); p.ops.push_back(O("checkall"));
    if (r.chance(0.8)) { p.ops.push_back(O("activity", {{"ms", "60"}})); p.ops.push_back(O("backup", {{"type", rtype(r)}, {"repo", p.ops[(size_t)p.target].s("repo")}, {"must", "1"}})); p.ops.push_back(O("checkall")); }
    p.variants = 14; p.faultMix = "kill,kill,killtree,power,power,errno,errno,short,term,stall,full,pq,@resched"; if (p.n("remote")) p.faultMix += ",break,power-other";
}
static void genC03(Plan &p, Rng &r, bool)
{
    swarm(p, r, {});
    history(p, r, (int)r.range(1, 3), false);
    addTarget(p, O("crash", {{"vseed", "1"}, {"which", pick(r, {"3", "3", "2", "1"})}}));
    p.ops.push_back(O("heal")); p.ops.push_back(O("checkall"));
    p.variants = 16; p.faultMix = "@vseed";
}
static void genC04(Plan &p, Rng &r, bool)
{
    swarm(p, r, {}); p.cfg["rels"] = "3"; p.cfg["maxpages"] = "4";
    p.ops.push_back(O("stanza-create"));
    if (r.chance(0.5)) p.ops.push_back(O("switch", {{"n", S(r.range(1, 2))}}));
    if (r.chance(0.3)) p.ops.push_back(O("drain"));
    addTarget(p, O("push", {{"n", S(r.range(1, 6))}, {"tli", r.chance(0.2) ? "1" : "0"}, {"bk", r.chance(0.2) ? "1" : "0"}}));
    int shape = (int)r.below(3);
    if (shape == 0) p.ops.push_back(O("heal"));
    p.ops.push_back(O("crash", {{"vseed", "1"}, {"which", pick(r, {"3", "2", "1"})}}));
    p.ops.push_back(O("heal"));
    if (shape == 1) { p.ops.push_back(O("push", {{"n", "2"}})); }
    if (r.chance(0.7)) p.ops.push_back(O("drain"));
    p.ops.push_back(O("checkacked"));
    p.variants = 16; p.faultMix = "kill,killtree,power,power,errno,errno,errno,short,term,stall,full,@resched,@vseed"; if (p.n("remote")) p.faultMix += ",break,power-other";
}
static void genC05(Plan &p, Rng &r, bool)
{
    swarm(p, r, {}); p.cfg["rels"] = "3"; p.cfg["maxpages"] = "4";
    p.ops.push_back(O("stanza-create")); p.ops.push_back(O("switch", {{"n", S(r.range(1, 3))}})); p.ops.push_back(O("drain"));
    bool conc = r.chance(0.4) && (!p.n("cipher") || p.n("remote"));
    addTarget(p, O("pushx", {{"n", S(r.range(2, 5))}, {"xseed", S((int64_t)r.below(1000000))}, {"async", S(p.n("async") && r.chance(0.7))}, {"conc", S(conc)}}));
    p.ops.push_back(O("heal"));
    p.ops.push_back(O("pushx", {{"n", S(r.range(2, 6))}, {"xseed", S((int64_t)r.below(1000000))}, {"async", S(p.n("async") && r.chance(0.5))}}));
    p.ops.push_back(O("heal")); p.ops.push_back(O("checkpushx"));
    p.variants = 14; p.faultMix = "kill,killtree,errno,errno,short,term,stall,power,@resched"; if (p.n("remote")) p.faultMix += ",break";
    if (conc) p.faultMix = "@resched,lag";                          // see known finding K1: concurrent pushes share a temporary file
}
static void genC06(Plan &p, Rng &r, bool)
{
    swarm(p, r, {}); p.cfg["rels"] = "3"; p.cfg["maxpages"] = "4"; p.cfg["async"] = S(r.chance(0.75));
    p.cfg["archive-get-queue-max"] = pick(r, {"1MiB", "3MiB", "8MiB", "128MiB"}); p.cfg["archive-timeout"] = pick(r, {"5", "20", "60"});
    p.ops.push_back(O("stanza-create"));
    p.ops.push_back(O("switch", {{"n", S(r.range(3, 9))}})); p.ops.push_back(O("drain"));
    if (r.chance(0.3)) { p.ops.push_back(O("tli")); p.ops.push_back(O("switch", {{"n", S(r.range(1, 4))}})); p.ops.push_back(O("drain")); }
    if (p.n("repos") > 1) p.ops.push_back(O("spread", {{"xseed", S((int64_t)r.below(1000000))}}));
    if (r.chance(0.5)) p.ops.push_back(O("getseq", {{"n", S(r.range(1, 6))}, {"xseed", S((int64_t)r.below(1000000))}}));
    addTarget(p, O("getseq", {{"n", S(r.range(1, 6))}, {"xseed", S((int64_t)r.below(1000000))}}));
    if (r.chance(0.6)) p.ops.push_back(O("heal"));
    p.ops.push_back(O("nofault"));
    if (r.chance(0.3)) { p.ops.push_back(O("switch", {{"n", "2"}})); p.ops.push_back(O("drain")); }
    p.ops.push_back(O("getseq", {{"n", S(r.range(3, 10))}, {"xseed", S((int64_t)r.below(1000000))}, {"settle", S(r.chance(0.3))}}));
    p.variants = 14; p.faultMix = "kill,kill,killtree,power,errno,errno,errno,short,term,stall,full,@resched"; if (p.n("remote")) p.faultMix += ",break,power-other";
}
static void genC09(Plan &p, Rng &r, bool)
{
    swarm(p, r, {}); 
    history(p, r, (int)r.range(1, 3), false);
    std::string a = pick(r, {"backup", "backup", "expire"}), b = pick(r, {"backup", "expire", "backup"});
    addTarget(p, O("race", {{"a", a}, {"b", b}, {"repo", S(r.range(1, p.n("repos")))}, {"xseed", S((int64_t)r.below(1000000))}, {"type", rtype(r)}, {"tries", S(r.range(1, 6))}}));
    p.ops.push_back(O("heal")); p.ops.push_back(O("checkall"));
    p.ops.push_back(O("backup", {{"type", "incr"}, {"repo", p.ops[(size_t)p.target].s("repo")}, {"must", "1"}}));
    p.variants = 12; p.faultMix = "kill,kill,term,stall,lag,errno,@resched,@xseed"; if (p.n("remote")) p.faultMix += ",break";
}
static void genC18(Plan &p, Rng &r, bool)
{
    swarm(p, r, {});
    history(p, r, (int)r.range(1, 2), false);
    switch (r.below(6)) {
        case 0: case 1: addTarget(p, O("backup", {{"type", rtype(r)}, {"repo", S(r.range(1, p.n("repos")))}})); break;
        case 2: addTarget(p, O("restore1", {{"repo", S(r.range(1, p.n("repos")))}})); break;
        case 3: addTarget(p, O("push", {{"n", S(r.range(1, 3))}})); break;
        case 4: addTarget(p, O("expire", {{"may", "1"}})); break;
        case 5: addTarget(p, O("stanza-up", {})); break;
    }
    p.ops.push_back(O("bounded")); p.ops.push_back(O("heal")); p.ops.push_back(O("checkacked")); p.ops.push_back(O("checkall"));
    p.variants = 16; p.faultMix = "kill,errno,errno,errno,short,term,stall,full,nomem,pq,@resched"; if (p.n("remote")) p.faultMix += ",break,killtree";
}

static const std::vector<Prop> base = {
    {"C01", genC01}, {"C02", genC02}, {"C03", genC03}, {"C04", genC04}, {"C05", genC05}, {"C06", genC06}, {"C09", genC09}, {"C18", genC18},
};
static std::vector<Prop> allProps() { std::vector<Prop> v = base; for (auto &p : moreProps()) v.push_back(p); return v; }
static const std::vector<Prop> props = allProps();
static std::vector<std::string> ids() { std::vector<std::string> v; for (auto &p : props) v.push_back(p.id); return v; }
const std::vector<std::string> propList = ids();

Plan genPlan(const std::string &prop, uint64_t seed, const std::string &tier)
{
    Plan p; p.prop = prop; p.seed = seed;
    Rng r(seed * 1000003 + hashStr(prop));
    for (auto &x : props) if (prop == x.id) { x.gen(p, r, tier == "thorough"); if (tier == "thorough") p.variants = p.variants * 3; return p; }
    fprintf(stderr, "unknown property %s\n", prop.c_str()); exit(2);
}

//=================================================================================================================================
// Property operations
//=================================================================================================================================
// content of a WAL segment that PostgreSQL could have produced (variant 0) or a different one of the same name (variant > 0)
static std::string walVariant(Pg *pg, const std::string &name, int variant, uint64_t sysid, uint16_t magic)
{
    std::string d(pg->segSize, '\0'); uint16_t info = 2; uint32_t tli = (uint32_t)strtoul(name.substr(0, 8).c_str(), nullptr, 16);
    uint64_t start = (strtoull(name.substr(8, 8).c_str(), nullptr, 16) << 32) + strtoull(name.substr(16, 8).c_str(), nullptr, 16) * pg->segSize;
    memcpy(&d[0], &magic, 2); memcpy(&d[2], &info, 2); memcpy(&d[4], &tli, 4); memcpy(&d[8], &start, 8); memcpy(&d[24], &sysid, 8); memcpy(&d[32], &pg->segSize, 4);
    uint32_t xb = 8192; memcpy(&d[36], &xb, 4);
    Rng r(hashStr(name, (uint64_t)variant * 7919 + 11)); for (size_t i = 64; i + 8 < 40000; i += 8) { uint64_t v = r.next(); memcpy(&d[i], &v, 8); }
    return d;
}

bool Run::execPropOp(int i, const Op &op)
{
    auto args = [&](std::initializer_list<std::string> l) { std::vector<std::string> a = {"--stanza=demo"}; a.insert(a.end(), l.begin(), l.end()); return a; };
    if (op.name == "nofault") { noFaults(); return true; }
    if (moreOp(*this, i, op)) return true;

    //-- WAL archiving through the archiver --------------------------------------------------------------------------------------
    if (op.name == "push") {
        pg->archOp = i;
        int n = (int)op.n("n", 1);
        for (int k = 0; k < n; k++) {
            pg->writePage(pg->pickRel(), 0); pg->switchWal();
            if (op.n("tli") && k == n / 2) { pg->becomeTimeline(pg->tli + 1); }
            sleepFor(rng.range(10, 300000));
        }
        Pg *g = pg; runUntil([g] { return g->readyCount() == 0 && !g->pusher; }, 120000000ll); W->stuckWhy.clear();
        pg->archOp = -1;
        return true;
    }
    if (op.name == "checkacked") {
        for (int r = 1; r <= repos && !bad(); r++) {
            std::vector<std::string> m = missingAcked(r);
            if (!m.empty()) fail("acked-lost", fmt("WAL acknowledged by archive-push cannot be retrieved from repo%d: ", r) + m[0]);
            probe("acked-checked", (int64_t)pg->acked.size());
        }
        return true;
    }
    if (op.name == "bounded") {                                     // the target command must have ended
        bool nomem = false; for (auto &f : W->faults) if (f.kind == FK_NOMEM && f.fired) nomem = true;
        if (W->stats.segv && !nomem) fail("segv", "a process crashed (memory fault): " + last.why());
        if (!last.done) fail("hang", "command did not terminate after a fault: " + (last.p ? last.p->argv.back() : std::string()) + " " + W->stuckWhy + " " + last.why());
        return true;
    }

    //-- direct pushes: duplicates, conflicting content, foreign clusters -------------------------------------------------------------
    if (op.name == "pushx") {
        Rng x((uint64_t)op.n("xseed") + 77); std::string dir = "/pg/data/pg_wal"; const PgVer &v = pgVer(pg->major);
        waitArchiver(); pg->archiverOn = false;                     // this operation is the archiver
        for (int k = 0; k < op.n("n", 2) && !bad(); k++) {
            char nm[40]; snprintf(nm, sizeof nm, "%08X%08X%08X", 1u, 1u, (unsigned)x.below(3)); std::string name = nm;
            int kind = (int)x.below(op.n("conc") ? 10 : 8);                             // 0-3 same content, 4-5 different, 6 foreign system, 7 foreign version, 8-9 concurrent same
            bool part = x.chance(0.1); if (part) name += ".partial";
            int variant = kind == 4 || kind == 5 ? 1 : 0; uint64_t sid = kind == 6 ? pg->sysid + 12345 : pg->sysid;
            uint16_t magic = v.magic; if (kind == 7) { magic = pgVer(pg->major == 16 ? 17 : 16).magic; }
            std::string data = walVariant(pg, name.substr(0, 24), variant, sid, magic);
            fsWrite(hp, dir + "/" + name, data, 1000, 1000); fsWrite(hp, dir + "/archive_status/" + name + ".ready", "", 1000, 1000); fsSyncTree(hp, dir);
            if (op.n("async")) { fsUnlink(hp, "/spool/archive/demo/out/" + name + ".ok"); }   // the status of an earlier push of that name is trusted by design
            std::vector<std::string> a = args({op.n("async") ? "--archive-async" : "--no-archive-async", "archive-push", "pg_wal/" + name});
            std::vector<Proc *> ps; int cnt = kind >= 8 ? 2 : 1;
            for (int c = 0; c < cnt; c++) { ps.push_back(start(hp, a, pg->data, i)); if (c == 0 && cnt > 1) sleepFor((usec)x.below(20000)); }
            if (kind >= 8) probe("push-concurrent");
            for (auto pr : ps) {
                CmdRes r = wait(pr); last = r;
                if (r.ok()) {
                    if (kind == 6 || kind == 7) { fail("foreign-accepted", fmt("archive-push of WAL from another %s returned success: %s", kind == 6 ? "cluster" : "version", name.c_str())); return true; }
                    if (vars.count("px:" + name) && vars["px:" + name] != S(variant)) { fail("conflict-accepted", "archive-push returned success for " + name + " with content different from what was already acknowledged"); return true; }
                    vars["px:" + name] = S(variant); probe("push-acked");
                } else {
                    probe(fmt("push-rc-%d", r.rc));
                    if (r.done && kind <= 3 && !faultsFired() && vars["px:" + name] == S(variant)) { fail("dup-rejected", fmt("re-push of identical WAL %s failed rc=%d: ", name.c_str(), r.rc) + r.why()); return true; }
                }
            }
            if (op.n("async")) { settle(300000000ll); }
            fsUnlink(hp, dir + "/archive_status/" + name + ".ready"); fsUnlink(hp, dir + "/" + name);
            // what is stored for an acknowledged segment never changes
            for (auto &kv : vars) if (kv.first.substr(0, 3) == "px:" && !kv.second.empty() && (x.chance(0.3) || kv.first == "px:" + name)) {
                std::string f = kv.first.substr(3);
                for (int rp = 1; rp <= repos; rp++) {
                    std::string out; int rc; std::string e = getWal(f, rp, out, &rc);
                    if (!e.empty()) { fail("acked-lost", fmt("acknowledged %s not retrievable from repo%d: ", f.c_str(), rp) + e.substr(0, 500)); return true; }
                    if (out != walVariant(pg, f.substr(0, 24), atoi(kv.second.c_str()), pg->sysid, v.magic)) { fail("overwritten", fmt("content of acknowledged %s changed in repo%d", f.c_str(), rp)); return true; }
                    probe("pushx-checked");
                }
            }
        }
        return true;
    }
    if (op.name == "checkpushx") {
        const PgVer &v = pgVer(pg->major);
        for (auto &kv : vars) if (kv.first.substr(0, 3) == "px:" && !kv.second.empty())
            for (int rp = 1; rp <= repos && !bad(); rp++) {
                std::string f = kv.first.substr(3), out; int rc; std::string e = getWal(f, rp, out, &rc);
                if (!e.empty()) fail("acked-lost", fmt("acknowledged %s not retrievable from repo%d: ", f.c_str(), rp) + e.substr(0, 500));
                else if (out != walVariant(pg, f.substr(0, 24), atoi(kv.second.c_str()), pg->sysid, v.magic)) fail("overwritten", fmt("content of acknowledged %s changed in repo%d", f.c_str(), rp));
            }
        return true;
    }

    //-- archive-get ------------------------------------------------------------------------------------------------------------------
    if (op.name == "spread") {                                      // each archived file stays in a non-empty subset of the repositories
        Rng x((uint64_t)op.n("xseed") + 5); std::vector<std::string> fs;
        for (auto &f : pg->acked) if (f.size() == 24) {
            int keep = 1 + (int)x.below((uint64_t)repos); bool gone = x.chance(0.1);
            for (int r = 1; r <= repos; r++) if (gone || (r != keep && x.chance(0.4))) {
                std::vector<std::string> del; fsWalk(repoHost(r), repoPath(r) + "/archive/demo", [&](const std::string &p, Inode *n) { if (n->type == TFile && p.find("/" + f + "-") != std::string::npos) del.push_back(p); });
                for (auto &d : del) fsUnlink(repoHost(r), d);
            }
            if (gone) fs.push_back(f);
        }
        for (auto &f : fs) { pg->acked.erase(f); vars["gone:" + f] = "1"; }
        for (auto h : W->hosts) syncHost(h);
        return true;
    }
    if (op.name == "getseq") {
        Rng x((uint64_t)op.n("xseed") + 99);
        std::vector<std::string> segs; for (auto &kv : pg->walContent) if (kv.first.size() == 24) segs.push_back(kv.first);
        if (segs.empty()) return true;
        waitArchiver();
        size_t pos = x.chance(0.5) && vars.count("getpos") ? (size_t)atoi(vars["getpos"].c_str()) : x.below(segs.size());
        std::string dest = "/restore/get"; fsMkdirs(hp, dest, 1000, 1000, 0700);
        for (int k = 0; k < op.n("n", 3) && !bad(); k++) {
            std::string f;
            if (pos < segs.size()) f = segs[pos];
            else { uint64_t l = pg->lsn; f = pg->segName(l); }        // current, not yet archived
            if (x.chance(0.08)) f = fmt("%08X.history", (unsigned)x.range(1, 3));
            std::set<int> in; for (int r = 1; r <= repos; r++) fsWalk(repoHost(r), repoPath(r) + "/archive/demo", [&](const std::string &p, Inode *n) { if (n->type == TFile && p.find(".pgbackrest.tmp") == std::string::npos && (p.find("/" + f + "-") != std::string::npos || (p.size() > f.size() && p.compare(p.size() - f.size() - 1, f.size() + 1, "/" + f) == 0))) in.insert(r); });
            bool present = !in.empty();
            fsUnlink(hp, dest + "/X");
            bool quietRun; int firedBefore = faultsFired();
            CmdRes r = cmd(hp, args({"archive-get", f, dest + "/X"}), "/", i);
            quietRun = !W->faultsOn || !faultsFired();
            // errors that earlier faults left behind in the spool may be reported until they have been cleared
            for (int tr = 0; tr < 3 && quietRun && r.done && r.rc > 1 && faultsFired(); tr++) { probe("get-retry"); settle(); r = cmd(hp, args({"archive-get", f, dest + "/X"}), "/", i); }
            std::string out; bool have = fsRead(hp, dest + "/X", out);
            if (!r.done) { if (quietRun) fail("get-hang", "archive-get " + f + " did not terminate: " + W->stuckWhy); else { probe("get-hung"); for (auto h : W->hosts) killHost(h); } }
            else if (r.rc == 0) {
                probe("get-found");
                if (!have) fail("get-nofile", "archive-get " + f + " returned success but there is no file");
                else if (!pg->walContent.count(f) || !present) fail("get-unknown", "archive-get " + f + " returned success for a file that is in no repository");
                else if (out != pg->walContent[f]) fail("get-wrong", fmt("archive-get %s returned success with wrong content (size %zu)", f.c_str(), out.size()));
            } else if (r.rc == 1 && r.sig == 0) {
                probe("get-notfound");
                // a repository that could not be read is reported with a warning and skipped
                for (auto q : std::set<int>(in)) if (r.all().find(fmt("repo%d: [", q)) != std::string::npos) in.erase(q);
                if (faultsFired() > firedBefore && repos > 1 && n("async")) { probe("get-notfound-excused"); in.clear(); }   // the warning is only in the log of the asynchronous process
                if (!in.empty()) fail("get-missed", "archive-get " + f + " reported not found although a repository holds the file: " + r.why());
            } else { probe(fmt("get-rc-%d", r.rc)); if (quietRun) fail("get-error", fmt("archive-get %s failed rc=%d sig=%d without a fault: ", f.c_str(), r.rc, r.sig) + r.why()); }
            if (op.n("settle")) settle();
            if (r.ok() || x.chance(0.3)) { if (f.size() == 24) pos++; }
            if (x.chance(0.1)) pos = x.below(segs.size());
            if (x.chance(0.3)) sleepFor((usec)x.below(400000));
        }
        vars["getpos"] = S((int64_t)pos);
        return true;
    }

    //-- lock exclusion --------------------------------------------------------------------------------------------------------------
    if (op.name == "race") {
        int repo = (int)op.n("repo", 1); Host *h = repoHost(repo); std::string root = repoPath(repo) + "/backup/demo";
        Rng x((uint64_t)op.n("xseed") + 3 + (uint64_t)op.n("resched"));
        struct Iv { int64_t first = -1, last = -1; int writes = 0; };
        auto iv = std::make_shared<std::map<int, Iv>>(); auto group = std::make_shared<std::map<int, int>>();
        int64_t seq = 0;
        // attribute each mutation below the repository's backup directory to the command (root ancestor) that made it
        auto rootOf = [](Proc *p) { int id = p->pid; for (; p; p = p->parent) id = p->pid; return id; };
        auto owner = std::make_shared<std::map<int, int>>();        // pid -> command index, inherited by children even after the parent died
        std::map<int, bool> released; std::map<int, int> late;
        W->onMut = [&, h, root](Host *mh, Sys sy, const std::string &path) {
            if (!W->cur) return;
            int g = W->cur->tag; if (g <= 0) return;
            if (sy == S_UNLINK && path.find("-backup") != std::string::npos && path.size() > 5 && path.substr(path.size() - 5) == ".lock") { released[g] = true; return; }
            if (mh != h || path.compare(0, root.size(), root) != 0) return;
            // known finding K2: a worker finishing its file after its failed main process gave up the lock
            if (released[g] && W->cur->role != "main" && !s("strict").size()) { late[g]++; return; }
            Iv &v = (*iv)[g]; seq++; if (v.first < 0) v.first = seq; v.last = seq; v.writes++;
        };
        (void)rootOf;
        std::vector<Proc *> ps; std::vector<std::string> what; int tries = (int)op.n("tries", 1);
        pg->startActivity();
        auto mk = [&](const std::string &c) {
            std::vector<std::string> a = args({c}); if (c == "backup") { a.push_back("--repo=" + S(repo)); a.push_back("--type=" + op.s("type")); } else a.push_back("--repo=" + S(repo));
            Proc *p = start(h, a, "/", i); p->tag = (int)ps.size() + 1; ps.push_back(p); what.push_back(c);
        };
        mk(op.s("a"));
        for (int t = 0; t < tries; t++) {
            sleepFor((usec)(x.chance(0.3) ? x.below(3000) : x.chance(0.5) ? x.below(300000) : x.below(6000000)));
            mk(t == 0 ? op.s("b") : x.chance(0.5) ? op.s("a") : op.s("b"));
        }
        std::vector<CmdRes> rs; for (auto p : ps) rs.push_back(wait(p, 1800000000ll));
        last = rs[0];
        settle(900000000ll);
        pg->stopActivity();
        W->onMut = nullptr;
        int okc = 0, refused = 0;
        for (auto &l : late) { probe("late-worker-write"); vars["skip"] = "1"; if (rs[(size_t)l.first - 1].ok()) fail("late-write", fmt("command %d returned success but its workers changed the repository after the lock was released", l.first)); }
        for (size_t k = 0; k < ps.size(); k++) {
            if (rs[k].ok()) okc++;
            if (rs[k].done && rs[k].rc == 50) { refused++; if ((*iv)[(int)k + 1].writes > 0) fail("refused-wrote", what[k] + " was refused the lock but changed the repository"); }
        }
        for (auto &a : *iv) for (auto &b : *iv) if (a.first < b.first && a.second.writes && b.second.writes && a.second.first < b.second.last && b.second.first < a.second.last)
            fail("overlap", fmt("commands %d (%s) and %d (%s) modified the backup repository at the same time", a.first, what[(size_t)a.first - 1].c_str(), b.first, what[(size_t)b.first - 1].c_str()));
        probe("race-ok", okc); probe("race-refused", refused);
        RepoInfo ri = info(repo); for (auto &b : ri.backups) (void)b;
        return true;
    }

    if (op.name == "restore1") {
        RepoInfo ri = info((int)op.n("repo", 1)); if (ri.backups.empty()) return true;
        RestoreOpt o; o.repo = (int)op.n("repo", 1); o.label = ri.backups[rng.below(ri.backups.size())].label; o.fault = true;
        CmdRes r = restore(o);
        if (r.ok()) {
            noFaults(); settle(); waitArchiver(); waitGetAsync();
            Recov rv; std::string e = recover(o.dir, rv, true, 0, modelBackup(*std::find_if(ri.backups.begin(), ri.backups.end(), [&](const BkInfo &b) { return b.label == o.label; })));
            if (!e.empty()) fail("restore-silent", "restore returned success after a fault but the cluster is wrong: " + e);
            probe("restore-ok");
        } else probe("restore-failed");
        return true;
    }
    if (op.name == "stanza-up") {
        CmdRes r = cmd(repoHost(1), args({"stanza-upgrade"}), "/", i); probe(r.ok() ? "stanza-ok" : "stanza-failed");
        return true;
    }
    return false;
}
}
