// Scenario generation shared by all properties, and the generic operations
#include "props.h"
#include <algorithm>
#include <cerrno>
#include <csignal>

namespace sim {

//=================================================================================================================================
// Configuration swarm
//=================================================================================================================================
void swarm(Plan &p, Rng &r, const Swarm &w)
{
    auto set = [&](const char *k, int64_t v) { p.cfg[k] = std::to_string(v); };
    auto str = [&](const char *k, const std::string &v) { p.cfg[k] = v; };
    int repos = w.repos ? w.repos : r.chance(0.65) ? 1 : r.chance(0.75) ? 2 : 3;
    set("repos", repos);
    bool rem = w.remote >= 0 ? w.remote : r.chance(0.5);
    set("remote", rem ? (1 << repos) - 1 : 0);
    set("cipher", w.cipher >= 0 ? w.cipher : r.chance(0.4) ? (int64_t)r.below(1u << repos) : 0);
    bool bundle = r.chance(0.55); set("bundle", bundle);
    if (bundle) {
        str("bundle-size", r.pick(std::vector<std::string>{"1MiB", "2MiB", "20MiB"}));
        str("bundle-limit", r.pick(std::vector<std::string>{"8KiB", "20KiB", "64KiB", "2MiB"}));
        set("block", r.chance(0.6));
    }
    set("hardlink", r.chance(0.2));
    str("compress", r.chance(0.04) ? "bz2" : r.chance(0.12) ? "gz" : r.pick(std::vector<std::string>{"none", "lz4", "zst", "lz4"}));
    if (r.chance(0.3)) set("compress-level", 1);
    set("process-max", r.range(1, 4));
    str("buffer-size", r.pick(std::vector<std::string>{"16KiB", "64KiB", "128KiB", "1MiB"}));
    set("pgver", r.pick(std::vector<int64_t>{12, 13, 14, 15, 16, 17, 18, 16, 17}));
    set("checksums", r.chance(0.8));
    set("tblspc", r.chance(0.3) ? r.range(1, 2) : 0);
    set("rels", r.range(3, w.small ? 5 : 9)); set("extra", r.range(2, 6)); set("maxpages", r.pick(std::vector<int64_t>{4, 12, 24, 40}));
    set("ddl", r.chance(0.8)); set("torn", r.chance(0.8));
    str("delta", r.chance(0.25) ? "y" : "n");
    if (w.async >= 0) set("async", w.async); else set("async", r.chance(0.4));
    if (r.chance(0.1)) set("archive-copy", 1);
    set("stick", r.pick(std::vector<int64_t>{300, 700, 900, 970, 995})); set("sched", r.chance(0.7) ? 0 : r.range(1, 2));
    set("lat", r.pick(std::vector<int64_t>{5, 20, 20, 200, 1500})); set("fsynclat", r.pick(std::vector<int64_t>{10, 200, 200, 5000}));
    set("qdelay", r.pick(std::vector<int64_t>{500, 2000, 50000, 1000000}));
    set("archretry", r.pick(std::vector<int64_t>{200, 1000, 5000}));
    if (w.skew && r.chance(0.4)) set("clockoff", r.pick(std::vector<int64_t>{-3600000, -5000, -700, 900, 4000, 7200000}));
    if (r.chance(0.3)) str("log", "detail");
    if (r.chance(0.15)) set("links", r.range(1, 63));
    if (r.chance(0.15)) set("grp", 1);
    if (r.chance(0.1)) set("dbs", r.range(1, 15));
    // Start of WAL (MiB): sometimes shortly before the next 4 GiB, where segments move to another archive directory
    if (r.chance(0.1)) set("segsize", r.pick(std::vector<int64_t>{2, 4}));
    if (r.chance(0.4)) set("lsn0", r.pick(std::vector<int64_t>{4096, 0xFF * 4096, 0xA0 * 4096}) - r.range(1, 9) * p.n("segsize", 1));
}

//=================================================================================================================================
// Faults
//=================================================================================================================================
std::vector<std::string> csv(const std::string &s) { std::vector<std::string> v; size_t i = 0; while (i <= s.size() && !s.empty()) { size_t e = s.find(',', i); if (e == std::string::npos) e = s.size(); v.push_back(s.substr(i, e - i)); i = e + 1; } return v; }

Fault mkFault(const std::string &k, Rng &r)
{
    Fault f; f.frac = 0;                                            // frac >= 0: the call is picked from the profile of the target op
    f.seed = r.next() >> 16;
    if (k == "kill") f.kind = FK_KILL;
    else if (k == "killtree") f.kind = FK_KILLTREE;
    else if (k == "power") { f.kind = FK_POWER; if (r.chance(0.6)) f.cls = C_MUT; }
    else if (k == "power-other") { f.kind = FK_POWER; f.arg = 1; }
    else if (k == "term") { f.kind = FK_TERM; f.err = r.pick(std::vector<int>{SIGTERM, SIGINT, SIGHUP, SIGTERM}); }
    else if (k == "errno") {
        f.kind = FK_ERRNO; bool mut = r.chance(0.65); f.cls = mut ? C_MUT : C_RD;
        f.err = mut ? r.pick(std::vector<int>{EIO, ENOSPC, EACCES, EIO}) : r.pick(std::vector<int>{EIO, EACCES, EIO, EMFILE});
        f.repeat = r.chance(0.7) ? 1 : r.chance(0.6) ? 2 : 1000000;
        if (!mut && r.chance(0.4)) { f.cls = 0; f.sys = S_READDIR; f.err = EIO; }     // few calls, much depends on them
    }
    else if (k == "short") { f.kind = FK_SHORT; f.sys = S_WRITE; }
    else if (k == "stall") { f.kind = FK_STALL; f.arg = r.pick(std::vector<int64_t>{2000, 50000, 1500000, 12000000, 200000000}); }
    else if (k == "lag") { f.kind = FK_STALL; f.arg = r.pick(std::vector<int64_t>{2000, 50000, 500000, 1500000, 6000000}); }
    else if (k == "break") { f.kind = FK_BREAK; if (r.chance(0.5)) f.cls = C_PIPE; }
    else if (k == "full") { f.kind = FK_FULL; f.cls = C_MUT; }
    else if (k == "nomem") { f.kind = FK_NOMEM; f.sys = S_MALLOC; }
    else if (k == "clock") { f.kind = FK_CLOCK; f.arg = r.pick(std::vector<int64_t>{-3600000000ll, -2000000, 1500000, 60000000, 86400000000ll}); }
    else if (k == "pq") { f.kind = FK_ERRNO; f.cls = C_PQ; f.err = ECONNRESET; }
    else { fprintf(stderr, "unknown fault kind %s\n", k.c_str()); abort(); }
    return f;
}

std::vector<Fault> genVariant(Plan &q, Rng &r)
{
    std::vector<Fault> v;
    std::vector<std::string> mix = csv(q.faultMix);
    std::vector<std::string> use; for (auto &m : mix) if (m[0] != '@') use.push_back(m);
    if (!use.empty()) {
        int n = r.chance(0.75) ? 1 : r.chance(0.8) ? 2 : 3;
        for (int i = 0; i < n; i++) v.push_back(mkFault(r.pick(use), r));
    }
    // '@name' entries set a fresh random argument on later ops: @vseed (crash outcome), @resched (interleaving of the target op)
    for (auto &m : mix) {
        if (m == "@vseed") { for (size_t i = (size_t)q.target; i < q.ops.size(); i++) if (q.ops[i].a.count("vseed")) q.ops[i].a["vseed"] = std::to_string(r.next() >> 20); }
        if (m == "@xseed") { if (q.ops[(size_t)q.target].a.count("xseed")) q.ops[(size_t)q.target].a["xseed"] = std::to_string(r.next() >> 30); }
        if (m == "@resched") { if (r.chance(0.7)) q.ops[(size_t)q.target].a["resched"] = std::to_string(r.next() % 1000000007 + 1); }
        if (m == "@next" && q.target + 1 < (int)q.ops.size() && r.chance(0.25)) {   // a second fault in the op after the target
            std::vector<std::string> u; for (auto &k : use) u.push_back(k);
            if (!u.empty()) { Fault f = mkFault(r.pick(u), r); f.op = q.target + 1; v.push_back(f); }
        }
    }
    return v;
}

//=================================================================================================================================
// Generic operations
//=================================================================================================================================
void Run::sleepFor(usec d) { usec t = W->now + d; at(t, [] {}); runUntil([t] { return W->now >= t; }, d + 1000000); }

// Faults stop: nothing injected any more, resources are back, everything still running comes to an end
void Run::noFaults()
{
    W->faultsOn = false;
    for (auto h : W->hosts) { h->diskFull = false; h->diskFree = -1; h->eioPath.clear(); h->reachable = true; }
}
void Run::heal()
{
    noFaults();
    pg->dropConn = false;
    for (auto &kv : W->procs) kv.second->stallUntil = 0;
    if (!bad()) settle(900000000ll);
    if (aliveCount() > 0) { probe("killed-leftover"); for (auto h : W->hosts) killHost(h); }
    W->stuck = false; W->stuckWhy.clear();
    Pg *g = pg; at(W->now + 200000, [g] { g->archiverKick(); });
}

int Run::faultsFired(int op) const { int n = 0; for (auto &f : W->faults) if (op < 0 || f.op == op || f.op < 0) n += f.fired; return n; }

std::string Run::snapshotInfo()                                     // records labels reported by info, returns error
{
    for (int r = 1; r <= repos; r++) { RepoInfo ri = info(r); if (!ri.ok) return fmt("info failed on repo%d: ", r) + ri.raw.substr(0, 600); listed[r].clear(); for (auto &b : ri.backups) listed[r].insert(b.label); }
    return "";
}

// Every completed backup is still listed and every listed backup restores
std::string Run::checkListed(const std::string &why, bool needAll, int atMost)
{
    int total = 0; if (atMost) for (int r = 1; r <= repos; r++) total += (int)info(r).backups.size();
    for (int r = 1; r <= repos; r++) {
        RepoInfo ri = info(r);
        if (!ri.ok) return why + fmt(": info failed on repo%d: ", r) + ri.raw.substr(0, 800);
        std::set<std::string> have; for (auto &b : ri.backups) have.insert(b.label);
        for (auto &l : completed[r]) if (!have.count(l)) return why + fmt(": completed backup %s is no longer listed in repo%d", l.c_str(), r);
        for (auto &b : ri.backups) {
            if (checkedOk.count(fmt("%d/", r) + b.label) && rng.chance(0.5)) continue;     // already restored in this state class
            if (atMost && total > atMost && !rng.chance((double)atMost / total)) continue;
            std::string e = restoreAndCheck(b.label, r, why + fmt(" (repo%d)", r), needAll); if (!e.empty()) return e;
        }
        listed[r] = have;
    }
    return "";
}

void Run::powerAll(uint64_t vseed, int which)
{
    Rng r(vseed ^ 0xBEEF);
    if (which & 1) { powerCrash(hp, r.next()); W->stats.faults[FK_POWER]++; }
    if (hr && (which & 2)) { powerCrash(hr, r.next()); W->stats.faults[FK_POWER]++; }
    W->hash = hashStr(std::to_string(vseed), W->hash);
    Pg *g = pg; at(W->now + 300000, [g] { g->archiverKick(); });
    sleepFor(500000);
}

std::vector<std::string> extraArgs(const Op &op) { return shSplit(op.s("args")); }

void Run::execOp(int i)
{
    const Op op = plan.ops[(size_t)i]; opIdx = i; W->curOp = i;
    logf("=== op %d %s", i, op.name.c_str());
    if (vars.count("skip") && op.name != "heal") return;             // the rest of the history is not judged (known finding)
    if (op.a.count("resched")) W->sched.seedIt((uint64_t)op.n("resched"));
    if (execPropOp(i, op)) return;
    if (op.name == "stanza-create") {
        CmdRes r = cmd(repoHost(1), {"--stanza=demo", "stanza-create"}, "/", i);
        if (!r.ok()) fail("stanza-create", fmt("stanza-create failed rc=%d: ", r.rc) + r.why());
        pg->archiverOn = true; pg->archiverKick();
    }
    else if (op.name == "activity") { pg->startActivity(); sleepFor(op.n("ms", 50) * 1000); pg->stopActivity(); }
    else if (op.name == "sleep") sleepFor(op.n("ms", 50) * 1000);
    else if (op.name == "switch") { for (int k = 0; k < op.n("n", 1); k++) { pg->writePage(pg->pickRel(), 0); pg->switchWal(); } }
    else if (op.name == "clock") { Host *h = op.s("host") == "repo" && hr ? hr : hp; h->clockOff += op.n("ms") * 1000; }
    else if (op.name == "tli") { drainWal(); pg->becomeTimeline(pg->tli + 1); }
    else if (op.name == "heal") heal();
    else if (op.name == "drain") { if (!drainWal(op.n("sec", 900) * 1000000)) fail("drain", "WAL archiving made no progress in " + op.s("sec", "900") + " s without faults (" + W->stuckWhy + fmt(", ready=%d pusher=%d): ", pg->readyCount(), pg->pusher != nullptr) + pg->lastPushErr.substr(0, 600)); }
    else if (op.name == "crash") { W->faultsOn = false; powerAll((uint64_t)op.n("vseed", 1), (int)op.n("which", 3)); }
    else if (op.name == "checkall") {
        drainWal(); std::string e = checkListed("restore check"); if (!e.empty()) fail("restore", e);
    }
    else if (op.name == "expire") {
        std::vector<std::string> a = {"--stanza=demo", "expire"}; for (auto &x : extraArgs(op)) a.push_back(x);
        CmdRes r = cmd(repoHost(1), a, "/", i); vars["rc"] = std::to_string(r.rc);
        if (!r.ok() && !faultsFired() && !op.n("may")) fail("expire", fmt("expire failed rc=%d without a fault: ", r.rc) + r.why());
    }
    else if (op.name == "backup") {
        if (op.n("act", 1)) pg->startActivity();
        CmdRes r = backup(op.s("type"), (int)op.n("repo", 1), extraArgs(op));
        pg->stopActivity();
        vars["rc"] = std::to_string(r.rc);
        if (!r.done) probe("backup-hung");
        if (r.ok()) probe("backup-ok"); else probe("backup-failed");
        if (!r.ok() && (!faultsFired() || op.n("must")) && !op.n("may")) fail("backup", fmt("backup failed rc=%d sig=%d with no fault active: ", r.rc, r.sig) + r.why());
    }
    else if (op.name == "nop") { }
    else { fprintf(stderr, "unknown op %s\n", op.name.c_str()); abort(); }
}
void Run::finish() { W->faultsOn = false; }
}
