// C15 (WAL of a backup is in the repository), C16 (repositories are independent), C23 (archive queue limit)
#include "prop_more.h"
#include <algorithm>
#include <cerrno>

namespace sim {

// Is the file stored (under its final name) in the archive of this repository?
static bool stored(Run &run, int repo, const std::string &f)
{
    bool have = false;
    fsWalk(run.repoHost(repo), run.repoPath(repo) + "/archive/demo", [&](const std::string &p, Inode *n) {
        if (n->type != TFile || p.find(".pgbackrest.tmp") != std::string::npos) return;
        size_t s = p.rfind('/'); std::string b = p.substr(s + 1);
        if (b == f || b.compare(0, f.size() + 1, f + "-") == 0) have = true; });
    return have;
}

static std::vector<std::string> segsOf(Pg *g, const BackupRec &b)
{
    std::vector<std::string> v;
    for (uint64_t l = b.startLsn & ~(uint64_t)(g->segSize - 1); l < b.stopLsn; l += g->segSize) v.push_back(g->segName(l));
    return v;
}

static std::string oneRepoConfig(Run &run, int drop)                // the configuration without one of the repositories
{
    std::string c, o; fsRead(run.hp, "/etc/pgbackrest/pgbackrest.conf", c);
    size_t i = 0; while (i < c.size()) { size_t e = c.find('\n', i); if (e == std::string::npos) e = c.size(); std::string l = c.substr(i, e - i); i = e + 1; if (l.find("repo" + S(drop) + "-") != 0) o += l + "\n"; }
    std::string path = "/etc/pgbackrest/alt.conf"; fsWrite(run.hp, path, o, 0, 0, 0644); return path;
}

static uint64_t bytesOf(const std::string &s) { uint64_t v = strtoull(s.c_str(), nullptr, 10); if (s.find("MiB") != std::string::npos) v <<= 20; else if (s.find("KiB") != std::string::npos) v <<= 10; return v; }

bool walOp(Run &run, int i, const Op &op)
{
    Pg *g = run.pg;
    auto args = [&](std::initializer_list<std::string> l) { std::vector<std::string> a = {"--stanza=demo"}; a.insert(a.end(), l.begin(), l.end()); return a; };

    //-- C15 --------------------------------------------------------------------------------------------------------------------------
    if (op.name == "walbackup" || op.name == "walcheck") {
        bool bk = op.name == "walbackup"; std::string mode = op.s("mode", "normal"); int repo = (int)op.n("repo", 1); Rng x((uint64_t)op.n("xseed") + 17);
        std::vector<std::string> cmdSave = g->archiveCmd; int drop = 0;
        run.drainWal(300000000ll);
        if (mode == "alt") { drop = (int)op.n("drop", 1); g->archiveCmd = {"pgbackrest", "--config=" + oneRepoConfig(run, drop), "--stanza=demo", "archive-push", "%p"}; run.waitArchiver(); }
        if (mode == "off" || mode == "late") g->archiverOn = false;
        if (mode == "late") at(W->now + op.n("late") * 1000, [g] { g->archiverOn = true; g->archiverKick(); });
        int skipIn = (int)op.n("skip"); auto seen = std::make_shared<int>(0);
        if (mode == "hole") g->skipArchive = [seen, skipIn](const std::string &) { return (*seen)++ == skipIn; };
        // WAL segments are completed while the command runs
        auto on = std::make_shared<bool>(true); int nsw = (int)op.n("nsw");
        for (int k = 0; k < nsw; k++) at(W->now + (usec)x.below((uint64_t)op.n("span", 1000) * 1000), [g, on] { if (*on && g->running) { g->writePage(g->pickRel(), 0); g->switchWal(); } });
        size_t before = g->backups.size(); g->lastSwitch.clear(); int fired = run.faultsFired();
        usec t0 = W->now; CmdRes r; std::vector<std::string> missing; std::vector<std::string> segs;
        Host *h = bk ? run.repoHost(repo) : op.n("onrepo") && run.hr ? run.hr : run.hp;
        std::vector<std::string> a;
        if (bk) { a = args({"backup", "--repo=" + S(repo), "--type=" + op.s("type", "full")}); for (auto &z : extraArgs(op)) a.push_back(z); }
        else a = args({"check"});
        g->startActivity();
        Proc *p = run.start(h, a, "/", i);
        r = run.wait(p);
        // what the repositories hold at the very moment the command has returned
        if (r.ok()) {
            if (bk) { if (g->backups.size() > before) segs = segsOf(g, g->backups.back()); else run.fail("no-backup", "backup returned success without running pg_backup_stop()"); }
            else if (!g->lastSwitch.empty()) segs = {g->lastSwitch};
            else run.fail("no-switch", "check returned success without a WAL switch");
            for (int q = 1; q <= run.repos; q++) if (bk ? q == repo : h == run.hp || run.remote[q])
                for (auto &s : segs) if (!stored(run, q, s)) missing.push_back(fmt("repo%d:", q) + s);
        }
        g->stopActivity(); *on = false; g->skipArchive = nullptr;
        run.last = r; usec took = W->now - t0;
        if (!missing.empty()) { run.fail("wal-missing", op.name.substr(3) + " returned success but WAL it depends on is not in the repository: " + missing[0] + fmt(" (%zu of %zu segments missing)", missing.size(), segs.size())); return true; }
        run.probe((bk ? "backup-" : "check-") + mode + (r.ok() ? "-ok" : "-failed"));
        if (r.ok()) run.probe("segments", (int64_t)segs.size());
        if (run.faultsFired() == fired && !W->stats.segv) {
            if (!r.done) { run.fail("no-answer", op.name.substr(3) + " did not return although only archiving was " + mode + ": " + W->stuckWhy); return true; }
            bool idle = !bk && !g->lastSwitch.empty() && !g->walContent.count(g->lastSwitch);   // another session's switch came between restore point and pg_switch_wal(), which then does nothing
            if (idle) run.probe("switch-raced");
            if (mode == "normal" && !idle && !r.ok() && run.n("archive-timeout", 20) >= 20 && run.n("lat") < 1000) { run.fail("refused", op.name.substr(3) + fmt(" failed rc=%d although every WAL segment is archived: ", r.rc) + r.why()); return true; }
            usec limit = (run.n("archive-timeout", 20) * (usec)(nsw + 8) + 300) * 1000000ll;
            if (!r.ok() && took > limit) { run.fail("slow-failure", op.name.substr(3) + fmt(" took %lld s to report that WAL is not archived (archive-timeout %lld s)", (long long)took / 1000000, (long long)run.n("archive-timeout", 20))); return true; }
        }
        g->archiverOn = true; run.noFaults();
        if (!r.done) { for (auto hh : W->hosts) killHost(hh); W->stuck = false; W->stuckWhy.clear(); }
        if (mode == "alt") { run.waitArchiver(); }
        g->archiveCmd = cmdSave; g->archiverKick(); run.waitArchiver();
        if (run.bad()) return true;
        if (!r.ok()) return true;
        for (auto &s : segs) for (int q = 1; q <= run.repos; q++) if (bk ? q == repo : (h == run.hp || run.remote[q])) {
            std::string out; int rc; std::string e = run.getWal(s, q, out, &rc);
            if (!e.empty()) { run.fail("wal-lost", "WAL segment of a successful " + op.name.substr(3) + " cannot be retrieved from " + fmt("repo%d: ", q) + s + " " + e.substr(0, 400)); return true; }
            if (out != g->walContent[s]) { run.fail("wal-wrong", "WAL segment of a successful " + op.name.substr(3) + " has wrong content: " + s); return true; }
        }
        // archive-copy: the backup itself carries the segments
        if (bk && op.n("copy")) {
            RepoInfo ri = run.info(repo); if (!ri.ok || ri.backups.empty()) { run.fail("not-listed", "backup returned success but is not listed"); return true; }
            run.waitGetAsync();
            Run::RestoreOpt o; o.repo = repo; o.label = ri.backups.back().label; CmdRes rr = run.restore(o);
            if (!rr.ok()) { run.fail("copy-restore", fmt("restore of a backup with archive-copy failed rc=%d: ", rr.rc) + rr.why()); return true; }
            for (auto &s : segs) { std::string out; if (!fsRead(run.hp, o.dir + "/pg_wal/" + s, out) || out != g->walContent[s]) { run.fail("copy-missing", "WAL segment " + s + " copied into the backup (archive-copy) is missing or wrong after restore"); return true; } run.probe("copy-checked"); }
            Run::Recov rv; std::string e = run.recover(o.dir, rv, true, 0, run.modelBackup(ri.backups.back()));
            if (!e.empty()) { run.fail("copy-recover", e); return true; }
            fsRemoveTree(run.hp, o.dir); fsRemoveTree(run.hp, o.dir + "-ts");
        }
        return true;
    }

    //-- C16, C23: what an acknowledgement means -----------------------------------------------------------------------------------------
    if (op.name == "ackinv") {
        Run *rp = &run; uint64_t qmax = bytesOf(run.s("archive-push-queue-max"));
        g->onPush = [rp, g, qmax](const std::string &f, int rc) {
            if (rc != 0) { rp->vars["pf:" + f] = "1"; return; }
            bool dropMsg = g->lastPushOut.find("dropped WAL file '" + f + "'") != std::string::npos;
            std::string lack; for (int q = 1; q <= rp->repos; q++) if (!stored(*rp, q, f)) lack += fmt(" repo%d", q);
            if (lack.empty() && !dropMsg) { g->acked.insert(f); rp->probe("ack-stored"); return; }
            if (!dropMsg) { rp->fail("ack-not-stored", "archive-push returned success for " + f + " while it is not stored in" + lack); return; }
            rp->probe("ack-dropped");
            uint64_t most = (uint64_t)g->readyMax[f] * g->segSize;
            if (qmax == 0) rp->fail("drop-without-limit", "archive-push dropped " + f + " although archive-push-queue-max is not set");
            else if (most <= qmax) rp->fail("early-drop", "archive-push dropped " + f + fmt(" although at most %d files (%llu bytes) were waiting, limit %llu", g->readyMax[f], (unsigned long long)most, (unsigned long long)qmax));
            rp->vars["dropped:" + f] = "1";
        };
        return true;
    }
    if (op.name == "down") {
        int r = (int)op.n("repo", 1); std::string p = run.repoPath(r) + op.s("sub"); run.repoHost(r)->eioPath.insert(p); run.vars["down"] = S(r); run.vars["downsub"] = op.s("sub"); run.probe("repo-down");
        return true;
    }
    if (op.name == "up") { for (auto h : W->hosts) h->eioPath.clear(); run.vars.erase("down"); return true; }

    if (op.name == "isopush") {                                     // archiving while one repository is down
        int d = atoi(run.vars["down"].c_str()); g->archOp = i;
        for (int k = 0; k < op.n("n", 2); k++) { g->writePage(g->pickRel(), 0); g->switchWal(); run.sleepFor(run.rng.range(1000, 2000000)); }
        size_t ackedBefore = g->acked.size(); std::string oldest;
        auto first = [&] { std::string o; for (auto &f : fsList(run.hp, g->walDir() + "/archive_status")) if (f.size() == 30 && f.substr(24) == ".ready" && (o.empty() || f.substr(0, 24) < o)) o = f.substr(0, 24); return o; };
        oldest = first();
        auto starved = [&] { if (oldest.empty() || oldest != first()) return false; for (int q = 1; q <= run.repos; q++) if (q != d && !stored(run, q, oldest)) return true; return false; };
        for (int k = 0; k < 12 && !run.bad() && (k == 0 || starved()); k++) run.sleepFor((run.n("archive-timeout", 20) / 3 + 5) * 1000000ll);
        g->archOp = -1; (void)ackedBefore;
        if (run.bad()) return true;
        if (!oldest.empty() && oldest == first() && run.faultsFired() == 0) {
            for (int q = 1; q <= run.repos; q++) if (q != d && !stored(run, q, oldest)) { run.fail("healthy-starved", fmt("repo%d is down and repo%d, which is healthy, does not get WAL segment ", d, q) + oldest + ": " + g->lastPushErr.substr(0, 500)); return true; }
            run.probe("healthy-got-wal");
        }
        return true;
    }
    if (op.name == "iso") {                                         // commands on healthy repositories while one is down
        int d = atoi(run.vars["down"].c_str()); int h = (int)op.n("repo"); if (h == d) h = d % run.repos + 1; Rng x((uint64_t)op.n("xseed"));
        int f0 = run.faultsFired();
        if (f0 > 0) {                                               // processes of an interrupted command hold its lock until they have noticed
            bool on = g->archiverOn; g->archiverOn = false; for (auto &kv : W->procs) kv.second->stallUntil = 0; run.settle(300000000ll);
            if (aliveCount() > 0) { run.probe("killed-leftover"); for (auto h : W->hosts) killHost(h); }
            W->stuck = false; W->stuckWhy.clear(); g->archiverOn = on; if (on) at(W->now + 200000, [g] { g->archiverKick(); });
        }
        auto judge = [&](const CmdRes &r, const std::string &what) {
            if (run.faultsFired() > f0) return;
            if (!r.done) run.fail("iso-hang", what + fmt(" on healthy repo%d did not return while repo%d is down: ", h, d) + W->stuckWhy);
            else if (!r.ok()) run.fail("iso-" + what, what + fmt(" on healthy repo%d failed rc=%d while repo%d is down: ", h, r.rc, d) + r.why());
            else run.probe("iso-" + what);
        };
        std::string k = op.s("what");
        auto settleArch = [&] { bool on = g->archiverOn; g->archiverOn = false; run.settle(300000000ll); W->stuckWhy.clear(); return on; };
        if (k == "info") {
            CmdRes r = run.cmd(run.hp, args({"info", "--output=json"}), "/", i); judge(r, k); if (run.bad() || !r.ok() || run.faultsFired() > f0) return true;
            for (int q = 1; q <= run.repos; q++) if (q != d) for (auto &l : run.completed[q]) if (r.out.find("\"" + l + "\"") == std::string::npos) { run.fail("iso-info", fmt("info does not list backup %s of healthy repo%d while repo%d is down", l.c_str(), q, d)); return true; }
        } else if (k == "expire") { CmdRes r = run.cmd(run.repoHost(h), args({"expire", "--repo=" + S(h)}), "/", i); judge(r, k); }
        else if (k == "verify") { CmdRes r = run.cmd(run.repoHost(h), args({"verify", "--repo=" + S(h)}), "/", i); judge(r, k); }
        else if (k == "get") {
            bool on = settleArch();
            std::vector<std::string> v(g->acked.begin(), g->acked.end()); if (v.empty()) { g->archiverOn = on; return true; }
            std::string dest = "/restore/iso"; fsMkdirs(run.hp, dest, 1000, 1000, 0700);
            for (int n = 0; n < 3 && !run.bad(); n++) {
                std::string f = v[x.below(v.size())]; fsUnlink(run.hp, dest + "/X");
                CmdRes r = run.cmd(run.hp, args({"archive-get", f, dest + "/X"}), "/", i); judge(r, k); if (run.bad() || !r.ok()) break;
                std::string out; if (!fsRead(run.hp, dest + "/X", out) || out != g->walContent[f]) { run.fail("iso-get", "archive-get returned wrong content for " + f); break; }
            }
            run.waitGetAsync(); g->archiverOn = on; g->archiverKick();
        } else if (k == "restore") {                                // no --repo: the first repository that can be used is chosen
            bool on = settleArch();
            std::vector<std::string> c(run.completed[h].begin(), run.completed[h].end()); if (c.empty()) { g->archiverOn = on; return true; }
            Run::RestoreOpt o; o.fault = true; if (x.chance(0.5) || run.vars["downsub"] != "") o.repo = h; if (o.repo || x.chance(0.5) || run.vars.count("nochk")) o.label = c[x.below(c.size())];
            CmdRes r = run.restore(o); judge(r, k);
            if (!run.bad() && r.ok()) {
                std::string bl; fsRead(run.hp, o.dir + "/backup_label", bl); const BackupRec *m = nullptr; for (auto &b : g->backups) if (b.label == bl) m = &b;
                Run::Recov rv; std::string e = m ? run.recover(o.dir, rv, true, 0, m) : "backup_label of no backup"; if (!e.empty()) run.fail("iso-restore-wrong", fmt("restore while repo%d is down: ", d) + e);
                fsRemoveTree(run.hp, o.dir); fsRemoveTree(run.hp, o.dir + "-ts");
            }
            run.waitGetAsync(); g->archiverOn = on; g->archiverKick();
        } else if (k == "backup") {                                 // archiving is stuck behind the failed repository, so this can only be an offline question: archive-check off
            g->startActivity(); CmdRes r = run.cmd(run.repoHost(h), args({"backup", "--repo=" + S(h), "--type=" + op.s("type", "full"), "--no-archive-check"}), "/", i); g->stopActivity(); judge(r, k); run.vars["nochk"] = "1";   // such a backup may not be recoverable yet
        }
        return true;
    }
    if (op.name == "catchup") {                                     // the repository is back: everything waiting reaches every repository
        run.noFaults(); run.settle(900000000ll); W->stuckWhy.clear();
        if (!run.drainWal(1800000000ll)) { run.fail("no-catchup", fmt("archiving does not catch up after the repository is back (%d files waiting): ", g->readyCount()) + g->lastPushErr.substr(0, 600)); return true; }
        run.waitArchiver();
        return true;
    }

    //-- C23 -------------------------------------------------------------------------------------------------------------------------
    if (op.name == "flood") {                                       // WAL is produced while the archive may not be written
        g->archOp = i;
        for (int k = 0; k < op.n("n", 4) && !run.bad(); k++) {
            g->writePage(g->pickRel(), 0); g->switchWal();
            if (op.n("bk") == k + 1) { BkState b; std::string l, m; g->backupStart(b); g->backupStop(b, l, m); g->backups.pop_back(); }   // somebody runs pg_basebackup
            if (op.n("tli") && k == op.n("n") / 2) g->becomeTimeline(g->tli + 1);
            run.sleepFor(run.rng.range(10, op.n("gap", 300) * 1000));
        }
        g->archOp = -1;
        return true;
    }
    if (op.name == "queuebound") {                                  // archiver had time: no more than the limit is kept waiting
        uint64_t qmax = bytesOf(run.s("archive-push-queue-max"));
        if (!qmax || !g->archiverOn) return true;
        run.noFaultsKeepDown();
        auto over = [&] {
            if ((uint64_t)g->readyCount() * g->segSize <= qmax) return false;
            uint64_t real = 0; for (auto &f : fsList(run.hp, g->walDir() + "/archive_status")) if (f.size() > 6 && f.substr(f.size() - 6) == ".ready") { Inode *n = fsLookup(run.hp, g->walDir() + "/" + f.substr(0, f.size() - 6)); if (n) real += n->data->size(); }
            return real > qmax;
        };
        for (int k = 0; k < (run.faultsFired() ? 60 : 6) && over() && !run.bad(); k++) run.sleepFor((run.n("archive-timeout", 20) + 20) * 1000000ll);
        if (run.bad()) return true;
        if (over()) { run.fail("queue-unbounded", fmt("%d files wait to be archived although archive-push-queue-max is %llu and the archive has been unavailable for minutes: ", g->readyCount(), (unsigned long long)qmax) + g->lastPushErr.substr(0, 500)); return true; }
        run.probe("queue-bounded");
        return true;
    }
    return false;
}

//=================================================================================================================================
GEN(C15)
{
    swarm(p, r, {}); (void)th; if (r.chance(0.5)) p.cfg["rels"] = "4";
    p.cfg["archive-timeout"] = pick(r, {"5", "20", "60"});
    p.ops.push_back(O("stanza-create")); p.ops.push_back(O("activity", {{"ms", S(r.range(5, 100))}}));
    int repos = (int)p.n("repos"), n = (int)r.range(1, 3);
    for (int k = 0; k < n; k++) {
        bool bk = r.chance(0.75); std::string mode = repos > 1 ? pick(r, {"normal", "off", "late", "hole", "hole", "alt", "alt"}) : pick(r, {"normal", "off", "late", "hole", "hole"});
        Op o = O(bk ? "walbackup" : "walcheck", {{"mode", mode}, {"repo", S(r.range(1, repos))}, {"drop", S(r.range(1, repos))}, {"xseed", S((int64_t)r.below(1000000))}, {"nsw", S(r.chance(0.2) ? 0 : r.range(1, 8))}, {"span", pick(r, {"200", "1500", "1500", "6000"})}, {"skip", S(r.range(0, 6))}, {"late", S(r.range(100, 2 * p.n("archive-timeout") * 1000))}, {"onrepo", S(r.below(2))}, {"type", rtype(r)}});
        if (bk && r.chance(0.3)) { o.a["copy"] = "1"; o.a["args"] = std::string("--archive-copy") + (r.chance(0.5) ? " --compress-type=" + pick(r, {"none", "gz", "lz4", "zst"}) : ""); }
        if (k == n - 1) addTarget(p, o); else p.ops.push_back(o);
    }
    p.ops.push_back(O("heal"));
    if (r.chance(0.4)) p.ops.push_back(O("walbackup", {{"mode", "normal"}, {"repo", S(r.range(1, repos))}, {"nsw", S(r.range(0, 4))}, {"span", "1500"}, {"type", rtype(r)}}));
    p.variants = 8; p.faultMix = r.chance(0.5) ? "@resched,lag,@xseed" : "@resched,lag,kill,errno,errno,stall,@xseed";
}
GEN(C16)
{
    swarm(p, r, {.repos = r.chance(0.8) ? 2 : 3}); (void)th; if (r.chance(0.5)) p.cfg["rels"] = "4";
    p.cfg["archive-timeout"] = pick(r, {"5", "10", "20"}); p.cfg["archretry"] = pick(r, {"1000", "10000"}); if (p.s("compress") == "bz2") p.cfg["compress"] = "lz4";
    int repos = (int)p.n("repos"), d = (int)r.range(1, repos);
    p.ops.push_back(O("stanza-create")); p.ops.push_back(O("ackinv"));
    for (int q = 1; q <= repos; q++) { p.ops.push_back(O("activity", {{"ms", S(r.range(5, 80))}})); p.ops.push_back(O("backup", {{"type", "full"}, {"repo", S(q)}})); }
    p.ops.push_back(O("drain"));
    p.ops.push_back(O("down", {{"repo", S(d)}, {"sub", pick(r, {"", "", "/archive", "/archive/demo"})}}));
    std::string sub = p.ops.back().s("sub");
    int n = (int)r.range(1, 4); int tgt = (int)r.below((uint64_t)n);
    for (int k = 0; k < n; k++) {
        Op o = r.chance(0.45) ? O("isopush", {{"n", S(r.range(1, 4))}}) : O("iso", {{"what", pick(r, {"info", "expire", "verify", "get", "restore", "restore", "backup"})}, {"repo", S(r.range(1, repos))}, {"xseed", S((int64_t)r.below(1000000))}, {"type", rtype(r)}});
        if (k == tgt) addTarget(p, o); else p.ops.push_back(o);
    }
    p.ops.push_back(O("up")); p.ops.push_back(O("catchup")); p.ops.push_back(O("checkacked"));
    p.ops.push_back(O("backup", {{"type", "incr"}, {"repo", S(d)}, {"must", "1"}})); p.ops.push_back(O("checkall"));
    p.variants = 8; p.faultMix = r.chance(0.4) ? "@resched,lag" : "@resched,lag,kill,errno,term,stall";
}
GEN(C23)
{
    swarm(p, r, {}); (void)th; p.cfg["rels"] = "4"; p.cfg["maxpages"] = "4";
    p.cfg["archive-timeout"] = pick(r, {"5", "10"}); p.cfg["archretry"] = pick(r, {"1000", "10000"}); if (p.s("compress") == "gz" || p.s("compress") == "bz2") p.cfg["compress"] = "lz4";
    int64_t seg = p.n("segsize", 1); p.cfg["archive-push-queue-max"] = S(seg * r.range(1, 6)) + "MiB";
    p.ops.push_back(O("stanza-create")); p.ops.push_back(O("ackinv")); p.ops.push_back(O("drain"));
    int repos = (int)p.n("repos"), d = (int)r.range(1, repos);
    bool bk = r.chance(0.4);
    if (r.chance(0.8)) p.ops.push_back(O("down", {{"repo", S(d)}, {"sub", pick(r, {"", "/archive", "/archive/demo"})}}));
    addTarget(p, O("flood", {{"n", S(r.range(2, 14))}, {"gap", pick(r, {"50", "500", "5000"})}, {"tli", S(r.chance(0.25))}, {"bk", S(r.chance(0.4) ? r.range(1, 6) : 0)}}));
    if (r.chance(0.7)) p.ops.push_back(O("queuebound"));
    if (bk && repos > 1) { int h = d % repos + 1; p.ops.push_back(O("walbackup", {{"mode", "gap"}, {"repo", S(h)}, {"nsw", S(r.range(2, 10))}, {"span", "3000"}, {"type", "full"}})); }
    p.ops.push_back(O("up")); p.ops.push_back(O("catchup")); p.ops.push_back(O("checkacked"));
    if (r.chance(0.5)) { p.ops.push_back(O("walbackup", {{"mode", "gap"}, {"repo", S(r.range(1, repos))}, {"nsw", S(r.range(2, 12))}, {"span", pick(r, {"10", "300", "2000"})}, {"type", "full"}})); p.ops.push_back(O("catchup")); p.ops.push_back(O("checkacked")); }
    p.variants = 10; p.faultMix = r.chance(0.4) ? "@resched,lag" : "@resched,lag,kill,killtree,errno,term,stall,power";
}
}
